"""Drivers for C30: copies of objects."""
import random as stdlib_random
from core import *
from props_more import Sys, Gen, NONE, lit, walk, rec_programs, copied

HOWS = ['copy', 'copy', 'deepcopy', 'pickle', 'pickle2', 'pickle3', 'pickle4', 'pickle5']


class CopySys(Sys):
    """Writers and readers are copied now and then as well."""
    def __init__(self, rng):
        super().__init__()
        self.rng = rng

    def writer(self, cfg):
        w = super().writer(cfg)
        return copied(w, self.rng.choice(HOWS)) if self.rng.random() < .5 else w

    def reader(self, mc):
        r = super().reader(mc)
        return copied(r, self.rng.choice(HOWS)) if self.rng.random() < .5 else r


class CopyGen(Gen):
    def fresh(self):
        r, s, c = self.rng, self.s, self.s.c
        k = r.random()
        if k < .10:
            i = self.one(r.choice([c.Tone, c.Signature, c.Note]))
            if i: return {'op': 'copy', 'a': i, 'how': r.choice(HOWS)}
        if k < .25:
            i = self.one(c.Track)
            if i and len(self.ids(c.Track)) < 9: return {'op': 'copy', 'a': i, 'how': r.choice(HOWS)}
        return super().fresh()

    def script(self):
        """A track and its copy, one or both added to, both asked."""
        r, s, c = self.rng, self.s, self.s.c
        K, N = self.one(c.Track), self.one(c.Note)
        if not K or not N or r.random() < .2: return super().script()
        both = [K, None]
        def live(i): return i and i <= len(s.pool) and isinstance(s.pool[i - 1], c.Track)
        def make():
            if not live(K): return None
            both[1] = len(s.pool) + 1
            return {'op': 'copy', 'a': K, 'how': r.choice(HOWS)}
        def add(j):
            w = self.dur()
            return lambda: {'op': 'add', 'a': both[j], 'notes': [N], 'where': w} if live(both[j]) and len(s.pool[both[j] - 1]) < 25 and s.pool[N - 1] is not None else None
        cfg = r.choice(self.cfgs)
        def ask(j):
            q = r.choice([{'op': 'iter'}, {'op': 'iter'}, {'op': 'length'}, {'op': 'count'}, {'op': 'write', 'cfg': cfg}, {'op': 'peek'}, {'op': 'repr'}])
            return lambda: dict(q, a=both[j]) if live(both[j]) else None
        def equal(): return {'op': 'teq', 'a': both[0], 'b': both[1]} if live(both[0]) and live(both[1]) else None
        l = [ask(0)] if r.random() < .5 else []
        l.append(make)
        for _ in range(r.choice([1, 2, 3])):
            l.append(add(r.randrange(2)))
            l += r.sample([ask(0), ask(1), ask(0), ask(1), equal], r.choice([1, 2, 3]))
        return l + [equal]


def rec_copies(seed, sizes):
    rng = stdlib_random.Random(seed)
    stdlib_random.seed(seed)
    out = []
    for n in sizes:
        s = CopySys(rng)
        g = CopyGen(rng, s)
        for _ in range(n):
            op = g.op()
            if op is not None and not s.do(op): break
        out.append(s.out)
    return out


def run_c30(run):
    lines = ['INIT Init', 'NEXT Next', 'INVARIANT Inv', 'CHECK_DEADLOCK FALSE']
    for v in ('own', 'cow'): run.model('MC_Copy', lines, env={'VARIANT': v, 'STEPS': '7' if THOROUGH else '6'}, workers=8, timeout=2400)
    run.control('MC_Copy', lines, {'VARIANT': 'shared', 'STEPS': '6'}, 'a copy that shares the notes')
    run.control('MC_Copy', lines, {'VARIANT': 'half', 'STEPS': '6'}, 'a copy that shares the notes, of which the original does not know')
    with ThreadPoolExecutor(4) as ex:
        progs = sum(ex.map(lambda i: walk(run, SEED * 100 + 50 + i, 100 if THOROUGH else 20, 20 + 7 * i, 1), range(4)), [])
    recorded = in_child(rec_programs, SEED, progs, [])
    recorded += in_child(rec_copies, SEED, [run.rng.choice([30, 50, 80]) for _ in range(2500 if THOROUGH else 300)])
    run.judge('T_System', recorded, sample=1)
    return run.finish('model_checking', 'programs walked by TLC and seeded programs in which objects, writers and readers are copied, deep-copied and pickled, and tracks and their copies are added to and asked; '
                      'nontrivial: at least four objects existed')
