"""Drivers for C32: calls that change nothing, given up in the middle."""
import dis, sys
import random as stdlib_random
from core import *
from props_more import Sys, Gen, NONE, lit
import props_threads

# where CPython looks whether an interrupt has arrived: after a call, at the start of a function, at the end of a loop's body
CHECKS = {'CALL', 'CALL_FUNCTION_EX', 'JUMP_BACKWARD'}
CHANGING = {'add', 'copyin', 'badadd', 'drop', 'peek'}

NEVER = 10 ** 9
MAKING = Sys.MAKERS | {'chord', 'pick'}


class Stopped(BaseException):
    pass


class Watch:
    """Counts such points inside the library and raises Stopped at the one asked for."""
    at, n, last, code, done = None, 0, None, None, False


W = Watch()


starts = {}
def start(code):
    """Where the functions of the library begin or go on: RESUME itself is not reported."""
    if id(code) not in starts:
        c = props_threads.plain(code)
        starts[id(code)] = {i + 2 for i in range(0, len(c), 2) if dis.opname[c[i]] == 'RESUME'}
    return starts[id(code)]


def step(code, at):
    if W.at is None: return
    op = dis.opname[props_threads.plain(code)[at]]
    if W.last in CHECKS and W.code is code or at in start(code):
        W.n += 1
        if W.n == W.at:
            W.at, W.done = None, True
            raise Stopped()
    W.last, W.code = op, code


def watch():
    n = props_threads.watch()
    if not n: raise MachineryError('no code of the library to watch')
    return n


def listen(on):
    sys.monitoring.register_callback(sys.monitoring.DEBUGGER_ID, sys.monitoring.events.INSTRUCTION, step if on else None)


class StopSys(Sys):
    cut = None

    # what was given up in the middle is used again
    def writer(self, cfg):
        key = json.dumps(cfg)
        return self.writers[key] if key in self.writers and self.n % 5 else super().writer(cfg)

    def reader(self, mc):
        return self.readers[mc] if mc in self.readers and self.n % 5 else super().reader(mc)

    def observe(self, f, proj=o_none):
        if self.cut is None: return super().observe(f, proj)
        def g():
            W.at, W.n, W.last, W.code, W.done = self.cut, 0, None, None, False
            listen(True)
            try: return f()
            finally:
                self.points = W.n
                W.at = None
                listen(False)
        return super().observe(g, proj)

    def stop(self, op, cut):
        """Perform op, giving it up at that point; as usual if there are fewer.  False if the program cannot go on."""
        self.cut = cut
        W.done = False
        size = len(self.pool)
        try: ok = self.do(op)
        finally: self.cut = None
        if not W.done: return ok
        ob = self.out[-1]['obs']
        if 't' not in ob: ob = ob['eq']
        self.out[-1] = {'op': 'stopped', 'call': op, 'at': cut, 'obs': ob}
        return len(self.pool) == size


class StopGen(Gen):
    def __init__(self, rng, s):
        super().__init__(rng, s)
        self.most, self.mine = {}, {}
        self.after = []

    def where(self, op):
        """A point of the call: about as many as it, or calls of its kind, lately had."""
        l = self.mine.get((op['op'], op.get('a'))) or self.most.get(op['op']) or [12]
        r = self.rng
        return r.randrange(1, max(2, r.choice([max(l), r.choice(l)])) + 1) if r.random() < .9 else 1 + int(r.expovariate(.2))

    def had(self, op, n):
        for d, k in ((self.mine, (op['op'], op.get('a'))), (self.most, op['op'])): d[k] = (d.get(k, []) + [n])[-6:]

    def burst(self):
        """A track with many notes at positions in no order, asked for the first time and given up."""
        r, s, c = self.rng, self.s, self.s.c
        N = [i for i in (self.one(c.Note) for _ in range(3)) if i]
        at = len(s.pool) + 1
        if not N or at > 55: return
        den = 1 << r.randrange(5)
        if r.random() < .3:
            # the same with a file and a reader: asked, given up, asked
            q = {'op': 'read', 'a': at, 'mc': r.choice(self.cfgs)['mc'], 'chan': -1}
            self.after = [{'op': 'file', 'cut': 0, 'data': list(r.choice(self.files))}, dict(q, cut=2), dict(q, cut=1), dict(q, cut=2), dict(q, cut=1), dict(q, cut=1), dict(q, cut=2)]
            return
        # by additions, which do not look at the track
        self.after = [{'op': 'track', 'cut': 0, 'sig': NONE}] + [{'op': 'add', 'cut': 0, 'a': at, 'notes': [r.choice(N)], 'where': lit((r.randrange(30), den))} for _ in range(r.choice([3, 6, 10]))]
        cfg = r.choice(self.cfgs)
        for _ in range(r.choice([1, 2])):
            q = [{'op': x, 'a': at} for x in ('iter', 'iter', 'repr', 'length')] + [{'op': 'teq', 'a': at, 'b': at}, {'op': 'write', 'a': at, 'cfg': cfg}, {'op': 'write', 'a': at, 'cfg': cfg}]
            k = r.choice(q)
            self.after += [dict(k, cut=1, again=r.choice([12, 40, 150, 400]) if k['op'] == 'write' else r.choice([3, 12, 40]))] * r.choice([1, 1, 2]) + [r.choice([k, k, {'op': 'iter', 'a': at}, {'op': 'write', 'a': at, 'cfg': cfg}])]

    def round(self):
        """One operation, given up or not; False at the end of the program."""
        r, s, c = self.rng, self.s, self.s.c
        script = bool(self.queue)
        if self.after: o = self.after.pop(0)
        else:
            o = None if not self.queue and r.random() < .04 else self.op()
            if o is None and not self.queue and r.random() < .7: self.burst()
        script = script or bool(self.queue)
        if o is None: return True
        o = dict(o)
        if o['op'] == 'add' and 'cut' not in o and r.random() < .5 and len(s.pool[o['a'] - 1]) < 25:
            # asked at once
            q = r.choice([{'op': x} for x in ('iter', 'iter', 'repr', 'length', 'teq')] + [{'op': 'write', 'cfg': r.choice(self.cfgs)}] * 2)
            if q['op'] == 'teq': q['b'] = o['a']
            q['a'] = o['a']
            self.after += [dict(q, cut=1)] * r.choice([1, 1, 2]) + [q, {'op': 'iter', 'a': o['a']}]
        again = o.pop('again', 0)
        measured = bool(self.after) and 'cut' not in o and o['op'] in ('iter', 'write', 'read', 'repr', 'length', 'teq') or o.get('cut') == 2
        cut = o.pop('cut', 0) == 1 if 'cut' in o else (o['op'] not in CHANGING and r.random() < .3)
        if measured:
            # not given up, to see how many points there are
            s.points = 0
            ok = s.stop(o, NEVER)
            self.had(o, s.points)
            return ok
        # scripts count on the objects they make
        if not cut or script and o['op'] in MAKING: return s.do(o)
        at = 1 + r.randrange(again) if again and r.random() < .7 else self.where(o)
        s.points = 0
        ok = s.stop(dict(o), at)
        # how many there are shows when it comes to its end
        if s.out[-1]['op'] != 'stopped': self.had(o, s.points)
        elif 2 * at > max(self.mine.get((o['op'], o.get('a')), [0])): self.had(o, 2 * at)
        if s.out[-1]['op'] == 'stopped' and r.random() < .6 and len(self.after) < 30: self.after.insert(0, dict(o, cut=1) if r.random() < .3 else dict(o))
        return ok


def rec_stops(seed, sizes):
    rng = stdlib_random.Random(seed)
    stdlib_random.seed(seed)
    Sys()       # imports the library
    watch()
    out, most = [], {}
    for n in sizes:
        s = StopSys()
        g = StopGen(rng, s)
        g.most = most
        for _ in range(n):
            if len(s.pool) > 60: break
            if not g.round(): break
        out.append(s.out)
    return out


def run_c32(run):
    lines = ['INIT Init', 'NEXT Next', 'INVARIANT Inv', 'CHECK_DEADLOCK FALSE']
    run.model('MC_Interrupt', lines, env={'VARIANT': 'ok', 'STEPS': '9' if THOROUGH else '8'}, workers=8, timeout=2400)
    for v, what in (('flagfirst', 'a track that is taken for sorted before it is'), ('drain', 'notes taken out of the track while they are sorted'), ('busy', 'a writer that stays busy'),
                    ('buffer', 'a buffer emptied at the end only'), ('half', 'half of an answer kept for the next time')):
        run.control('MC_Interrupt', lines, {'VARIANT': v, 'STEPS': '6'}, what)
    sizes = [run.rng.choice([40, 70, 110]) for _ in range(4000 if THOROUGH else 480)]
    lots = [sizes[i::8] for i in range(8)]
    with ThreadPoolExecutor(8) as ex:
        progs = sum(ex.map(lambda x: in_child(rec_stops, SEED * 10 + x[0], x[1], seconds=2000 if THOROUGH else 500), enumerate(lots)), [])
    n = sum(c['op'] == 'stopped' for p in progs for c in p)
    run.notes.append('%d calls given up in the middle' % n)
    if n < 200: raise MachineryError('only %d calls were given up' % n)
    run.judge('T_System', progs, sample=1)
    return run.finish('fault_enumeration', 'seeded programs of up to 110 calls in which calls that change nothing are given up at a point where the interpreter looks for interrupts, and asked again; '
                      'every outcome is predicted from the values in the store, which a call given up leaves as it is; nontrivial: at least four objects existed')
