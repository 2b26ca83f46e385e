"""Drivers for C28: the same operations from several threads, with the switches between them chosen."""
import dis, gc, random as stdlib_random, sys, threading, types
import core
from core import *
from props_core import lib, durpair, sig_pool
from props_misc import ALIASES, SHARPS
from props_more import Sys, song, lit, num, NONE, unint, unnum
import props_midi

SRC = os.path.join(REPO, 'src') + os.sep
MARKS = {'STORE_ATTR', 'STORE_GLOBAL', 'STORE_SUBSCR', 'STORE_DEREF', 'DELETE_ATTR', 'DELETE_SUBSCR', 'STORE_SLICE', 'DELETE_GLOBAL', 'BEFORE_WITH'}
patience = [0.3, 0]
stuck = []


seen = threading.local()
seen.state = None


def step(code, at):
    """Called before every instruction of the library's code, in the thread that executes it."""
    st = getattr(seen, 'state', None)
    if st is None: return
    st[0] += 1
    if st[2] is not None: st[2].append((dis.opname[plain(code)[at]], id(code), at))
    if st[0] == st[1]:
        if st[2] is None: st[3]()


codes = {}
def plain(code):
    if id(code) not in codes: codes[id(code)] = code.co_code
    return codes[id(code)]


def listen(on):
    """Without a callback the instrumented code runs at nearly its usual speed."""
    sys.monitoring.register_callback(sys.monitoring.DEBUGGER_ID, sys.monitoring.events.INSTRUCTION, step if on else None)


def watch():
    """Instrument the library once, for the life of this process (switching tracing on and off while other threads stand in
    the middle of instrumented code can crash CPython 3.12)."""
    mon, todo, done = sys.monitoring, [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType)], set()
    mon.use_tool_id(mon.DEBUGGER_ID, 'schedule')
    while todo:
        c = todo.pop()
        if id(c) in done or not c.co_filename.startswith(SRC): continue
        done.add(id(c))
        mon.set_local_events(mon.DEBUGGER_ID, c, mon.events.INSTRUCTION)
        todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return len(done)


class Enough(Exception):
    pass


class Schedule:
    """Runs bodies in threads of their own.  Thread m is stopped at its cut (a count of interpreter steps inside the
    library) and the next thread runs; when that one is through - or, at its own cut, if it is the last one - the earlier
    thread goes on.  A thread that waits for a lock held by a stopped thread makes the stopped one go on after a while."""
    def __init__(self, bodies, cuts):
        self.bodies, self.cuts = bodies, list(cuts) + [None] * (len(bodies) - len(cuts))
        n = len(bodies)
        self.done = [threading.Event() for _ in range(n)]
        self.resume = [threading.Event() for _ in range(n)]
        self.th = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(n)]
        self.marks = [None] * n      # step names, when wanted
        self.pending = sum(c is not None for c in self.cuts)

    def wait(self, ev):
        if not ev.wait(patience[0]):
            patience[1] += 1
            if patience[1] > 5: patience[0] = 0.02

    def hit(self, i):
        seen.state = None
        self.pending -= 1
        if not self.pending: listen(False)
        if i + 1 < len(self.th):
            self.th[i + 1].start()
            self.wait(self.resume[i])
        elif i:
            self.resume[i - 1].set()
            self.wait(self.done[i - 1])

    def body(self, i):
        if self.cuts[i] is not None or self.marks[i] is not None: seen.state = [0, self.cuts[i], self.marks[i], lambda: self.hit(i)]
        try: self.bodies[i]()
        finally:
            seen.state = None
            self.done[i].set()
            if i: self.resume[i - 1].set()

    def run(self):
        """True if every thread came to an end."""
        if self.pending or any(m is not None for m in self.marks): listen(True)
        try: return self.go()
        finally: listen(False)

    def go(self):
        self.th[0].start()
        for i, t in enumerate(self.th):
            if i:
                # not started if the cut of the thread before was never reached
                self.done[i - 1].wait(20)
                if t.ident is None: t.start()
            if not self.done[i].wait(20 if not stuck else 5): return False
        return True


class Shared(Sys):
    """Executor of one thread: the objects prepared beforehand are shared, as are writers and readers."""
    def __init__(self, pool, writers, readers):
        super().__init__()
        self.pool, self.base, self.out = list(pool), len(pool), []
        self.writers, self.readers = writers, readers

    def writer(self, cfg): return self.writers[json.dumps(cfg)]
    def reader(self, mc): return self.readers[mc]


def shift(op, base, by):
    """The recorded step with the objects the thread made itself renumbered."""
    def f(i): return i + by if i > base else i
    o = dict(op)
    for k in ('a', 'b'):
        if isinstance(o.get(k), int): o[k] = f(o[k])
    if 'notes' in o: o['notes'] = [f(i) for i in o['notes']]
    for k, x in o.items():
        if isinstance(x, dict) and x.get('t') == 'ref': o[k] = dict(x, id=f(x['id']))
    return o


class Scene:
    """Objects to share (as a program that makes them) and things for a thread to do."""
    def __init__(self, rng):
        self.rng = rng
        base = rng.randrange(30, 60)
        den = rng.choice([4, 8, 16])
        self.cfgs = [props_midi.cv({'ppq': rng.choice([24, 96, 480]), 'ch': rng.randrange(16), 'mc': mc, 'bpm': rng.choice([120.0, 90.0])}) for mc in (36, rng.choice([36, 24, 41]))]
        S = self.setup = []
        vels = [0.5, 0.25, 1.0, 64 / 127]
        self.notes = []
        for i in range(4):
            S.append({'op': 'note', 'tone': {'t': 'int', 'i': sint(base + rng.choice([0, 1, 4, 7, 12]))}, 'dur': lit((rng.choice([1, 1, 2, 3]), rng.choice([4, 8]))), 'vel': num(rng.choice(vels))})
        self.notes = [1, 2, 3, 4]
        S += [{'op': 'toneof', 'a': 1}, {'op': 'durof', 'a': 2}, {'op': 'sig', 'n': sint(rng.randrange(1, 9)), 'd': sint(den)}]
        self.tones, self.sigs = [5], [6, 7]
        S.append({'op': 'track', 'sig': lit(rng.choice([(4, 4), (3, 4), (7, 8)]))})
        S.append({'op': 'track', 'sig': rng.choice([NONE, S[-1]['sig']])})
        self.K = [8, 9]
        alike = rng.random() < .5
        if alike: S[-1]['sig'] = S[-2]['sig']
        for k in self.K:
            # positions that leave the notes out of order until they are first looked at
            ats = [rng.randrange(40) for _ in range(24)] if rng.random() < .08 else rng.choice([[0, 5, 3, 6, 1], [2, 7, 4, 9, 3, 5], [0, 9, 1, 8, 2, 7], [0, 2, 1]])
            if k == self.K[1] and alike:
                S += [dict(op, a=k) for op in S if op['op'] == 'add' and op['a'] == self.K[0]]
                continue
            for a in ats: S.append({'op': 'add', 'a': k, 'notes': [rng.choice(self.notes)], 'where': lit((a, den))})
            if rng.random() < .3:
                S.append({'op': 'iter', 'a': k})
                S += [{'op': 'add', 'a': k, 'notes': [rng.choice(self.notes)], 'where': lit((a, den * rng.choice([1, 4])))} for a in (4, 0)]
        self.F = [10, 11]
        for _ in self.F: S.append({'op': 'file', 'data': list(self.file(rng))})

    def file(self, rng):
        """A short valid file, mostly with notes on several channels."""
        for _ in range(50):
            f = song(rng) if rng.random() < .8 else props_midi.valid_file(rng, rng.choice([2, 4, 6]))
            if len(f) < 160: break
        return f

    JOBS = ['iter', 'peek', 'teq', 'write', 'rand', 'text', 'repr', 'measure', 'copy', 'tone', 'spell', 'note', 'chord', 'sig', 'compare', 'build', 'read', 'readchan', 'rewrite']

    def job(self, kind, base):
        r = self.rng
        cfg = self.cfgs[0] if r.random() < .7 else self.cfgs[1]
        K = self.K[0] if r.random() < .75 else self.K[1]       # mostly the same track for all
        p = r.randrange(20, 80)
        if kind in ('iter', 'peek'): return [{'op': kind, 'a': K}]
        if kind == 'teq': return [{'op': 'teq', 'a': a, 'b': b} for a, b in [r.choice([(self.K[0], self.K[1]), (self.K[1], self.K[0]), (self.K[0], self.K[0])])]]
        if kind == 'write': return [{'op': 'write', 'a': K, 'cfg': cfg}]
        if kind == 'rand':
            v = p_num(r.choice([0.0, 0.25, 0.5, 0.75, 1.0]))
            lo, hi = sorted(r.choice([0.0, 0.25, 0.375, 0.5, 0.625, 1.0]) for _ in range(2))
            return [{'op': 'rand', 'a': K, 'lo': p_num(lo), 'hi': p_num(hi), 'mean': v, 'var': p_num(0.0)}, {'op': 'iter', 'a': base + 1}]
        if kind == 'text': return [{'op': 'text', 'a': x} for x in (K, r.choice(self.notes), self.tones[0], r.choice(self.sigs))]
        if kind == 'repr': return [{'op': 'repr', 'a': x} for x in (K, r.choice(self.notes))]
        if kind == 'measure': return [{'op': 'count', 'a': K}, {'op': 'length', 'a': K}, {'op': 'tsig', 'a': K}]
        if kind == 'copy': return [{'op': 'track', 'sig': NONE}, {'op': 'copyin', 'a': base + 1, 'b': K, 'where': lit((r.randrange(5), 4))}, {'op': 'iter', 'a': base + 1}]
        if kind == 'tone': return [{'op': 'parse', 'c': [ord(x) for x in SHARPS[p % 12] + str(p // 12)]}, {'op': 'transpose', 'a': base + 1, 'k': sint(r.randrange(-9, 9))}, {'op': 'tonecmp', 'a': base + 1, 'b': self.tones[0]}]
        if kind == 'spell': return [{'op': 'tone', 'p': sint(p)}, {'op': 'spell', 'a': base + 1, 'down': r.randrange(2)}, {'op': 'octave', 'a': base + 1}, {'op': 'freq', 'a': base + 1, 'base': p_num(440.0)}]
        if kind == 'note': return [{'op': 'note', 'tone': {'t': 'int', 'i': sint(p)}, 'dur': lit((r.randrange(1, 7), 8)), 'vel': num(r.choice([0.125, 0.5, 0.875]))}, {'op': 'ntrans', 'a': base + 1, 'k': sint(3)}, {'op': 'nvel', 'a': base + 1, 'vel': num(0.375)}, {'op': 'ndur', 'a': r.choice(self.notes), 'dur': lit((1, 16))}]
        if kind == 'chord': return [{'op': 'chord', 'name': r.choice(ALIASES), 'base': r.choice([{'t': 'int', 'i': sint(p)}, {'t': 'ref', 'id': r.choice(self.notes)}]), 'dur': r.choice([NONE, lit((r.randrange(1, 5), 2))]), 'vel': r.choice([NONE, num(r.choice([0.25, 0.625]))])}]
        if kind == 'sig': return [{'op': 'sig', 'n': sint(r.randrange(1, 30)), 'd': sint(1 << r.randrange(5))}, {'op': 'sum', 'a': base + 1, 'b': self.sigs[1]}, {'op': 'prod', 'a': base + 1, 'b': self.sigs[0]}, {'op': 'norm', 'a': base + 1}, {'op': 'to', 'a': base + 1, 'd': sint(64)}]
        if kind == 'compare': return [{'op': 'notecmp', 'a': r.choice(self.notes), 'b': r.choice(self.notes)}, {'op': 'sigcmp', 'a': self.sigs[0], 'b': self.sigs[1]}]
        if kind == 'build': return [{'op': 'track', 'sig': {'t': 'ref', 'id': self.sigs[1]}}] + [{'op': 'add', 'a': base + 1, 'notes': [r.choice(self.notes) for _ in range(r.choice([1, 2]))], 'where': w} for w in (lit((r.randrange(9), 8)), NONE, lit((r.randrange(9), 32)))] + [{'op': 'iter', 'a': base + 1}, {'op': 'length', 'a': base + 1}]
        if kind == 'read': return [{'op': 'read', 'a': r.choice(self.F), 'mc': cfg['mc'], 'chan': -1}]
        if kind == 'readchan': return [{'op': 'read', 'a': r.choice(self.F), 'mc': cfg['mc'], 'chan': r.choice([0, 1, 2, 9])}]
        # a track of its own, written with the shared writer
        return [{'op': 'track', 'sig': lit((3, 8))}, {'op': 'add', 'a': base + 1, 'notes': [r.choice(self.notes), r.choice(self.notes)], 'where': lit((r.randrange(7), 4))}, {'op': 'write', 'a': base + 1, 'cfg': cfg}]

    def post(self):
        out = []
        for k in self.K: out += [{'op': 'count', 'a': k}, {'op': 'length', 'a': k}, {'op': 'iter', 'a': k}]
        return out + [{'op': 'teq', 'a': self.K[0], 'b': self.K[1]}, {'op': 'write', 'a': self.K[0], 'cfg': self.cfgs[0]}, {'op': 'read', 'a': self.F[0], 'mc': self.cfgs[0]['mc'], 'chan': -1}]

    def play(self, jobs, cuts, marks=None, free=False):
        """The jobs in threads, stopped at the cuts; the recorded program."""
        s = Sys()
        for op in self.setup:
            if not s.do(op): return s.out, None
        import melodia.io.midi as midi
        W = {json.dumps(c): midi.MIDIWriter(pulses_per_quarter=c['ppq'], middle_c=unint(c['mc']), bpm=unnum(c['bpm']), channel=c['ch']) for c in self.cfgs}
        R = {m: midi.MIDIReader(middle_c=m) for m in {unint(c['mc']) for c in self.cfgs}}
        ex = [Shared(s.pool, W, R) for _ in jobs]
        def body(i):
            def f():
                for op in jobs[i]:
                    if not ex[i].do(op): break
            return f
        sc = Schedule([body(i) for i in range(len(jobs))], [] if free else cuts)
        if marks is not None: sc.marks[0] = marks
        if free:
            for t in sc.th: t.start()
            ok = all(d.wait(20) for d in sc.done)
        else: ok = sc.run()
        made = 0
        out = s.out
        for e in ex:
            out += [shift(o, len(s.pool), made) for o in e.out]
            made += len(e.pool) - e.base
        if not ok:
            out.append({'op': 'threads', 'obs': {'t': 'hang'}})
            stuck.append(1)
            if len(stuck) > 1: raise Enough(out)       # the rest would be as slow
            return out, None
        for op in self.post():
            if not s.do(op): break
        return out, ex


def points(rng, marks, n, every=False):
    """Places to stop: on both sides of every instruction that stores something in an object or takes a lock (at its first
    occurrence and another) and n spread over the rest; or before every instruction of the code."""
    N = len(marks)
    if N <= n: return list(range(1, N + 1))
    where = {}
    for i, (op, code, at) in enumerate(marks):
        if every or op in MARKS: where.setdefault((code, at), []).append(i)
    near = {j for l in where.values() for i in ([rng.choice(l)] if every else [l[0], rng.choice(l)]) for j in ((i + 1,) if every else (i + 1, i + 2)) if j <= N}
    off = rng.random()
    return sorted(near | {1 + int((i + off) * N / n) for i in range(n) if 1 + int((i + off) * N / n) <= N})


def rec_c28(seed, pairs, per, triples, frees):
    rng = stdlib_random.Random(seed)
    lib()
    watch()
    out, count, steps = [], [0, 0], 0
    old = sys.getswitchinterval()
    def jobs(scene, kinds):
        base = 11
        return [scene.job(k, base) for k in kinds]
    try:
        for a, b, every in pairs:
            scene = Scene(rng)
            js = jobs(scene, (a, b))
            marks = []
            h, ok = scene.play(js[:1], [], marks)
            out.append(h)
            steps += len(marks)
            for c in points(rng, marks, per, every):
                h, ok = scene.play(js, [c])
                out.append(h); count[0] += 1
            for _ in range(max(1, per // 4)):
                if marks:
                    h, ok = scene.play(js, [rng.choice(points(rng, marks, 8)), 1 + int(rng.random() ** 2 * 400)])
                    out.append(h); count[0] += 1
        for kinds in triples:
            scene = Scene(rng)
            js = jobs(scene, kinds)
            marks = []
            scene.play(js[:1], [], marks)
            for _ in range(per):
                h, ok = scene.play(js, [rng.randrange(1, len(marks) + 2), 1 + int(rng.random() ** 2 * 500)] + ([rng.randrange(1, 300)] if rng.random() < .5 else []))
                out.append(h); count[0] += 1
        sys.setswitchinterval(1e-6)
        for kinds in frees:
            scene = Scene(rng)
            js = jobs(scene, kinds)
            for _ in range(3):
                h, ok = scene.play(js, [], free=True)
                out.append(h); count[1] += 1
    except Enough as e: out.append(e.args[0])
    sys.setswitchinterval(old)
    if not steps and len(out) > len(pairs): raise RuntimeError('no interpreter steps were seen in the library')
    uniq = {json.dumps(h): h for h in out}
    return {'h': list(uniq.values()), 'n': count, 'p': patience[1]}


def run_c28(run):
    lines = ['INIT Init', 'NEXT Next', 'INVARIANT Inv', 'INVARIANT Kept', 'CHECK_DEADLOCK FALSE']
    run.model('MC_Threads', ['SPECIFICATION Fair', 'INVARIANT Inv', 'INVARIANT Kept', 'PROPERTY Ends', 'CHECK_DEADLOCK FALSE'], env={'VARIANT': 'copy', 'THREADS': '2'}, workers=4)
    run.model('MC_Threads', lines, env={'VARIANT': 'copy', 'THREADS': '4' if THOROUGH else '3'}, workers=8)
    for v in ('inplace', 'flagfirst', 'buffer'): run.control('MC_Threads', lines, {'VARIANT': v, 'THREADS': '2'}, 'the variant ' + v)
    rng = run.rng
    J = Scene.JOBS
    L = ['iter', 'teq', 'write', 'rand', 'repr', 'copy', 'read', 'measure']        # what goes through a whole track
    pairs = [(a, b, THOROUGH) for a in J for b in J] + [(a, b, True) for a in L for b in L] * (4 if THOROUGH else 1) + [('teq', 'teq', True)] * 16
    rng.shuffle(pairs)
    tr = [[rng.choice(J) for _ in range(3)] for _ in range(400 if THOROUGH else 40)]
    fr_ = [[rng.choice(J) for _ in range(4)] for _ in range(400 if THOROUGH else 60)]
    per = 60 if THOROUGH else 8
    core.check_import()
    lib(); import melodia.io.midi, melodia.music.chord, melodia.processing.track
    k = WORKERS
    with ThreadPoolExecutor(k) as ex:
        def share(i, again=False):
            try: return in_child(rec_c28, SEED * 1000 + i + 500 * again, pairs[i::k], per, tr[i::k], fr_[i::k], seconds=2000 if THOROUGH else 350)
            except CodeFailure as e:
                # a crash of the interpreter says nothing about the library
                if 'ended by signal' not in str(e): raise
                run.notes.append('the interpreter crashed while recording share %d%s' % (i, ' again: left out' if again else ''))
                return {'h': [], 'n': [0, 0], 'p': 0} if again else share(i, True)
        rs = list(ex.map(share, range(k)))
    n, f = sum(r['n'][0] for r in rs), sum(r['n'][1] for r in rs)
    run.notes.append('%d schedules with chosen switches and %d left to the interpreter; %d times a thread was waited for in vain' % (n, f, sum(r['p'] for r in rs)))
    run.judge('T_System', sum((r['h'] for r in rs), []), sample=1)
    return run.finish('model_checking', 'every ordered pair of %d kinds of jobs on shared tracks, notes, writers and readers: the first stopped at %d interpreter steps spread over its run and on both sides of every instruction that stores into an object or takes a lock (where a whole track is gone through: before every instruction of the code at one of its executions), the second run meanwhile, '
                      'or both taking turns; triples nested; four threads left to the interpreter; in all %d schedules, with equal recordings judged once; nontrivial: at least four objects existed' % (len(J), per, n + f))
