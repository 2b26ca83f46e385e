"""Drivers for C33: what calls leave of the world around them."""
import decimal, gc, io, locale, logging, os, random, shutil, signal, subprocess, sys, tempfile, threading, warnings
from core import *
from props_more import Sys, Gen, NONE, o_track, num
import props_midi

stdlib_random = random
EVENTS = ('subprocess.', 'socket.', 'os.system', 'os.exec', 'os.fork', 'os.posix_spawn', 'os.spawn', 'os.kill', 'ctypes.', 'ftplib.', 'smtplib.', 'urllib.', 'webbrowser.', 'builtins.input')
WATCHED = ('math', 'random', 'heapq', 're', 'io', 'os', 'typing', 'collections', 'dataclasses', 'operator', 'struct', 'functools', 'itertools', 'fractions', 'builtins', 'json', 'copy', 'pickle', 'time')


class World:
    """The parts of the world that calls could touch, as found at one moment."""
    def __init__(self, scratch):
        self.scratch = scratch
        self.events, self.warned, self.given = [], 0, []
        for d in ('here', 'home', 'tmp'): os.makedirs(os.path.join(scratch, d))
        self.here = os.path.join(scratch, 'here')
        with open(os.path.join(self.here, 'song.mid'), 'wb') as f: f.write(b'not to be touched')
        os.environ.update(HOME=os.path.join(scratch, 'home'), TMPDIR=os.path.join(scratch, 'tmp'))
        tempfile.tempdir = None
        tempfile.gettempdir()
        os.chdir(self.here)
        said = os.open(os.path.join(scratch, 'said'), os.O_RDWR | os.O_CREAT | os.O_APPEND)
        for fd in (1, 2): os.dup2(said, fd)
        os.close(said)
        os.dup2(os.open(os.devnull, os.O_RDONLY), 0)
        sys.stdout, sys.stderr = (io.TextIOWrapper(io.FileIO(os.dup(1), 'w'), write_through=True) for _ in range(2))
        warnings.resetwarnings()
        warnings.simplefilter('ignore', ResourceWarning)
        for w in (DeprecationWarning, PendingDeprecationWarning): warnings.simplefilter('ignore', w)
        warnings.simplefilter('always', UserWarning)
        warnings.simplefilter('always', RuntimeWarning)
        def show(*args, **kw): self.warned += 1
        warnings.showwarning = show
        def audit(name, args):
            if name.startswith(EVENTS): self.events.append(name)
        sys.addaudithook(audit)
        import importlib
        self.modules = [importlib.import_module(m) for m in WATCHED]
        self.names = [[a for a in vars(m) if not a.startswith('_')] for m in self.modules]

    def disk(self):
        out = []
        for d, _, files in os.walk(self.scratch):
            for f in sorted(files):
                p = os.path.join(d, f)
                if f == 'said': continue
                st = os.stat(p)
                out.append((p, st.st_size, st.st_mtime_ns, st.st_mode))
            out.append(d)
        return sorted(map(repr, out))

    def fds(self):
        out = []
        for f in os.listdir('/proc/self/fd'):
            try: out.append((int(f),) + os.fstat(int(f))[:3])
            except OSError: pass      # the folder itself
        return sorted(out)

    def look(self):
        um = os.umask(0o22)
        os.umask(um)
        gone = object()
        return {
            'random': hash(random.getstate()),
            'folder': os.getcwd(),
            'environment': hash(tuple(sorted(os.environ.items()))),
            'umask': um,
            'limits': (sys.getrecursionlimit(), sys.getswitchinterval(), sys.get_int_max_str_digits()),
            'decimal': repr(decimal.getcontext().prec) + repr(decimal.getcontext().rounding) + repr(sorted(map(repr, decimal.getcontext().traps.items()))),
            'warnings': (repr(warnings.filters), self.warned, id(warnings.showwarning)),
            'locale': locale.setlocale(locale.LC_ALL),
            'logging': (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
            'output': (os.fstat(1).st_size, id(sys.stdout), id(sys.stderr), id(sys.stdin)),
            'signals': [signal.getsignal(s) for s in range(1, 32)],
            'timers': (signal.getitimer(signal.ITIMER_REAL)[1], signal.getitimer(signal.ITIMER_VIRTUAL), signal.getitimer(signal.ITIMER_PROF)),
            'gc': (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
            'threads': (threading.active_count(), len(os.listdir('/proc/self/task'))),
            'files open': self.fds(),
            'import': (list(sys.path), list(map(id, sys.meta_path)), list(map(id, sys.path_hooks)), sys.dont_write_bytecode),
            'hooks': (id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook), id(sys.gettrace()), id(sys.getprofile())),
            'libraries': [[id(m.__dict__.get(a, gone)) if a in m.__dict__ else 0 for a in l] for m, l in zip(self.modules, self.names)],
            'disk': self.disk(),
            'processes and network': len(self.events),
            'what was given': [list(map(id, x)) if isinstance(x, list) else bytes(x) for x in self.given],
        }


class Failing(io.RawIOBase):
    """Takes, or gives, so many bytes, and fails."""
    def __init__(self, n, data=b''): self.left, self.data = n, io.BytesIO(data)
    def writable(self): return True
    def readable(self): return True
    def write(self, b):
        if len(b) > self.left: raise OSError('full')
        self.left -= len(b)
        return len(b)
    def read(self, n=-1):
        self.left -= max(n, 1)
        if self.left < 0: raise OSError('broken')
        return self.data.read(n)


class WorldSys(Sys):
    world, now = None, None
    FAILING = {'wfail', 'rfail', 'afail', 'cfail'}

    def plan(self, op):
        P, c = self.pool, self.c
        k, w = op['op'], self.world
        A = P[op['a'] - 1] if 'a' in op else None
        if k == 'wfail': return lambda: self.writer(op['cfg']).dump(A, Failing(op['n'])), o_none
        if k == 'rfail': return lambda: self.reader(unint(op['mc'])).load(Failing(op['n'], A)), o_track
        if k in ('afail', 'cfail'):
            def it():
                for i in op['notes']: yield P[i - 1] if k == 'afail' else (P[i - 1], None)
                raise OSError('broken')
            return (lambda: A.add(it())) if k == 'afail' else (lambda: c.Track(content=it())), o_none
        if k == 'trackof':
            l = [(P[x['note'] - 1], None if x['where']['t'] == 'none' else self.dur(x['where'])) for x in op['content']]
            w.given.append(l)
            return lambda: c.Track(content=l, **self.kwargs(op, (('signature', self.dur, 'sig'),))), o_track
        if k == 'add' and len(op['notes']) > 1:
            l = [P[i - 1] for i in op['notes']]
            w.given.append(l)
            where = None if op['where']['t'] == 'none' else self.dur(op['where'])
            return lambda: A.add(l, where), o_none
        if k == 'read' and self.n % 3 == 0:
            # into and out of a buffer that can be changed
            b = bytearray(A)
            w.given.append(b)
            self.n += 1
            return lambda: self.reader(unint(op['mc'])).load(io.BytesIO(b), **({} if op['chan'] == -1 else {'channel': op['chan']})), o_track
        return super().plan(op)

    def observe(self, f, proj=o_none):
        w = self.world
        state = random.getstate()
        before = w.look()
        ob = super().observe(f, proj)
        after = w.look()
        if before['files open'] != after['files open']:
            gc.collect()
            after['files open'] = w.fds()
        rec = {'op': self.now['op'], 'call': self.now, 'n': len(self.pool), 'changed': [k for k in before if before[k] != after[k]]}
        if 'disk' in rec['changed'] or 'files open' in rec['changed']: rec['what'] = repr([x for k in ('disk', 'files open') for x in after[k] if x not in before[k]])[:300]
        if self.now['op'] == 'rand':
            later = random.getstate()
            rec['state'] = str(after['random'])
            random.setstate(state)
            rec.update(obs=ob, again=super().observe(*self.plan(self.now)), stateagain=str(hash(random.getstate())))
            random.setstate(later)
        self.seen.append(rec)
        del w.given[:-3]
        return ob

    def do(self, op):
        self.now = op
        if op['op'] in self.FAILING:
            f, proj = self.plan(op)
            self.observe(f, proj)
            return True
        return super().do(op)


class WorldGen(Gen):
    def round(self):
        r, s, c = self.rng, self.s, self.s.c
        if not self.queue and r.random() < .12:
            T, N = self.one(c.Track), [i for i in (self.one(c.Note) for _ in range(3)) if i]
            B = self.one(bytes)
            k = r.choice(['wfail', 'wfail', 'rfail', 'afail', 'cfail'])
            if r.random() < .3 and T: return {'op': 'rand', 'a': T, 'lo': num(r.choice([0.0, 0.25, 0.5])), 'hi': num(r.choice([0.5, 1.0])), 'mean': num(r.choice([0.5, 0.6, 1.0])), 'var': num(r.choice([0.01, 0.5, 4.0]))}
            if k == 'wfail' and T: return {'op': k, 'a': T, 'cfg': r.choice(self.cfgs), 'n': r.randrange(40)}
            if k == 'rfail' and B: return {'op': k, 'a': B, 'mc': r.choice(self.cfgs)['mc'], 'n': r.randrange(60)}
            if k == 'cfail' and N: return {'op': k, 'notes': N}
            if k == 'afail' and N and T and len(s.pool[T - 1]) < 25: return {'op': k, 'a': T, 'notes': N}
        return self.op()


def rec_world(seed, sizes):
    rng = stdlib_random.Random(seed)
    random.seed(seed)
    scratch = tempfile.mkdtemp(prefix='verif-world-')
    try:
        first = Sys()       # imports the library
        w = World(scratch)
        out = []
        for n in sizes:
            s = WorldSys()
            s.world, s.seen = w, []
            g = WorldGen(rng, s)
            for _ in range(n):
                op = g.round()
                if op is not None and not s.do(op): break
            for x in s.seen: x.pop('call') if not x['changed'] and x['op'] != 'rand' else None
            if s.seen: out.append(s.seen)
        return out
    finally:
        os.chdir('/')
        shutil.rmtree(scratch)


def rec_script(seed):
    """The generator script, and what it leaves besides the file it is told to write."""
    rng = stdlib_random.Random(seed)
    out = []
    for style in ('absolute', 'relative', 'beside', 'there', 'nowhere'):
        scratch = tempfile.mkdtemp(prefix='verif-world-')
        try:
            for d in ('here', 'here/sub', 'home', 'tmp', 'out'): os.makedirs(os.path.join(scratch, d))
            here = os.path.join(scratch, 'here')
            for f in ('chord.py', 'chord_template.py', 'chords.json', 'sub/x.py'):
                with open(os.path.join(here, f), 'w') as h: h.write('not to be touched')
            arg = {'absolute': os.path.join(scratch, 'out', 'new.py'), 'relative': '../out/new.py', 'beside': 'sub/new.py', 'there': os.path.join(scratch, 'out', 'old.py'), 'nowhere': os.path.join(scratch, 'gone', 'new.py')}[style]
            target = os.path.realpath(os.path.join(here, arg))
            if style == 'there':
                with open(target, 'w') as h: h.write('# old\n' * 20000)
            def tree():
                t = {}
                for d, _, files in os.walk(scratch):
                    t[d] = None
                    for f in files:
                        with open(os.path.join(d, f), 'rb') as h: t[os.path.join(d, f)] = h.read()
                return t
            before = tree()
            env = dict(os.environ, HOME=os.path.join(scratch, 'home'), TMPDIR=os.path.join(scratch, 'tmp'), PYTHONDONTWRITEBYTECODE='1')
            p = subprocess.run([sys.executable, os.path.join(REPO, 'scripts', 'generate_chords.py'), arg], cwd=here, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=120)
            after = tree()
            changed = {'target' if f == target else os.path.relpath(f, scratch) for f in set(before) | set(after) if before.get(f, 0) != after.get(f, 0)}
            out.append([{'op': 'generate', 'style': style, 'n': 9, 'changed': sorted(changed)}])
        finally:
            shutil.rmtree(scratch)
    return out


def run_c33(run):
    lines = ['INIT InitK', 'NEXT Next', 'INVARIANT Inv', 'CHECK_DEADLOCK FALSE']
    for v in ('ok', 'restored'): run.model('MC_World', lines, env={'VARIANT': v, 'STEPS': '16' if THOROUGH else '13'}, workers=8)
    for v, what in (('ties', 'ties broken by draws'), ('private', 'draws from a state of its own'), ('enter', 'a folder left only if nothing fails'), ('temp', 'a file left when something fails'),
                    ('context', 'a setting put back at the end only'), ('say', 'something printed')):
        run.control('MC_World', lines, {'VARIANT': v, 'STEPS': '12'}, what)
    sizes = [run.rng.choice([40, 70, 110]) for _ in range(4000 if THOROUGH else 400)]
    lots = [sizes[i::8] for i in range(8)]
    with ThreadPoolExecutor(8) as ex:
        progs = sum(ex.map(lambda x: in_child(rec_world, SEED * 10 + x[0], x[1], seconds=2000 if THOROUGH else 500), enumerate(lots)), [])
    progs += in_child(rec_script, SEED)
    run.judge('T_World', progs, sample=1)
    return run.finish('model_checking', 'seeded programs of up to 110 calls, some of which fail; before and after each the world around is looked at; every randomizing is made twice from the same random state; '
                      'nontrivial: at least four objects existed')
