"""Machinery shared by all checks: running the code under test and recording what it did,
having TLC judge the recordings against the specification, and reporting."""
import contextlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
THOROUGH = TIER == 'thorough'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
WORKERS = max(1, min(8, os.cpu_count() or 1))

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, 'src'))


class CodeFailure(Exception):
    """The code under test failed where a recording could only be prepared with calls that must work."""


class MachineryError(Exception):
    """Something other than the code under test failed: the check ends with exit 2."""


# ---------------------------------------------------------------- values as the specification sees them
def big(n):
    """A natural number as base-4096 limbs, least significant first (module BigNat)."""
    out = []
    while n:
        out.append(n & 4095)
        n >>= 12
    return out


def sint(x):
    return {'s': 1 if x < 0 else 0, 'm': big(abs(x))}


class Weird(Exception):
    """The code returned something that is no value of the expected type at all."""


def need_int(x):
    if not isinstance(x, int):
        raise Weird('not an integer: %r' % (x,))
    return int(x)


def p_sig(s):
    n, d = need_int(s.nominator), need_int(s.denominator)
    if n < 0 or d <= 0:
        raise Weird('signature %r/%r' % (n, d))
    return {'n': big(n), 'd': big(d)}


def p_num(v):
    """A non-negative finite float or int as an exact fraction."""
    try:
        n, d = v.as_integer_ratio()
    except Exception:
        raise Weird('not a finite number: %r' % (v,))
    if n < 0:
        raise Weird('negative: %r' % (v,))
    return {'n': big(n), 'd': big(d)}


def p_tone(t):
    return sint(need_int(t.pitch))


def p_note(n):
    return {'p': p_tone(n.tone), 'd': p_sig(n.duration), 'v': p_num(n.velocity)}


def p_entry(e):
    try:
        at, note = e
    except Exception:
        raise Weird('not a pair: %r' % (e,))
    r = p_note(note)
    r['at'] = p_sig(at)
    return r


def p_track(t, limit=100000):
    l = []
    for e in t:
        l.append(p_entry(e))
        if len(l) > limit:
            raise Weird('iteration does not end')
    return {'sig': p_sig(t.signature), 'l': l}


def tag(t, f):
    """f's result as a tagged observation."""
    def g(x):
        r = f(x)
        return dict(r, t=t)
    return g


o_sig = tag('sig', p_sig)
o_note = tag('note', p_note)
o_track = tag('track', p_track)
def o_tone(x): return {'t': 'tone', 'p': p_tone(x)}
def o_int(x): return {'t': 'int', 'i': sint(need_int(x))}
def o_num(x): return dict(p_num(x), t='num')
def o_text(x):
    if not isinstance(x, str): raise Weird('not text: %r' % (x,))
    return {'t': 'text', 'c': [ord(c) for c in x]}
def o_bytes(x):
    if not isinstance(x, (bytes, bytearray)): raise Weird('not bytes: %r' % (x,))
    return {'t': 'bytes', 'b': list(x)}
def o_bool(x):
    if x is not True and x is not False: raise Weird('not a truth value: %r' % (x,))
    return {'t': 'bool', 'b': x}
def o_none(x): return {'t': 'ok'} if x is None else {'t': 'ok'}
def o_list(p):
    def g(x): return {'t': 'list', 'l': [p(y) for y in x]}
    return g


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


CASE_SECONDS = 20
_hangs = []
ERRORS = ['MIDIParsingError', 'RecursionError', 'AssertionError', 'OverflowError', 'ZeroDivisionError', 'ValueError',
          'TypeError', 'AttributeError', 'IndexError', 'KeyError', 'OSError', 'MemoryError']


def error_name(e):
    names = [c.__name__ for c in type(e).__mro__]
    for n in ERRORS:
        if n in names:
            return n
    return type(e).__name__


def observe(f, proj=o_none, seconds=CASE_SECONDS):
    """Run f and describe what happened: its projected result, the kind of exception, or that it did not end."""
    if threading.current_thread() is not threading.main_thread(): return _observe(f, proj)
    old = signal.signal(signal.SIGALRM, _alarm)
    # what has not ended three times is not waited for as long any more
    signal.setitimer(signal.ITIMER_REAL, seconds if len(_hangs) < 3 else 0.3)
    try:
        try:
            r = f()
            out = proj(r)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return out
    except CaseTimeout:
        _hangs.append(1)
        return {'t': 'hang'}
    except Weird as e:
        return {'t': 'weird', 'r': str(e)[:200]}
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        return {'t': 'err', 'e': error_name(e), 'msg': str(e)[:120].encode('ascii', 'replace').decode()}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _observe(f, proj):
    """The same in a thread, where somebody else watches the time."""
    try:
        return proj(f())
    except Weird as e:
        return {'t': 'weird', 'r': str(e)[:200]}
    except BaseException as e:
        return {'t': 'err', 'e': error_name(e), 'msg': str(e)[:120].encode('ascii', 'replace').decode()}


# ---------------------------------------------------------------- a run of one check
class Run:
    def __init__(self, prop):
        self.prop = prop
        self.start = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.states = self.transitions = 0
        self.models = []
        self.cases = self.nontrivial = self.histories = 0
        self.samples = []
        self.fails = []
        self.rng = random.Random('%s/%d' % (prop, SEED))
        self.notes = []
        self.lock = threading.Lock()

    # -- TLC
    def _tlc(self, module, cfg, env=None, workers=1, heap='3g', args=(), timeout=850, tag=''):
        md = tempfile.mkdtemp(dir=self.scratch, prefix='tlc-')
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xss64m', '-Xmx' + heap,
               '-Dtlc2.TLC.stopAfter=100000', '-Djava.io.tmpdir=' + md, '-cp', JARS, 'tlc2.TLC', '-config', cfg, '-metadir', md,
               '-workers', str(workers), '-nowarning', '-noGenerateSpecTE', *args, os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ, **(env or {}))
        e['JAVA_TOOL_OPTIONS'] = ''
        e.pop('JAVA_TOOL_OPTIONS')
        try:
            p = subprocess.run(cmd, cwd=md, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out on %s %s' % (module, tag))
        out = p.stdout.decode('utf-8', 'replace')
        shutil.rmtree(md, ignore_errors=True)
        return p.returncode, out

    def cfg(self, module, lines=()):
        path = os.path.join(self.scratch, '%s-%d.cfg' % (module, len(os.listdir(self.scratch))))
        with open(path, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        return path

    def model(self, module, lines=('INIT Init', 'NEXT Next', 'CHECK_DEADLOCK FALSE'), workers=4, env=None, quiet=False, timeout=850):
        """Model-check a specification module; returns the CASE lines it printed."""
        t0 = time.time()
        rc, out = self._tlc(module, self.cfg(module, lines), workers=workers, env=env, heap='8g', timeout=timeout)
        if rc != 0 or 'No error has been found' not in out:
            raise MachineryError('the specification %s fails its own properties:\n%s' % (module, out[-4000:]))
        gen = dist = 0
        for line in out.splitlines():
            m = re.match(r'(\d+) states generated, (\d+) distinct states found', line)
            if m:
                gen, dist = int(m.group(1)), int(m.group(2))
        self.states += dist
        self.transitions += gen
        self.models.append({'module': module, 'states_generated': gen, 'distinct_states': dist,
                            'seconds': round(time.time() - t0, 1)})
        cases = []
        for line in out.splitlines():
            if line.startswith('"CASE|'):
                cases.append(line[6:-1])
        return cases

    def control(self, module, lines, env, what):
        """A variant of a model that must fail: what the model is there to see."""
        rc, out = self._tlc(module, self.cfg(module, lines), env=env, workers=2)
        if not re.search(r'Invariant \w+ is violated|Temporal properties were violated', out):
            raise MachineryError('the model %s does not see %s:\n%s' % (module, what, out[-2000:]))
        self.notes.append('negative control: TLC reports a violation for ' + what)

    def judge(self, module, cases, shards=None, sample=3, keep_together=None):
        """Have TLC check recorded cases (dicts, or lists of dicts for a history) against module."""
        if not cases:
            raise MachineryError('no cases for %s' % module)
        groups, seen = [], set()
        for c in cases:
            g = c if isinstance(c, list) else [c]
            key = hash(json.dumps(g))
            if key not in seen:
                seen.add(key)
                groups.append(g)
        n = shards or WORKERS
        total = sum(len(g) for g in groups)
        n = max(1, min(n, total // 150 + 1))
        lots = [[] for _ in range(n)]
        sizes = [0] * n
        # deal out by weight so that the shards take about as long as each other
        for g in groups:
            w = len(g) + sum(c.get('w', 0) for c in g)
            i = sizes.index(min(sizes))
            lots[i].append(g)
            sizes[i] += w
        cfg = self.cfg(module, ['INIT Init', 'NEXT Next', 'CHECK_DEADLOCK FALSE'])

        def one(i):
            flat, where = [], []
            for g in lots[i]:
                for j, c in enumerate(g):
                    flat.append(c)
                    where.append((g, j))
            if not flat:
                return [], 0
            path = os.path.join(self.scratch, '%s-%d-%d.ndjson' % (module, id(lots), i))
            with open(path, 'w') as f:
                for c in flat:
                    f.write(json.dumps(c) + '\n')
            rc, out = self._tlc(module, cfg, env={'TRACE': path, 'PROP': self.prop}, tag='shard %d' % i)
            os.unlink(path)
            m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
            if m:
                with self.lock:
                    self.transitions += int(m.group(1))
                    self.states += int(m.group(2))
            bad, done = [], None
            for line in out.splitlines():
                if line.startswith('"FAIL|'):
                    _, l, why = line.strip('"').split('|')
                    bad.append((where[int(l) - 1], why))
                elif line.startswith('"DONE|'):
                    _, a, b = line.strip('"').split('|')
                    done = (int(a), int(b))
            if rc != 0 or done is None or done[0] != len(flat):
                raise MachineryError('TLC did not judge the whole trace of %s:\n%s' % (module, out[-3000:]))
            return bad, done[1]

        with ThreadPoolExecutor(n) as ex:
            results = list(ex.map(one, range(n)))
        for bad, nt in results:
            self.nontrivial += nt
            for (g, j), why in bad:
                self.fails.append({'module': module, 'why': why, 'case': g[j], 'history': g[:j + 1] if len(g) > 1 else None})
        self.cases += total
        self.histories += len(groups)
        r = random.Random(SEED)
        for g in r.sample(groups, min(sample, len(groups))):
            s = json.dumps(g if len(g) > 1 else g[0])
            self.samples.append(json.loads(s) if len(s) < 3000 else s[:1500] + '...')

    # -- outcome
    def finish(self, level, rule, assumptions=()):
        wall = time.time() - self.start
        ev = {'property': self.prop, 'tier': TIER, 'seed': SEED, 'level': level, 'wall_s': round(wall, 2),
              'violations': len(self.fails), 'assumptions': list(assumptions),
              'coverage': {'states': self.states, 'transitions': self.transitions,
                           'traces_validated_against_impl': self.histories,
                           'distinct_nontrivial': self.nontrivial,
                           'rule': rule, 'samples': self.samples[:8], 'models': self.models, 'notes': self.notes}}
        if level != 'model_checking':
            ev['coverage']['evaluations'] = self.cases
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        rd = os.path.join(d, 'replay')
        rp = os.path.join(rd, self.prop + '.json')
        if os.path.exists(rp):
            os.unlink(rp)
        rc = 0
        if self.fails:
            os.makedirs(rd, exist_ok=True)
            with open(rp, 'w') as f:
                json.dump({'property': self.prop, 'count': len(self.fails), 'fails': self.fails[:50]}, f, indent=1)
            kinds = {}
            for x in self.fails:
                kinds[x['why']] = kinds.get(x['why'], 0) + 1
            for k, v in sorted(kinds.items(), key=lambda kv: -kv[1])[:12]:
                print('  broken: %s (%d times)' % (k, v))
            print('  first: %s' % json.dumps(self.fails[0]['case'])[:600])
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            rc = 1
        print('%s %s: %d model states, %d recorded steps judged (%d nontrivial), %d failing, %.1f s' % (
            self.prop, TIER, sum(m['distinct_states'] for m in self.models), self.cases, self.nontrivial, len(self.fails), wall))
        return rc

    def failed(self, text):
        """A recording could not be completed because a call that must work raised an error."""
        self.fails.append({'module': '', 'why': 'a call that must work failed', 'case': {'trace': text}, 'history': None})
        return self.finish('exploration', 'the recording ended in an error of the code under test')

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def in_child(f, *args, seconds=700, memory=12 << 30):
    """Run f(*args), which exercises the code under test, in a process of its own with a memory limit; its
    result (JSON) comes back through a file."""
    fd, path = tempfile.mkstemp(prefix='verif-child-')
    os.close(fd)
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
            r = f(*args)
            with open(path, 'w') as h:
                json.dump(r, h)
            code = 0
        except BaseException:
            with open(path, 'w') as h:
                h.write(traceback.format_exc()[-4000:])
            code = 4
        finally:
            sys.stderr.flush()
            os._exit(code)
    t0 = time.time()
    try:
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() - t0 > seconds:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                raise CodeFailure('the calls being recorded did not end within %d s' % seconds)
            time.sleep(0.01)
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 4:
            with open(path) as h:
                raise CodeFailure(h.read())
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE):
            raise CodeFailure("the recording process was ended by signal %d" % os.WTERMSIG(st))
        if st != 0:
            raise MachineryError('recording process ended with status %r' % st)
        with open(path) as h:
            return json.load(h)
    finally:
        os.unlink(path)


def check_import():
    import melodia
    src = os.path.realpath(os.path.join(REPO, 'src')) + os.sep
    if not os.path.realpath(melodia.__file__).startswith(src):
        raise MachineryError('melodia was imported from ' + melodia.__file__)
