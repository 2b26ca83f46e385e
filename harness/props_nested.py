"""Drivers for C29: calls made from within calls."""
import io, random as stdlib_random
from fractions import Fraction
from core import *
from props_more import Sys, Gen, NONE, lit, song, unbig
import props_midi


BOOMS = [type('Boom', (b,), {}) for b in (Exception, ValueError, TypeError, RuntimeError, LookupError, KeyError, IndexError, OSError, EOFError, AttributeError, AssertionError, ArithmeticError, MemoryError, BaseException)]


class Reached(Exception):
    pass


class Out(io.BytesIO):
    """An output that calls back while it is written to."""
    def __init__(self, nest):
        super().__init__()
        self.nest = nest

    def write(self, data):
        self.nest.step()
        r = super().write(data)
        self.nest.way()
        return r


class In(io.BytesIO):
    """An input that calls back while it is read."""
    def __init__(self, nest, data):
        super().__init__(data)
        self.nest = nest

    def read(self, *n):
        self.nest.step()
        r = super().read(*n)
        self.nest.way()
        return r


class Frame:
    """A call in progress that calls back."""
    def __init__(self, s, op, fault):
        self.s, self.op, self.fault = s, op, fault
        self.steps = self.gave = self.hit = 0
        self.error = None

    def way(self): self.s.way(self.op)

    def step(self):
        """Before each piece: call back, and give up when it is time."""
        self.way()
        self.steps += 1
        if self.steps == self.fault:
            self.hit = 1
            self.error = self.s.rng.choice(BOOMS)('enough')
            raise self.error

    def each(self, l):
        for x in l:
            self.step()
            self.gave += 1
            yield x
        self.step()


class Nest(Sys):
    NESTED = ('add', 'copyin', 'trackof', 'iter', 'write', 'read')

    def __init__(self, rng):
        super().__init__()
        self.rng, self.g = rng, Gen(rng, self)
        # files of notes, in other resolutions, and one cut short
        self.g.files = [song(rng) for _ in range(3)] + self.g.files[:1]
        self.g.files.append(self.g.files[0][:-rng.randrange(1, 30)])
        self.depth, self.stop, self.left = 0, False, 0
        self.adding, self.writing = [], []      # tracks being added to: (number, length it had or None); written
        self.eager = rng.choice([.3, .6, .9])
        self.broken = None

    # watching the time is up to the outermost call
    def observe(self, f, proj=o_none):
        if not self.depth: return observe(f, proj)
        try: return proj(f())
        except Weird as e: return {'t': 'weird', 'r': str(e)[:200]}
        except (CaseTimeout, KeyboardInterrupt, SystemExit): raise
        except BaseException as e: return {'t': 'err', 'e': error_name(e), 'msg': str(e)[:120].encode('ascii', 'replace').decode()}

    def writer(self, cfg):
        key = json.dumps(cfg)
        if key in self.writers and self.rng.random() < .8: return self.writers[key]
        return super().writer(cfg)

    def reader(self, mc):
        if mc in self.readers and self.rng.random() < .8: return self.readers[mc]
        return super().reader(mc)

    def may(self, op):
        """Is what op gives determined, with the calls in progress?"""
        k, P, c = op['op'], self.pool, self.c
        if k == 'drop' and self.depth: return False
        if k in ('add', 'copyin', 'badadd') and not isinstance(P[op['a'] - 1], c.Track): return False
        if k == 'copyin' and not isinstance(P[op['b'] - 1], c.Track): return False
        used = [i for i in (op.get('a'), op.get('b')) if isinstance(i, int)]
        if k in ('add', 'copyin', 'badadd') and op['a'] in self.writing: return False
        for t, length in self.adding:
            if t not in used: continue
            if k not in ('add', 'copyin') or op['a'] != t or op.get('b') == t or op['where']['t'] == 'none': return False
            if length is not None:
                # the outer addition goes to the end of the track: the inner one does not move that
                w = self.frac(op['where'])
                ns = [P[i - 1] for i in op['notes']] if k == 'add' else [n for _, n in P[op['b'] - 1]]
                if any(w + Fraction(n.duration.nominator, n.duration.denominator) > length for n in ns): return False
        return True

    def pick(self):
        """Loops over tracks more often than other programs have them."""
        r, k = self.rng, self.rng.random()
        if k < .05: return {'op': 'file', 'data': list(r.choice(self.g.files))}
        if k < .15:
            # files rather than what was written
            l = [i for i in self.g.ids(bytes) if self.pool[i - 1] in self.g.files]
            if l: return {'op': 'read', 'a': r.choice(l), 'mc': self.g.cfgs[0]['mc'], 'chan': -1}
        l = [i for i in self.g.ids(self.c.Track) if not any(t == i for t, _ in self.adding) and len(self.pool[i - 1])]
        return {'op': 'iter', 'a': r.choice(l)} if l and k < .3 else self.g.op()

    def frac(self, x):
        s = self.pool[x['id'] - 1] if x['t'] == 'ref' else None
        return Fraction(s.nominator, s.denominator) if s else Fraction(unbig(x['n']), unbig(x['d']))

    def partner(self, op):
        """A call like the one in progress, or one that touches what it uses."""
        r, k, g, c = self.rng, op['op'], self.g, self.c
        K, N = g.one(c.Track), g.one(c.Note)
        if k == 'write': return {'op': 'write', 'a': r.choice([K, op['a']]), 'cfg': r.choice([op['cfg']] * 3 + g.cfgs)}
        if k == 'read': return {'op': 'read', 'a': r.choice([g.one(bytes), op['a']]), 'mc': op['mc'], 'chan': r.choice([-1, op['chan'], r.randrange(16)])}
        if k == 'trackof' and N: return {'op': 'trackof', 'sig': r.choice([op['sig'], NONE]), 'content': [{'note': g.one(c.Note), 'where': g.dur()} for _ in range(r.choice([1, 2, 3]))]}
        if not N: return None
        if k == 'iter': return r.choice([op, op, {'op': 'peek', 'a': op['a']}, {'op': 'count', 'a': op['a']}, {'op': 'add', 'a': op['a'], 'notes': [N], 'where': g.dur()},
                                         {'op': 'copyin', 'a': op['a'], 'b': op['a'], 'where': g.dur()}, {'op': 'teq', 'a': op['a'], 'b': K}, {'op': 'write', 'a': op['a'], 'cfg': r.choice(g.cfgs)}])
        a = r.choice([op['a'], op['a'], op.get('b', K), K])
        return {'op': 'add', 'a': a, 'notes': [g.one(c.Note) for _ in range(r.choice([1, 2, 3]))], 'where': r.choice([g.dur(), lit((0, 1)), lit((1, 8))])}

    def way(self, op):
        """Calls made from within the call op."""
        if self.stop or self.depth > 3: return
        while self.left > 0 and self.rng.random() < self.eager:
            self.left -= 1
            try:
                inner = self.partner(op) if self.rng.random() < .5 else self.pick()
                if inner is None or not self.may(inner) or len(self.pool) > 60: continue
                if inner['op'] in ('add', 'copyin') and len(self.pool[inner['a'] - 1]) > 20: continue
                self.do(inner)
            except CaseTimeout: raise
            except BaseException as e:
                self.broken = self.broken or traceback.format_exc()
                raise
            if self.stop: return

    def do(self, op):
        if op['op'] in self.NESTED and self.depth < 3 and self.rng.random() < .7: ok = self.nested(op)
        else: ok = super().do(op)
        if not ok: self.stop = True
        return ok

    def nested(self, op):
        k, P, c, r = op['op'], self.pool, self.c, self.rng
        A = P[op['a'] - 1] if 'a' in op else None
        free = not any(t == op.get('a') for t, _ in self.adding)
        f = Frame(self, op, r.randrange(1, 5) if k not in ('iter', 'copyin') and free and r.random() < .12 else 0)
        w = None if op.get('where', NONE)['t'] == 'none' else self.dur(op['where']) if 'where' in op else None
        made, adding, writing = [], len(self.adding), len(self.writing)
        if k in ('add', 'copyin'):
            ns = [P[i - 1] for i in op['notes']] if k == 'add' else (n for _, n in P[op['b'] - 1])
            L = A.length
            self.adding.append((op['a'], Fraction(L.nominator, L.denominator) if w is None else None))
            call, proj = (lambda: A.add(f.each(ns), w)), o_none
        elif k == 'trackof':
            l = [(P[x['note'] - 1], None if x['where']['t'] == 'none' else self.dur(x['where'])) for x in op['content']]
            call, proj = (lambda: c.Track(content=f.each(l), **self.kwargs(op, (('signature', self.dur, 'sig'),)))), o_track
        elif k == 'iter':
            def call():
                l = []
                for e in A:
                    l.append(e)
                    f.way()
                return l
            proj = o_list(p_entry)
        elif k == 'write':
            wr, out = self.writer(op['cfg']), Out(f)
            self.writing.append(op['a'])
            def call():
                wr.dump(A, out)
                return out.getvalue()
            proj = o_bytes
        else:
            rd, src = self.reader(unint_(op['mc'])), In(f, A)
            call, proj = (lambda: rd.load(src) if op['chan'] == -1 else rd.load(src, channel=op['chan'])), o_track
        self.out.append({'op': 'begin', 'f': op})
        def run():
            # the outermost call is watched from outside
            self.depth += 1
            try:
                x = call()
            except tuple(BOOMS) as e:
                # the very error
                if e is not f.error: raise
                raise Reached() from None
            finally:
                self.depth -= 1
            made.append(x)
            return x
        ob = None
        try:
            ob = self.observe(run, proj)
        finally:
            del self.adding[adding:], self.writing[writing:]
            if ob is None: self.stop = True
        if self.broken: raise MachineryError(self.broken)
        end = {'op': 'end', 'obs': ob, 'fault': f.hit, 'gave': f.gave}
        if f.hit and k == 'add': end['after'] = self.observe(lambda: A, o_track)
        self.out.append(end)
        if ob['t'] in ('weird', 'hang') or f.hit and ob['t'] != 'err': return False
        if f.hit and k == 'add' and end['after']['t'] != 'track': return False
        if k in self.MAKERS and ob['t'] in ('track', 'bytes'): P.append(made[0])
        return True


def unint_(x): return (-1 if x['s'] else 1) * unbig(x['m'])


def rec_nested(seed, sizes):
    rng = stdlib_random.Random(seed)
    stdlib_random.seed(seed)
    out = []
    for n in sizes:
        s = Nest(rng)
        for _ in range(n):
            op = s.pick()
            if op is None or not s.may(op): continue
            s.left = 8
            if not s.do(op) or s.stop: break
        out.append(s.out)
    return out


def run_c29(run):
    lines = ['INIT Init', 'NEXT Next', 'INVARIANT Inv', 'CHECK_DEADLOCK FALSE']
    run.model('MC_Reentry', lines, env={'VARIANT': 'ok', 'DEPTH': '3', 'CALLS': '4'}, workers=8, timeout=2400)
    run.model('MC_Reentry', ['SPECIFICATION Fair', 'PROPERTY Ends', 'CHECK_DEADLOCK FALSE'], env={'VARIANT': 'ok', 'DEPTH': '2', 'CALLS': '3' if THOROUGH else '2'}, workers=8, timeout=2400)
    for v, what in (('where', 'a position kept in the track during an addition'), ('live', 'a loop that sees what is added meanwhile'), ('cursor', 'a loop whose place is kept in the track'),
                    ('buffer', 'writers that share a buffer'), ('busy', 'additions lost within an addition')):
        run.control('MC_Reentry', lines, {'VARIANT': v, 'DEPTH': '3', 'CALLS': '4'}, what)
    sizes = [run.rng.choice([25, 40, 60]) for _ in range(3000 if THOROUGH else 450)]
    lots = [sizes[i::4] for i in range(4)]
    with ThreadPoolExecutor(4) as ex:
        progs = sum(ex.map(lambda x: in_child(rec_nested, SEED * 10 + x[0], x[1]), enumerate(lots)), [])
    run.judge('T_Nested', progs, sample=1)
    return run.finish('model_checking', 'seeded programs in which outputs, inputs, generators and loops call the library back, up to four calls deep, with the same tracks, writers and readers, '
                      'and in which some of them raise an error; every outcome is predicted from the store at the beginning of the call; nontrivial: steps within a call in progress')
