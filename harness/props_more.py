"""Drivers for C26: programs over the whole library."""
from fractions import Fraction
import copy, pickle, random as stdlib_random
from core import *
from props_core import nv, durpair, vel_pool, fr, lib, related, sig_pool
from props_misc import ALIASES, SHARPS
import props_midi


def unbig(l): return sum(x << (12 * i) for i, x in enumerate(l))
def unint(x): return (-1 if x['s'] else 1) * unbig(x['m'])
def unnum(x):
    n, d = unbig(x['n']), unbig(x['d'])
    return n / d if n else 0.0
def lit(x): return {'t': 'pair', **fr(x)}
def num(v): return dict(p_num(v), t='num')
NONE = {'t': 'none'}


def copied(x, how):
    if how == 'copy': return copy.copy(x)
    if how == 'deepcopy': return copy.deepcopy(x)
    return pickle.loads(pickle.dumps(x, int(how[6:] or pickle.DEFAULT_PROTOCOL)))


class Sys:
    """Performs operations on real objects and records them; objects are numbered as in the specification."""
    def __init__(self):
        import melodia.io.midi as midi, melodia.music.chord as chord, melodia.processing.track as proc
        self.c, self.midi, self.chord, self.proc = lib(), midi, chord, proc
        self.pool = []
        self.out = [{'op': 'reset'}]
        self.writers, self.readers = {}, {}
        self.n = 0
        self.its = []       # iterations left unfinished

    def observe(self, f, proj=o_none): return observe(f, proj)

    def tone(self, x):
        return self.pool[x['id'] - 1] if x['t'] == 'ref' else unint(x['i']) if x['t'] == 'int' else ''.join(map(chr, x['c']))

    def dur(self, x):
        if x['t'] == 'ref': return self.pool[x['id'] - 1]
        return (unbig(x['n']), unbig(x['d']))

    def kwargs(self, op, names):
        kw = {}
        for name, f, key in names:
            if op[key]['t'] != 'none': kw[name] = f(op[key])
        return kw

    def writer(self, cfg):
        # the same writer for the same settings every other time
        key = json.dumps(cfg)
        self.n += 1
        if key in self.writers and self.n % 2: return self.writers[key]
        mc = unint(cfg['mc'])
        w = self.writers[key] = self.midi.MIDIWriter(pulses_per_quarter=cfg['ppq'], middle_c=mc if self.n % 3 else self.c.Tone(mc), bpm=unnum(cfg['bpm']), channel=cfg['ch'])
        return w

    def reader(self, mc):
        self.n += 1
        if mc in self.readers and self.n % 2: return self.readers[mc]
        r = self.readers[mc] = self.midi.MIDIReader(middle_c=mc)
        return r

    def plan(self, op):
        """(call, projection, makes) for an operation: makes is the list of objects it adds."""
        c, P = self.c, self.pool
        k = op['op']
        A = P[op['a'] - 1] if 'a' in op else None
        B = P[op['b'] - 1] if isinstance(op.get('b'), int) else None
        if k == 'tone': return lambda: c.Tone(unint(op['p'])), o_tone
        if k == 'parse': return lambda: c.Tone.from_notation(''.join(map(chr, op['c']))), o_tone
        if k == 'transpose': return lambda: A.transposed(unint(op['k'])), o_tone
        if k == 'spell': return (lambda: A.to_notation(transpose_down=True)) if op['down'] else (lambda: A.to_notation()), o_text
        if k == 'octave': return lambda: A.octave, o_int
        if k == 'freq':
            base = unnum(op['base'])
            return (lambda: A.to_frequency()) if base == 440 else (lambda: A.to_frequency(base)), o_num
        if k in ('tonecmp', 'sigcmp', 'notecmp'): return lambda: (A == B, A != B, A < B, A <= B, A > B, A >= B), None
        if k == 'sig': return lambda: c.Signature(unint(op['n']), unint(op['d'])), o_sig
        if k == 'sum': return lambda: A + B, o_sig
        if k == 'prod': return lambda: A * B, o_sig
        if k == 'abs': return lambda: abs(A), o_sig
        if k == 'norm': return lambda: A.normalized(), o_sig
        if k == 'to': return lambda: A.to(unint(op['d'])), o_sig
        if k == 'note': return lambda: c.Note(self.tone(op['tone']), **self.kwargs(op, (('duration', self.dur, 'dur'), ('velocity', unnum, 'vel')))), o_note
        if k == 'toneof': return lambda: A.tone, o_tone
        if k == 'durof': return lambda: A.duration, o_sig
        if k == 'velof': return lambda: A.velocity, o_num
        if k == 'ntrans': return lambda: A.transposed(unint(op['k'])), o_note
        if k == 'ndur': return lambda: A.with_duration(self.dur(op['dur'])), o_note
        if k == 'nvel': return lambda: A.with_velocity(unnum(op['vel'])), o_note
        if k == 'chord': return lambda: getattr(self.chord, op['name'])(self.tone(op['base']), **self.kwargs(op, (('duration', self.dur, 'dur'), ('velocity', unnum, 'vel')))), o_list(p_note)
        if k == 'track': return lambda: c.Track(**self.kwargs(op, (('signature', self.dur, 'sig'),))), o_track
        if k == 'trackof':
            l = [(P[x['note'] - 1], None if x['where']['t'] == 'none' else self.dur(x['where'])) for x in op['content']]
            x = l if len(l) % 2 else (e for e in l)
            return lambda: c.Track(content=x, **self.kwargs(op, (('signature', self.dur, 'sig'),))), o_track
        if k == 'add':
            ns = [P[i - 1] for i in op['notes']]
            x = ns[0] if len(ns) == 1 else tuple(ns) if len(ns) % 2 else (n for n in ns)
            w = None if op['where']['t'] == 'none' else self.dur(op['where'])
            return (lambda: A.add(x)) if w is None else (lambda: A.add(x, w)), o_none
        if k == 'copyin':
            w = None if op['where']['t'] == 'none' else self.dur(op['where'])
            return lambda: A.add((n for _, n in B), w), o_none
        if k == 'badadd': return lambda: A.add(None), o_none
        if k == 'iter': return lambda: list(A), o_list(p_entry)
        if k == 'pick':
            def f():
                l = list(A)
                return l[op['k'] % len(l)]
            return f, lambda e: {'t': 'pair', 'at': p_sig(e[0]), 'note': p_note(e[1])}
        if k == 'peek':
            def f():
                it = iter(A)
                self.its.append(it)
                return next(it, None)
            return f, lambda e: NONE if e is None else {'t': 'pair', 'at': p_sig(e[0]), 'note': p_note(e[1])}
        if k == 'count': return lambda: len(A), o_int
        if k == 'length': return lambda: A.length, o_sig
        if k == 'tsig': return lambda: A.signature, o_sig
        if k == 'teq': return lambda: (A == B, A != B), None
        if k == 'text': return lambda: str(A), o_text
        if k == 'repr':
            proj = o_tone if isinstance(A, c.Tone) else o_sig if isinstance(A, c.Signature) else o_note if isinstance(A, c.Note) else o_track
            return lambda: eval(repr(A), {'Tone': c.Tone, 'Signature': c.Signature, 'Note': c.Note, 'Track': c.Track}), proj
        if k == 'copy':
            proj = o_tone if isinstance(A, c.Tone) else o_sig if isinstance(A, c.Signature) else o_note if isinstance(A, c.Note) else o_track
            return lambda: copied(A, op['how']), proj
        if k == 'rand': return lambda: self.proc.randomize_velocities(A, unnum(op['lo']), unnum(op['hi']), unnum(op['mean']), unnum(op['var'])), o_track
        if k == 'write': return lambda: self.writer(op['cfg']).dumps(A), o_bytes
        if k == 'read':
            r = self.reader(unint(op['mc']))
            return (lambda: r.loads(A)) if op['chan'] == -1 else (lambda: r.loads(A, channel=op['chan'])), o_track
        if k == 'file': return lambda: bytes(op['data']), o_bytes
        raise MachineryError('unknown operation ' + k)

    MAKERS = {'tone', 'parse', 'transpose', 'sig', 'sum', 'prod', 'abs', 'norm', 'to', 'note', 'toneof', 'durof', 'ntrans', 'ndur', 'nvel', 'track', 'trackof', 'length', 'tsig', 'rand', 'write', 'read', 'file', 'repr', 'copy'}

    def do(self, op):
        """Perform and record; False if the program cannot go on."""
        k = op['op']
        if k == 'drop':
            self.pool[op['a'] - 1] = None
            self.out.append(dict(op, obs={'t': 'ok'}))
            return True
        f, proj = self.plan(op)
        box = []
        if proj is None:
            names = ('eq', 'ne', 'lt', 'le', 'gt', 'ge')
            r = self.observe(lambda: box.append(f()))
            ob = {n: {'t': 'bool', 'b': v} if isinstance(v, bool) else {'t': 'weird', 'r': repr(v)[:80]} for n, v in zip(names, box[0])} if box else {n: r for n in names}
            self.out.append(dict(op, obs=ob))
            return bool(box)
        def g():
            box.append(f())
            return box[0]
        ob = self.observe(g, proj)
        self.out.append(dict(op, obs=ob))
        r = box[0] if box else None
        if ob['t'] in ('weird', 'hang'): return False
        if k in self.MAKERS and ob['t'] in ('tone', 'sig', 'note', 'track', 'bytes'): self.pool.append(r)
        elif k == 'chord' and ob['t'] == 'list': self.pool.extend(r)
        elif k == 'pick' and ob['t'] == 'pair': self.pool.extend(r)
        return True


def rec_programs(seed, programs, sizes):
    stdlib_random.seed(seed)
    out = []
    for p in programs:
        s = Sys()
        for op in p:
            # a program of the model presumes the outcomes of the model, where the guarantees leave a choice too
            new = len(s.pool) + op.pop('new')
            if not s.do(op) or len(s.pool) != new: break
        out.append(s.out)
    rng = stdlib_random.Random(seed)
    for n in sizes:
        s = Sys()
        g = Gen(rng, s)
        for _ in range(n):
            op = g.op()
            if op is not None and not s.do(op): break
        out.append(s.out)
    return out


def song(rng):
    """A valid file with notes and time signatures on a few channels."""
    chans = rng.sample(range(16), rng.choice([1, 2, 2, 3]))
    evs = []
    for c in chans:
        k = rng.random()
        if k < .6: evs.append(b'\x00\xff\x20\x01' + bytes([c]))
        if k < .8: evs.append(b'\x00\xff\x58\x04' + bytes([rng.choice([1, 2, 3, 4, 5, 7, 12]), rng.choice([1, 2, 2, 3]), 24, 8]))
    for _ in range(rng.choice([1, 2, 4, 6])):
        c, p = rng.choice(chans), rng.choice([60, 60, 64, 67])
        # some notes are left sounding, some end twice
        for st, v in rng.choice([[(0x90, 100), (0x80, 0)]] * 5 + [[(0x90, 64)], [(0x80, 1)], [(0x90, 1), (0x90, 0)], [(0x90, 127), (0x80, 9), (0x80, 9)]]):
            evs.append(props_midi.vlq(rng.choice([0, 12, 24, 96, 200])) + bytes([st | c, p, v]))
    return props_midi.valid_file(rng, evs=evs)


class Gen:
    """Seeded programs with larger literals, biased towards asking again what was asked before."""
    def __init__(self, rng, s):
        self.rng, self.s, self.past = rng, s, []
        self.base = rng.randrange(0, 60)
        self.cfgs = [props_midi.cv(dict(props_midi.settings(rng), mc=self.base - rng.randrange(-40, 41))) for _ in range(rng.choice([1, 1, 2]))] + [props_midi.cv({'ppq': 96, 'ch': 0, 'mc': 36, 'bpm': 120.0})]
        self.pairs = [durpair(rng) for _ in range(3)]
        # the level of a velocity a hair below n/127 is left open (C13), unless it is n/127 itself as a float
        self.vels = [v for v in (vel_pool(rng) for _ in range(5)) if v in props_midi.LEVELS or int(Fraction(v) * 127) == int(Fraction(v) * 127 + Fraction(1, 1 << 39))] or [0.5]
        self.files = [props_midi.valid_file(rng, rng.choice([3, 8, 15])) if rng.random() < .4 else song(rng) for _ in range(3)]
        if rng.random() < .2: self.files.append(self.files[0][:-rng.randrange(1, 9)])
        # each program is fond of some operations and does without others
        self.queue = []
        self.weights = [1 if k in (13, 23, 24, 25) else rng.choice([0, 1, 1, 1, 4]) for k in range(47)]

    def ids(self, kind): return [i + 1 for i, o in enumerate(self.s.pool) if isinstance(o, kind)]
    def one(self, kind):
        l = self.ids(kind)
        # recent objects more often
        return None if not l else l[-1 - min(len(l) - 1, int(self.rng.expovariate(.25)))]

    def pair(self):
        r = self.rng
        p = r.choice(self.pairs)
        if r.random() < .3: p = related(r, p)
        return p if p[1] < 1 << 80 and p[0] < 1 << 90 else (1, 4)

    def dur(self):
        r = self.rng
        i = self.one(self.s.c.Signature)
        k = r.random()
        if k < .4 and i: return {'t': 'ref', 'id': i}
        return lit(self.pair()) if k < .85 else NONE

    def toneform(self):
        r = self.rng
        p = self.base + r.choice([0, 1, 2, 7, 12, -1])
        if r.random() < .04: p += 200         # not to be written
        k = r.random()
        i = self.one(self.s.c.Tone)
        if k < .4 and i: return {'t': 'ref', 'id': i}
        if k < .7: return {'t': 'int', 'i': sint(p)}
        return {'t': 'text', 'c': [ord(ch) for ch in r.choice([SHARPS[p % 12] + str(p // 12), 'H2', 'C4 ', 'Cb4', 'B#3', 'E##-1'])]}

    def vel(self): return NONE if self.rng.random() < .3 else num(self.rng.choice(self.vels))

    def op(self):
        r, s, c = self.rng, self.s, self.s.c
        if len(s.pool) > 60: return None
        while self.queue:
            o = self.queue.pop(0)()
            if o is not None: return o
        if r.random() < .06:
            self.queue = self.script()
            return None
        if self.past and r.random() < .12:
            # the same call again
            o = r.choice(self.past[-8:])
            refs = [o.get('a'), o.get('b') if isinstance(o.get('b'), int) else None] + list(o.get('notes', [])) + [i for x in o.get('content', []) for i in (x['note'], x['where'].get('id'))] + [x.get('id') for x in o.values() if isinstance(x, dict) and x.get('t') == 'ref']
            if all(i is None or s.pool[i - 1] is not None for i in refs) and not (o['op'] in ('add', 'copyin') and len(s.pool[o['a'] - 1]) > 25): return o
        o = self.fresh()
        if o is not None: self.past.append(o)
        return o

    def script(self):
        """Ask, change something the answer depends on (or not), ask again."""
        r, s, c = self.rng, self.s, self.s.c
        K, N = self.one(c.Track), self.one(c.Note)
        if r.random() < .4: return self.rebirth()
        if not K or not N: return []
        other, l = K, []
        if r.random() < .6:
            # a track with the same content
            other = len(s.pool) + 1
            if 0 < len(s.pool[K - 1]) < 12 and len(s.pool) < 50:
                S = s.pool[K - 1].signature
                l = [lambda: {'op': 'track', 'sig': lit((S.nominator, S.denominator))}, lambda: {'op': 'copyin', 'a': other, 'b': K, 'where': NONE}]
            else: other = self.one(c.Track)
        def live(i): return i <= len(s.pool) and isinstance(s.pool[i - 1], c.Track)
        a, b = r.choice([(K, other), (other, K)])
        cfg, d = r.choice(self.cfgs), self.dur()
        q = r.choice([{'op': 'teq', 'a': a, 'b': b}] * 3 + [{'op': x, 'a': a} for x in ('iter', 'length', 'count', 'repr', 'text', 'peek')] + [{'op': 'write', 'a': a, 'cfg': cfg}] * 2)
        def ask(): return q if live(a) and live(b) else None
        def change(x):
            def f(): return {'op': 'add', 'a': x, 'notes': [N], 'where': d} if live(x) and len(s.pool[x - 1]) < 25 and s.pool[N - 1] is not None else None
            return f
        x = r.choice([K, other])
        l += [ask, change(x), ask]
        if r.random() < .5: l += [change(K if x == other else other), ask]
        return l

    def rebirth(self):
        """An object is asked, let go of, and another made (which may well be where the first one was) and asked the same."""
        r, s, c = self.rng, self.s, self.s.c
        at, cfg = [None], r.choice(self.cfgs)
        N = [i for i in (self.one(c.Note) for _ in range(4)) if i]
        w, n = lit(self.pair()), r.choice([1, 1, 2, 3])
        kind = r.choice(['tone', 'sig', 'note', 'track', 'track', 'track', 'file'])
        d = self.dur()
        def make():
            at[0] = len(s.pool) + 1
            if kind == 'tone': return {'op': 'tone', 'p': sint(self.base + r.randrange(12))}
            if kind == 'sig':
                p = self.pair()
                return {'op': 'sig', 'n': sint(p[0]), 'd': sint(p[1])}
            if kind == 'note': return {'op': 'note', 'tone': {'t': 'int', 'i': sint(self.base + r.randrange(12))}, 'dur': d, 'vel': num(r.choice(self.vels))}
            if kind == 'file': return {'op': 'file', 'data': list(r.choice(self.files))}
            if any(s.pool[i - 1] is None for i in N): return None
            return {'op': 'trackof', 'sig': NONE, 'content': [{'note': r.choice(N), 'where': w} for _ in range(n)]}
        q = {'tone': [{'op': 'spell', 'down': 1}, {'op': 'octave'}, {'op': 'text'}, {'op': 'transpose', 'k': sint(3)}], 'sig': [{'op': 'norm'}, {'op': 'abs'}, {'op': 'text'}, {'op': 'repr'}],
             'note': [{'op': 'text'}, {'op': 'repr'}, {'op': 'ntrans', 'k': sint(1)}, {'op': 'toneof'}], 'track': [{'op': 'write', 'cfg': cfg}] * 4 + [{'op': 'text'}, {'op': 'repr'}, {'op': 'iter'}, {'op': 'length'}],
             'file': [{'op': 'read', 'mc': cfg['mc'], 'chan': -1}]}[kind]
        q = r.choice(q)
        CLS = {'tone': c.Tone, 'sig': c.Signature, 'note': c.Note, 'track': c.Track, 'file': bytes}[kind]
        def ask(): return dict(q, a=at[0]) if at[0] and at[0] <= len(s.pool) and isinstance(s.pool[at[0] - 1], CLS) else None
        def drop():
            o = ask()
            return o and {'op': 'drop', 'a': o['a']}
        return ([make] if kind != 'track' or N else []) and [make, ask, ask, drop, make, ask, ask, drop, make, ask]

    def fresh(self):
        r, s, c = self.rng, self.s, self.s.c
        T, S, N, K = self.one(c.Tone), self.one(c.Signature), self.one(c.Note), self.one(c.Track)
        k = r.choices(range(47), self.weights)[0]
        if k == 0: return {'op': 'tone', 'p': sint(r.choice([self.base, self.base + 1, r.randrange(-200, 200), r.getrandbits(60)]))}
        if k == 1: return {'op': 'parse', 'c': self.toneform().get('c', [65])}
        if k in (2, 3) and T:
            return r.choice([{'op': 'transpose', 'a': T, 'k': sint(r.randrange(-24, 24))}, {'op': 'spell', 'a': T, 'down': r.randrange(2)}, {'op': 'octave', 'a': T}])
        if k == 4 and T and abs(s.pool[T - 1].pitch) < 300: return {'op': 'freq', 'a': T, 'base': p_num(r.choice([440.0, 440.0, 432.0]))}
        if k == 5 and T: return {'op': 'tonecmp', 'a': T, 'b': self.one(c.Tone)}
        if k in (6, 7):
            p = self.pair() if r.random() < .8 else r.choice([(1, 3), (-1, 4), (1, 0), (1, -2), (0, 6)])
            return {'op': 'sig', 'n': sint(p[0]), 'd': sint(p[1])}
        if k in (8, 9) and S:
            o = r.choice(['sum', 'prod', 'sigcmp', 'sigcmp'])
            S2 = self.one(c.Signature)
            if s.pool[S - 1].denominator * s.pool[S2 - 1].denominator < 1 << 160: return {'op': o, 'a': S, 'b': S2}
        if k == 10 and S: return {'op': r.choice(['abs', 'norm']), 'a': S}
        if k == 11 and S: return {'op': 'to', 'a': S, 'd': sint(r.choice([s.pool[S - 1].denominator * 4, s.pool[S - 1].denominator, 1, 3, 1 << 40]))}
        if k in (12, 13, 14): return {'op': 'note', 'tone': self.toneform(), 'dur': self.dur(), 'vel': self.vel() if r.random() < .9 else num(1.5)}
        if k == 15 and N: return {'op': r.choice(['toneof', 'durof', 'velof']), 'a': N}
        if k == 16 and N: return {'op': 'ntrans', 'a': N, 'k': sint(r.randrange(-12, 13))}
        if k == 17 and N:
            d = self.dur()
            return {'op': 'ndur', 'a': N, 'dur': d if d is not NONE else lit((1, 2))}
        if k == 18 and N: return {'op': 'nvel', 'a': N, 'vel': num(r.choice(self.vels + [1.25]))}
        if k == 19 and N: return {'op': 'notecmp', 'a': N, 'b': self.one(c.Note)}
        if k in (20, 21):
            b = {'t': 'ref', 'id': N} if N and r.random() < .5 else self.toneform()
            return {'op': 'chord', 'name': r.choice(ALIASES), 'base': b, 'dur': self.dur(), 'vel': self.vel()}
        if k in (22, 23) and len(self.ids(c.Track)) < 6:
            d = self.dur()
            if d['t'] == 'pair' and (unbig(d['n']) > 255): d = NONE
            return {'op': 'track', 'sig': d}
        if k < 30 and K and N and len(s.pool[K - 1]) < 25: return {'op': 'add', 'a': K, 'notes': [self.one(c.Note) for _ in range(r.choice([1, 1, 1, 2, 3, 0]))], 'where': self.dur()}
        if k == 30 and K:
            K2 = self.one(c.Track)
            if len(s.pool[K - 1]) + len(s.pool[K2 - 1]) < 25: return {'op': 'copyin', 'a': K, 'b': K2, 'where': self.dur()}
        if k == 31 and K: return {'op': 'badadd', 'a': K}
        if k in (32, 33) and K: return {'op': r.choice(['iter', 'peek', 'count', 'length', 'tsig']), 'a': K}
        if k == 34 and K and len(s.pool[K - 1]): return {'op': 'pick', 'a': K, 'k': r.randrange(9)}
        if k in (35, 36) and K:
            l = [i for i in self.ids(c.Track) if len(s.pool[i - 1]) == len(s.pool[K - 1])]
            return {'op': 'teq', 'a': K, 'b': r.choice(l) if r.random() < .7 else self.one(c.Track)}
        if k in (37, 38):
            x = r.choice([T, S, N, K])
            if x: return {'op': r.choice(['text', 'repr']), 'a': x}
        if k == 39 and K:
            lo, hi = sorted(r.choice([0.0, 1.0, r.random()]) for _ in range(2))
            return {'op': 'rand', 'a': K, 'lo': p_num(lo), 'hi': p_num(hi), 'mean': p_num(r.random()), 'var': p_num(r.choice([0.0, 0.0, 0.01]))}
        if k in (40, 41) and K: return {'op': 'write', 'a': K, 'cfg': r.choice(self.cfgs)}
        if k in (42, 43):
            f = self.one(bytes)
            if f: return {'op': 'read', 'a': f, 'mc': r.choice(self.cfgs)['mc'], 'chan': r.choice([-1, -1, 0, r.randrange(16)])}
        if k == 44: return {'op': 'file', 'data': list(r.choice(self.files))}
        if k == 46 and N and len(self.ids(c.Track)) < 8:
            d = self.dur()
            if d['t'] == 'pair' and (unbig(d['n']) > 255): d = NONE
            return {'op': 'trackof', 'sig': d, 'content': [{'note': self.one(c.Note), 'where': self.dur()} for _ in range(r.choice([0, 1, 2, 3, 6]))]}
        if k == 45 and len(s.pool) > 12:
            i = r.randrange(len(s.pool))
            if s.pool[i] is not None: return {'op': 'drop', 'a': i + 1}
        return None


def walk(run, seed, num_, depth, copies=0):
    """Programs TLC walks through in MC_System."""
    md = tempfile.mkdtemp(dir=run.scratch, prefix='sim-')
    cfg = run.cfg('MC_System', ['INIT Init', 'NEXT Next', 'INVARIANT Inv', 'INVARIANT Emit', 'CHECK_DEADLOCK FALSE'])
    rc, out = run._tlc('MC_System', cfg, env={'MODE': 'some', 'DEPTH': str(depth), 'COPIES': str(copies)}, args=['-simulate', 'num=%d' % num_, '-depth', str(depth + 2), '-seed', str(seed)])
    m = re.search(r'Progress: (\d+) states checked, (\d+) traces generated', out)
    if rc != 0 or not m or 'Error:' in out: raise MachineryError('walking through MC_System failed:\n' + out[-3000:])
    progs = [json.loads(json.loads(l)[5:]) for l in out.splitlines() if l.startswith('"CASE|')]
    with run.lock:
        run.states += int(m.group(1)); run.transitions += int(m.group(1))
        run.models.append({'module': 'MC_System (walks of %d steps)' % depth, 'states_generated': int(m.group(1)), 'distinct_states': 0, 'seconds': 0})
    return progs


def run_c26(run):
    run.model('MC_System', ['INIT Init', 'NEXT Next', 'INVARIANT Inv', 'VIEW View', 'CHECK_DEADLOCK FALSE'], env={'MODE': 'all', 'DEPTH': '3' if THOROUGH else '2', 'COPIES': '0'}, workers=8, timeout=2400)
    with ThreadPoolExecutor(6) as ex:
        progs = sum(ex.map(lambda i: walk(run, SEED * 100 + i, 120 if THOROUGH else 20, 20 + 7 * i), range(6)), [])
    sizes = [run.rng.choice([30, 60, 100, 160]) for _ in range(2500 if THOROUGH else 300)]
    run.judge('T_System', in_child(rec_programs, SEED, progs, sizes), sample=1)
    return run.finish('model_checking', 'programs walked by TLC through MC_System (20 to 55 steps) and seeded programs of up to 160 calls with larger literals, repeated calls, shared and released objects; '
                      'every outcome is predicted from the values in the store of the specification; nontrivial: at least four objects existed')


# ------------------------------------------------------------------ C27: equal tracks are written alike
def family(rng):
    """Descriptions of tracks with the same notes at the same positions, in other terms and orders, and a near miss."""
    cfg = props_midi.settings(rng)
    den = rng.choice([1, 4, 16, 4 * cfg['ppq'], 1 << 14])
    den = 1 << (den - 1).bit_length()
    # few positions and tones, so that much is simultaneous; notes next to each other within a tick as well
    ats = [props_midi.reduce(rng.randrange(0, 6 * den), den) for _ in range(rng.choice([1, 2, 4]))]
    if rng.random() < .4: ats += [props_midi.reduce(a[0] * 1024 + 1, a[1] * 1024) for a in ats[:2]]
    ps = [cfg['mc'] + rng.randrange(-60, 68) for _ in range(rng.choice([1, 2, 5]))]
    ds = [props_midi.reduce(rng.randrange(0, 2 * den + 2), den) for _ in range(3)] + [(0, 1), (1, 4)]
    vs = [props_midi.level_vel(rng) for _ in range(3)] + [0, 0.0, 1, 1.0]
    items = [(rng.choice(ps), rng.choice(ds), rng.choice(vs), rng.choice(ats)) for _ in range(rng.choice([0, 1, 2, 2, 3, 3, 5, 8, 15]) if rng.random() < .98 else rng.choice([30, 70, 150, 300]))]
    if items and rng.random() < .3: items.append(rng.choice(items))
    sig = props_midi.sig_of(rng)
    def variant(items):
        l = list(items)
        k = rng.random()
        if k < .6: rng.shuffle(l)
        elif k < .8: l.reverse()
        return [(p, props_midi.rep(rng, d), float(v) if rng.random() < .3 else v, props_midi.rep(rng, a)) for p, d, v, a in l]
    out = [(sig, items)] + [(sig, variant(items)) for _ in range(rng.choice([1, 2, 3]))]
    if items and rng.random() < .3: out.append((sig, variant(items[:-1])))
    return cfg, out


def rec_c27(seed, fams):
    rng = stdlib_random.Random(seed)
    c = lib()
    out = []
    for cfg, tracks in fams:
        rec = {'k': 'family', 'tracks': [], 'outs': [], 'cfg': props_midi.cv(cfg)}
        keep = {}
        made, order = [], []
        for sig, items in tracks:
            def note(p, d, v):
                # the same object for the same note, or another
                if (p, d, v) in keep and rng.random() < .5: return keep[p, d, v]
                keep[p, d, v] = n = c.Note(p, d, v)
                return n
            how = rng.randrange(5)
            tr = c.Track(sig)
            if how == 0: tr = c.Track(sig, content=[(note(p, d, v), a) for p, d, v, a in items])
            elif how == 1:
                for p, d, v, a in items: tr.add(note(p, d, v), a)
            elif how == 2:
                for p, d, v, a in items:
                    tr.add([note(p, d, v)], c.Signature(*a))
                    if rng.random() < .3: list(tr)
            elif how == 3:
                # out of another track, note by note
                src = c.Track((4, 4))
                for p, d, v, a in items: src.add(note(p, d, v), a)
                for a, n in src: tr.add(n, a)
            else:
                # after having been written before it was complete
                for i, (p, d, v, a) in enumerate(items):
                    tr.add(note(p, d, v), a)
                    if i == len(items) // 2: observe(lambda: props_midi.a_writer(cfg, i).dumps(tr), o_bytes)
            made.append(tr)
            rec['tracks'].append({'sig': fr(sig), 'l': [dict(nv((p, d, v)), at=fr(a)) for p, d, v, a in items]})
        # in any order
        outs = {}
        idx = list(range(len(made)))
        rng.shuffle(idx)
        for i in idx:
            if rng.random() < .3: list(made[i])
            if rng.random() < .3: made[i] == made[0]
            w = props_midi.a_writer(cfg, rng.randrange(4))
            outs[i] = observe(lambda: props_midi.write_bytes(w, made[i], rng.randrange(3)), o_bytes)
        rec['outs'] = [outs[i] for i in range(len(made))]
        out.append(rec)
    return out


def run_c27(run):
    lines = ['INIT Init', 'NEXT Next', 'INVARIANT Inv', 'CHECK_DEADLOCK FALSE']
    run.model('MC_Canon', lines, env={'CANON': '1', 'DEPTH': '3' if THOROUGH else '2'}, workers=8, timeout=2400)
    run.control('MC_Canon', lines, {'CANON': '0', 'DEPTH': '2'}, 'a writer that goes by the order of addition')
    fams = [family(run.rng) for _ in range(6000 if THOROUGH else 700)]
    run.judge('T_Same', in_child(rec_c27, SEED, fams))
    return run.finish('model_checking', 'families of two to five tracks with the same notes at the same positions, added in other orders, manners and terms, by shared or separate note objects, '
                      'iterated, compared or written in between; nontrivial: at least two notes, the first two alike and written')
