"""Drivers for C11, C21..C23, C25: sessions, chords, velocities, printed forms."""
import importlib.util, io
import random as stdlib_random
from core import *
from props_core import durpair, vel_pool, fr, nv, lib, sig_pool, related
from props_track import new_state, note, position, shape, flatten, Exec, sigpair


# ------------------------------------------------------------------ C11: sessions
class Session:
    """Random calls over a pool of objects that share parts; everything is looked at again after every call."""
    def __init__(self, rng):
        import melodia.io.midi as midi, melodia.music.chord as chord, melodia.processing.track as proc
        self.c, self.midi, self.chord, self.proc = lib(), midi, chord, proc
        self.rng = rng
        self.pool = []
        self.lists = []          # source collections, kept to be changed later
        self.out = [{'op': 'reset'}]

    def look(self, o):
        c = self.c
        if isinstance(o, c.Track): return observe(lambda: o, o_track)
        if isinstance(o, c.Note): return observe(lambda: o, o_note)
        if isinstance(o, c.Signature): return observe(lambda: o, o_sig)
        return observe(lambda: o, o_tone)

    def of(self, kind):
        l = [o for o in self.pool if isinstance(o, kind)]
        return self.rng.choice(l) if l else None

    def index(self, o): return next(i for i, x in enumerate(self.pool) if x is o) + 1

    def keep(self, *objs):
        for o in objs:
            if len(self.pool) >= 26: return
            if isinstance(o, (self.c.Tone, self.c.Note, self.c.Signature, self.c.Track)) and not any(x is o for x in self.pool):
                if isinstance(o, self.c.Track) and len(o) > 40: continue
                self.pool.append(o)

    def step(self, name, f, add=None):
        try:
            r = f()
        except (KeyboardInterrupt, SystemExit): raise
        except Exception: r = None
        if r is not None:
            self.keep(*(r if isinstance(r, (list, tuple)) else [r]))
        self.out.append({'op': name, 'add': add or {'t': 'none'}, 'seen': [self.look(o) for o in self.pool]})

    def run(self, n):
        c, rng = self.c, self.rng
        for _ in range(3): self.keep(c.Signature(rng.choice([0, 1, 2, 3, 4, 5, 12, 64]), 1 << rng.choice([0, 1, 2, 3, 4, 5, 8, 14])))
        if rng.random() < .3: self.keep(c.Signature(rng.choice([1, 2, 6, 1 << 12, 3 << 40]), 1 << rng.choice([13, 20, 33, 70])))
        self.keep(c.Tone(rng.randrange(20, 60)), c.Track(), c.Track(self.of(c.Signature)))
        self.keep(c.Note(self.of(c.Tone), self.of(c.Signature), 0.5), c.Note(rng.randrange(20, 60)))
        self.step('start', lambda: None)
        for _ in range(n): self.one()
        return self.out

    def one(self):
        c, rng = self.c, self.rng
        S, T, N, K = self.of(c.Signature), self.of(c.Tone), self.of(c.Note), self.of(c.Track)
        S2, N2, K2 = self.of(c.Signature), self.of(c.Note), self.of(c.Track)
        k = rng.randrange(40)
        if k < 9:
            # additions: a pool note, a list of pool notes, a generator, the notes of another track
            where = rng.choice([None, S, S, 'pair'])
            if isinstance(where, str): where = (rng.randrange(9), 1 << rng.randrange(7))
            form = rng.choice(['note', 'list', 'gen', 'other', 'nested'])
            ns = [N] if form == 'note' else [self.of(c.Note) for _ in range(rng.choice([0, 1, 2, 3]))]
            if form == 'other': ns = [n for _, n in K2][:6]
            if len(K) + len(ns) > 35: return
            if form == 'note': what = N
            elif form == 'gen': what = (x for x in ns)
            elif form == 'nested': what = [ns, ()]
            else:
                what = list(ns)
                self.lists.append(what)
            if where is None: wv = {'t': 'none'}
            elif isinstance(where, tuple): wv = dict(fr(where), t='at')
            else: wv = dict(p_sig(where), t='at')
            add = {'t': 'add', 'id': self.index(K), 'notes': [p_note(x) for x in ns], 'where': wv}
            def f():
                K.add(what, where)
            self.step('add', f, add)
        elif k == 9: self.step('extract', lambda: rng.sample([x for e in K for x in e], min(2, 2 * len(K))))
        elif k == 10: self.step('iterate', lambda: [e for e in K] and None)
        elif k == 11: self.step('length', lambda: [K.length, K.signature] if len(K) >= 0 else None)
        elif k == 12: self.step('compare tracks', lambda: (K == K2, K != K2) and None)
        elif k == 13: self.step('print', lambda: (repr(K), str(K), repr(N), str(N), repr(S), str(S), repr(T), str(T)) and None)
        elif k in (14, 15): self.step('write', lambda: self.write(K) and None)
        elif k in (16, 17): self.step('read back', lambda: self.midi.loads(self.write(K), **rng.choice([{}, {}, {'channel': 0}])))
        elif k in (18, 19): self.step('randomize', lambda: self.proc.randomize_velocities(K, variance=rng.choice([0.01, 0, 1.0])))
        elif k == 20: self.step('chord of note', lambda: rng.choice([self.chord.major, self.chord.minor9, self.chord.sus4])(N))
        elif k == 21: self.step('chord of tone', lambda: rng.choice([self.chord.dim7, self.chord.add9])(T, rng.choice([None, S]), rng.choice([None, 0.3])))
        elif k == 22: self.step('transpose', lambda: [T.transposed(rng.randrange(-9, 9)), N.transposed(rng.choice([0, 3, -5]))])
        elif k == 23: self.step('with_duration', lambda: N.with_duration(rng.choice([S, (1, 8)])))
        elif k == 24: self.step('with_velocity', lambda: N.with_velocity(rng.choice([0.0, 0.4, 1, N2.velocity])))
        elif k == 25: self.step('parts', lambda: [N.tone, N.duration])
        elif k == 26: self.step('sum', lambda: [S + S2])
        elif k == 27: self.step('product', lambda: [S * S2] if S.denominator * S2.denominator < 1 << 120 else None)
        elif k == 28: self.step('normalize', lambda: [S.normalized(), abs(S)])
        elif k == 29: self.step('convert', lambda: [S.to(S.denominator * rng.choice([1, 2, 8]))] if S.denominator < 1 << 80 else None)
        elif k == 30: self.step('compare values', lambda: (S < S2, S == S2, S >= S2, N < N2, N == N2, N >= N2, T == T, T < N.tone) and None)
        elif k == 31: self.step('notation', lambda: (T.to_notation(), T.to_notation(transpose_down=True), T.to_frequency(), T.octave) and None)
        elif k == 32:
            items = [(self.of(c.Note), rng.choice([None, self.of(c.Signature), (1, 4)])) for _ in range(rng.choice([0, 1, 3]))]
            self.lists.append(items)
            self.step('new track', lambda: c.Track(rng.choice([S, K.signature]), items))
        elif k == 33: self.step('copy of a track', lambda: c.Track(K.signature, [(n, p) for p, n in K]))
        elif k == 34: self.step('new note', lambda: c.Note(rng.choice([T, N.tone]), rng.choice([S, N.duration]), 0.25))
        elif k in (35, 36):
            # the caller goes on using the collections it passed in
            def f():
                if self.lists:
                    l = rng.choice(self.lists)
                    if rng.random() < .5: l.clear()
                    else: l.append(rng.choice(l) if l else N)
            self.step('change of a source collection', f)
        elif k == 37: self.step('refused calls', lambda: self.refused(N, S, T))
        elif k == 38: self.step('new empty tracks', lambda: [c.Track(), c.Track()])
        elif k == 39:
            # interleave an iteration with additions to another track
            def f():
                for p, n in K:
                    if len(K2) < 30 and K2 is not K: break
            self.step('partial iteration', f)

    def write(self, K):
        mc = 36
        return self.midi.MIDIWriter(pulses_per_quarter=self.rng.choice([24, 96, 480]), middle_c=mc, channel=self.rng.choice([0, 3])).dumps(K)

    def refused(self, N, S, T):
        for f in (lambda: N.with_velocity(2), lambda: S.to(3), lambda: self.c.Note(T, (1, 3)), lambda: N.with_duration(5), lambda: self.chord.major(None)):
            try: f()
            except Exception: pass


def rec_c11(seed, hists):
    rng = stdlib_random.Random(seed)
    stdlib_random.seed(seed)
    return [Session(rng).run(n) for n in hists]


def run_c11(run):
    ok = run.model('MC_Alias', ['SPECIFICATION Spec', 'INVARIANT Inv', 'CHECK_DEADLOCK FALSE'], env={'INPLACE': '0'})
    rc, out = run._tlc('MC_Alias', run.cfg('MC_Alias', ['SPECIFICATION Spec', 'INVARIANT Inv', 'CHECK_DEADLOCK FALSE']), env={'INPLACE': '1'}, workers=2)
    if 'Invariant Inv is violated' not in out: raise MachineryError('the aliasing model does not see in-place rescaling:\n' + out[-2000:])
    run.notes.append('negative control: with in-place rescaling TLC reports Inv violated')
    rng = run.rng
    hists = [rng.choice([10, 25, 45, 70]) for _ in range(700 if THOROUGH else 90)]
    run.judge('T_Session', in_child(rec_c11, SEED, hists), sample=1)
    return run.finish('model_checking', 'seeded sessions of up to 70 calls of every kind over a pool of up to 26 objects sharing notes, signatures, tones and source lists; all objects are '
                      'looked at after every call; nontrivial: at least four objects existed')


# ------------------------------------------------------------------ C21, C22: chords
ALIASES = ['major', 'maj', 'minor', 'min', 'augmented', 'aug', 'diminished', 'dim', 'suspended4', 'sus4', 'suspended2', 'sus2', 'major7', 'maj7', 'minor7', 'min7', 'dominant7', 'dom7',
           'dominant7b5', 'dom7b5', 'diminished7', 'dim7', 'minor7b5', 'min7b5', 'diminished_major7', 'minor_major7', 'augmented_major7', 'major7s5', 'maj7s5', 'augmented_minor7', 'augmented7',
           'aug7', 'major9', 'maj9', 'minor9', 'min9', 'dominant9', 'dom9', 'dominant_minor9', 'min7b9', 'minor69', 'min69', 'added9', 'add9', 'major11', 'maj11', 'minor11', 'min11', 'dominant11', 'dom11']


def chord_cases(run, n):
    rng = run.rng
    cases = []
    lines = run.model('MC_Chord', ['INIT Init', 'NEXT Next', 'INVARIANT Inv', 'INVARIANT Emit', 'CHECK_DEADLOCK FALSE'], workers=1)
    for l in lines:
        name, p, kind, dg, vg = l.split('|')
        cases.append((name, kind, int(p), (3, 8), 0.5, (0, 1, 'tuple') if dg == '1' else None, 0.0 if vg == '1' else None))
    for _ in range(n):
        name = rng.choice(ALIASES)
        kind = rng.choice(['int', 'text', 'tone', 'note', 'note'])
        p = rng.choice([0, -1, 11, 12, 57, 60, 127, -13, rng.randrange(-400, 400), rng.randrange(-10 ** 6, 10 ** 6)])
        d, v = durpair(rng), vel_pool(rng)
        gd = None if rng.random() < .4 else durpair(rng) + (rng.choice(['tuple', 'sig', 'list']),)
        gv = None if rng.random() < .4 else vel_pool(rng)
        cases.append((name, kind, p, d, v, gd, gv))
    return cases


SHARPS = ['C', 'C#', 'D', 'D#', 'E', 'F', 'F#', 'G', 'G#', 'A', 'A#', 'B']


def call(module, case, style=0):
    c = lib()
    name, kind, p, d, v, gd, gv = case
    base = p if kind == 'int' else SHARPS[p % 12] + str(p // 12) if kind == 'text' else c.Tone(p) if kind == 'tone' else c.Note(p, tuple(d), v)
    dur = None if gd is None else c.Signature(gd[0], gd[1]) if gd[2] == 'sig' else [gd[0], gd[1]] if gd[2] == 'list' else (gd[0], gd[1])
    f = getattr(module, name)
    if style == 0: return f(base, dur, gv)
    kw = {}
    if dur is not None: kw['duration'] = dur
    if gv is not None: kw['velocity'] = gv
    return f(base, **kw) if style == 1 else f(base=base, **kw)


def rec_chords(cases):
    import melodia.music.chord as chord
    out = []
    for i, cs in enumerate(cases):
        name, kind, p, d, v, gd, gv = cs
        out.append({'k': 'call', 'name': name, 'base': {'kind': kind, 'p': sint(p), 'd': fr(d), 'v': p_num(v)},
                    'dur': {'t': 'none'} if gd is None else dict(fr(gd), t='frac'), 'vel': {'t': 'none'} if gv is None else dict(p_num(gv), t='num'),
                    'obs': observe(lambda: call(chord, cs, i % 3), o_list(p_note))})
    return out


def run_c21(run):
    run.judge('T_Chord', in_child(rec_chords, chord_cases(run, 30000 if THOROUGH else 2500)))
    return run.finish('model_checking', 'every chord name, kind of base and combination of given and omitted parameters as enumerated by TLC, and seeded calls over pitches up to 10^6 and all durations and velocities')


def is_chord_function(f):
    """Whatever, called with a base, gives notes."""
    if not callable(f) or isinstance(f, type): return False
    try: r = f(60)
    except Exception: return False
    return isinstance(r, (tuple, list)) and len(r) > 0 and all(isinstance(x, lib().Note) for x in r)


def public_functions(m):
    return sorted(n for n, f in vars(m).items() if not n.startswith('_') and is_chord_function(f))


def rec_generated(cases):
    import melodia.music.chord as chord
    d = tempfile.mkdtemp(prefix='verif-gen-')
    try:
        path = os.path.join(d, 'generated_chords.py')
        env = dict(os.environ, PYTHONPATH=os.path.join(REPO, 'src'), PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run([sys.executable, os.path.join(REPO, 'scripts', 'generate_chords.py'), path], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120)
        if p.returncode == 0 and os.path.exists(path):
            # again, over a longer file that is there already, as when the library is regenerated in place; from another folder
            with open(path, 'a') as f: f.write('\n\ndef stale(base):\n    return 5\n' + '# left over\n' * 20000)
            os.mkdir(os.path.join(d, 'sub'))
            p = subprocess.run([sys.executable, os.path.join(REPO, 'scripts', 'generate_chords.py'), '../generated_chords.py'], cwd=os.path.join(d, 'sub'), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120)
            with open(path) as f:
                if 'def stale' in f.read(): p.returncode = p.returncode or 99
        gen, names = None, []
        if p.returncode == 0 and os.path.exists(path):
            spec = importlib.util.spec_from_file_location('generated_chords', path)
            gen = importlib.util.module_from_spec(spec)
            try:
                spec.loader.exec_module(gen)
                names = public_functions(gen)
            except Exception as e:
                print('the generated module cannot be imported: %r' % e)
                gen = None
        out = [{'k': 'names', 'rc': p.returncode if gen is not None or p.returncode else 1, 'gen': names, 'obs': public_functions(chord)}]
        if gen is not None:
            extra = [n for n in names if n in public_functions(chord) and n not in ALIASES]
            for i, cs in enumerate(cases + [(n, 'note', 40, (3, 8), 0.5, None, None) for n in extra]):
                if cs[0] not in names: continue
                o1 = observe(lambda: call(chord, cs, i % 3), o_list(p_note)); o2 = observe(lambda: call(gen, cs, i % 3), o_list(p_note))
                o1.pop('msg', None); o2.pop('msg', None)
                out.append({'k': 'same', 'name': cs[0], 'obs': o1, 'gen': o2})
            # refused calls agree too
            for n in names:
                if n not in ALIASES: continue
                for bad in ((n, 'int', 5, (1, 4), .5, (1, 3, 'tuple'), None), (n, 'note', 5, (1, 4), .5, None, 1.5)):
                    o1 = observe(lambda: call(chord, bad), o_list(p_note)); o2 = observe(lambda: call(gen, bad), o_list(p_note))
                    o1.pop('msg', None); o2.pop('msg', None)
                    out.append({'k': 'same', 'name': n, 'obs': o1, 'gen': o2})
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_c22(run):
    run.judge('T_Chord', in_child(rec_generated, chord_cases(run, 20000 if THOROUGH else 1500)))
    return run.finish('model_checking', 'the generator is run into a scratch folder; its functions are called side by side with the shipped ones on the calls of C21')


# ------------------------------------------------------------------ C23: velocities
def rand_track(rng, n):
    """(sig, entries) for randomize_velocities."""
    st = new_state()
    ents = []
    for _ in range(n):
        w = position(rng, st) or (rng.randrange(9), 8, 'sig')
        nn = note(rng, st)
        ents.append(((w[0], w[1]), nn[0], tuple(nn[1]), nn[2]))
    return (sigpair(rng), ents)


def rec_c23(seed, cases, bads, stats):
    import melodia.processing.track as proc
    from props_midi import build, tv
    stdlib_random.seed(seed)
    out = []
    for t, lo, hi, mean, var, style in cases:
        tr = build(t)
        box = []
        def f():
            if isinstance(style, list): r = proc.randomize_velocities(tr, **{k: v for k, v in zip(('minimum', 'maximum', 'mean', 'variance'), (lo, hi, mean, var)) if k not in style})
            elif style == 'pos': r = proc.randomize_velocities(tr, lo, hi, mean, var)
            else: r = proc.randomize_velocities(tr, minimum=lo, maximum=hi, mean=mean, variance=var)
            box.append(r)
            return r
        ob = observe(f, o_track)
        out.append(dict(tv(t), k='rand', min=p_num(lo), max=p_num(hi), mean=p_num(mean), var=p_num(var), obs=ob, after=observe(lambda: tr, o_track),
                        same=1 if box and box[0] is tr else 0))
    for t, what, kw in bads:
        tr = build(t)
        out.append(dict(tv(t), k='bad', what=what, obs=observe(lambda: proc.randomize_velocities(tr, **kw), o_track), after=observe(lambda: tr, o_track)))
    for n, lo, hi, mean, std in stats:
        # two notes of different pitch at every position
        t = ((4, 4), [((i // 2, 4), 40 + i % 2, (1, 4), 0.5) for i in range(n)])
        tr = build(t)
        kw = {'minimum': lo, 'maximum': hi, 'mean': mean, 'variance': std * std}
        if (lo, hi, mean, std) == (0.5, 1.0, 0.75, 0.1): kw = {}
        f = lambda: [nn.velocity for _, nn in proc.randomize_velocities(tr, **kw)]
        vs, ws = f(), f()
        out.append({'k': 'stat', 'min': p_num(lo), 'max': p_num(hi), 'mean': p_num(mean), 'std': p_num(std), 'n': n, 'vs': [p_num(v) for v in vs], 'ws': [p_num(v) for v in ws], 'w': n})
    return out


def run_c23(run):
    rng = run.rng
    run.model('MC_Velocity', ['INIT Init', 'NEXT Next', 'INVARIANT Inv', 'CHECK_DEADLOCK FALSE'])
    cases, bads = [], []
    def bound(): return rng.choice([0, 0.0, 1, 1.0, 0.5, 0.25, 0.75, 1 / 3, rng.random(), rng.random()])
    for _ in range(6000 if THOROUGH else 700):
        lo, hi = sorted([bound(), bound()])
        if rng.random() < .1: hi = lo
        cases.append((rand_track(rng, rng.choice([0, 1, 2, 3, 5, 9, 20])), lo, hi, bound(), rng.choice([0, 0.0, 0, 1e-9, 0.01, 0.01, 0.25, 1.0, 100, 1e6]), rng.choice(['pos', 'kw'])))
    for m in (70, 300, 1100): cases.append((rand_track(rng, m), 0.25, 0.75, 0.5, 0.01, 'pos'))
    for _ in range(2000 if THOROUGH else 200):
        # some of the parameters left out
        lo, hi = sorted([bound(), bound()])
        gone = [k for k in ('minimum', 'maximum', 'mean', 'variance') if rng.random() < .5]
        if 'minimum' in gone: lo, hi = 0.5, max(hi, rng.choice([0.5, 0.75, 1.0]))
        if 'maximum' in gone: hi = 1.0
        cases.append((rand_track(rng, rng.choice([2, 5, 9, 20])), lo, hi, 0.75 if 'mean' in gone else bound(), 0.01 if 'variance' in gone else rng.choice([0, 0, 0.25, 100]), gone))
    for _ in range(300 if THOROUGH else 60):
        t = rand_track(rng, rng.choice([0, 1, 3]))
        x = rng.choice([-0.01, -1, 1.01, 2, -1e-300, 1.0000000000000002, 1e9, 127])
        what = rng.choice(['minimum', 'maximum', 'mean', 'variance'])
        bads.append((t, what, {what: x if what != 'variance' else -abs(x)}))
    stats = [(4000, 0.0, 1.0, 0.5, 0.05), (4000, 0.5, 1.0, 0.75, 0.1), (4000, 0.5, 0.625, 0.5625, 0.125), (12000, 0.0, 1.0, 0.5, 2.0), (20000, 0.0, 1.0, 0.5, 0.5)]
    if THOROUGH: stats += [(5000, 0.0, 1.0, 0.3, 0.1), (5000, 0.25, 1.0, 0.375, 0.25), (5000, 0.0, 1.0, 0.8, 0.01)]
    # three parameters left out: what is seen of the draws tells the fourth
    run.judge('T_Rand', in_child(rec_c23, SEED, cases, bads, stats))
    return run.finish('model_checking', 'seeded tracks and parameters including equal bounds, zero and huge variance; refused parameters; distributions of 4000 draws at five marks within 7.5 deviations, '
                      'independence of neighbours and of calls', ['the distribution checks are statistical: wrong with probability below 1e-12 per comparison'])


# ------------------------------------------------------------------ C25: printed forms
def rec_c25(tones, sigs, notes, tracks):
    c = lib()
    scope = {'Tone': c.Tone, 'Signature': c.Signature, 'Note': c.Note, 'Track': c.Track}
    out = []
    def back(x): return eval(repr(x), dict(scope))
    for p in tones:
        x = c.Tone(p)
        out.append({'k': 'tone', 'v': {'p': sint(p)}, 'obs': observe(lambda: back(x), o_tone), 'str': observe(lambda: str(x), o_text)})
    for s in sigs:
        x = c.Signature(*s)
        out.append({'k': 'sig', 'v': fr(s), 'obs': observe(lambda: back(x), o_sig), 'str': observe(lambda: str(x), o_text)})
    for n in notes:
        x = c.Note(n[0], tuple(n[1]), n[2])
        out.append({'k': 'note', 'v': nv(n), 'obs': observe(lambda: back(x), o_note), 'str': observe(lambda: str(x), o_text)})
    for h in tracks:
        e = Exec()
        for op in h: e.do(op)
        for tr in e.tracks:
            box = []
            def f():
                box.append(back(tr))
                return box[0]
            ob = observe(f, o_track)
            out.append({'k': 'track', 'v': p_track(tr), 'obs': ob, 'eq': observe(lambda: box[0] == tr, o_bool), 'str': observe(lambda: str(tr), o_text)})
    return out


def run_c25(run):
    rng = run.rng
    run.model('MC_Tone', ['INIT Init', 'NEXT Next', 'INVARIANT Inv', 'CHECK_DEADLOCK FALSE'], workers=1, env={'DEPTH': '2'})
    k = 8 if THOROUGH else 1
    tones = list(range(-200, 200)) + [rng.choice([-1, 1]) * rng.getrandbits(rng.choice([10, 32, 64, 200])) for _ in range(200 * k)]
    sigs = [(n, 1 << e) for n in range(20) for e in range(9)] + sig_pool(rng, 500 * k)
    notes, tracks = [], []
    for _ in range(900 * k):
        # velocities around and on the halves of a thousandth too
        v = vel_pool(rng) if rng.random() < .7 else rng.choice([rng.randrange(1000) / 1000 + .0005, rng.randrange(16) / 16, (rng.randrange(500) * 2 + 1) / 2000, rng.randrange(1024) / 1024])
        notes.append((rng.choice([0, -1, 60, rng.randrange(-300, 300), rng.getrandbits(70)]), durpair(rng), v))
    for _ in range(350 * k):
        st = new_state()
        h = [['new', sigpair(rng), None if rng.random() < .5 else [(shape(rng, st), position(rng, st)) for _ in range(rng.choice([0, 1, 3]))], 'sig']]
        for _ in range(rng.choice([0, 1, 2, 4, 9, 16])): h.append(['add', 1, shape(rng, st), position(rng, st)])
        tracks.append(h)
    for m in (101, 260, 999, 1000, 1001, 1300):
        st = new_state()
        tracks.append([['new', (4, 4), None, 'sig']] + [['add', 1, {'c': 'list', 'l': [note(rng, st) for _ in range(j)]}, (rng.randrange(60), 4, 'sig')] for j in [50] * (m // 50) + [m % 50]])
    run.judge('T_Repr', in_child(rec_c25, tones, sigs, notes, tracks))
    return run.finish('model_checking', 'tones and signatures around zero and up to hundreds of bits, notes with every kind of velocity, tracks built by seeded histories')
