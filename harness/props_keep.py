"""Drivers for C34: what the library keeps of values that are dropped."""
import copy, gc, io, pickle, tracemalloc
import random as stdlib_random
from core import *
from props_more import Sys, Gen, song
import props_midi

RUNS, MOST = 7, 70


class Full(io.RawIOBase):
    def __init__(self, n): self.left = n
    def writable(self): return True
    def write(self, b):
        self.left -= len(b)
        if self.left < 0: raise OSError('full')
        return len(b)


class Broken(io.RawIOBase):
    def __init__(self, data, n): self.data, self.left = io.BytesIO(data), n
    def readable(self): return True
    def read(self, n=-1):
        self.left -= max(1, n)
        if self.left < 0: raise OSError('broken')
        return self.data.read(n)


def kinds(rng):
    """name -> (calls in a run, call with a number that never comes twice)"""
    import melodia.io.midi as midi, melodia.music.chord as chord, melodia.processing.track as proc
    s = Sys()
    c = s.c
    Tone, Signature, Note, Track = c.Tone, c.Signature, c.Note, c.Track
    names = sorted(n for n in dir(chord) if not n.startswith('_') and n[0].islower() and callable(getattr(chord, n)) and getattr(getattr(chord, n), '__module__', '') == chord.__name__)
    def quiet(f):
        try: return f()
        except Exception: return None
    def dur(i): return (i, 1 << rng.randrange(12))
    def note(i): return Note(rng.randrange(40, 90), dur(1 + i % 9), round(rng.random(), 6))
    def track(i, n=4):
        t = Track((1 + i % 200, 4))
        for k in range(n): t.add(note(i + k), (rng.randrange(8 + i % 50), 8))
        t.add(Note('C4', (i % 5000, 64)))
        return t
    def data(i): return midi.dumps(track(i))
    one, w, r = track(5, 9), midi.MIDIWriter(channel=3), midi.MIDIReader()
    same = pickle.loads(pickle.dumps(one))
    some = [song(rng) for _ in range(20)] + [props_midi.valid_file(rng, rng.choice([5, 10, 20])) for _ in range(60)]
    def file(i):
        b = bytearray(rng.choice(some))
        for _ in range(rng.choice([0, 1, 2])): b[rng.randrange(len(b))] = rng.randrange(256)
        return bytes(b)
    def half(t):
        it = iter(t)
        next(it, None)
        return it
    def generated(i):
        yield note(i)
        raise OSError('broken')
    def program(i):
        q = Sys()
        g = Gen(rng, q)
        for _ in range(25):
            op = g.op()
            if op is not None and not q.do(op): break
    T, S = lambda i: Tone(i * 3 - 4000), lambda i: Signature(i + 1, 1 << (i % 31))
    out = {
        'tones': lambda i: (T(i), T(i).transposed(i), T(i) == T(i + 1), T(i) < T(i + 1)),
        'notation': lambda i: quiet(lambda: (Tone.from_notation('C#%d' % i), Tone.from_notation('Bb-%d' % i))),
        'no notation': lambda i: (quiet(lambda: Tone.from_notation('X%d' % i)), quiet(lambda: Note('C%dx' % i))),
        'spelling': lambda i: (T(i).to_notation(), T(i).to_notation(transpose_down=True), T(i).octave, repr(T(i)), str(T(i))),
        'frequency': lambda i: (quiet(lambda: Tone(i % 200).to_frequency(400 + i / 7)), quiet(lambda: Tone(i % 200).to_frequency(-i))),
        'signatures': lambda i: (S(i), S(i) + S(i + 1), S(i) * S(i + 2), abs(S(i)), S(i).normalized(), quiet(lambda: S(i).to(1 << (i % 40)))),
        'no signatures': lambda i: (quiet(lambda: Signature(-i, 4)), quiet(lambda: Signature(i, 3 + i)), quiet(lambda: Signature(i, 4).to(i)), quiet(lambda: Note(1, (i, 3)))),
        'comparing signatures': lambda i: (S(i) == S(i + 1), S(i) < S(i + 1), S(i) >= S(i), repr(S(i)), str(S(i)), quiet(lambda: S(i) < 'x%d' % i)),
        'notes': lambda i: (note(i), note(i).transposed(i), note(i).with_duration(dur(i)), note(i).with_velocity(1 / (i + 1)), note(i).tone, note(i).duration, note(i) < note(i + 1), repr(note(i)), str(note(i))),
        'no notes': lambda i: (quiet(lambda: Note(1, (1, 4), 2 + i)), quiet(lambda: note(i).with_velocity(-i - 1)), quiet(lambda: Note([i]))),
        'chords': lambda i: getattr(chord, names[i % len(names)])(i % 3000, dur(i), 1 / (i + 1)),
        'chords by name': lambda i: quiet(lambda: getattr(chord, names[i % len(names)])('D%d' % i)),
        'tracks': lambda i: track(i),
        'tracks listed': lambda i: list(track(i)),
        'tracks half listed': lambda i: half(track(i)),
        'tracks asked': lambda i: (lambda t: (len(t), t.length, t.signature, repr(t), str(t), t == t, t == track(i)))(track(i)),
        'tracks with content': lambda i: (quiet(lambda: Track(content=[(note(i), None), (note(i), (i, 8))])), quiet(lambda: Track(content=[(note(i), None), (i, None)]))),
        'copies': lambda i: (lambda t: (copy.copy(t), copy.deepcopy(t), pickle.loads(pickle.dumps(t)), copy.copy(note(i)), copy.deepcopy(S(i)), pickle.loads(pickle.dumps(T(i)))))(track(i, 2)),
        'copies added to': lambda i: (lambda t: t.add(note(i)))(copy.copy(one)),
        'one track listed': lambda i: (list(one), half(one), len(one), one.length, one.signature),
        'one track compared': lambda i: (one == track(i), one == same, one != copy.deepcopy(one)),
        'one track printed': lambda i: (repr(one), str(one)),
        'one track refuses': lambda i: (quiet(lambda: one.add(i)), quiet(lambda: one.add(note(i), i)), quiet(lambda: one.add(note(i), (i, 3))), quiet(lambda: one.add([], (i, 4)))),
        'additions that break': lambda i: (lambda t: quiet(lambda: t.add(generated(i))))(track(i, 2)),
        'velocities': lambda i: (proc.randomize_velocities(track(i)), proc.randomize_velocities(one), quiet(lambda: proc.randomize_velocities(track(i), mean=2 + i))),
        'writers': lambda i: midi.MIDIWriter(pulses_per_quarter=24 + i % 3000, bpm=30 + i / 9, channel=i % 16).dumps(track(i)),
        'no writers': lambda i: (quiet(lambda: midi.MIDIWriter(channel=16 + i)), quiet(lambda: midi.MIDIWriter(bpm=-i)), quiet(lambda: midi.MIDIWriter(pulses_per_quarter=1 << 15 + i % 99))),
        'one writer': lambda i: (w.dumps(track(i)), w.dump(track(i), io.BytesIO()), w.dumps(one)),
        'one writer refuses': lambda i: (quiet(lambda: w.dumps(Track(content=[(note(i), None), (Note(500 + i), None)]))), quiet(lambda: w.dumps(Track((256 + i, 4)))), quiet(lambda: w.dumps(Track(content=[(note(i), (1 << 40 + i % 99, 1))])))),
        'outputs that break': lambda i: quiet(lambda: w.dump(track(i), Full(rng.randrange(60)))),
        'functions': lambda i: (midi.loads(midi.dumps(track(i), bpm=50 + i % 500)), midi.load(io.BytesIO(data(i)))),
        'readers': lambda i: (quiet(lambda: midi.MIDIReader(middle_c=i).loads(data(i))), quiet(lambda: midi.MIDIReader(middle_c='C%d' % (i % 9)).loads(data(i)))),
        'one reader': lambda i: (r.loads(data(i)), r.load(io.BytesIO(data(i)))),
        'one reader, no such channel': lambda i: quiet(lambda: r.loads(data(i), channel=i + 1)),
        'one reader, any files': lambda i: [quiet(lambda: r.loads(file(i))) for _ in range(3)],
        'one reader, cut files': lambda i: (lambda b: quiet(lambda: r.loads(b[:rng.randrange(len(b))])))(data(i)),
        'inputs that break': lambda i: quiet(lambda: r.load(Broken(data(i), rng.randrange(99)))),
        'programs': program,
    }
    return {k: (30 if k == 'programs' else 250, f) for k, f in out.items()}


def growing(s, least): return all(b >= a + least for a, b in zip(s[1:], s[2:]))


def alive():
    n = 0
    for o in gc.get_objects():
        if (getattr(type(o), '__module__', None) or '').split('.')[0] == 'melodia': n += 1
    return n


def rec_keep(seed, share):
    rng = stdlib_random.Random(seed)
    stdlib_random.seed(seed)
    K = kinds(rng)
    out = []
    tracemalloc.start(1)
    for k in sorted(K)[share::8]:
        calls, f = K[k]
        sizes, objects, n = [], [], 0
        while len(sizes) < MOST:
            for _ in range(calls):
                n += 1
                f(n)
            gc.collect()
            gc.collect()
            sizes.append(tracemalloc.get_traced_memory()[0])
            objects.append(alive())
            # what grows is watched for longer: it may come to an end
            if len(sizes) >= RUNS and not growing(sizes, 3 * calls) and not growing(objects, (calls + 99) // 100): break
        out.append({'kind': k, 'calls': calls, 'sizes': sizes, 'objects': objects})
    return out


def run_c34(run):
    lines = ['INIT Init', 'NEXT Next', 'INVARIANT Inv', 'CHECK_DEADLOCK FALSE']
    for v in ('none', 'recent', 'table', 'weak'): run.model('MC_Keep', lines, env={'VARIANT': v, 'STEPS': '11' if THOROUGH else '9'}, workers=8)
    for v, what in (('all', 'all answers kept'), ('failed', 'what failed is kept'), ('holder', 'an answer kept for every call by what is in use')):
        run.control('MC_Keep', lines, {'VARIANT': v, 'STEPS': '8'}, what)
    recs = []
    for rnd in range(6 if THOROUGH else 1):
        with ThreadPoolExecutor(8) as ex:
            recs += sum(ex.map(lambda x: in_child(rec_keep, SEED * 100 + rnd * 10 + x, x, seconds=800), range(8)), [])
    run.judge('T_Keep', recs, sample=1)
    return run.finish('model_checking', 'some forty kinds of calls, each made thousands of times on ever new values that are dropped; memory and objects of the library alive are counted after each of seven or more runs; '
                      'nontrivial: runs of at least fifty calls')
