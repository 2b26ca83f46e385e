"""Drivers for C12..C20 and C24: MIDI."""
import io
from fractions import Fraction
from core import *
from props_core import fr, nv, lib, smf
from core import big, sint

LEVELS = [k / 127.0 for k in range(128)]


def midi():
    import melodia.io.midi as m
    return m


# ------------------------------------------------------------------ tracks and settings
# a track: (sig pair, [(position pair, pitch, duration pair, velocity), ...]); settings: dict(ppq, ch, mc, bpm)

def build(t):
    c = lib()
    sig, ents = t
    tr = c.Track(signature=tuple(sig))
    for at, p, d, v in ents:
        tr.add(c.Note(p, tuple(d), v), tuple(at))
    return tr


def tv(t):
    sig, ents = t
    return {'sig': fr(sig), 'l': [dict(nv((p, d, v)), at=fr(at)) for at, p, d, v in ents]}


def cv(cfg):
    return {'ppq': cfg['ppq'], 'ch': cfg['ch'], 'mc': sint(cfg['mc']), 'bpm': p_num(cfg['bpm'])}


def writer(cfg):
    return midi().MIDIWriter(pulses_per_quarter=cfg['ppq'], middle_c=cfg['mc'], bpm=cfg['bpm'], channel=cfg['ch'])


# Ways of using the library that must make no difference: a new writer or reader or one used before (also after a
# failure), middle C in any form, a file object or bytes.  Which one a case uses depends on its number only.
_writers, _readers = {}, {}


def note_name(p):
    """A spelling of pitch p made here, not by the library."""
    names = ['C', 'C#', 'D', 'Eb', 'E', 'F', 'F#', 'G', 'Ab', 'A', 'Bb', 'B']
    return names[p % 12] + str(p // 12)


def form_of(mc, i):
    return mc if i % 3 == 0 or (i % 3 == 2 and not -10 ** 6 < mc < 10 ** 6) else lib().Tone(mc) if i % 3 == 1 else note_name(mc)


def a_writer(cfg, i):
    key = (cfg['ppq'], cfg['mc'], cfg['bpm'], cfg['ch'])
    if i % 2 == 0 or key not in _writers:
        w = midi().MIDIWriter(pulses_per_quarter=cfg['ppq'], middle_c=form_of(cfg['mc'], i // 2), bpm=cfg['bpm'], channel=cfg['ch'])
        _writers.setdefault(key, w)
        return w
    return _writers[key]


def a_reader(mc, i):
    if i % 2 == 0 or mc not in _readers:
        r = midi().MIDIReader(middle_c=form_of(mc, i // 2))
        _readers.setdefault(mc, r)
        return r
    return _readers[mc]


def write_bytes(w, tr, i):
    if i % 3 == 0: return w.dumps(tr)
    f = io.BytesIO() if i % 3 == 1 else OnlyWrite()
    w.dump(tr, f)
    return f.getvalue()


def read_bytes(r, b, chan, i):
    kw = {} if chan == -1 else {'channel': chan}
    if i % 3 == 0: return r.loads(b, **kw)
    return r.load(io.BytesIO(b) if i % 3 == 1 else OnlyRead(b), **kw)


PPQS = [1, 2, 3, 5, 7, 12, 24, 48, 96, 100, 120, 127, 128, 192, 240, 255, 256, 257, 384, 480, 960, 1000, 1920, 4096, 8191, 8192, 16383,
        16384, 20000, 32766, 32767]
BPMS = [120.0, 120, 60, 60.0, 90.5, 97.3, 140, 4.0, 200.25, 33.333, 3.6, 3.5763, 240, 1000.0, 59.999, 128, 77, 0.1 + 120, 59999999.0, 60000000]


def settings(rng, simple=False):
    if simple: return {'ppq': 96, 'ch': 0, 'mc': 36, 'bpm': 120.0}
    return {'ppq': rng.choice(PPQS) if rng.random() < .8 else rng.randrange(1, 32768), 'ch': rng.choice([0, 0, 9, 15, rng.randrange(16)]),
            'mc': rng.choice([36, 36, 48, 60, 0, -12, 37, rng.randrange(-200, 200), 10 ** 6, -(1 << 40)]),
            'bpm': rng.choice(BPMS) if rng.random() < .8 else round(rng.uniform(4, 400), rng.choice([0, 1, 3, 9]))}


def level_vel(rng):
    """A velocity on which the level is beyond doubt."""
    k = rng.random()
    if k < .5: return LEVELS[rng.randrange(1, 128)]
    if k < .6: return rng.choice([1.0, 1, 0.5, 0.75, LEVELS[1], LEVELS[126]])
    j = rng.randrange(1, 127)
    return (j + rng.uniform(.01, .99)) / 127


def sig_of(rng, wild=False):
    k = rng.random()
    if k < .3: return (4, 4)
    if k < .8: return rng.choice([(3, 4), (6, 8), (7, 8), (5, 4), (2, 2), (12, 8), (1, 1), (255, 1), (255, 256), (1, 128), (13, 16), (128, 64), (8, 8)])
    return (rng.randrange(1, 256), 1 << rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 31, 64, 255, rng.randrange(256)]))


def rep(rng, f):
    """Another pair for the same fraction now and then."""
    if rng.random() < .3:
        j = rng.choice([1, 2, 5])
        return (f[0] << j, f[1] << j)
    return f


def reduce(n, d):
    while n % 2 == 0 and d % 2 == 0 and d > 1: n, d = n // 2, d // 2
    return (n, d)


def grid_step(ppq):
    """The finest step that is a whole number of ticks and a multiple of 1/16384, as a denominator."""
    d = 1
    while d < 16384 and (4 * ppq) % (d * 2) == 0: d *= 2
    return d


def grid_track(rng, cfg, n, clean=True, finer=None):
    """Notes on a grid: per-pitch lanes with abutting, zero-length and spaced notes."""
    den = finer or grid_step(cfg['ppq'])
    if rng.random() < .4 and not finer: den = min(den, rng.choice([1, 2, 4, 8]))
    lo, hi = cfg['mc'] - 60, cfg['mc'] + 67
    pitches = sorted({rng.choice([lo, hi, cfg['mc'], cfg['mc'] + 1, rng.randrange(lo, hi + 1)]) for _ in range(rng.choice([1, 1, 2, 3, 6]))})
    lanes = {p: rng.choice([0, 0, rng.randrange(0, 8)]) for p in pitches}
    limit = (1 << 28) * den // (4 * cfg['ppq']) - 1
    ents = []
    for _ in range(n):
        p = rng.choice(pitches)
        at = lanes[p] + rng.choice([0, 0, 0, 1, 2, rng.randrange(0, 5 * den + 1)])
        if rng.random() < .02: at += rng.choice([127, 128, 16383, 16384, 1 << 21, limit // 2])
        d = rng.choice([0, 1, 1, 1, 2, 3, 4, den, rng.randrange(0, 4 * den + 1)])
        if at + d >= limit: continue
        lanes[p] = at + d
        if not clean and rng.random() < .5: lanes[p] = max(0, at - rng.randrange(3))
        ents.append((rep(rng, reduce(at, den)), p, rep(rng, reduce(d, den)), level_vel(rng)))
    if not clean:
        for _ in range(rng.choice([0, 1, 2])):
            if ents: ents.append(rng.choice(ents))
        if rng.random() < .3 and ents:
            i = rng.randrange(len(ents)); a, p, d, v = ents[i]; ents[i] = (a, p, d, rng.choice([0.0, 0.001, 0.007]))
    order = list(ents)
    if rng.random() < .7: rng.shuffle(order)
    return (sig_of(rng), order)


def edge_track(rng, cfg, n):
    """Times next to tick boundaries, closer than floating point resolves, and far from zero."""
    ents = []
    lo, hi = cfg['mc'] - 60, cfg['mc'] + 67
    for _ in range(n):
        def time(limit):
            m = rng.choice([15, 20, 30, 52, 53, 54, 60, 64, 90, 130])
            k = rng.choice([0, 1, 2, rng.randrange(1, 500), rng.randrange(limit)])
            x = (k << m) // (4 * cfg['ppq']) + rng.choice([-2, -1, 0, 1, 2])
            return reduce(max(0, x), 1 << m)
        ents.append((rep(rng, time(1 << 26)), rng.randrange(lo, hi + 1), rep(rng, time(rng.choice([10, 1 << 26]))), level_vel(rng)))
    return (sig_of(rng), ents)


def off_track(rng, cfg, n, clean=True):
    if clean is False and rng.random() < .4: return edge_track(rng, cfg, n)
    den = 1 << rng.choice([3, 7, 10, 14, 15, 16, 20, 33, 60])
    return grid_track(rng, cfg, n, clean, finer=den)


def far_track(rng, cfg, spoil=None):
    """Pauses up to the most a delta time can say, so that times go far beyond 2^28 pulses; spoil: one pause is
    that much longer than the most."""
    den = grid_step(cfg['ppq'])
    per = 4 * cfg['ppq'] // den                   # pulses per step
    most = ((1 << 28) - 1) // per                 # steps per pause
    at, ents, n = 0, [], rng.choice([1, 2, 3, 5])
    bad = rng.randrange(n) if spoil else -1
    where = rng.choice(['before', 'within'])
    for i in range(n):
        def pause(b): return most + spoil if b else rng.choice([most, most, most - 1, rng.randrange(most), 1 + rng.randrange(100)])
        at += pause(i == bad and where == 'before')
        d = pause(i == bad and where == 'within')
        ents.append((reduce(at, den), cfg['mc'] + rng.randrange(-60, 68), reduce(d, den), level_vel(rng)))
        at += d
    if rng.random() < .5: rng.shuffle(ents)
    return (sig_of(rng), ents)


def far_cases(rng, n, spoil=False):
    out = []
    for _ in range(n):
        cfg = settings(rng)
        out.append((cfg, far_track(rng, cfg, rng.choice([1, 1, 2, 1000, 1 << 40]) if spoil else None)))
    return out


def small_tracks(rng, n):
    """Tracks over a tiny box of positions and durations around one tick, with few pitches."""
    out = []
    for _ in range(n):
        cfg = {'ppq': rng.choice([1, 1, 2, 3, 96, 256]), 'ch': rng.choice([0, 15]), 'mc': 36, 'bpm': 120.0}
        den = 4 * rng.choice([1, 2, 4])
        lanes, ents = {}, []
        for _ in range(rng.choice([1, 2, 2, 3, 3, 4])):
            p = rng.choice([36, 36, 37])
            at = lanes.get(p, 0) + rng.choice([0, 0, 1, 2, 3])
            d = rng.choice([0, 1, 2, 3, 4])
            lanes[p] = at + d
            ents.append((reduce(at, den), p, reduce(d, den), LEVELS[rng.choice([1, 64, 127])]))
        rng.shuffle(ents)
        out.append((((4, 4)), ents))
        out[-1] = (cfg, out[-1])
    return out


def sized(rng): return rng.choice([0, 1, 2, 2, 3, 4, 6, 9, 14, 25])


def writable_cases(run, n, off=True):
    rng = run.rng
    cases = [(c, t) for c, t in small_tracks(rng, n // 4)]
    for _ in range(n):
        cfg = settings(rng)
        f = grid_track if rng.random() < .5 or not off else off_track
        cases.append((cfg, f(rng, cfg, sized(rng), clean=rng.random() < .7)))
    for _ in range(n // 4):
        cfg = settings(rng)
        cases.append((cfg, edge_track(rng, cfg, rng.choice([1, 2, 3, 6]))))
    # every channel, every MIDI pitch, every level, the resolutions and sizes at which encodings change length
    for ch in range(16):
        cases.append(({'ppq': 96, 'ch': ch, 'mc': 36, 'bpm': 120.0}, ((4, 4), [((0, 1), 36 + ch, (1, 4), 1.0)])))
    cases.append(({'ppq': 480, 'ch': 3, 'mc': 60, 'bpm': 100}, ((3, 4), [((p, 16), p, (1, 16), LEVELS[p or 1]) for p in range(128)])))
    cases.append(({'ppq': 24, 'ch': 3, 'mc': 60, 'bpm': 100}, ((3, 4), [((0, 16), p, (p, 16), 1.0) for p in range(128)])))
    for ppq in PPQS:
        cases.append(({'ppq': ppq, 'ch': 1, 'mc': 36, 'bpm': 120.0}, ((6, 8), [((0, 1), 40, (1, 4), 0.5), ((1, 4), 40, (3, 8), 0.5), ((5, 8), 41, (9, 4), 1.0)])))
    for ticks in [1, 63, 64, 126, 127, 128, 129, 255, 256, 8191, 8192, 16383, 16384, 16385, 65535, 65536, 2097150, 2097151, 2097152, 2097153, 1 << 24, (1 << 24) + 1,
                  (1 << 27) - 1, (1 << 28) - 2]:
        # gaps of exactly so many ticks: one tick is 1/4 at one pulse per quarter
        cases.append(({'ppq': 1, 'ch': 0, 'mc': 36, 'bpm': 120.0}, ((4, 4), [((ticks, 4), 40, (0, 1), 1.0)])))
        cases.append(({'ppq': 1, 'ch': 0, 'mc': 36, 'bpm': 120.0}, ((4, 4), [((0, 4), 40, (ticks, 4), 1.0)])))
    for bpm in BPMS:
        cases.append(({'ppq': 96, 'ch': 0, 'mc': 36, 'bpm': bpm}, ((4, 4), [((0, 1), 40, (1, 4), 1.0)])))
    for e in range(0, 256, 1 if THOROUGH else 9):
        cases.append(({'ppq': 96, 'ch': 0, 'mc': 36, 'bpm': 90}, ((rng.randrange(256), 1 << e), [((0, 1), 40, (1, 4), 1.0)])))
    for nn in range(0, 256, 1 if THOROUGH else 5):
        cases.append(({'ppq': 96, 'ch': 0, 'mc': 36, 'bpm': 90}, ((nn, 4), [((0, 1), 40, (1, 4), 1.0)])))
    for v in [0, 0.0, 1e-9, 1e-300, 0.003, 0.0078, 0.008, 0.5, 0.996, 0.9999, 1, 1.0] + LEVELS:
        cases.append(({'ppq': 96, 'ch': 2, 'mc': 36, 'bpm': 90}, ((4, 4), [((0, 1), 40, (1, 4), v)])))
    # chunk lengths around 127, 255, 256, 65535 bytes
    for k in [14, 15, 16, 31, 32, 33, 40] + ([6000, 8180, 8190, 8200, 9000] if THOROUGH else [1500, 8200]):
        cases.append(({'ppq': 96, 'ch': 2, 'mc': 36, 'bpm': 90}, ((4, 4), [((i, 16), (i * 5) % 97, (1, 16), 0.5) for i in range(k)])))
    return cases + far_cases(rng, n // 10 + 5)


def rec_dump(cases):
    out = []
    for i, (cfg, t) in enumerate(cases):
        def f():
            # a file object that notes what reaches it, also when writing fails
            w = a_writer(cfg, i)
            tr = build(t)
            if i % 7 == 3: list(tr), len(tr)
            w.dump(tr, buf)
            return buf.getvalue()
        buf = io.BytesIO() if i % 5 else OnlyWrite()
        ob = observe(f, o_bytes)
        c = dict(tv(t), k='dump', cfg=cv(cfg), obs=ob, left=len(buf.getvalue()) if ob['t'] == 'err' else 0)
        c['w'] = len(t[1]) // 2
        out.append(c)
    return out


def run_c12(run):
    cases = models_midi(run)
    run.judge('T_Midi', in_child(rec_dump, cases + writable_cases(run, 9000 if THOROUGH else 900)))
    return run.finish('model_checking', 'tracks over all resolutions, channels, pitches, levels, signatures and tempi at their boundaries, gaps of 1..2^28-2 pulses, '
                      'up to %d notes, clean and overlapping; the bytes are parsed by the specification; nontrivial: at least one note' % (8200 if THOROUGH else 1500))


def run_c13(run):
    cases = models_midi(run)
    run.judge('T_Midi', in_child(rec_dump, cases + writable_cases(run, 9000 if THOROUGH else 900)))
    return run.finish('model_checking', 'as C12; the events found by the specification are compared with those the track demands; nontrivial: at least one note')


# ------------------------------------------------------------------ C14
def rec_c14(ctors, cases):
    out = []
    m = midi()
    for ppq, ch in ctors:
        out.append({'k': 'ctor', 'ppq': sint(ppq), 'ch': sint(ch), 'obs': observe(lambda: m.MIDIWriter(pulses_per_quarter=ppq, channel=ch))})
    return out + rec_dump(cases)


def run_c14(run):
    rng = run.rng
    models_midi(run)
    vals = [-32768, -256, -1, 0, 1, 2, 255, 256, 32766, 32767, 32768, 32769, 65535, 65536, 1 << 31, 1 << 40, -(1 << 40)]
    chans = [-16, -1, 0, 1, 7, 14, 15, 16, 17, 255, 256, 1 << 40, -(1 << 40)]
    ctors = [(p, c) for p in vals for c in chans] + [(96, c) for c in range(-3, 20)]
    ctors += [(p, 0) for p in (range(0, 32770) if THOROUGH else rng.sample(range(0, 32770), 300))]
    cases = []
    # every resolution is usable
    for ppq in (range(1, 32768, 3) if THOROUGH else PPQS + rng.sample(range(1, 32768), 200)):
        cases.append(({'ppq': ppq, 'ch': rng.randrange(16), 'mc': 36, 'bpm': 120.0}, (sig_of(rng), [((rng.randrange(9), 8), 36 + rng.randrange(9), (1, 8), 0.5)])))
    for _ in range(6000 if THOROUGH else 700):
        cfg = settings(rng)
        sig, ents = grid_track(rng, cfg, sized(rng), clean=rng.random() < .5) if rng.random() < .6 else off_track(rng, cfg, sized(rng))
        cases.append((cfg, (sig, ents)))
        # spoil one thing
        k = rng.randrange(4)
        lo, hi = cfg['mc'] - 60, cfg['mc'] + 67
        if k == 0 or k == 1:
            bad = rng.choice([lo - 1, hi + 1, lo - 1 - rng.randrange(300), hi + 1 + rng.randrange(300), hi + 129, lo - 128, lo - 10 ** 9, hi + (1 << 70)])
            e = ((rng.randrange(40), 8), bad, (rng.choice([0, 1, 2]), 8), rng.choice([0.0, 0.5, 1.0]))
            i = rng.randrange(len(ents) + 1)
            cases.append((cfg, (sig, ents[:i] + [e] + ents[i:])))
        elif k == 2:
            cases.append((cfg, (rng.choice([(256, 4), (257, 1), (1000, 8), (1 << 40, 2), (65536, 16), (4, 1 << 256), (3, 1 << 300)]), ents)))
        else:
            cases.append((dict(cfg, bpm=rng.choice([3.5, 3, 1, 0.5, 1e-3, 3.57, 2])), (sig, ents)))
    cases += far_cases(rng, 600 if THOROUGH else 60) + far_cases(rng, 1200 if THOROUGH else 150, spoil=True)
    for p in range(-3, 132):
        cases.append(({'ppq': 96, 'ch': 0, 'mc': 60, 'bpm': 120.0}, ((4, 4), [((0, 1), 64, (1, 4), 1.0), ((1, 4), p, (1, 4), 1.0)])))
    for nn in list(range(250, 262)):
        cases.append(({'ppq': 96, 'ch': 0, 'mc': 60, 'bpm': 120.0}, ((nn, 4), [])))
    run.judge('T_Midi', in_child(rec_c14, ctors, cases))
    return run.finish('model_checking', 'constructor arguments inside, at and outside the limits; tracks and settings that fit, and the same with one tone, the time signature '
                      'or the tempo spoiled at a random place; nontrivial: settings or track refused')


# ------------------------------------------------------------------ C15, C16
def rec_rt(cases):
    out = []
    for i, (cfg, t) in enumerate(cases):
        st = {}
        def f():
            st['tr'] = build(t)
            st['b'] = write_bytes(a_writer(cfg, i), st['tr'], i // 2)
            st['back'] = read_bytes(a_reader(cfg['mc'], i), st['b'], -1, i // 3)
            return st['back']
        ob = observe(f, o_track)
        c = dict(tv(t), k='rt', cfg=cv(cfg), obs=ob, exact=1 if all(v in LEVELS for _, _, _, v in t[1]) else 0,
                 eq={'t': 'none'}, again={'t': 'none'})
        if ob['t'] == 'track':
            c['eq'] = observe(lambda: st['back'] == st['tr'], o_bool)
            c['again'] = observe(lambda: a_writer(cfg, i // 2).dumps(st['back']) == st['b'], o_bool)
        c['w'] = len(t[1])
        out.append(c)
    return out


def run_c15(run):
    rng = run.rng
    cases = models_midi(run, 'rt') + small_tracks(rng, 3000 if THOROUGH else 300)
    for _ in range(9000 if THOROUGH else 800):
        cfg = settings(rng)
        cases.append((cfg, grid_track(rng, cfg, sized(rng))))
    for cfg, t in writable_cases(run, 10, off=False): cases.append((cfg, t))
    n = 2000 if THOROUGH else 400
    cases.append(({'ppq': 960, 'ch': 5, 'mc': 48, 'bpm': 99}, ((7, 8), [((i * 3, 16), 48 + (i * 7) % 40, (3, 16), LEVELS[1 + i % 127]) for i in range(n)])))
    run.judge('T_Midi', in_child(rec_rt, cases))
    return run.finish('model_checking', 'tracks on the grid enumerated by TLC and seeded ones over all resolutions and channels with abutting, simultaneous and zero-length notes; '
                      'nontrivial: in the domain of the property and not empty')


def run_c16(run):
    rng = run.rng
    cases = models_midi(run)
    for _ in range(9000 if THOROUGH else 900):
        cfg = settings(rng)
        cases.append((cfg, off_track(rng, cfg, sized(rng))))
    for _ in range(2000 if THOROUGH else 250):
        cfg = settings(rng)
        cases.append((cfg, edge_track(rng, cfg, rng.choice([1, 1, 2, 3]))))
    cases += far_cases(rng, 500 if THOROUGH else 60)
    # abutting notes around single ticks and around 1/16384
    for _ in range(3000 if THOROUGH else 400):
        ppq = rng.choice([1, 3, 5, 7, 96, 100, 480, 1000, 4095, 4096, 4097, 9000, 32767])
        cfg = {'ppq': ppq, 'ch': 0, 'mc': 36, 'bpm': 120.0}
        den = 1 << rng.choice([4, 8, 14, 15, 16, 17, 18])
        at, ents = rng.randrange(0, 40), []
        for _ in range(rng.choice([1, 2, 3, 5, 8])):
            d = rng.choice([0, 1, 1, 2, 3, max(1, den // (4 * ppq)), max(1, den // (4 * ppq)) + 1, rng.randrange(den)])
            ents.append((reduce(at, den), 36 + rng.choice([0, 0, 1]), reduce(d, den), level_vel(rng)))
            at += d + rng.choice([0, 0, 0, 1, 2])
        rng.shuffle(ents)
        cases.append((cfg, ((4, 4), ents)))
    run.judge('T_Midi', in_child(rec_rt, cases))
    return run.finish('model_checking', 'seeded tracks with times up to 1/2^60 fine at all resolutions, and abutting notes around one tick and 1/16384; nontrivial: in the domain and off the grid')


# ------------------------------------------------------------------ reading: C17, C18, C19
def vlq(n):
    out = [n & 127]
    n >>= 7
    while n:
        out.append(128 | (n & 127))
        n >>= 7
    return bytes(reversed(out))


def vlq_pad(n, width):
    b = vlq(n)
    while len(b) < width: b = b'\x80' + b
    return b


def gen_events(rng, n, st=None, valid=True):
    """A random track body as a list of byte strings (delta + event)."""
    out, running = [], None
    pitches = rng.sample(range(128), rng.choice([1, 1, 2, 3, 5])) if rng.random() < .9 else list(range(128))
    chans = rng.sample(range(16), rng.choice([1, 1, 2, 3, 16]))
    if rng.random() < .1: pitches += [0, 127]
    deltas = rng.choice([[0], [0, 0, 0, 1, 24, 96], [0, 1, 127, 128, 300], [0, 16383, 16384, 2097151, 2097152], list(range(0, 200))])
    for _ in range(n):
        delta = rng.choice(deltas)
        if rng.random() < .01: delta = rng.choice([(1 << 28) - 1, (1 << 27) + 5])
        d = vlq(delta)
        if rng.random() < .05: d = vlq_pad(delta, 4)
        k = rng.random()
        c = rng.choice(chans)
        def channel(status, data):
            nonlocal running
            if running == status and rng.random() < .7: return bytes(data)
            running = status
            return bytes([status]) + bytes(data)
        if k < .36: e = channel(0x90 | c, [rng.choice(pitches), rng.choice([0, 1, 64, 100, 127, rng.randrange(128)])])
        elif k < .62: e = channel(0x80 | c, [rng.choice(pitches), rng.choice([0, 64, 127, rng.randrange(128)])])
        elif k < .78:
            s = rng.choice([0xA0, 0xB0, 0xC0, 0xD0, 0xE0]) | c
            e = channel(s, [rng.randrange(128) for _ in range(1 if s >> 4 in (12, 13) else 2)])
        elif k < .86:
            running = None
            kind = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 0x21, 0x51, 0x54, 0x59, 0x7F, rng.choice([x for x in range(128) if x not in (0x2f, 0x20, 0x58)])])
            body = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 9, 127, 128, 200] if rng.random() < .1 else [0, 1, 2, 3, 4, 5, 9])))
            if rng.random() < .3: body = bytes(rng.choice([0x90, 0x3c, 0x40, 0xFF, 0x2F, 0x00, 0xF7, 0xF0]) for _ in body)
            e = b'\xff' + bytes([kind]) + vlq(len(body)) + body
        elif k < .91:
            running = None
            body = bytes(rng.choice([0x00, 0x7f, 0xf7, 0x90, 0x3c, 0x43, 0xff, 0x2f]) for _ in range(rng.choice([0, 1, 2, 3, 6, 10])))
            if rng.random() < .6 and body: body = body[:-1] + b'\xf7'
            e = bytes([rng.choice([0xF0, 0xF0, 0xF7])]) + vlq(len(body)) + body
        elif k < .955:
            running = None
            e = b'\xff\x58\x04' + bytes([rng.choice([0, 1, 3, 4, 6, 12, 255, rng.randrange(256)]), rng.choice([0, 1, 2, 2, 3, 4, 7, rng.randrange(256)]), 24, 8])
        elif k < .985:
            running = None
            e = b'\xff\x20\x01' + bytes([rng.choice(chans + [rng.randrange(16), rng.randrange(16), 200 if rng.random() < .1 else 3])])
        else:
            s = rng.choice([0xF1, 0xF2, 0xF3, 0xF6, 0xF8, 0xFA, 0xFB, 0xFC, 0xFE])
            running = None
            e = bytes([s]) + bytes(rng.randrange(128) for _ in range({0xF1: 1, 0xF2: 2, 0xF3: 1}.get(s, 0)))
        out.append(d + e)
    return out


def chunk(name, body): return name + len(body).to_bytes(4, 'big') + body
def header(div, fmt=0, ntr=1, extra=b''): return chunk(b'MThd', fmt.to_bytes(2, 'big') + ntr.to_bytes(2, 'big') + div.to_bytes(2, 'big') + extra)
EOT = b'\x00\xff\x2f\x00'


def valid_file(rng, n=None, evs=None):
    evs = evs if evs is not None else gen_events(rng, n)
    body = b''.join(evs) + vlq(rng.choice([0, 0, 1, 500])) + b'\xff\x2f\x00'
    div = rng.choice([1, 2, 24, 96, 96, 120, 127, 128, 255, 256, 480, 960, 4096, 32767, rng.randrange(1, 32768)])
    def junk():
        if rng.random() < .9: return b''
        name = rng.choice([b'XFIH', b'abcd', b'MTrK', b'mtrk', b'MThD', b'\x00\x00\x00\x00', b'RIFF'])
        return chunk(name, bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 7, 8, 30]))))
    return junk() + header(div, extra=b'' if rng.random() < .9 else b'\x00' * rng.choice([1, 4])) + junk() + chunk(b'MTrk', body) + junk()


def mc_of(rng): return rng.choice([36, 36, 36, 60, 48, 0, -7, rng.randrange(-300, 300)])


def rec_load(cases):
    out = []
    for i, (b, mc, chan) in enumerate(cases):
        b = bytes(b)
        def f():
            return read_bytes(a_reader(mc, i), b, chan, i // 2)
        out.append({'k': 'load', 'b': list(b), 'mc': sint(mc), 'chan': chan, 'obs': observe(f, o_track, seconds=10), 'w': len(b) // 12})
    return out


def mutants(rng, b, n):
    """Damaged variants of a valid file."""
    out = []
    for _ in range(n):
        x = bytearray(b)
        k = rng.randrange(9)
        if k == 0: x = x[:rng.randrange(len(x) + 1)]
        elif k == 1: x[rng.randrange(len(x))] = rng.randrange(256)
        elif k == 2: x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
        elif k == 3: del x[rng.randrange(len(x))]
        elif k == 4: x.insert(rng.randrange(len(x) + 1), rng.choice([0, 127, 128, 255, 0xF4, 0xFD, 0xF0, rng.randrange(256)]))
        elif k == 5: x = x + bytes(rng.randrange(256) for _ in range(rng.randrange(1, 12)))
        elif k == 6:
            i = rng.randrange(min(22, len(x))); x[i] = rng.choice([0, 1, 2, 255, 128, 127])
        elif k == 7:
            for _ in range(3): x[rng.randrange(len(x))] = rng.choice([0, 0x3c, 0x90, 0xff, 0x2f, 0x80, 0xf9, 0xf5])
        else:
            i = rng.randrange(len(x)); j = rng.randrange(len(x)); i, j = min(i, j), max(i, j); x = x[:i] + x[j:]
        out.append(bytes(x))
    return out


def fixed_bad():
    """Kinds of refusal named in the property."""
    body = bytes.fromhex('00903c4060803c40')
    good = chunk(b'MTrk', body + EOT)
    L = [b'', b'M', b'MThd', header(96), good, header(96)[:13], header(96) + good[:7], header(96) + good[:-1], chunk(b'MThd', b''), chunk(b'MThd', b'\0' * 5) + good,
         header(0) + good, header(0x8000) + good, header(0xE728) + good, header(96, fmt=1) + good, header(96, fmt=2) + good, header(96, fmt=0xFFFF) + good, header(96, ntr=0) + good,
         header(96, ntr=2) + good, header(96, ntr=256) + good, good + header(96), header(96) + chunk(b'MTrk', body), header(96) + chunk(b'MTrk', b''), header(96) + chunk(b'XXXX', body + EOT),
         header(96) + b'MTrk\xff\xff\xff\xff' + body, header(96) + b'MTrk\x00\x00\x00\x05' + body + EOT, header(96) + b'MTrk\x01\x00\x00\x0c' + body + EOT, b'\x00' * 14, b'RIFF' + b'\x00' * 30,
         header(96) + chunk(b'MTrk', b'\x00\x3c\x40' + EOT), header(96) + chunk(b'MTrk', b'\x00\xff\x01\x00\x00\x3c\x40' + EOT), header(96) + chunk(b'MTrk', b'\x00\xf0\x01\xf7\x00\x3c\x40' + EOT),
         header(96) + chunk(b'MTrk', b'\x00\x90\x3c\x40\x00\xff\x01\x00\x00\x3c\x00' + EOT), header(96) + chunk(b'MTrk', b'\x00\x90\x3c\x40\x00\xf7\x01\x00\x00\x3c\x00' + EOT)]
    for s in (0xF4, 0xF5, 0xF9, 0xFD):
        L.append(header(96) + chunk(b'MTrk', b'\x00' + bytes([s]) + EOT))
        L.append(header(96) + chunk(b'MTrk', body + b'\x00' + bytes([s]) + EOT))
    for kind, n in ((0x2f, 1), (0x2f, 127), (0x20, 0), (0x20, 2), (0x58, 0), (0x58, 3), (0x58, 5)):
        L.append(header(96) + chunk(b'MTrk', body + b'\x00\xff' + bytes([kind]) + bytes([n]) + b'\x01' * n + EOT))
    # lengths that run past the end of the track, in every place a length occurs
    for tail in (b'\x00\xff\x01\x7f', b'\x00\xff\x01\xff\xff\xff\x7f', b'\x00\xf0\x20\x01', b'\x00\xf7\xff\xff\x7f', b'\x00\xff', b'\x00\xff\x2f', b'\x00', b'\x80', b'\x80\x80\x80\x80\x80\x80', b'\x00\x90',
                 b'\x00\x90\x3c', b'\x00\xc0', b'\x00\xf2\x01', b'\x00\xff\x58\x04\x04\x02', b'\x00\xff\x20\x01', b'\x00\xff\x01', b'\x00\xff\x01\x80', b'\x00\x3c'):
        L.append(header(96) + chunk(b'MTrk', body + tail))
    # deep or long inputs
    L.append(header(96) + chunk(b'MTrk', b'\x80' * 3000 + b'\x00\x90\x3c\x40' + EOT))
    L.append(header(96) + chunk(b'MTrk', body * 400 + EOT))
    L.append(header(96) + chunk(b'MTrk', b'\x00\x90\x3c\x40' + b'\x01\x3c\x00\x00\x3c\x40' * 700 + EOT))
    return L


def large_files(ends=(EOT,)):
    """Valid files with very many or very long things to skip."""
    note = b'\x00\x90\x3c\x40', b'\x30\x80\x3c\x00'
    L = []
    def f(body, before=b'', after=b''):
        for e in ends: L.append(before + header(96) + before + chunk(b'MTrk', body + e) + after)
    n = 1500
    f(note[0] + b'\x01\xb0\x07\x40' * n + note[1])
    f(note[0] + b'\x01\xc3\x07' + b'\x01\x40' * n + note[1])
    f(note[0] + b'\x01\xff\x01\x00' * n + note[1])
    f(note[0] + b'\x01\xf0\x01\xf7' * n + note[1])
    f(note[0] + b'\x01\xff\x20\x01\x00' * n + note[1])
    f(note[0] + b'\x01\xfe' * n + note[1])
    f(note[0] + b'\x01\xff\x7f\x84\x80\x00' + b'\x2f' * 65536 + note[1])          # 65536 bytes in one event
    f(note[0] + b'\x01\xf0\x84\x80\x01' + b'\x90' * 65536 + b'\xf7' + note[1])
    f(note[0] + note[1], before=chunk(b'junk', b'') * n)
    f(note[0] + note[1], after=chunk(b'junk', b'MTrk') * n)
    f(note[0] + note[1], before=chunk(b'junk', b'MThd' * 16385))
    # many notes, one after the other, on one channel and on two
    f(b''.join(b'\x03\x93' + bytes([40 + i % 50, 1 + i % 127]) + b'\x05\x83' + bytes([40 + i % 50, 0]) for i in range(1200)))
    f(b''.join(b'\x03' + bytes([0x91 + i % 2, 60, 1 + i % 127]) + b'\x00' + bytes([0x92 - i % 2, 60, 0]) for i in range(1200)))
    # everything sounds at once
    f(b''.join(b'\x00' + bytes([0x90 | c]) + b''.join((b'' if p == 0 else b'\x00') + bytes([p, 1 + (p + c) % 127]) for p in range(128)) for c in range(16)) +
      b''.join(b'\x01' + bytes([0x80 | c]) + b''.join((b'' if p == 0 else b'\x00') + bytes([p, 0]) for p in range(128)) for c in range(16)))
    return L


def run_c17(run):
    rng = run.rng
    cases = []
    for b in large_files((b'', b'\x00\xff\x2f\x01\x00')): cases.append((b, 36, -1))
    for b in fixed_bad():
        cases += [(b, 36, -1), (b, 36, 0)]
    cases += [(b, 36, -1) for b in models_midi(run, 'bytes')]
    for _ in range(5000 if THOROUGH else 420):
        b = valid_file(rng, rng.choice([0, 1, 2, 4, 8, 14]))
        for x in mutants(rng, b, 7): cases.append((x, mc_of(rng), -1 if rng.random() < .85 else rng.choice([0, 3, 15, -2, -16, 16])))
    for _ in range(20000 if THOROUGH else 1500):
        # raw bytes, in the place of a whole file and of a track body
        n = rng.choice([0, 1, 4, 8, 14, 22, 40])
        alphabet = rng.choice([range(256), [0, 0x90, 0x80, 0x3c, 0x40], [0, 0xff, 0x2f, 0x58, 0x20, 1, 4], list(b'MThdrk\x00\x06\x01'), list(range(0x80, 0x100))])
        x = bytes(rng.choice(alphabet) for _ in range(n))
        if rng.random() < .5: x = header(rng.choice([1, 96, 32767])) + chunk(b'MTrk', x + (EOT if rng.random() < .6 else b''))
        cases.append((x, 36, -1))
    run.judge('T_Midi', in_child(rec_load, cases))
    return run.finish('model_checking', 'byte strings enumerated by TLC over the file automaton, every named refusal, damaged valid files (cut, flipped, inserted, spliced) and raw bytes; '
                      'nontrivial: the specification refuses the input or leaves it open')


def run_c18(run):
    rng = run.rng
    cases = [(b, mc_of(rng), -1) for b in models_midi(run, 'events')]
    cases += [(b, 36, -1) for b in large_files()]
    for _ in range(14000 if THOROUGH else 1800):
        cases.append((valid_file(rng, rng.choice([0, 1, 2, 4, 8, 14, 30, 60])), mc_of(rng), -1))
    # every status and meta kind between a note-on and its note-off, with and without running status after it
    for s in list(range(0x80, 0xF0)) + [0xF0, 0xF1, 0xF2, 0xF3, 0xF6, 0xF7, 0xF8, 0xFA, 0xFB, 0xFC, 0xFE]:
        n = {0xC: 1, 0xD: 1}.get(s >> 4, 2) if s < 0xF0 else {0xF1: 1, 0xF2: 2, 0xF3: 1}.get(s, 0)
        data = bytes([0x3c, 0x40][:n]) if s not in (0xF0, 0xF7) else b'\x02\x3c\xf7'
        e = b'\x05' + bytes([s]) + data
        cases.append((header(96) + chunk(b'MTrk', b'\x00\x95\x3c\x40' + e + (b'\x07' + data if s < 0xF0 else b'') + b'\x30\x85\x3c\x00' + EOT), 36, -1))
    for kind in range(128):
        if kind in (0x2f, 0x20, 0x58): continue
        for n in (0, 3, 130):
            cases.append((header(96) + chunk(b'MTrk', b'\x00\x95\x3c\x40\x09\xff' + bytes([kind]) + vlq(n) + b'\x2f' * n + b'\x30\x85\x3c\x00' + EOT), 36, -1))
    for lv in range(128):
        cases.append((header(96) + chunk(b'MTrk', b'\x00\x90' + bytes([lv, lv]) + b'\x30\x80' + bytes([lv, 127 - lv]) + EOT), 36, -1))
    for d in [1, 2, 3, 4095, 4096, 4097, 8191, 12288, 16384, 32766, 32767] + (list(range(1, 32767, 11)) if THOROUGH else rng.sample(range(1, 32768), 100)):
        t = rng.randrange(1, 1 << rng.choice([7, 14, 21, 28]))
        cases.append((header(d) + chunk(b'MTrk', vlq(t) + b'\x90\x3c\x40' + vlq(rng.randrange(1, 4 * d)) + b'\x80\x3c\x40' + EOT), 36, -1))
    run.judge('T_Midi', in_child(rec_load, cases))
    return run.finish('model_checking', 'event sequences enumerated by TLC (running status, note pairing, skipped events) and seeded valid files of up to 60 events of every kind, all divisions; '
                      'nontrivial: the file denotes at least one note')


def run_c19(run):
    rng = run.rng
    cases = []
    for b in models_midi(run, 'channels'):
        for ch in (-1, 0, 1, 2): cases.append((b, 36, ch))
    for _ in range(6000 if THOROUGH else 600):
        b = valid_file(rng, rng.choice([0, 2, 5, 10, 20, 40]))
        for ch in [-1] + rng.sample(range(16), 3 if not THOROUGH else 6) + ([rng.randrange(-16, -1)] if rng.random() < .1 else []): cases.append((b, mc_of(rng), ch))
    # every channel holds a note of its own, with a signature of its own or not
    for ch in range(16):
        for withsig in (0, 1, 2):
            evs = []
            if withsig == 2: evs.append(b'\x00\xff\x58\x04\x03\x02\x18\x08')
            if withsig: evs.append(b'\x00\xff\x20\x01' + bytes([ch]) + b'\x00\xff\x58\x04' + bytes([ch + 1, ch % 5]) + b'\x18\x08')
            for c2 in range(16): evs.append(b'\x01' + bytes([0x90 | c2, 60 - (c2 % 3), c2 + 1]))
            for c2 in range(16): evs.append(b'\x02' + bytes([0x80 | c2, 60 - (c2 % 3), 0]))
            b = header(96) + chunk(b'MTrk', b''.join(evs) + EOT)
            cases += [(b, 36, ch), (b, 36, -1), (b, 36, (ch + 5) % 16), (b, 36, 16 + ch), (b, 36, 128 + ch), (b, 36, 256 + ch), (b, 36, ch - 16) if ch != 15 else (b, 36, -17)]
    run.judge('T_Midi', in_child(rec_load, cases))
    return run.finish('model_checking', 'files over all mixes of channels, prefixes and signatures, read merged and by channel, present or absent; nontrivial: notes on at least two channels')


# ------------------------------------------------------------------ C20
class OutputGaveUp(Exception):
    """An error of the output's own."""


ERRORS = [lambda: OSError(28, 'No space left on device'), lambda: BrokenPipeError(32, 'Broken pipe'), lambda: ConnectionResetError(104, 'Connection reset by peer'), lambda: TimeoutError(110, 'timed out'),
          lambda: InterruptedError(4, 'Interrupted'), lambda: BlockingIOError(11, 'try again'), lambda: ValueError('I/O operation on closed file'), lambda: MemoryError(), lambda: RuntimeError('reentrant call'),
          lambda: io.UnsupportedOperation('write'), lambda: OutputGaveUp('enough'), lambda: PermissionError(13, 'Permission denied'), lambda: EOFError()]


class Faulty(io.RawIOBase):
    """Accepts some bytes, then fails every time."""
    def __init__(self, room, err=ERRORS[0]): self.room, self.got, self.err = room, bytearray(), err
    def writable(self): return True
    def write(self, b):
        b = bytes(b)
        k = min(len(b), self.room - len(self.got))
        self.got += b[:k]
        if k < len(b) or self.room == len(self.got): raise self.err()
        return k


class FaultyPlain(io.RawIOBase):
    """The same, failing before taking anything of the call."""
    def __init__(self, room, err=ERRORS[0]): self.room, self.got, self.err = room, bytearray(), err
    def writable(self): return True
    def write(self, b):
        b = bytes(b)
        if len(self.got) + len(b) > self.room: raise self.err()
        self.got += b
        return len(b)


class Snapshots(io.BytesIO):
    """A file that keeps what it contained at every moment at which the process may have been killed."""
    def __init__(self):
        super().__init__()
        self.snaps = [b'']
    def write(self, b):
        b, old, at = bytes(b), self.getvalue(), self.tell()
        for k in range(len(b)):
            self.snaps.append((old.ljust(at, b'\0'))[:at] + b[:k] + old[at + k:])
        n = super().write(b)
        self.snaps.append(self.getvalue())
        return n
    def writelines(self, ls):
        for l in ls: self.write(l)
    def truncate(self, size=None):
        n = super().truncate(size)
        self.snaps.append(self.getvalue())
        return n


def outcome(b):
    o = observe(lambda: midi().loads(b), lambda t: {'t': 'track'}, seconds=10)
    return o['e'] if o['t'] == 'err' else o['t']


def rec_c20(cases, faults):
    out = []
    for cfg, t in cases:
        b = observe(lambda: writer(cfg).dumps(build(t)), o_bytes)
        if b['t'] != 'bytes':
            out.append({'k': 'cut', 'b': [0], 'cuts': [b['t'], b['t']]})
            continue
        b = bytes(b['b'])
        out.append({'k': 'cut', 'b': list(b), 'cuts': [outcome(b[:k]) for k in range(len(b) + 1)], 'w': len(b) // 8})
        # what is in a file that supports everything, after each byte of each write
        f = Snapshots()
        ob = observe(lambda: writer(cfg).dump(build(t), f))
        final = f.getvalue()
        snaps = [x for x in f.snaps if x != final]
        out.append({'k': 'snaps', 'obs': ob, 'n': len(snaps), 'cuts': sorted({outcome(x) for x in snaps}), 'whole': outcome(final), 'nr': len(out)})
    for cfg, t, kind, share in faults:
        whole = len(writer(cfg).dumps(build(t)))
        room = min(whole, int(share * whole)) if share >= 0 else max(0, whole + int(share))
        err = ERRORS[0] if len(out) % 3 == 0 else ERRORS[len(out) % len(ERRORS)]
        f = Faulty(room, err) if kind == 'raw' else FaultyPlain(min(room, whole - 1), err)
        ob = observe(lambda: writer(cfg).dump(build(t), f))
        out.append({'k': 'fault', 'obs': ob, 'e': error_name(err()), 'whole': whole, 'got': len(f.got), 'after': outcome(bytes(f.got)), 'nr': len(out)})
    return out


def run_c20(run):
    rng = run.rng
    cases, faults = models_midi(run, 'rt'), []
    if not THOROUGH: cases = cases[:60]
    for _ in range(1200 if THOROUGH else 130):
        cfg = settings(rng)
        cases.append((cfg, (grid_track if rng.random() < .5 else off_track)(rng, cfg, rng.choice([0, 1, 2, 3, 5, 8, 14]), clean=rng.random() < .6)))
    # contents that look like chunk names or ends of track
    cases.append(({'ppq': 0x4d54, 'ch': 15, 'mc': 60, 'bpm': 120.0}, ((77, 4), [((0, 1), p, (1, 4), LEVELS[p]) for p in (77, 84, 104, 100, 114, 107, 47, 88)])))
    cases.append(({'ppq': 96, 'ch': 0, 'mc': 36, 'bpm': 120.0}, ((4, 4), [((i, 8), 40 + i % 5, (1, 8), 0.5) for i in range(90 if not THOROUGH else 600)])))
    for _ in range(4000 if THOROUGH else 500):
        cfg = settings(rng)
        faults.append((cfg, grid_track(rng, cfg, rng.choice([0, 1, 3, 8])), rng.choice(['raw', 'plain']), rng.choice([0.0, 0.1, rng.random(), rng.random(), -1, -2, -4, -5])))
    run.judge('T_Midi', in_child(rec_c20, cases, faults))
    return run.finish('fault_enumeration', 'every prefix of every written file read back, and outputs failing after every share of the bytes; all are nontrivial but outputs that took everything')


# ------------------------------------------------------------------ C24
class OnlyWrite(io.RawIOBase):
    """An output that cannot be read, sought or truncated, as a pipe."""
    def __init__(self): self.parts = []
    def writable(self): return True
    def getvalue(self): return b''.join(self.parts)
    def write(self, b):
        self.parts.append(bytes(b))
        return len(b)


class OnlyRead(io.RawIOBase):
    """An input that cannot be sought, as a pipe; it gives as much as is asked for."""
    def __init__(self, b): self.b, self.i = b, 0
    def readable(self): return True
    def read(self, n=-1):
        if n is None or n < 0: n = len(self.b)
        r = self.b[self.i:self.i + n]
        self.i += len(r)
        return r
    def readall(self): return self.read()
    def readinto(self, buf):
        r = self.read(len(buf))
        buf[:len(r)] = r
        return len(r)


def rec_c24(writes, reads, places, shifts):
    m, c = midi(), lib()
    out = []
    tmp = tempfile.mkdtemp(prefix='verif-c24-')
    try:
        other, other_bytes = c.Track(content=[(c.Note(40), (1, 4))]), b''
        for cfg, t in writes:
            tr = build(t)
            w = writer(cfg)
            outs = []
            def add(name, f): outs.append({'name': name, 'o': trim(observe(f, o_bytes))})
            def tofile(dump):
                f = io.BytesIO(); dump(f); return f.getvalue()
            def todisk(dump):
                p = os.path.join(tmp, 'x.mid')
                with open(p, 'wb') as f: dump(f)
                with open(p, 'rb') as f: return f.read()
            def toonly(dump):
                f = OnlyWrite(); dump(f); return b''.join(f.parts)
            add('writer.dumps', lambda: w.dumps(tr))
            add('writer.dump to memory', lambda: tofile(lambda f: w.dump(tr, f)))
            add('writer.dump to disk', lambda: todisk(lambda f: w.dump(tr, f)))
            add('writer.dump to an object with write only', lambda: toonly(lambda f: w.dump(tr, f)))
            add('writer.dumps again', lambda: w.dumps(tr))
            add('another writer', lambda: writer(cfg).dumps(tr))
            def usedbefore():
                # the same settings, used for other tracks, for one that cannot be written and for an output that fails
                w2 = writer(cfg)
                for f in (lambda: w2.dumps(other), lambda: w2.dump(tr, Faulty(20)), lambda: w2.dumps(build((cfg_sig, [((0, 1), cfg['mc'] + 300, (1, 4), 0.5)]))), lambda: w2.dumps(other)):
                    try: f()
                    except Exception: pass
                return w2.dumps(tr)
            cfg_sig = t[0]
            add('a writer used before', usedbefore)
            def grown():
                # the same track object, written once before all of it was there
                sig, ents = t
                tr2, k = build((sig, ents[:len(ents) // 2])), len(ents) // 2
                w.dumps(tr2)
                for at, p, d, v in ents[k:]: tr2.add(c.Note(p, tuple(d), v), tuple(at))
                return w.dumps(tr2)
            if len({Fraction(*at) for at, p, d, v in t[1]}) == len(t[1]): add('a track written before it was complete', grown)
            other = tr
            for form in (c.Tone(cfg['mc']), note_name(cfg['mc'])):
                add('middle C as %s' % type(form).__name__, lambda: m.MIDIWriter(pulses_per_quarter=cfg['ppq'], middle_c=form, bpm=cfg['bpm'], channel=cfg['ch']).dumps(tr))
            add('positional settings', lambda: m.MIDIWriter(cfg['ppq'], cfg['mc'], cfg['bpm'], cfg['ch']).dumps(tr))
            if cfg['ppq'] == 96 and cfg['mc'] == 36:
                add('module dumps', lambda: m.dumps(tr, bpm=cfg['bpm'], channel=cfg['ch']))
                add('module dumps positional', lambda: m.dumps(tr, cfg['bpm'], cfg['ch']))
                add('module dump to memory', lambda: tofile(lambda f: m.dump(tr, f, bpm=cfg['bpm'], channel=cfg['ch'])))
                add('module dump to disk', lambda: todisk(lambda f: m.dump(tr, f, cfg['bpm'], cfg['ch'])))
                add('default resolution and middle C', lambda: m.MIDIWriter(bpm=cfg['bpm'], channel=cfg['ch']).dumps(tr))
                if cfg['bpm'] == 120.0: add('default tempo', lambda: m.dumps(tr, channel=cfg['ch']))
                if cfg['ch'] == 0: add('default channel', lambda: m.dumps(tr, bpm=cfg['bpm']))
                if cfg['bpm'] == 120.0 and cfg['ch'] == 0:
                    add('all defaults', lambda: m.dumps(tr))
                    add('writer defaults', lambda: m.MIDIWriter().dumps(tr))
                    add('dump defaults', lambda: tofile(lambda f: m.dump(tr, f)))
            out.append({'k': 'agree', 'outs': outs, 'w': 3})
        for b, mc, ch in reads:
            outs = []
            def add(name, f): outs.append({'name': name, 'o': trim(observe(f, o_track))})
            r = m.MIDIReader(middle_c=mc)
            def kw(f): return f if ch is None else (lambda x: f(x, channel=ch))
            def fromdisk(load):
                p = os.path.join(tmp, 'y.mid')
                with open(p, 'wb') as f: f.write(b)
                with open(p, 'rb') as f: return load(f)
            def later(load):
                f = io.BytesIO(b'MThdjunk!' + b); f.seek(9)
                try: return load(f)
                finally:
                    if f.closed: raise Weird('the object read from was closed')
            add('reader.loads', lambda: kw(r.loads)(b))
            add('reader.load from memory', lambda: kw(r.load)(io.BytesIO(b)))
            add('reader.load from disk', lambda: fromdisk(kw(r.load)))
            add('reader.load from an object with read only', lambda: kw(r.load)(OnlyRead(b)))
            add('reader.load from the current position', lambda: later(kw(r.load)))
            def later_disk(load):
                p = os.path.join(tmp, 'z.mid')
                with open(p, 'wb') as f: f.write(b'MThd' * 3 + b)
                with open(p, 'rb') as f:
                    f.read(12)
                    return load(f)
            def later_raw(load):
                p = os.path.join(tmp, 'z.mid')
                with open(p, 'wb') as f: f.write(b + b)
                with open(p, 'r+b') as f:
                    f.seek(len(b))
                    return load(f)
            add('reader.load from the current position on disk', lambda: later_disk(kw(r.load)))
            add('reader.load from the middle of a file open for update', lambda: later_raw(kw(r.load)))
            add('reader.loads again', lambda: kw(r.loads)(b))
            add('channel by position', lambda: r.loads(b, ch))
            def usedbefore():
                r2 = m.MIDIReader(middle_c=mc)
                for f in (lambda: r2.loads(other_bytes), lambda: r2.loads(b[:-3]), lambda: r2.loads(b, 15), lambda: r2.loads(other_bytes, 0)):
                    try: f()
                    except Exception: pass
                return kw(r2.loads)(b)
            add('a reader used before', usedbefore)
            other_bytes = b
            for form in (c.Tone(mc), note_name(mc)):
                add('middle C as %s' % type(form).__name__, lambda: kw(m.MIDIReader(middle_c=form).loads)(b))
            if mc == 36:
                add('default middle C', lambda: kw(m.MIDIReader().loads)(b))
                add('module loads', lambda: kw(m.loads)(b))
                add('module load from memory', lambda: kw(m.load)(io.BytesIO(b)))
                add('module load from disk', lambda: fromdisk(kw(m.load)))
                add('module load positional', lambda: m.load(io.BytesIO(b), ch))
            out.append({'k': 'agree', 'outs': outs, 'w': 5})
        for cfg, t, old, at in places:
            tr = build(t)
            f = io.BytesIO(bytes(old)); f.seek(at)
            b = writer(cfg).dumps(tr)
            writer(cfg).dump(tr, f)
            if f.closed: out.append({'k': 'place', 'b': list(b), 'old': list(old), 'at': at, 'new': [], 'pos': 0, 'closed': 1, 'w': 2})
            else: out.append({'k': 'place', 'b': list(b), 'old': list(old), 'at': at, 'new': list(f.getvalue()), 'pos': f.tell(), 'closed': 0, 'w': 2})
            # the same on disk
            p = os.path.join(tmp, 'p.mid')
            with open(p, 'wb') as f: f.write(bytes(old))
            with open(p, 'r+b') as f:
                f.seek(at)
                writer(cfg).dump(tr, f)
                pos = f.tell() if not f.closed else 0
                shut = int(f.closed)
            with open(p, 'rb') as f: new = f.read()
            out.append({'k': 'place', 'b': list(b), 'old': list(old), 'at': at, 'new': [] if shut else list(new), 'pos': pos, 'closed': shut, 'w': 2})
        for cfg, t, mc2 in shifts:
            out.append({'k': 'shift', 'ps': [sint(e[1]) for e in t[1]], 'mc': sint(cfg['mc']), 'mc2': sint(mc2),
                        'obs': observe(lambda: m.MIDIReader(middle_c=mc2).loads(writer(cfg).dumps(build(t))), o_list(lambda e: p_tone(e[1].tone)))})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def trim(o):
    o.pop('msg', None)
    return o


def run_c24(run):
    rng = run.rng
    models_midi(run)
    writes, reads, places, shifts = [], [], [], []
    for _ in range(1500 if THOROUGH else 260):
        cfg = settings(rng)
        if abs(cfg['mc']) > 10 ** 5: cfg['mc'] = 36
        if rng.random() < .6: cfg.update(ppq=96, mc=36)
        if rng.random() < .5: cfg['bpm'] = 120.0
        if rng.random() < .5: cfg['ch'] = 0
        t = (grid_track if rng.random() < .6 else off_track)(rng, cfg, rng.choice([0, 1, 2, 4, 8]), clean=rng.random() < .7)
        writes.append((cfg, t))
        places.append((cfg, t, [rng.randrange(256) for _ in range(rng.choice([0, 1, 10, 200]))], rng.choice([0, 0, 1, 5, 100, 210])))
        if len({e[1] for e in t[1]}) == len(t[1]) or rng.random() < .7:
            g = grid_track(rng, cfg, rng.choice([1, 2, 4]))
            shifts.append((cfg, g, mc_of(rng)))
        b = valid_file(rng, rng.choice([0, 1, 4, 10]))
        if rng.random() < .3: b = mutants(rng, b, 1)[0]
        reads.append((b, mc_of(rng), rng.choice([None, None, None, 0, 1, 9])))
    run.judge('T_Midi', in_child(rec_c24, writes, reads, places, shifts))
    return run.finish('model_checking', 'the same track or bytes through every entry point and form of argument; all compared with each other by the specification; all nontrivial')


# ------------------------------------------------------------------ models
READERCFG = ['SPECIFICATION Spec', 'INVARIANT Refines', 'INVARIANT PairLaws', 'INVARIANT Emit', 'PROPERTY Terminates', 'PROPERTY Progress', 'CHECK_DEADLOCK FALSE']
WRITERCFG = ['SPECIFICATION Spec', 'INVARIANT Inv', 'INVARIANT Emit', 'CHECK_DEADLOCK FALSE']


def files_of(lines): return [bytes(int(x) for x in l.strip('<>').split(',') if x.strip()) for l in lines]


def models_midi(run, emit='write'):
    """Model-check the family of files or tracks this property is about; returns what it enumerated."""
    rng = run.rng
    def some(l, n): return l if THOROUGH or len(l) <= n else rng.sample(l, n)
    def reader(mode, depth, more): return files_of(run.model('MC_Reader', READERCFG, workers=1, env={'MODE': mode, 'DEPTH': str(more if THOROUGH else depth)}))
    if emit == 'bytes':
        return some(reader('bytes', 3, 4), 1800) + some(reader('chunks', 2, 3), 400)
    if emit == 'events': return some(reader('events', 3, 4), 1200)
    if emit == 'channels': return some(reader('channels', 4, 5), 500)
    lines = run.model('MC_RoundTrip', WRITERCFG, workers=4, env={'DEPTH': '3' if THOROUGH and emit == 'rt' else '2'})
    out = []
    for l in lines:
        ppq, rest = l.split('|')
        notes = json.loads(rest.replace('<<', '[').replace('>>', ']'))
        out.append(({'ppq': int(ppq), 'ch': 5, 'mc': 0, 'bpm': 120.0},
                    ((3, 4), [(reduce(a, 32), p, reduce(d, 32), 1.0 if p == 0 else 0.5) for a, d, p in notes])))
    return some(out, 500)
