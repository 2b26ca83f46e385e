"""Drivers for C01..C06: values (signatures, tones, notes)."""
import math
from core import *


SIGCFG = ['INIT Init', 'NEXT Next', 'INVARIANT Inv', 'CHECK_DEADLOCK FALSE']


def lib():
    import melodia.core
    return melodia.core


def sig_pool(rng, n):
    """Nominator/denominator pairs: small, boundary and very large."""
    out = []
    for _ in range(n):
        e = rng.choice([0, 0, 1, 2, 2, 3, 4, 5, 6, 7, 8, 10, 12, 14, 16, 20, 31, 32, 33, 53, 63, 64, 65, 100, 127, 200, 255])
        k = rng.randrange(8)
        d = 1 << e
        if k == 0: nn = 0
        elif k == 1: nn = rng.randrange(0, 20)
        elif k == 2: nn = d * rng.randrange(0, 5)
        elif k == 3: nn = max(0, d * rng.randrange(1, 4) + rng.choice([-1, 1]))
        elif k == 4: nn = rng.getrandbits(rng.choice([8, 16, 31, 32, 53, 64, 128, 260]))
        elif k == 5: nn = 1 << rng.randrange(0, 260)
        elif k == 6: nn = (1 << rng.randrange(1, 130)) + rng.choice([-1, 1])
        else: nn = rng.randrange(0, 300)
        out.append((nn, d))
    return out


def box(nmax, emax):
    return [(n, 1 << e) for n in range(nmax + 1) for e in range(emax + 1)]


def related(rng, a):
    """Pairs that are close to, or equal in value to, a."""
    n, d = a
    k = rng.randrange(6)
    j = rng.choice([1, 1, 2, 3, 7, 20, 64])
    if k == 0: return (n << j, d << j)
    if k == 1: return ((n << j) + 1, d << j)
    if k == 2: return (max(0, (n << j) - 1), d << j)
    if k == 3:
        while n % 2 == 0 and d > 1 and n: n, d = n // 2, d // 2
        return (n, d)
    if k == 4: return (n + 1, d)
    return (n, d * 2)


def rec_c01(pairs, singles):
    c = lib()
    out = []
    for (a, b) in pairs:
        x, y = c.Signature(*a), c.Signature(*b)
        ob = {}
        for name, f in (('eq', lambda: x == y), ('ne', lambda: x != y), ('lt', lambda: x < y), ('le', lambda: x <= y),
                        ('gt', lambda: x > y), ('ge', lambda: x >= y)):
            ob[name] = observe(f, o_bool)
        ob['add'] = observe(lambda: x + y, o_sig)
        ob['mul'] = observe(lambda: x * y, o_sig)
        out.append({'k': 'pair', 'a': {'n': big(a[0]), 'd': big(a[1])}, 'b': {'n': big(b[0]), 'd': big(b[1])}, 'obs': ob})
    for a, j in singles:
        x = c.Signature(*a)
        ob = {'abs': observe(lambda: abs(x), o_sig), 'norm': observe(lambda: x.normalized(), o_sig),
              'to': observe(lambda: x.to(a[1] << j), o_sig), 'self': observe(lambda: x, o_sig)}
        out.append({'k': 'one', 'a': {'n': big(a[0]), 'd': big(a[1])}, 'obs': ob})
    return out


def run_c01(run):
    for c in run.model('MC_Sig', SIGCFG):
        pass
    rng = run.rng
    b = box(*((9, 4) if THOROUGH else (6, 3)))
    pairs = [(x, y) for x in b for y in b]
    n = 40000 if THOROUGH else 5000
    pool = sig_pool(rng, n)
    for x in pool:
        pairs.append((x, rng.choice(pool)) if rng.random() < .5 else (x, related(rng, x)))
        if rng.random() < .3:
            pairs.append((related(rng, x), x))
    singles = [(x, rng.choice([0, 1, 2, 5, 12, 13, 64])) for x in b + pool[:n // 2]]
    run.judge('T_Sig', in_child(rec_c01, pairs, singles))
    return run.finish('model_checking', 'all ordered pairs of the small box, then seeded pairs of signatures of up to 260 bits, half of '
                      'them equal or adjacent in value; a pair is nontrivial when its denominators differ')


def rec_c02(news, tos, derive):
    c = lib()
    out = []
    for n, d in news:
        out.append({'k': 'new', 'n': sint(n), 'd': sint(d), 'obs': observe(lambda: c.Signature(n, d), o_sig)})
    for a, d in tos:
        x = c.Signature(*a)
        out.append({'k': 'to', 'a': {'n': big(a[0]), 'd': big(a[1])}, 'd': sint(d), 'obs': observe(lambda: x.to(d), o_sig)})
    for a, b in derive:
        x, y = c.Signature(*a), c.Signature(*b)
        out.append({'k': 'derive', 'a': {'n': big(a[0]), 'd': big(a[1])}, 'obs': {
            'norm': observe(lambda: x.normalized(), o_sig), 'add': observe(lambda: x + y, o_sig),
            'mul': observe(lambda: x * y, o_sig), 'abs': observe(lambda: abs(x), o_sig)}})
    return out


def run_c02(run):
    run.model('MC_Sig', SIGCFG)
    rng = run.rng
    m = 70 if THOROUGH else 34
    news = [(n, d) for n in range(-3, 6) for d in range(-m, m + 1)]
    for e in range(0, 260, 1 if THOROUGH else 3):
        for dd in (-1, 0, 1):
            news.append((rng.choice([-1, 0, 1, 7, -(1 << e)]), (1 << e) + dd))
            news.append((rng.choice([0, 1, 1 << e]), -((1 << e) + dd)))
        news.append((5, (1 << e) | (1 << rng.randrange(0, e + 1))))
        news.append((5, 3 << e))
    for _ in range(8000 if THOROUGH else 1200):
        news.append((rng.choice([-1, 1]) * rng.getrandbits(rng.choice([3, 8, 40, 200])), rng.choice([-1, 1, 1, 1]) * rng.getrandbits(rng.choice([3, 8, 40, 200]))))
    pool = box(6, 6) + sig_pool(rng, 3000 if THOROUGH else 500)
    tos = []
    for a in pool:
        e = a[1].bit_length() - 1
        ds = {0, -1, -a[1], a[1], a[1] * 2, a[1] // 2, a[1] * 3, a[1] + 1, a[1] * 2 + 1, a[1] - 1, 1, a[1] << 13}
        ds |= {1 << rng.randrange(0, e + 6)}
        for d in (ds if rng.random() < (1 if THOROUGH else .35) else rng.sample(sorted(ds), 3)):
            tos.append((a, d))
    derive = [(a, rng.choice(pool)) for a in pool]
    run.judge('T_Sig', in_child(rec_c02, news, tos, derive))
    return run.finish('model_checking', 'all pairs of small integers, all powers of two up to 2^259 and their neighbours, seeded integers of up to '
                      '200 bits, conversions to every kind of denominator; nontrivial: refused, or a non-zero nominator')


# ------------------------------------------------------------------ tones
VIAS = ['tone', 'note', 'chord', 'reader', 'writer']


def smf(body, div=96, fmt=0, ntr=1):
    return (b'MThd' + (6).to_bytes(4, 'big') + fmt.to_bytes(2, 'big') + ntr.to_bytes(2, 'big') + div.to_bytes(2, 'big') +
            b'MTrk' + len(body).to_bytes(4, 'big') + body)


def parse_via(text, via):
    import melodia.io.midi as midi
    import melodia.music.chord as chord
    c = lib()
    if via == 'tone': return c.Tone.from_notation(text)
    if via == 'note': return c.Note(text).tone
    if via == 'chord': return chord.major(text)[0].tone
    if via == 'reader':
        # MIDI pitch 60 is middle C
        t = midi.MIDIReader(middle_c=text).loads(smf(bytes.fromhex('00903c4060803c4000ff2f00')))
        return list(t)[0][1].tone
    # writer: a tone at the middle C the reader understood is written as MIDI pitch 60
    w = midi.MIDIWriter(middle_c=text)
    mc = midi.MIDIReader(middle_c=text).loads(smf(bytes.fromhex('00903c4060803c4000ff2f00')))
    mc = list(mc)[0][1].tone
    data = w.dumps(c.Track(content=[(c.Note(mc), None)]))
    i = data.index(b'\x90', 30)
    return c.Tone(mc.pitch - (data[i + 1] - 60))


def rec_c03(items):
    out = []
    for text, via in items:
        out.append({'k': 'parse', 'text': [ord(x) for x in text], 'via': via,
                    'obs': observe(lambda: parse_via(text, via), o_tone)})
    return out


def run_c03(run):
    rng = run.rng
    lines = run.model('MC_Tone', ['INIT Init', 'NEXT Next', 'INVARIANT Inv', 'INVARIANT Emit', 'CHECK_DEADLOCK FALSE'],
                      workers=1, env={'DEPTH': '4' if THOROUGH else '3'})
    texts = []
    for l in lines:
        codes = [int(x) for x in l.strip('<>').split(',') if x.strip()]
        texts.append(''.join(map(chr, codes)))
    items = [(t, 'tone') for t in texts]
    for t in texts:
        if len(t) <= 2: items += [(t, v) for v in VIAS[1:]]
    for ch in map(chr, range(128)):
        for t in (ch, 'C' + ch, 'G#' + ch, 'B3' + ch, ch + 'A2', 'D-' + ch, 'Eb-1' + ch, 'F' + ch + '4', 'A' + ch + '#1'):
            items.append((t, 'tone'))
        items.append(('C4' + ch, rng.choice(VIAS[1:])))
    for L in 'ABCDEFG':
        for acc in ('', '#', 'b', '##', 'bb', '#b', 'b#', '#' * 13, 'b' * 14, '#b##bb#'):
            for o in ('', '0', '1', '4', '9', '10', '-1', '-2', '-0', '00', '007', '-10', '123456789012345678901234567890', '-99999999999'):
                items.append((L + acc + o, 'tone'))
                if len(o) < 4: items.append((L + acc + o, rng.choice(VIAS[1:])))
    for t in ['C' + '#' * 700, 'G' + 'b' * 1500, 'A' + '#b' * 600 + '3', 'B' + '#' * 1200 + '-' + '7' * 400, 'E' + '9' * 900, 'F-' + '0' * 900, 'F' + '#' * 1200 + 'x', 'D' + '4' * 500 + '#']:
        items += [(t, v) for v in VIAS[:3]]
    alpha = 'ABCDEFG' * 2 + '##bb--0123456789'
    for _ in range(20000 if THOROUGH else 2500):
        t = rng.choice('ABCDEFG') + ''.join(rng.choice('#b') for _ in range(rng.choice([0, 0, 1, 2, 5, 30])))
        t += rng.choice(['', '-']) + ''.join(rng.choice('0123456789') for _ in range(rng.choice([0, 1, 1, 2, 3, 25])))
        if rng.random() < .4:
            i = rng.randrange(len(t) + 1)
            t = t[:i] + rng.choice(alpha + 'abcHh \t\n.+/xX_') + t[i + rng.randrange(2):]
        items.append((t, rng.choice(VIAS) if rng.random() < .4 else 'tone'))
    run.judge('T_Tone', in_child(rec_c03, items))
    return run.finish('model_checking', 'every string up to length %d over a 13-letter alphabet as enumerated by TLC, every ASCII character at nine places, '
                      'every letter with every accidental and octave pattern, seeded well-formed and damaged strings, through every entry point; '
                      'nontrivial: longer than one character' % (4 if THOROUGH else 3))


def rec_c04(ps):
    c = lib()
    out = []
    for p in ps:
        t = c.Tone(p)
        out.append({'k': 'spell', 'p': sint(p), 'obs': {
            'up': observe(lambda: t.to_notation(), o_text), 'down': observe(lambda: t.to_notation(transpose_down=True), o_text),
            'str': observe(lambda: str(t), o_text), 'oct': observe(lambda: t.octave, o_int),
            'back1': observe(lambda: c.Tone.from_notation(t.to_notation()), o_tone),
            'back2': observe(lambda: c.Tone.from_notation(t.to_notation(transpose_down=True)), o_tone),
            'pitch': observe(lambda: t.pitch, o_int)}})
    return out


def int_pool(rng, n):
    return [rng.choice([-1, 1]) * rng.getrandbits(rng.choice([4, 8, 12, 20, 31, 32, 40, 63, 64, 100])) for _ in range(n)]


def run_c04(run):
    run.model('MC_Tone', ['INIT Init', 'NEXT Next', 'INVARIANT Inv', 'CHECK_DEADLOCK FALSE'], env={'DEPTH': '4' if THOROUGH else '3'})
    m = 6000 if THOROUGH else 1300
    ps = list(range(-m, m + 1)) + int_pool(run.rng, 8000 if THOROUGH else 1500)
    for k in range(1, 30):
        for d in range(-13, 14): ps += [12 * 10 ** k + d, -12 * 10 ** k + d]
    run.judge('T_Tone', in_child(rec_c04, ps))
    return run.finish('model_checking', 'every pitch from -%d to %d, the neighbours of +-12*10^k, seeded integers of up to 100 bits; nontrivial: not a natural tone' % (m, m))


def rec_c05(pairs, trans, freqs, odd):
    c = lib()
    out = []
    for p, x in odd:
        out.append({'k': 'odd', 'obs': {'make': observe(lambda: c.Tone(x), o_tone), 'move': observe(lambda: c.Tone(p).transposed(x), o_tone) if isinstance(x, float) else {'t': 'err', 'e': 'ValueError'}}})
    for p, q in pairs:
        x, y = c.Tone(p), c.Tone(q)
        ob = {}
        for name, f in (('eq', lambda: x == y), ('ne', lambda: x != y), ('lt', lambda: x < y), ('le', lambda: x <= y),
                        ('gt', lambda: x > y), ('ge', lambda: x >= y)):
            ob[name] = observe(f, o_bool)
        out.append({'k': 'pair', 'p': sint(p), 'q': sint(q), 'obs': ob})
    for p, q, r in trans:
        x = c.Tone(p)
        out.append({'k': 'trans', 'p': sint(p), 'q': sint(q), 'r': sint(r), 'obs': {
            'up': observe(lambda: x.transposed(q), o_tone), 'back': observe(lambda: x.transposed(q).transposed(-q), o_tone),
            'twice': observe(lambda: x.transposed(q).transposed(r), o_tone), 'self': observe(lambda: x, o_tone)}})
    for p, base in freqs:
        b = 440.0 if base is None else base
        kw = {} if base is None else {'base': base}
        out.append({'k': 'freq', 'p': p, 'base': p_num(b), 'w': 20, 'obs': {
            'f': observe(lambda: c.Tone(p).to_frequency(**kw), o_num), 'g': observe(lambda: c.Tone(p + 1).to_frequency(**kw), o_num)}})
    return out


def run_c05(run):
    run.model('MC_Tone', ['INIT Init', 'NEXT Next', 'INVARIANT Inv', 'CHECK_DEADLOCK FALSE'], env={'DEPTH': '3'})
    rng = run.rng
    r = range(-14, 15)
    pairs = [(p, q) for p in r for q in r]
    pool = int_pool(rng, 4000 if THOROUGH else 800)
    pairs += [(p, rng.choice([p, p + 1, p - 1, -p, p + 12, rng.choice(pool)])) for p in pool]
    trans = [(p, q, rng.randrange(-30, 30)) for p in range(-30, 140, 1 if THOROUGH else 3) for q in range(-26, 27, 1 if THOROUGH else 2)]
    trans += [(p, rng.choice(pool), rng.choice(pool)) for p in pool]
    freqs = [(p, b) for p in range(-260, 261, 1 if THOROUGH else 3) for b in ([None, 440, 432.0, 415.3, 1.0, 442.5] if THOROUGH else [None])]
    freqs += [(rng.randrange(-300, 300), rng.choice([None, 440, 432.0, 415.3, 1.0, 0.5, 442.5, 100, 27.5, rng.uniform(1, 2000)])) for _ in range(2000 if THOROUGH else 250)]
    freqs += [(p, b) for p in [-3000, -2001, -1500, -999, -777, 800, 1001, 1500, 2222, 3000] for b in (None, 1.0)]
    odd = [(p, x) for p in (0, 57, -13) for x in (0.5, 1.0, -2.0, 57.0, 1e300, float('inf'), float('nan'), 0.0, '57', 'C4', '', None, b'C4', [57], (57,), 1j)]
    odd += [(rng.choice(pool), rng.choice([float(rng.randrange(-100, 100)), rng.uniform(-200, 200), str(rng.randrange(100))])) for _ in range(60)]
    run.judge('T_Tone', in_child(rec_c05, pairs, trans, freqs, odd))
    return run.finish('model_checking', 'all pairs of a range and seeded integers of up to 100 bits, half of them equal or adjacent; frequencies for pitches '
                      '-260..260 and several bases, compared by twelfth powers of the exact fractions; nontrivial: a non-zero transposition, any comparison or frequency',
                      ['frequency is compared within a relative error of 2^-43'])


# ------------------------------------------------------------------ notes
def mk_tone(c, p, form):
    if form == 'tone': return c.Tone(p)
    if form == 'int': return p
    if form == 'down': return c.Tone(p).to_notation(transpose_down=True)
    return c.Tone(p).to_notation()


def mk_dur(c, d, form):
    if form == 'sig': return c.Signature(*d)
    if form == 'list': return list(d)
    if form == 'gen': return (x for x in d)
    return tuple(d)


def vel_pool(rng):
    k = rng.randrange(7)
    if k == 0: return rng.choice([0.0, 1.0, 0.5, 0.75, 0.25])
    if k == 1: return rng.randrange(128) / 127.0
    if k == 2: return rng.random()
    if k == 3: return rng.choice([0, 1])
    if k == 4: return rng.choice([5e-324, 1e-300, 1 - 2 ** -53, 1e-17, 1 / 3, 0.1, 0.9999999])
    if k == 5: return rng.randrange(0, 1001) / 1000
    return rng.randrange(0, 65) / 64


def near_vel(rng, v):
    """A velocity next to v, at any distance that floats can tell."""
    w = v
    for _ in range(rng.choice([1, 1, 2])): w = math.nextafter(w, rng.choice([0.0, 1.0]))
    if rng.random() < .6: w = v + rng.choice([-1, 1]) * 10.0 ** -rng.randrange(1, 17)
    return w if 0.0 <= w <= 1.0 else v


def bad_vel(rng):
    return rng.choice([1.0000000000000002, 1.1, 2.0, 1e308, 2, 127, 1 + 2 ** -52, 1 + rng.random()])


def durpair(rng):
    e = rng.choice([0, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 9, 14, 40])
    return (rng.choice([0, 1, 1, 1, 2, 3, 5, 7, rng.randrange(0, 40), (1 << e), (1 << e) + 1, rng.getrandbits(50)]), 1 << e)


def fr(d): return {'n': big(d[0]), 'd': big(d[1])}
def nv(n): return {'p': sint(n[0]), 'd': fr(n[1]), 'v': p_num(n[2])}


def rec_c06(news, bads, derives, cmps):
    c = lib()
    out = []
    for p, d, v, ft, fd, how in news:
        def f():
            kw = {}
            t = mk_tone(c, p, ft)
            if how == 'kw':
                return c.Note(velocity=v, tone=t, duration=mk_dur(c, d, fd))
            if how == 'nodur': return c.Note(t, velocity=v)
            if how == 'novel': return c.Note(t, mk_dur(c, d, fd))
            if how == 'bare': return c.Note(t)
            return c.Note(t, mk_dur(c, d, fd), v)
        dd = (1, 4) if how in ('nodur', 'bare') else d
        vv = 0.75 if how in ('novel', 'bare') else v
        out.append(dict(nv((p, dd, vv)), k='new', obs=observe(f, o_note)))
    for what, e, args in bads:
        def conv(a):
            return {'nan': float('nan'), 'inf': float('inf'), 'ninf': float('-inf'), 'obj': object()}.get(a, a) if isinstance(a, str) and a in ('nan', 'inf', 'ninf', 'obj') else (a.encode() if what == 'bytes tone' and isinstance(a, str) else a)
        a = [conv(x) for x in args]
        out.append({'k': 'bad', 'what': what, 'e': e, 'obs': observe(lambda: c.Note(*a), o_note)})
    n = c.Note(60, (3, 8), 0.5)
    for v in (float('nan'), float('inf'), float('-inf'), -1.0, -1e-300, -5e-324, -1, 2, 128):
        out.append({'k': 'bad', 'what': 'with_velocity', 'e': 'ValueError', 'obs': observe(lambda: n.with_velocity(v), o_note)})
    for d in (1, 0.25, None, object()):
        out.append({'k': 'bad', 'what': 'with_duration type', 'e': 'TypeError', 'obs': observe(lambda: n.with_duration(d), o_note)})
    for d in ((1, 3), (-1, 4), (1, 0), (1, -4), (0, 6)):
        out.append({'k': 'bad', 'what': 'with_duration value', 'e': 'ValueError', 'obs': observe(lambda: n.with_duration(d), o_note)})
    for (p, d, v), q, d2, fd, v2 in derives:
        n = c.Note(p, d, v)
        ob = {'trans': observe(lambda: n.transposed(q), o_note), 'dur': observe(lambda: n.with_duration(mk_dur(c, d2, fd)), o_note),
              'vel': observe(lambda: n.with_velocity(v2), o_note)}
        ob['self'] = observe(lambda: n, o_note)
        out.append(dict(nv((p, d, v)), k='derive', q=sint(q), d2=fr(d2), v2=p_num(v2), obs=ob))
    for a, b in cmps:
        x, y = c.Note(*a), c.Note(*b)
        ob = {}
        for name, f in (('eq', lambda: x == y), ('ne', lambda: x != y), ('lt', lambda: x < y), ('le', lambda: x <= y),
                        ('gt', lambda: x > y), ('ge', lambda: x >= y)):
            ob[name] = observe(f, o_bool)
        out.append({'k': 'cmp', 'a': nv(a), 'b': nv(b), 'obs': ob})
    return out


def run_c06(run):
    run.model('MC_Note', ['SPECIFICATION Spec', 'INVARIANT Inv', 'PROPERTY OneAttribute', 'CHECK_DEADLOCK FALSE'])
    rng = run.rng
    k = 12 if THOROUGH else 1
    def pitch(): return rng.choice([rng.randrange(-30, 140), rng.randrange(-3000, 3000), rng.choice([-1, 1]) * rng.getrandbits(60)])
    news = []
    for _ in range(1500 * k):
        v = vel_pool(rng) if rng.random() < .85 else bad_vel(rng)
        news.append((pitch(), durpair(rng), v, rng.choice(['tone', 'int', 'str', 'down']), rng.choice(['sig', 'tuple', 'list', 'gen']),
                     rng.choice(['pos', 'pos', 'kw', 'nodur', 'novel', 'bare'])))
    bads = []
    for v in ('nan', 'inf', 'ninf', -1.0, -0.1, -1e-300, -5e-324, -1, -2, 2, 1.5, 128, 1e9, -1e9):
        bads.append(('velocity', 'ValueError', ['A4', [1, 4], v]))
        bads.append(('velocity', 'ValueError', [60, [3, 8], v]))
    for t in (None, 1.0, 60.5, [1], {}, 'obj'):
        bads.append(('tone type', 'TypeError', [t, [1, 4], 0.5]))
    bads.append(('bytes tone', 'TypeError', ['A4', [1, 4], 0.5]))
    for t in ('re', '', 'c4', 'H', '4', 'C4 ', ' C4', 'C--1', 'Cx'):
        bads.append(('tone notation', 'ValueError', [t, [1, 4], 0.5]))
    for d in (1, 0.25, None, 'obj', '1/4'):
        bads.append(('duration type', 'TypeError', ['A4', d, 0.5]))
    for d in ([1, 3], [-1, 4], [1, 0], [1, -4], [0, 6], [1, 12]):
        bads.append(('duration value', 'ValueError', ['A4', d, 0.5]))
    derives = []
    for _ in range(1200 * k):
        derives.append(((pitch(), durpair(rng), vel_pool(rng)), rng.choice([0, 1, -1, 12, -12, rng.randrange(-200, 200), rng.getrandbits(50)]),
                        durpair(rng), rng.choice(['sig', 'tuple', 'list']), vel_pool(rng) if rng.random() < .8 else bad_vel(rng)))
    cmps = []
    durs = [(0, 1), (1, 4), (2, 8), (3, 8), (1, 2), (1, 1), (5, 8), (4, 16)]
    vels = [0.0, 0.5, 1.0]
    small = [(p, d, v) for p in (0, 1) for d in durs for v in vels]
    cmps += [(a, b) for a in small for b in small] if THOROUGH else [(rng.choice(small), rng.choice(small)) for _ in range(1200)]
    for _ in range(1200 * k):
        a = (pitch(), durpair(rng), vel_pool(rng))
        b = list(a)
        w = rng.random()
        if w < .35: b[1] = related(rng, a[1])
        elif w < .5: b[2] = vel_pool(rng)
        elif w < .6: b[2] = near_vel(rng, a[2])
        elif w < .7: b[0] += rng.choice([-1, 1, 12])
        elif w < .8: b[1] = related(rng, a[1]); b[2] = vel_pool(rng)
        elif w < .9: b[0] += rng.choice([-1, 1]); b[1] = related(rng, a[1])
        b = tuple(b)
        cmps.append((a, b) if rng.random() < .5 else (b, a))
    run.judge('T_Note', in_child(rec_c06, news, bads, derives, cmps))
    return run.finish('model_checking', 'notes of every argument form, refused arguments of every kind, derivations, and pairs that share pitch or '
                      'duration value; nontrivial comparison: different notes of equal pitch')
