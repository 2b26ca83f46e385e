"""Drivers for C07..C10: tracks."""
import zlib
from core import *
from props_core import durpair, vel_pool, fr, nv, lib, related

# An operation is a list: ['new', sig, content], ['add', id, shape, where], ...
# A shape is a note (p, d, v), or {'c': kind, 'l': [shapes]} for a collection.


def flatten(shape):
    if isinstance(shape, dict):
        out = []
        for s in shape['l']: out += flatten(s)
        return out
    return [tuple([shape[0], tuple(shape[1]), shape[2]])]


BADS = ['int', 'none', 'object', 'float', 'tone', 'text', 'pair', 'list with none', 'list with int', 'nested list with tone',
        'generator with object', 'note then text', 'duck', 'list with duck', 'note class', 'bytes', 'track', 'dict', 'true']


class Duck:
    """Looks like a note without being one."""
    def __init__(self, n): self.tone, self.duration, self.velocity = n.tone, n.duration, n.velocity


class Exec:
    """Executes operations on real tracks and records them."""
    def __init__(self):
        self.c = lib()
        self.tracks = []
        self.iters = []
        self.out = [{'op': 'reset'}]
        self.notes = {}

    def note(self, n):
        # equal notes are sometimes the same object, as in user code
        k = (n[0], tuple(n[1]), n[2])
        if k in self.notes and zlib.crc32(repr(k).encode()) % 2: return self.notes[k]
        x = self.notes[k] = self.c.Note(n[0], tuple(n[1]), n[2])
        return x

    def build(self, shape):
        if not isinstance(shape, dict): return self.note(shape)
        l = [self.build(s) for s in shape['l']]
        k = shape['c']
        if k == 'tuple': return tuple(l)
        if k == 'gen': return (x for x in l)
        if k == 'iter': return iter(l)
        return l

    def where(self, w):
        if w is None: return None
        n, d, form = w
        if form == 'sig': return self.c.Signature(n, d)
        if form == 'list': return [n, d]
        return (n, d)

    def wv(self, w):
        return {'t': 'none'} if w is None else dict(fr((w[0], w[1])), t='at')

    def do(self, op):
        c, k = self.c, op[0]
        T = self.tracks
        if k == 'new':
            sig, content, form = op[1], op[2], op[3]
            s = c.Signature(*sig) if form == 'sig' else tuple(sig)
            box = []
            if content is None:
                ob = observe(lambda: box.append(c.Track(s) if sig != (4, 4) or form == 'sig' else c.Track()))
            else:
                items = [(self.build(sh), self.where(w)) for sh, w in content]
                src = iter(items) if form == 'gen' else items
                ob = observe(lambda: box.append(c.Track(signature=s, content=src)))
            T.append(box[0] if box else c.Track())
            self.out.append({'op': 'new', 'id': len(T), 'sig': fr(sig), 'obs': ob})
            for sh, w in content or []:
                self.out.append({'op': 'add', 'id': len(T), 'notes': [nv(n) for n in flatten(sh)], 'where': self.wv(w), 'obs': {'t': 'ok'}})
        elif k == 'add':
            _, i, sh, w = op
            x = self.build(sh)
            where = self.where(w)
            if w is None and zlib.crc32(str(sh).encode()) % 2:
                ob = observe(lambda: T[i - 1].add(x))
            else:
                ob = observe(lambda: T[i - 1].add(x, where))
            self.out.append({'op': 'add', 'id': i, 'notes': [nv(n) for n in flatten(sh)], 'where': self.wv(w), 'obs': ob})
        elif k == 'copy':
            # the notes of a track (possibly the same) drawn from it while they are added
            _, i, j, w, form = op
            src = T[j - 1]
            if len(src) + len(T[i - 1]) > 40: return
            x = (n for _, n in src) if form == 'gen' else map(lambda e: e[1], src) if form == 'map' else [[n for _, n in src]]
            where = self.where(w)
            self.out.append({'op': 'copy', 'id': i, 'from': j, 'where': self.wv(w), 'obs': observe(lambda: T[i - 1].add(x, where))})
        elif k == 'iter':
            self.out.append({'op': 'iter', 'id': op[1], 'obs': observe(lambda: self.drain(iter(T[op[1] - 1])), o_list(p_entry))})
        elif k == 'partial':
            def f():
                it = iter(T[op[1] - 1])
                for _ in range(op[2]): next(it, None)
            observe(f)
        elif k == 'count':
            self.out.append({'op': 'count', 'id': op[1], 'obs': observe(lambda: len(T[op[1] - 1]), o_int)})
        elif k == 'length':
            self.out.append({'op': 'length', 'id': op[1], 'obs': observe(lambda: T[op[1] - 1].length, o_sig)})
        elif k == 'open':
            # an iteration has begun once its first element has been drawn
            it, first = None, []
            def f():
                nonlocal it
                it = iter(T[op[1] - 1])
                for _ in range(op[2]):
                    for e in it:
                        first.append(e)
                        break
            ob = observe(f)
            self.iters.append((it, first))
            self.out.append({'op': 'open', 'id': op[1], 'it': len(self.iters), 'obs': ob})
        elif k == 'drain':
            it, first = self.iters[op[1] - 1]
            if first is not None:
                self.iters[op[1] - 1] = (it, None)
                self.out.append({'op': 'drain', 'it': op[1], 'obs': observe(lambda: first + self.drain(it), o_list(p_entry))})
        elif k == 'eq':
            a, b = T[op[1] - 1], T[op[2] - 1]
            self.out.append({'op': 'eq', 'a': op[1], 'b': op[2], 'obs': {'eq': observe(lambda: a == b, o_bool), 'ne': observe(lambda: a != b, o_bool)}})
        elif k == 'bad':
            _, i, what, arg, w = op
            pre, x, where = self.bad(what, arg)
            if where is None: where = self.where(w)
            t = T[i - 1]
            ob = observe(lambda: t.add(x, where))
            after = {'list': observe(lambda: self.drain(iter(t)), o_list(p_entry)), 'count': observe(lambda: len(t), o_int),
                     'length': observe(lambda: t.length, o_sig), 'sig': observe(lambda: t.signature, o_sig)}
            self.out.append({'op': 'bad', 'id': i, 'what': what, 'pre': [nv(n) for n in pre], 'where': self.wv(w), 'obs': ob, 'after': after})

    def drain(self, it, limit=20000):
        l = []
        for e in it:
            l.append(e)
            if len(l) > limit: raise Weird('iteration does not end')
        return l

    def bad(self, what, arg):
        c = self.c
        n = [tuple(x) for x in arg]
        N = [self.note(x) for x in n]
        if what.startswith('position '):
            w = {'third': (1, 3), 'negative': (-1, 4), 'zero denominator': (1, 0), 'six': (2, 6), 'number': 5, 'float': 0.5, 'text': 'x',
                 'single': (1,), 'triple': (1, 2, 4), 'object': object(), 'note': N[0], 'negative denominator': (1, -2), 'text pair': '14',
                 'zero': 0, 'false': False, 'zero float': 0.0, 'empty text': '', 'empty list': [], 'empty tuple': (), 'empty dict': {}, 'tone': c.Tone(0), 'track': c.Track()}[what[9:]]
            return [], (N[0] if len(N) == 1 else N), w
        if what == 'int': return [], 5, None
        if what == 'none': return [], None, None
        if what == 'object': return [], object(), None
        if what == 'float': return [], 0.5, None
        if what == 'tone': return [], c.Tone(60), None
        if what == 'text': return [], 'C4', None
        if what == 'pair': return [], (c.Signature(1, 4), N[0]), None
        if what == 'list with none': return n[:2], N[:2] + [None] + N[2:], None
        if what == 'list with int': return n[:1], N[:1] + [7], None
        if what == 'nested list with tone': return n[:2], [N[0], [N[1], c.Tone(3)]], None
        if what == 'generator with object': return n[:2], (x for x in [N[0], N[1], object(), N[0]]), None
        if what == 'note then text': return n[:1], [N[0], 'C4'], None
        if what == 'duck': return [], Duck(c.Note(n[0][0], (9999, 1))), None
        if what == 'list with duck': return n[:1], [N[0], Duck(c.Note(n[0][0], (9999, 1)))], None
        if what == 'note class': return [], c.Note, None
        if what == 'bytes': return [], b'C4', None
        if what == 'track': return [], c.Track(content=[(N[0], None)]), None
        if what == 'dict': return [], {1: N[0]}, None
        if what == 'true': return [], True, None
        raise KeyError(what)


BADPOS = ['position ' + x for x in ('third', 'negative', 'zero denominator', 'six', 'number', 'float', 'text', 'single', 'triple', 'object', 'note', 'negative denominator', 'text pair',
                                      'zero', 'false', 'zero float', 'empty text', 'empty list', 'empty tuple', 'empty dict', 'tone', 'track')]


def rec_histories(hists):
    out = []
    for h in hists:
        e = Exec()
        for op in h: e.do(op)
        out.append(e.out)
    return out


# ------------------------------------------------------------------ generation
def note(rng, st):
    """Notes from a small per-history palette, so that duplicates and ties are common."""
    if rng.random() < .6 and st['notes']: 
        n = rng.choice(st['notes'])
        if rng.random() < .3: n = (n[0], related(rng, n[1]), n[2])
        return n
    n = (rng.choice([0, 60, 61, 12, -5, rng.randrange(-100, 100)]), durpair(rng), rng.choice([0.75, 0.5, vel_pool(rng)]))
    st['notes'].append(n)
    return n


def position(rng, st):
    k = rng.random()
    if k < .35: return None
    if k < .65 and st['pos']:
        p = rng.choice(st['pos'])
        if rng.random() < .5: p = related(rng, p)
    else:
        e = rng.choice([0, 1, 2, 2, 3, 4, 5, 7, 8, 10, 16, 33, 70])
        p = (rng.choice([0, 1, 1, 2, 3, rng.randrange(0, 60), rng.getrandbits(40), (1 << e) * rng.randrange(4)]), 1 << e)
    st['pos'].append(p)
    return (p[0], p[1], rng.choice(['sig', 'tuple', 'list']))


def shape(rng, st, depth=0):
    if rng.random() < .62 or depth > 2: return note(rng, st)
    return {'c': rng.choice(['list', 'tuple', 'gen', 'iter']), 'l': [shape(rng, st, depth + 1) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))]}


def new_state(): return {'notes': [], 'pos': []}


def sigpair(rng): return rng.choice([(4, 4), (3, 4), (6, 8), (7, 8), (0, 1), (17, 16), (255, 128), (5, 4), (2, 2), (rng.randrange(300), 1 << rng.randrange(9))])


def content(rng, st):
    if rng.random() < .5: return None
    return [(shape(rng, st), position(rng, st)) for _ in range(rng.choice([0, 1, 2, 4]))]


def hist_c07(rng, n):
    st = new_state()
    h = [['new', sigpair(rng), content(rng, st), rng.choice(['sig', 'tuple', 'gen'])]]
    tracks, iters = 1, 0
    for _ in range(n):
        i = rng.randrange(1, tracks + 1)
        k = rng.random()
        if k < .50: h.append(['add', i, shape(rng, st), position(rng, st)])
        elif k < .55: h.append(['copy', i, rng.randrange(1, tracks + 1), position(rng, st), rng.choice(['gen', 'map', 'list'])])
        elif k < .68: h.append(['iter', i])
        elif k < .76: h.append(['count', i])
        elif k < .80: h.append(['partial', i, rng.randrange(3)])
        elif k < .90:
            h.append(['open', i, rng.choice([1, 1, 2, 3])]); iters += 1
        elif k < .96 and iters: h.append(['drain', rng.randrange(1, iters + 1)])
        elif tracks < 3:
            h.append(['new', sigpair(rng), content(rng, st), rng.choice(['sig', 'tuple', 'gen'])]); tracks += 1
    for j in range(1, iters + 1): h.append(['drain', j])
    for i in range(1, tracks + 1): h += [['iter', i], ['count', i], ['iter', i]]
    return h


def decode_model_history(line, mode):
    """A CASE line of MC_Track as operations."""
    P = [(0, 1), (1, 2), (3, 8), (2, 4)]
    N = [(0, (1, 4), 1.0), (1, (1, 8), 1.0), (0, (0, 1), 1.0), (0, (3, 2), 1.0)]
    h = [['new', (4, 4), None, 'sig']]
    for c in [int(x) for x in line.strip('<>').split(',')]:
        if c == 1: h.append(['iter', 1])
        elif c < 50: h.append(['add', 1, N[c % 10 - 1], P[c // 10 - 1] + ('sig',)])
        elif c < 60: h.append(['add', 1, N[c % 10 - 1], None])
        else: h.append(['add', 1, {'c': 'tuple', 'l': [N[(c - 60) // 10 - 1], N[c % 10 - 1]]}, None])
        if mode == 'length': h.append(['length', 1])
    h += [['length', 1], ['iter', 1]] if mode == 'length' else [['iter', 1], ['count', 1]]
    return h


TRACKCFG = ['SPECIFICATION Spec', 'INVARIANT Inv', 'INVARIANT Emit', 'PROPERTY Grows', 'CHECK_DEADLOCK FALSE']


def model_histories(run, mode):
    lines = run.model('MC_Track', TRACKCFG, workers=1, env={'DEPTH': '3'})
    if not THOROUGH: lines = run.rng.sample(lines, 1100)
    return [decode_model_history(l, mode) for l in lines]


def run_c07(run):
    hists = model_histories(run, 'iter')
    n = 3000 if THOROUGH else 300
    for _ in range(n): hists.append(hist_c07(run.rng, run.rng.choice([3, 6, 10, 20, 35])))
    for m in ([120, 300, 1500] if THOROUGH else [70, 150, 600]):          # long ones
        st = new_state()
        h = [['new', (4, 4), None, 'sig']]
        for j in range(m):
            h.append(['add', 1, note(run.rng, st), position(run.rng, st)])
            if run.rng.random() < .1: h += [h[-1]] * run.rng.choice([1, 1, 2])
            if run.rng.random() < .05: h.append(['add', 1, {'c': run.rng.choice(['list', 'gen']), 'l': [note(run.rng, st) for _ in range(run.rng.choice([3, 17, 40]))]}, position(run.rng, st)])
            if j % (40 if m < 400 else 250) == 17: h.append(['iter', 1])
        hists.append(h + [['iter', 1], ['count', 1]])
    run.judge('T_Track', in_child(rec_histories, hists))
    return run.finish('model_checking', 'histories of additions, iterations and counts: those TLC enumerated over the heap model and seeded ones of up to 300 '
                      'operations over several tracks with shared notes, ties and denominators up to 2^70; nontrivial: a listing of at least two entries')


def run_c08(run):
    hists = model_histories(run, 'length')
    rng = run.rng
    for _ in range(3000 if THOROUGH else 350):
        st = new_state()
        h = [['new', sigpair(rng), content(rng, st), 'tuple'], ['length', 1]]
        often, seldom = rng.choice([(.8, .15), (.8, .15), (.35, .5), (.1, .8)])
        for _ in range(rng.choice([2, 4, 8, 16, 30])):
            h.append(['add', 1, shape(rng, st), None if rng.random() < .4 else position(rng, st)])
            if rng.random() < often: h.append(['length', 1])
            if rng.random() < .08: h += [['copy', 1, 1, rng.choice([None, position(rng, st)]), rng.choice(['gen', 'map', 'list'])], ['length', 1]]
            if rng.random() < seldom:
                h.append(['iter', 1])
                if rng.random() < .5: h.append(['length', 1])
        hists.append(h + [['length', 1], ['iter', 1]])
    for m in ([120, 300, 700, 1500] if THOROUGH else [70, 230, 600]):          # long ones, in which early notes may end late
        st = new_state()
        h = [['new', (4, 4), None, 'sig']]
        for j in range(m):
            w = position(rng, st) if rng.random() < .7 else None
            n = note(rng, st)
            if rng.random() < .02: n = (n[0], (rng.randrange(1, 4 * m), rng.choice([1, 4])), n[2])
            h.append(['add', 1, n, w])
            if j % 23 == 11: h.append(['partial', 1, 1])
            if j % 23 in (5, 11, 12): h.append(['length', 1])
        hists.append(h + [['length', 1], ['iter', 1], ['length', 1]])
    run.judge('T_Track', in_child(rec_histories, hists))
    return run.finish('model_checking', 'as C07, with the length queried after most additions and about half of the additions appended; nontrivial: length or '
                      'listing of a track of at least two notes')


def hist_c09(rng, size=0):
    """Tracks with the same contents built differently, and near misses."""
    st = new_state()
    items = [(note(rng, st), (lambda p: p if p else (0, 1, 'sig'))(position(rng, st))) for _ in range(size if size else rng.choice([0, 1, 1, 2, 3, 5, 8, 13]))]
    if items and rng.random() < .3: items += [rng.choice(items) for _ in range(rng.choice([1, 2]))]
    sig = sigpair(rng)
    def variant(items):
        items = list(items)
        rng.shuffle(items)
        out = []
        for n, w in items:
            if rng.random() < .5:
                j = rng.choice([1, 2, 5]); w = (w[0] << j, w[1] << j, w[2])
            if rng.random() < .3:
                j = rng.choice([1, 3]); n = (n[0], (n[1][0] << j, n[1][1] << j), n[2])
            out.append((n, w))
        return out
    def mutate(items, sig):
        items = list(items)
        k = rng.randrange(11)
        if k >= 9 and len(items) > 1:
            # the same entries, as many in all, with other multiplicities
            a, b = rng.sample(range(len(items)), 2)
            items[a] = items[b]
        elif k == 0: items.append((note(rng, st), (rng.randrange(5), 4, 'sig')))
        elif k == 1 and items: items.append(rng.choice(items))
        elif k == 2 and items: items.remove(rng.choice(items))
        elif k == 3: sig = rng.choice([(sig[0] + 1, sig[1]), (sig[0] * 2, sig[1] * 2), (sig[0], sig[1] * 2), sigpair(rng)])
        elif items:
            i = rng.randrange(len(items))
            n, w = items[i]
            if k == 4: w = related(rng, w[:2]) + (w[2],)
            elif k == 5: n = (n[0] + rng.choice([-1, 1, 12]), n[1], n[2])
            elif k == 6: n = (n[0], related(rng, n[1]), n[2])
            elif k == 7: n = (n[0], n[1], vel_pool(rng))
            elif len(items) > 1:
                # exchange the positions of two notes
                j = rng.randrange(len(items))
                (n, w), (n2, w2) = items[i], items[j]
                items[j] = (n2, w); w = w2
            items[i] = (n, w)
        return items, sig
    h = []
    specs = [(items, sig)]
    specs.append((variant(items), sig))
    specs.append(mutate(variant(items), sig))
    if rng.random() < .5: specs.append((variant(specs[2][0]), specs[2][1]))
    if rng.random() < .3: specs.append(([], sig))
    for i, (it, s) in enumerate(specs):
        if rng.random() < .5: h.append(['new', s, it, rng.choice(['sig', 'gen'])])
        else:
            h.append(['new', s, None, 'sig'])
            for n, w in it:
                h.append(['add', i + 1, n if rng.random() < .7 else {'c': 'list', 'l': [n]}, w])
                if rng.random() < .2: h.append(['iter', i + 1] if rng.random() < .5 else ['eq', i + 1, rng.randrange(1, i + 2)])
    k = len(specs)
    h += [['eq', a, b] for a in range(1, k + 1) for b in range(1, k + 1)]
    if rng.random() < .4:       # and again after one of them has changed
        i = rng.randrange(1, k + 1)
        h.append(['add', i, note(rng, st), position(rng, st)])
        h += [['eq', a, i] for a in range(1, k + 1)] + [['eq', i, a] for a in range(1, k + 1)]
    return [x for x in h if x[0] != 'iter' ]


def run_c09(run):
    run.model('MC_TrackEq', ['INIT Init', 'NEXT Next', 'INVARIANT Inv', 'CHECK_DEADLOCK FALSE'])
    hists = [hist_c09(run.rng) for _ in range(4000 if THOROUGH else 500)]
    hists += [hist_c09(run.rng, m) for m in ([70, 130, 200, 300, 520, 1100] * 4 if THOROUGH else [70, 130, 130, 300, 300, 520])]
    run.judge('T_Track', in_child(rec_histories, hists))
    return run.finish('model_checking', 'families of tracks with the same contents added in different orders, denominators and manners, and with one note, position, '
                      'multiplicity or signature changed; all ordered pairs compared; nontrivial: two different track objects')


def run_c10(run):
    rng = run.rng
    run.model('MC_Track', TRACKCFG, workers=1, env={'DEPTH': '2'})
    hists = []
    kinds = BADS + BADPOS
    for j in range(1500 if THOROUGH else 260):
        st = new_state()
        h = [['new', sigpair(rng), content(rng, st), 'sig']]
        for _ in range(rng.choice([1, 3, 6, 10])):
            if rng.random() < .5: h.append(['add', 1, shape(rng, st), position(rng, st)])
            what = kinds[j % len(kinds)] if rng.random() < .5 else rng.choice(kinds)
            h.append(['bad', 1, what, [note(rng, st) for _ in range(3)], position(rng, st) if not what.startswith('position') else None])
        h.append(['add', 1, note(rng, st), None])
        h += [['iter', 1], ['count', 1], ['length', 1]]
        hists.append(h)
    run.judge('T_Track', in_child(rec_histories, hists))
    return run.finish('fault_enumeration', 'histories in which additions refused for %d different reasons (invalid position, not a note, a collection containing '
                      'something that is not a note) are interleaved with accepted ones; nontrivial: a refused addition' % len(kinds))
