"""Drivers for C31: the same calls in processes of different kinds."""
import hashlib, pickle
import random as stdlib_random
from core import *
from props_copies import CopySys, CopyGen
from props_more import Gen, song
import props_midi

# properties whose recordings hold no random draws, but for those that need the whole machine
FROM = ['C%02d' % i for i in range(1, 26) if i not in (11, 23)] + ['C26', 'C27', 'OBJ']
ALL = FROM

#        name, flags, environment, way
def ways():
    h = lambda i: str(SEED * 16 + i)
    return [('plain', [], {'PYTHONHASHSEED': '0'}, 'apart'),
            ('in one process, the last first', [], {'PYTHONHASHSEED': h(1)}, 'back'),
            ('without assertions', [], {'PYTHONHASHSEED': h(2), 'PYTHONOPTIMIZE': '1'}, 'apart'),
            ('without assertions and documentation, in another thread', [], {'PYTHONHASHSEED': h(3), 'PYTHONOPTIMIZE': '2'}, 'thread'),
            ('development mode, plain locale', ['-X', 'dev', '-W', 'ignore'], {'PYTHONHASHSEED': h(4), 'LC_ALL': 'C', 'LANG': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0', 'TZ': 'Asia/Kathmandu'}, 'apart'),
            ('collecting garbage all the time, without site packages', ['-S'], {'PYTHONHASHSEED': h(5), 'PYTHONMALLOC': 'malloc', 'TZ': 'Pacific/Chatham'}, 'gc')]


class PlainGen(CopyGen):
    """No draws."""
    def op(self):
        o = super().op()
        return None if o is None or o['op'] == 'rand' else o


def rec_plain(r):
    out, rng = [], stdlib_random.Random(SEED)
    for n in [rng.choice([30, 60, 100]) for _ in range(1500 if THOROUGH else 200)]:
        s = CopySys(rng)
        g = PlainGen(rng, s)
        for _ in range(n):
            op = g.op()
            if op is not None and not s.do(op): break
        out.append(s.out)
    r.judge('T_System', out)


def rec_objects(r):
    """Objects pickled by the first process, as the others see them."""
    path = os.environ['VERIF_PICKLES']
    from props_more import lib
    c = lib()
    import melodia.io.midi as midi
    if not os.path.exists(path):
        rng, objs = stdlib_random.Random(SEED), []
        for _ in range(40):
            s = CopySys(rng)
            g = PlainGen(rng, s)
            for _ in range(50):
                op = g.op()
                if op is not None and not s.do(op): break
            # tracks that were asked and tracks that were not
            objs += [o for o in s.pool if isinstance(o, (c.Tone, c.Signature, c.Note, c.Track))]
            objs += list(s.writers.values()) + list(s.readers.values())
        with open(path + '.new', 'wb') as f:
            for i, o in enumerate(objs):
                try: b = pickle.dumps(o, 2 + i % 4)
                except Exception: b = b''       # that is C30
                f.write(len(b).to_bytes(4, 'big') + b)
        os.rename(path + '.new', path)
    out = []
    tr = c.Track(content=[(c.Note(30), (1, 4)), (c.Note(37, (3, 8), .25), (1, 4)), (c.Note(31, (1, 3 << 5 & 32), 1.0), (7, 1 << 7))])
    data = props_midi.valid_file(stdlib_random.Random(5), 12)
    with open(path, 'rb') as f:
        while True:
            n = f.read(4)
            if not n: break
            b = f.read(int.from_bytes(n, 'big'))
            if not b: continue
            def proj(o):
                if isinstance(o, c.Tone): return o_tone(o)
                if isinstance(o, c.Signature): return o_sig(o)
                if isinstance(o, c.Note): return o_note(o)
                if isinstance(o, c.Track): return dict(o_track(o), length=p_sig(o.length), rep=repr(o))
                if isinstance(o, midi.MIDIWriter): return o_bytes(o.dumps(tr))
                return o_track(o.loads(data))
            out.append({'obs': observe(lambda: pickle.loads(b), proj)})
    r.judge('', out)


RECORD = {'C26': rec_plain, 'OBJ': rec_objects}


def run_c31(run):
    lines = ['INIT Init', 'NEXT Next', 'INVARIANT Inv', 'CHECK_DEADLOCK FALSE']
    run.model('MC_Process', lines, env={'VARIANT': 'guard', 'STEPS': '7' if THOROUGH else '5'}, workers=8, timeout=2400)
    for v, what in (('assert', 'refusals made by assertions'), ('set', 'an answer in the order of a set'), ('first', 'an answer kept for all that follows'), ('doc', 'an answer taken from the documentation')):
        run.control('MC_Process', lines, {'VARIANT': v, 'STEPS': '4'}, what)
    prog = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'elsewhere.py')

    def go(i, ids):
        name, flags, env, way = ways()[i]
        d = os.path.join(run.scratch, 'in%d' % i)
        os.makedirs(d, exist_ok=True)
        e = dict({k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}, VERIF_SEED=str(SEED), VERIF_PICKLES=os.path.join(run.scratch, 'pickles'), **env)
        try:
            p = subprocess.run([sys.executable, *flags, prog, os.path.join(run.scratch, 'rec%d' % i), way, *ids], cwd=d, env=e, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=3000 if THOROUGH else 700)
        except subprocess.TimeoutExpired:
            raise CodeFailure('the calls did not come to an end in a process %s' % name)
        if p.returncode: raise CodeFailure('in a process %s: %s' % (name, p.stdout.decode('utf-8', 'replace')[-3000:]))

    go(0, ['OBJ'])
    n = len(ways())
    with ThreadPoolExecutor(n) as ex: list(ex.map(lambda i: go(i, ALL), range(n)))
    cases, size, steps = [], 20, 0
    for what in ALL:
        fs = [open(os.path.join(run.scratch, 'rec%d.%s' % (i, what))) for i in range(n)]
        try:
            at, shown = 0, 0
            while True:
                blocks = [[l for l in (f.readline() for _ in range(size)) if l] for f in fs]
                if not any(blocks): break
                sums = [hashlib.sha1(''.join(b).encode()).hexdigest()[:16] for b in blocks]
                steps += len(blocks[0])
                if len(set(sums)) == 1: cases.append({'k': 'block', 'what': what, 'at': at, 'procs': n, 'runs': sums})
                else:
                    for j in range(max(map(len, blocks))):
                        x = [b[j] if j < len(b) else '{}' for b in blocks]
                        if len(set(x)) > 1 and shown < 40:
                            cases.append({'k': 'step', 'what': what, 'at': at + j, 'procs': n, 'runs': x})
                            shown += 1
                at += size
        finally:
            for f in fs: f.close()
    run.notes.append('%d recorded steps in each of %d processes: %s' % (steps, n, '; '.join(w[0] for w in ways())))
    run.judge('T_Agree', cases)
    return run.finish('model_checking', 'the seeded calls of the checks of the other properties (all but those with random draws or threads), made in %d processes of different kinds and compared in blocks of %d recorded steps; '
                      'nontrivial: every block' % (n, size))
