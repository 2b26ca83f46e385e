"""Recordings made again in a process of another kind (C31).  Run as a program of its own:
    python [flags] elsewhere.py OUT WAY ID...
makes the recordings of the checks of the given properties, as their drivers do but judging nothing, and writes
them to OUT, one JSON line for each recorded step, without the texts of errors.  WAY says how:
    apart    each property in a process of its own       back     all in this process, the last one first
    thread   each in a thread other than the main one    gc       collecting garbage all the time"""
import gc, hashlib, importlib, json, os, random, resource, sys, threading
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

MODULES = ['props_core', 'props_track', 'props_midi', 'props_misc', 'props_more']


class Recorder:
    """Stands in for core.Run."""
    def __init__(self, prop):
        self.prop, self.got = prop, []
        self.rng = random.Random('%s/%d/elsewhere' % (prop, core.SEED))
        self.lock = threading.Lock()

    def model(self, *a, **k): return []
    def control(self, *a, **k): pass
    def judge(self, module, cases, **k):
        for c in cases: self.got.append(c if isinstance(c, list) else [c])
    def finish(self, *a, **k): pass


def trim(x):
    if isinstance(x, dict): return {k: trim(v) for k, v in x.items() if not (k == 'msg' and x.get('t') == 'err')}
    if isinstance(x, list): return [trim(y) for y in x]
    return x


def record(prop):
    for m in MODULES:
        mod = importlib.import_module(m)
        mod.in_child = lambda f, *a, **k: f(*a)
        if hasattr(mod, 'model_histories'): mod.model_histories = lambda *a: []
    import props_procs
    r = Recorder(prop)
    f = props_procs.RECORD.get(prop)
    if f: f(r)
    else:
        for m in MODULES:
            f = getattr(importlib.import_module(m), 'run_' + prop.lower(), None)
            if f: break
        f(r)
    # what is alike in one process is recorded once, as everywhere
    return [trim(g) for g in r.got]


def write(prop, out):
    with open(out + '.' + prop, 'w') as f:
        for g in record(prop):
            for c in g: f.write(json.dumps(c, sort_keys=True) + '\n')


def main():
    out, way, props = sys.argv[1], sys.argv[2], sys.argv[3:]
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    if way == 'gc': gc.set_threshold(3, 2, 2)
    if way == 'back': props = props[::-1]
    for p in props:
        if way == 'back': write(p, out)
        elif way == 'thread':
            box = []
            def f():
                try: write(p, out)
                except BaseException as e: box.append(e)
            t = threading.Thread(target=f)
            t.start(); t.join()
            if box: raise box[0]
        else:
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    write(p, out)
                    code = 0
                except BaseException:
                    import traceback
                    traceback.print_exc()
                finally:
                    sys.stderr.flush()
                    os._exit(code)
            _, st = os.waitpid(pid, 0)
            if st: sys.exit(1)


if __name__ == '__main__': main()
