"""Collects the facts a check needs: compiles /repo's current source, analyses it in parallel."""
import os, sys, time, tempfile, shutil, pickle, hashlib, signal, multiprocessing as mp
import ir as irmod

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = irmod.HERE

class Timeout(Exception): pass
def _alarm(*a): raise Timeout()

class Work:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='verif-pa-'); return self.d
    def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)

def source_key():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'include'), os.path.join(HERE, 'pa'), os.path.join(HERE, 'drv'), os.path.join(HERE, 'tool')):
        for dp, dn, fn in sorted(os.walk(base)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith('.pyc'): continue
                p = os.path.join(dp, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

def cached(name, tier, fn):
    """development aid only (VERIF_CACHE=1): reuse facts of identical source"""
    if os.environ.get('VERIF_CACHE') != '1': return fn()
    p = os.path.join(irmod.CACHE, 'facts-%s-%s-%s.pkl' % (name, tier, source_key()))
    if os.path.exists(p): return pickle.load(open(p, 'rb'))
    v = fn()
    pickle.dump(v, open(p + '.tmp%d' % os.getpid(), 'wb')); os.rename(p + '.tmp%d' % os.getpid(), p)
    return v

_mod = None
_start = [0]
WALL = (450, 700)   # seconds a run may take, by tier
def load_driver():
    global _mod
    if _mod is None:
        with Work() as w:
            data = irmod.build_json(os.path.join(HERE, 'drv', 'drv.cc'), REPO, [], w, tag='n')
        _mod = irmod.Module(data)
    return _mod

def arm_flags():
    """cross compile for 64 bit ARM with clang's own arm_neon.h and the installed (x86) library headers"""
    import glob
    cxx = sorted(glob.glob('/usr/include/c++/*'))[-1]; v = os.path.basename(cxx)
    return ['--target=aarch64-linux-gnu', '-isystem', os.path.join(HERE, 'drv', 'arm'), '-isystem', cxx,
            '-isystem', '/usr/include/x86_64-linux-gnu/c++/' + v, '-isystem', '/usr/include/x86_64-linux-gnu', '-isystem', '/usr/include']

_arm = None
def load_arm():
    global _arm
    if _arm is None:
        with Work() as w:
            data = irmod.build_json(os.path.join(HERE, 'drv', 'drv.cc'), REPO, arm_flags(), w, tag='a')
        _arm = irmod.Module(data)
    return _arm

def _run(job):
    k, fn, args, limit = job
    return k, _run1(fn, args, limit)
def _run1(fn, args, limit):
    # processor time, so that a busy machine does not change the outcome
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    t = time.time()
    try: return ('ok', args, fn(*args))
    except Timeout: return ('timeout', args, limit)
    except Exception as x:
        import traceback
        return ('error', args, '%r %s' % (x, traceback.format_exc()[-600:]))
    finally: signal.setitimer(signal.ITIMER_PROF, 0)

def pool(jobs, limit=120, n=8):
    """[(fn, args)] -> [(status, args, result)] in parallel"""
    js = [(k, f, a, limit) for k, (f, a) in enumerate(jobs)]
    out = [None] * len(js)
    with mp.get_context('fork').Pool(n, _worker) as p:
        it = p.imap_unordered(_run, js, 1)
        for _ in js:
            # a tree on which many stages fail must still get its answer: what is not done by then stays undecided
            try: k, r = it.next(max(5.0, DEADLINE - (time.time() - T0)))
            except mp.TimeoutError: break
            out[k] = r
        p.terminate()
    return [r if r is not None else ('timeout', js[k][2], 'not reached within the time of the check') for k, r in enumerate(out)]

T0 = time.time(); DEADLINE = 3000.0 if '--thorough' in sys.argv else 720.0
def _worker():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))

# ---------------------------------------------------------------- groups
def configs(E):
    return [(m, r, p, s, f) for m in (E.UP, E.DOWN) for r in (1, 2, 4, 8) for f in (E.FIR, E.IIR) for n, p in reversed(E.precs) for s in (1, 0)]

def _config(cfg, res=16):
    import config
    return config.config_facts(_mod, cfg, res)
def _stage(cfg, ratio, idx, res, budget):
    import stage
    # a tree with many failing stages must still get its answer: later stages get less time
    over = time.time() - _start[0] - 0.4 * WALL[budget > 30]
    if over > 0: budget = max(3.0, budget * (1 - over / (0.4 * WALL[budget > 30])))
    return stage.analyse(_mod, cfg, ratio, idx, res, budget)

def _aconfig(cfg):
    import config
    return config.config_facts(_arm, cfg, 16)
def _astage(cfg, ratio, idx, res, budget):
    import stage
    return stage.analyse(_arm, cfg, ratio, idx, res, budget)

def enums():
    import model
    return model.Enums(load_driver())

def config_facts(tier):
    def go():
        load_driver(); E = enums()
        assert E.UP == 0 and E.DOWN == 1 and E.FIR == 1 and E.IIR == 0, 'enumerators changed'
        jobs = [(_config, (c,)) for c in configs(E)]
        # constructors with defaulted arguments
        for m in (E.UP, E.DOWN):
            for r in (1, 2, 4, 8):
                for n, p in E.precs:
                    jobs += [(_config, ((m, r, p, 1, None),)), (_config, ((m, r, p, 0, None),)), (_config, ((m, r, p, None, None),))]
        if tier == 'thorough': jobs += [(_config, (c, res)) for c in configs(E) for res in (0, 32, 48)]
        out = {}; bad = []
        for st, args, r in pool(jobs, 120):
            if st == 'ok': out[args if len(args) > 1 else args + (16,)] = r
            else: bad.append((st, args, r))
        return out, bad
    return cached('config', tier, go)

def stage_facts(tier):
    def go():
        cf, _ = config_facts(tier)
        _start[0] = time.time()
        load_driver(); E = enums()
        ress = (16,) if tier == 'quick' else (16, 0, 32, 48)
        jobs = []
        for f in (E.FIR, E.IIR):
            for m in (E.DOWN, E.UP):
                for n, p in reversed(E.precs):
                    for s in (1, 0):
                        full = cf.get(((m, 8, p, s, f), 16))
                        n8 = len(full.get('fps', [])) if full else 3
                        for r in (8, 4, 2):
                            c = cf.get(((m, r, p, s, f), 16))
                            fps = c.get('fps', []) if c else []
                            for i in range(len(fps)):
                                # a stage identical to one of the ratio 8 resampler needs no proof of its own
                                j = i if m == E.UP else n8 - len(fps) + i
                                if r != 8 and full and n8 == 3 and full['fps'][j] == fps[i]: continue
                                for res in ress: jobs.append((_stage, ((m, p, s, f), r, i, res, 20.0 if tier == 'quick' else 90.0)))
        out = {}; bad = []
        for st, args, r in pool(jobs, 100 if tier == 'quick' else 400):
            key = (args[0], args[1], args[2], args[3])
            if st == 'ok': out[key] = r
            else: bad.append((st, args, r))
        return out, bad
    return cached('stage', tier, go)

def arm_facts(tier):
    """constructors and FIR stages of the ARM build (its IIR stages are the plain ones of every other build)"""
    def go():
        load_driver(); load_arm(); E = enums()
        precs = [p for n, p in reversed(E.precs)]
        jobs = [(_aconfig, ((m, r, p, s, f),)) for m in (E.UP, E.DOWN) for r in (1, 2, 4, 8) for p in precs for s in (1, 0) for f in (E.FIR, E.IIR)]
        stages = [(_astage, ((m, p, s, E.FIR), 8, i, res, 20.0 if tier == 'quick' else 90.0)) for p in precs for m in (E.DOWN, E.UP) for s in (1, 0) for i in range(3)
                  for res in ((16,) if tier == 'quick' else (16, 0, 32, 48))]
        cs = {}; ss = {}; bad = []
        for st, args, r in pool(jobs, 120):
            if st == 'ok': cs[args[0]] = r
            else: bad.append((st, args, r))
        for st, args, r in pool(stages, 100 if tier == 'quick' else 400):
            if st == 'ok': ss[args[:4]] = r
            else: bad.append((st, args, r))
        return cs, ss, bad
    return cached('arm', tier, go)

_hiir = None
def _hjob(cls, nc):
    import hiir
    return hiir.analyse(_hiir, cls, nc)
def hiir_facts(tier):
    def go():
        global _hiir
        import hiir
        with Work() as w: _hiir = irmod.Module(irmod.build_json(os.path.join(HERE, 'drv', 'hiir.cc'), REPO, [], w, tag='h'))
        jobs = [(_hjob, (c, n)) for n in reversed(hiir.COUNTS) for c in hiir.CLASSES]
        out = {}; bad = []
        for st, args, r in pool(jobs, 200):
            if st == 'ok': out[args] = r
            else: bad.append((st, args, r))
        return out, bad
    return cached('hiir', tier, go)
