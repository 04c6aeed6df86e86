"""Facts about one configuration of the public class: construction, queries, destruction, composition of stages."""
from stage import *
from cascade import Cascade

def canon(v, ords):
    if isinstance(v, Ptr):
        if v.r.id in ords: return ('p', ords[v.r.id], repr(v.o))
        return ('g', v.r.name, repr(v.o))
    if isinstance(v, FnPtr): return ('f', v.name)
    if isinstance(v, float): return ('v', float('%.9g' % v))
    if isinstance(v, int): return ('v', float(v)) if v == 0 else ('i', v)
    return ('o', repr(v)[:60])

def fingerprint(eng, st, root):
    """content of the object graph below root, up to addresses and up to bytes never written"""
    ords, order, cells = graph(eng, st, root)
    out = []
    for rid, o, sz, v in cells:
        if isinstance(v, Top) and v.why == 'uninitialised': continue
        if isinstance(v, Lin) and not v.bad and v.c == 0 and v.t and all(k[0] == 'U' for k in v.t): continue
        out.append((ords[rid], o, sz, canon(v, ords)))
    for r in order:
        rs = st.mem.get(r.id)
        for en in (rs.log if rs else []):
            if isinstance(en, Seg): out.append((ords[r.id], repr(en.lo), 'seg', repr(en)))
    return hash_(sorted(out, key=repr))
def hash_(x):
    import hashlib
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]

def vectorised(mod, fname, seen=None):
    """does the function, or anything it calls directly, do float vector arithmetic?"""
    seen = set() if seen is None else seen
    if fname in seen: return False
    seen.add(fname)
    F = mod.funcs.get(fname)
    if F is None or F.decl: return False
    for b in F.blocks:
        for I in b:
            if I['op'] in ('fadd', 'fmul', 'fsub') and str(I.get('ty', ''))[0] == 'v': return True
            if I['op'] in ('call', 'invoke') and 'f' in I and vectorised(mod, I['f'], seen): return True
    return False

def query_call(mod, name, obj, st):
    e = Log(mod, prefer_unroll=True)
    outs = e.call(name, [Ptr(obj, 0)], st.copy())
    vals = [v if not isinstance(v, Lin) else v.c if not v.t and not v.bad else repr(v) for _, v in outs]
    vals = [repr(v) if isinstance(v, (Top, Cond)) else v for v in vals]
    wr = sorted('%s at %s' % (REGS[r].name, mod.loc_user(l)) for r, ws in e.writes.items() if REGS[r].kind in PERSIST for o, l in ws)[:3]
    return {'vals': vals, 'events': events(e, mod), 'obs': obligations(e, mod), 'notes': notes(e, mod), 'writes': wr, 'callees': sorted(e.callees),
            'globals': global_writes(e, mod)}
def config_facts(mod, cfg, res=16, casc=True):
    mode, ratio, prec, sse, filt = cfg
    F = {'cfg': cfg, 'open': []}
    t0 = time.time()
    e = Log(mod, prefer_unroll=True); e.malloc_res = res
    reads = {}
    def tr(st, r, off, size, kind, loc):
        if kind == 'read' and r.kind == 'global' and r.const and isinstance(off, int) and isinstance(size, int):
            reads.setdefault(r.name, set()).update(range(off, off + size))
        elif kind == 'read' and r.kind == 'global' and r.const: reads.setdefault(r.name, set()).add(None)
    e.trace_access = tr
    sz = e.call('vp_sizeof', [], State())[0][1]
    obj = mkregion('Resampler2', 'obj', sz, 8, base=BaseUninit())
    st = State()
    if filt is None: outs = e.call('vp_ctor4' if sse is not None else 'vp_ctor3', [Ptr(obj, 0), mode, ratio, prec] + ([sse] if sse is not None else []), st)
    else: outs = e.call('vp_ctor', [Ptr(obj, 0), mode, ratio, prec, sse, filt], st)
    F['ctor'] = {'paths': len(outs), 'events': events(e, mod), 'obs': obligations(e, mod), 'notes': notes(e, mod), 'globals': global_writes(e, mod), 'callees': sorted(e.callees)}
    F['tables'] = {k: (sorted(x for x in v if x is not None), None in v, e.gregions[k[7:]].size) for k, v in reads.items() if is_float_table(e, k)}
    if not outs: return F
    st = outs[0][0]
    F['allocs'] = len(st.allocs)
    F['retained'] = retained(st, None, None)
    calls, h = discover(mod, obj, st)
    hob = obligations(h, mod)
    F['discover'] = {'events': events(h, mod), 'obs': hob}
    F['stages'] = [(mod.funcs[f].dem, vectorised(mod, f)) for f, _ in calls]
    fps = []
    for f, p in calls: fps.append(fingerprint(e, st, p.r))
    F['fps'] = fps
    F['objfp'] = fingerprint(e, st, obj)
    F['q'] = {}
    if len(calls) == {1: 0, 2: 1, 4: 2, 8: 3}[ratio]:
        for q in ('order', 'delay', 'sse', 'reset'): F['q'][q] = query_call(mod, 'vp_' + q, obj, st)
    # destruction
    e = Log(mod, prefer_unroll=True)
    outs = e.call('vp_dtor', [Ptr(obj, 0)], st.copy())
    leak = []
    for s, _ in outs:
        for rid, name in s.allocs:
            if rid not in s.dead: leak.append('%s allocated at %s' % (name, mod.loc_user(REGS[rid].tags['loc'])))
    F['dtor'] = {'paths': len(outs), 'leak': leak, 'obs': obligations(e, mod), 'events': events(e, mod), 'notes': notes(e, mod), 'frees': sum(o['ok'] for o in obligations(e, mod) if o['kind'] == 'free')}
    if casc and len(calls) == {1: 0, 2: 1, 4: 2, 8: 3}[ratio]:
        F['cascade'] = cascade_facts(mod, st, obj, mode, ratio)
        if mode == 1 and ratio == 2: F['odd'] = odd_facts(mod, st, obj)
    F['t'] = time.time() - t0
    return F

def is_float_table(e, k):
    g = e.gregions.get(k[7:])
    if g is None: return False
    init = g.tags['g'].get('init') or []
    return any(t in ('f32', 'f64') for _, t, _ in init)

def odd_facts(mod, st, obj):
    """a block of 2m+1 samples given to a factor 2 resampler must reach the stage unchanged, and nothing else may happen"""
    bad = []
    calls = []
    m = fresh('m'); n = add(mulc(m, 2), 1)
    inr = mkregion('input', 'in', mulc(n, 4), 4, base=BaseStream('X', 'in'), const=True)
    outr = mkregion('output', 'out', mulc(m, 4), 4, base=BaseStream('O', 'out'))
    def hook(eng, name, args, s, I):
        if 'f' in I: return None
        if len(args) == 4 and isinstance(args[1], Ptr) and isinstance(args[0], Ptr):
            calls.append((args[1], args[2], args[3])); return [(s, None)]
    st = st.copy(); st.gam = st.gam.add_ge(m).add_ge(sub(NMAX, m))
    h = Log(mod); h.call_hook = hook
    outs = h.call('vp_process', [Ptr(obj, 0), Ptr(inr, 0), n, Ptr(outr, 0)], st)
    R = {'calls': len(calls), 'paths': len(outs), 'viol': [], 'open': []}
    if any(REGS[x] is outr for x in h.writes): R['viol'].append('the public process_block writes output for an odd block itself')
    for src, k, dst in calls:
        if not (src.r is inr and src.o == 0 and dst.r is outr and dst.o == 0 and k == n): R['open'].append('stage is given %r %r %r' % (src, k, dst))
    for ev in events(h, mod):
        if ev[0] != 'diag': R['viol'].append('odd block causes %s %s at %s' % ev[:3])
    return R

CONCRETE = (0, 1, 2, 3, 5, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4097)
def cascade_facts(mod, st, obj, mode, ratio):
    c = Cascade(mod, st, obj, mode, ratio)
    m = fresh('m')
    R = {'viol': [], 'open': [], 'clean': []}
    wit = []
    try:
        with cpu_limit(8): e = c.run(m, False)
        ob = obligations(e, mod, m.t[0][0])
        R.update(paths=c.paths, fails=[str(x)[:300] for x in c.fails], obs=ob, events=events(e, mod), notes=notes(e, mod), calls=sorted((k[0], k[1], v) for k, v in c.calls.items()),
                 callees=sorted(e.callees), writes=sorted(set(REGS[x].kind for x in e.writes)), globals=global_writes(e, mod), loops=len(e.loop_info))
        bad = c.fails or any(o['cand'] or o['nunk'] for o in ob) or any('undecided' in n or 'loop:' in n for n in R['notes']) or any(x[0] in ('diag', 'abort') for x in R['events'])
        for o in ob:
            for d, w in o['cand']: wit.append(w)
        for k, t, g in c.cands: wit.append((g or {}).get(m.t[0][0]))
        keep = []
        for s, _ in c.noutregs:
            for rid, rs in s.mem.items():
                if REGS[rid].kind in PERSIST: keep += [x for x in retained(s, None, None)]
        R['retained'] = sorted(set(keep))
    except (Budget, Imprecise, PathDead, RecursionError) as x:
        bad = True; R['fails'] = ['analysis gave up: %r' % (x,)]; R['obs'] = []; R['events'] = []; R['notes'] = []; R['calls'] = []; R['callees'] = []; R['paths'] = 0; R['globals'] = []; R['retained'] = []
    R['proved'] = not bad
    if bad:
        t1 = time.process_time()
        R['open'] = R['fails'][:5] + ['%s at %s' % (o['kind'], o['at']) for o in R['obs'] if o['cand'] or o['nunk']][:5] + R['notes'][:3]
        for n in list(CONCRETE) + sorted(set(w for w in wit if w is not None and w < 20000))[:5]:
            nv = len(R['viol'])
            if time.process_time() - t1 > 30: break
            try:
                with cpu_limit(8): e = c.run(n, True)
            except (Budget, Imprecise, PathDead, RecursionError) as x: R['open'].append('%d: %r' % (n, x)); continue
            for o in obligations(e, mod):
                if o['cand']: R['viol'].append((o['kind'], o['at'] + ': ' + str(o['cand'][0][0]), n))
            for k, t, g in c.cands: R['viol'].append((k, t, n))
            if not c.noutregs: R['viol'].append(('abort', 'no path returns', n))
            for ev in events(e, mod): R['viol'].append(('event-' + ev[0], '%s at %s' % (ev[1], ev[2]), n))
            if len(R['viol']) == nv: R['clean'].append(n)
            if len(R['viol']) > 20: break
        R['viol'] = [(a, str(b)[:400], n) for a, b, n in R['viol'][:20]]
    return R
