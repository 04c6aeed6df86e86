"""Facts about one factor 2 stage: the general proof, its side conditions, and the bounded re-analysis."""
from model import *

PERSIST = ('malloc', 'obj', 'global')
SPURIOUS = ('imprecise', 'undecided')

def is_imprecise(v):
    if isinstance(v, Top): return True
    return isinstance(v, Lin) and any('imprecise' in b or 'undecided' in b or 'symbolic' in b for b in v.bad)

def raw_cell(st, r, off):
    rs = st.mem.get(r.id)
    if rs is None: return None
    for en in reversed(rs.log):
        if isinstance(en, Cells):
            for o in range(off, off - 8, -1):
                if o in en.d and o + en.d[o][0] > off: return o, en.d[o]
    return None

def cell_eq(a, b):
    if a is None or b is None: return a is b
    (oa, (sa, va)), (ob, (sb, vb)) = a, b
    if oa != ob or sa != sb: return False
    if isinstance(va, (float, Lin)) or isinstance(vb, (float, Lin)):
        if isinstance(va, int) and va == 0: va = 0.0
        if isinstance(vb, int) and vb == 0: vb = 0.0
    return v_same(va, vb) or va == vb

def retained(s, inr, outr, extra=()):
    out = []
    for rid, rs in s.mem.items():
        r = REGS[rid]
        if r.kind not in PERSIST: continue
        for en in rs.log:
            vals = [(o, v) for o, (_, v) in en.d.items()] if isinstance(en, Cells) else [(en.lo, en.f)] if isinstance(en, Seg) else []
            for o, v in vals:
                if isinstance(v, Ptr) and (v.r is inr or v.r is outr or v.r.kind in ('alloca', 'input', 'output') or v.r in extra):
                    out.append('%s offset %r keeps a pointer to %s' % (r.name, o, v.r.name))
    return sorted(set(out))

def state_unchanged(P, e, s, st0, skip):
    """cells outside the float state that a call writes must end with the value they had; list of differing cells"""
    bad = []
    for rid, ws in e.writes.items():
        r = REGS[rid]
        if r.kind not in PERSIST or rid in skip: continue
        for off, loc in ws:
            if off is None:
                bad.append('%s: write at unknown offset' % r.name); continue
            if (rid, off) in skip: continue
            a = raw_cell(s, r, off); b = raw_cell(st0, r, off)
            if not cell_eq(a, b): bad.append('%s offset %d: %s -> %s' % (r.name, off, b and repr(b[1][1])[:40], a and repr(a[1][1])[:40]))
    return bad

class Fresh:
    """analysis of a concrete history from the constructed state, all loops unrolled"""
    def __init__(self, P, obj, res=0, policy=None):
        self.policy = policy; self.P = P; self.obj = obj; self.st = [(P.st0.copy(), [])]; self.pos = 0; self.res = res
        self.problems = []; self.events = {}; self.imprecise = []; self.n = 0; self.hist = []
    def eng(self):
        e = Log(self.P.mod, prefer_unroll=True, steps=6000000); e.max_paths = 10 ** 6; e.policy = self.policy
        return e
    def after(self, e, ctx):
        mod = self.P.mod
        for o in obligations(e, mod):
            if o['cand']: self.problems.append((o['kind'], o['at'] + ': ' + str(o['cand'][0][0]), ctx))
            if o['nunk']: self.imprecise.append('%s at %s' % (o['kind'], o['at']))
        for ev in events(e, mod): self.events[ev[:3]] = ctx
        self.imprecise += notes(e, mod)
    def block(self, m, extra=0, ctx=None):
        P = self.P; self.hist.append(m * P.a + extra)
        ctx = list(self.hist)
        n_in = m * P.a + extra
        new = []
        for st, outs in self.st:
            inr = mkregion('input', 'in', 4 * n_in, 64, base=Shifted(self.pos), const=True)
            outr = mkregion('output', 'out', 4 * m * P.b, 64, base=BaseStream('O', 'out'))
            inr.addr = add(inr.addr, self.res); outr.addr = add(outr.addr, self.res)
            e = self.eng()
            res = e.call(P.fname, [P.this, Ptr(inr, 0), n_in, Ptr(outr, 0)], st)
            self.after(e, ctx)
            if not res: self.problems.append(('abort', 'no path returns', ctx))
            self.n += n_in
            for s, _ in res[:4]:
                self.kept = retained(s, inr, outr)
                if self.kept: self.problems.append(('retain', self.kept[0], ctx))
                if extra:
                    if any(REGS[x] is outr for x in e.writes): self.problems.append(('odd', 'output written for an odd block', ctx))
                    new.append((s, outs)); continue
                if m == 0 and any(REGS[x] is outr for x in e.writes): self.problems.append(('empty', 'output written for an empty block', ctx))
                new.append((s, outs + [e.readq_(s, outr, 4 * i) for i in range(m * P.b)]))
        if not extra: self.pos += m * P.a
        self.st = new[:4]
    def reset(self):
        self.hist.append('reset')
        new = []
        for st, outs in self.st:
            e = self.eng()
            for s, _ in e.call('vp_reset', [Ptr(self.obj, 0)], st)[:4]: new.append((s, []))
            self.after(e, list(self.hist))
        self.st = new; self.pos = 0

class Shifted:
    def __init__(self, pos): self.pos = pos
    def elem(self, eng, st, r, off, ty):
        p = divexact(off, 4)
        return atom('X', 'in', add(p, self.pos)) if p is not None and ty == 'f32' else badf('misaligned float')
    def template(self, r, lo, stride):
        p = divexact(add(lo, mulc(sym(K), stride)), 4)
        return atom('X', 'in', add(p, self.pos)) if p is not None else badf('misaligned float')

def phase_kernel(outs, a, b, i):
    """kernel of output phase i from the last output: {lag position relative to a*k: coefficient}"""
    k = len(outs) // b - 1
    v = tolin(outs[k * b + i])
    if v.bad: return None
    return {x[2] - a * k: c for x, c in v.t.items() if x[0] == 'X' and isinstance(x[2], int)}

def predict(ker, a, k, hi=None):
    return Lin({('X', 'in', a * k + q): c for q, c in ker.items() if a * k + q >= 0 and abs(c) > 1e-12})

def classify(v):
    if isinstance(v, Lin):
        for a in v.t:
            if a[0] == 'O': return 'stale-output'
            if a[0] in ('U', 'L', 'S'): return 'stale-memory'
        if 'uninit' in v.bad: return 'stale-memory'
        if v.bad: return 'nonlinear'
    return 'value'

BOUNDS_OR_EFFECT = ('bounds-read', 'bounds-write', 'overlap', 'lifetime', 'null', 'wildptr', 'constwrite', 'retain', 'align')
def alternate(first):
    n = [first]
    def f(loc): n[0] ^= 1; return n[0] ^ 1
    return f
POLICIES = (('all hold', lambda: lambda loc: 1), ('none holds', lambda: lambda loc: 0), ('alternating', lambda: alternate(1)))

def bounded(P, obj, mvals, budget=60.0, dd=False):
    """re-analyse concrete histories. Returns (violations, histories analysed, imprecision notes)"""
    t0 = time.process_time()
    out = []; runs = []; imp = []
    def rec(kind, what, hist): out.append((kind, what, hist))
    def collect(f):
        for k, w, h in f.problems: rec(k, w, h)
        for ev, h in f.events.items(): rec('event-' + ev[0], '%s at %s' % (ev[1], ev[2]), h)
        imp.extend(f.imprecise)
    lim = 30000 if P.kind == 'fir' else 400
    wit = sorted(set(x for x in mvals if x is not None and 0 <= x <= lim))
    T = 160
    if dd:
        # branches on sample values: compare the alternatives on short blocks
        multi = False
        for m in (1, 2):
            try:
                f = Fresh(P, obj); f.block(m); collect(f)
                if len(f.st) > 1:
                    multi = True
                    runs.append([m])
                    for s, outs in f.st[1:]:
                        for j, v in enumerate(outs):
                            if is_imprecise(v) or is_imprecise(f.st[0][1][j]): continue
                            if not close(tolin(v), tolin(f.st[0][1][j])): rec('nonlinear', 'output sample %d depends on a comparison of sample values' % j, [m])
                            if tolin(v).bad: rec('nonlinear', 'output sample %d is not linear: %s' % (j, ','.join(sorted(tolin(v).bad))), [m])
            except (Budget, Imprecise, RecursionError) as x: imp.append(repr(x))
        # effects that do not depend on the values themselves: follow each decision policy for the comparisons
        EFFECTS = BOUNDS_OR_EFFECT
        for name, mk in POLICIES:
            for sq in ([9, 1, 2], [70], [3, 'r', 2]):
                if time.process_time() - t0 > budget / 2: break
                f = Fresh(P, obj, 0, mk())
                try:
                    for m in sq:
                        f.reset() if m == 'r' else f.block(m)
                except (Budget, Imprecise, RecursionError, PathDead) as x: imp.append(repr(x)); continue
                runs.append(list(f.hist) + ['comparisons: ' + name])
                for k, w, h in f.problems:
                    if k in EFFECTS: rec(k, w + ' (sample comparisons: %s)' % name, h)
                for ev, h in f.events.items():
                    if ev[0] != 'diag' and ev[0] != 'abort': rec('event-' + ev[0], '%s at %s' % (ev[1], ev[2]), h)
        if out or multi: return out, runs, imp, None
    try:
        ref = Fresh(P, obj); ref.block(T); collect(ref)
    except (Budget, Imprecise, RecursionError) as x:
        return out, runs, imp + ['reference run gave up: %r' % x], None
    runs.append([T])
    if not ref.st: return out, runs, imp, None
    base = ref.st[0][1]
    ker = [phase_kernel(base, P.a, P.b, i) for i in range(P.b)]
    if any(k is None for k in ker):
        bad = [v for v in base[-P.b:] if isinstance(v, Lin) and v.bad]
        if bad and not is_imprecise(bad[0]): rec('nonlinear', 'output is not linear: %s' % sorted(bad[0].bad), [T])
        return out, runs, imp, None
    def diff(outs, other, hist, kind):
        """outs must equal other, sample by sample"""
        for j, v in enumerate(outs):
            if j >= len(other): return
            w = other[j]
            if is_imprecise(v) or is_imprecise(w): imp.append('value'); return
            v = tolin(v); w = tolin(w)
            if abs(v.c - w.c) > 1e-6 or v.bad or not close(v, w):
                c = classify(v)
                txt = 'output sample %d is %s, expected %s' % (j, brief(v, w), brief(w, v))
                if c != 'value': rec(c, txt, hist)
                if c != 'nonlinear': rec(kind, txt, hist)
                return
    # one block: every output is the same function of the samples around it
    class Want:
        def __len__(self): return 1 << 40
        def __getitem__(self, j):
            k, i = divmod(j, P.b)
            return predict(ker[i], P.a, k)
    want = Want()
    diff(base, want, [T], 'uniform')
    for j, v in enumerate(base[:2 * T * P.b // 3]):
        if is_imprecise(v): break
        v = tolin(v)
        if abs(v.c) > 1e-6 or any(a[0] in ('U', 'S') for a in v.t):
            rec('fresh', 'output sample %d of a new instance depends on more than its input: %s' % (j, repr(v)[:200]), [T]); break
    class Ref:
        def __len__(self): return len(base) if P.kind == 'iir' else 1 << 40
        def __getitem__(self, j): return base[j] if j < len(base) else want[j]
    ref_ = Ref()
    O = len([1 for c in ker[0].values() if abs(c) > 1e-9]) if P.kind == 'fir' else 8
    O = max(2, min(O, 80))
    def over(): return time.process_time() - t0 > budget
    def run(sq, res=0):
        """outputs of a history; None if undecided. 'r' resets, ('odd', n) is a block of 2n+1 samples"""
        f = Fresh(P, obj, res)
        try:
            for m in sq:
                if m == 'r': f.reset()
                elif isinstance(m, tuple):
                    ev0 = len(f.events)
                    f.block(m[1], 1)
                    if f.st and not any(k[0] == 'diag' for k in f.events): rec('odd', 'an odd block is not reported', list(f.hist))
                    f.events = {k: v for k, v in f.events.items() if k[0] != 'diag'}
                else: f.block(m)
                if not f.st: break
        except (Budget, Imprecise, RecursionError) as x: imp.append(repr(x)); return None
        collect(f); runs.append(list(f.hist))
        return f
    def against(sq, plain, kind, res=0):
        if over(): return
        f = run(sq, res)
        if f is None: return
        if plain is None: o = ref_
        else:
            g = run(plain, res)
            if g is None or not g.st: return
            o = g.st[0][1]
        for s, outs in f.st: diff(outs, o, list(f.hist), kind)
    mix = [1, 2, 3, max(1, O - 1), O, O + 1, 5, 1, max(1, O // 2), 7, 2 * O, 4, O + 2, 6]
    for w in wit[:3]:
        for sq in ([w], [w, w, 9], [O + 7, w, 1, w, 3]) if w < 3000 else ([w],): against(sq, None, 'split', 4)
    against([3, 30, 4, 2], None, 'split')
    against([3, 0, 4, 0, 0, 30, 2], [3, 4, 30, 2], 'empty')
    against([0, 40], [40], 'empty')
    against([5, 'r', 50], [50], 'reset')
    against([37, 'r', 3, 1, 40], [3, 1, 40], 'reset')
    if P.a == 2 and P.kind == 'fir':
        against([5, ('odd', 4), 45], [5, 45], 'odd')
        against([('odd', 0), 45], [45], 'odd')
    against(mix, None, 'split', 4)
    # lengths the code compares with: just below, at and above
    for n, c in enumerate(long_lengths(P)):
        against([c + 1, 2], None, 'split', 4 * (n & 3))
        against([c - 1, 3], None, 'split', 0)
        against([3, c, 2 * O], None, 'split', 8)
    against([1] * 24, None, 'split', 8)
    against([2] * 20, None, 'split', 12)
    against([max(1, O - 2), O - 1, O, O + 1, O + 2, O + 3, O + 4, O + 5], None, 'split')
    against([4] * 12, None, 'split', 4)
    against([2 * O, 1, 2 * O + 1, 1, 2 * O + 3, 2], None, 'split')
    against([2, 1, 'r', 1, 1, 1, 30], [1, 1, 1, 30], 'reset')
    if P.a == 2 and P.kind == 'fir':
        for pre in (1, 40):
            for od in (0, 1, 2, 30, 100): against([pre, ('odd', od), 3, 45], [pre, 3, 45], 'odd')
    if P.kind == 'fir' and not wit:
        for n, sq in enumerate(([1023, 2], [1025, 3], [2048, 1])): against(sq, None, 'split', 4 * n)
    return out, runs, imp, ker

def long_lengths(P, lo=100, hi=5000, most=4):
    """block lengths in units near the constants the stage compares lengths with"""
    cs = set()
    for b in P.mod.funcs[P.fname].blocks:
        for I in (b['i'] if isinstance(b, dict) else b):
            if I['op'] == 'icmp' or 'min' in str(I.get('f')) or 'max' in str(I.get('f')):
                cs |= set(abs(x['i']) for x in I.get('a', []) if isinstance(x, dict) and isinstance(x.get('i'), int))
    out = []
    for c in sorted(cs):
        m = (c + P.a - 1) // P.a
        if lo <= m <= hi and not any(abs(m - x) <= 2 for x in out): out.append(m)
    return out[:most]

# -------------------------------------------------------------------------------------------------- one long block
def big_lengths(P, wits, lo, most=10):
    """block lengths in units beyond the unrolled runs: lengths at which the general proof failed, and lengths near
    constants that lengths are compared with, masked with or truncated to"""
    cs = set(w * P.a for w in wits if w is not None)
    ws = set(w for w in wits if w is not None and w > lo)
    for b in P.mod.funcs[P.fname].blocks:
        for I in (b['i'] if isinstance(b, dict) else b):
            f = str(I.get('f'))
            if I['op'] in ('icmp', 'and', 'select', 'shl', 'lshr', 'urem', 'udiv') or 'min' in f or 'max' in f:
                for x in I.get('a', []):
                    if isinstance(x, dict) and isinstance(x.get('i'), int):
                        c = abs(x['i'])
                        cs.add(c)
                        if I['op'] == 'shl' and c < 30: cs.add(1 << (32 - c))
            if I['op'] in ('trunc', 'zext', 'sext') and ('i16' in str(I)): cs |= {1 << 15, 1 << 16}
            if I['op'] in ('trunc', 'zext', 'sext') and ('i8' in str(I)): cs.add(256)
    ms = sorted(ws)[:2]
    for c in sorted(cs):
        for m in ((c + P.a - 1) // P.a + 1, c // P.a - 1, 2 * c // P.a + 3, c // P.a):
            if lo < m < 1 << 24 and m not in ms: ms.append(m)
    return ms[:most]

def accelerated(P, obj, ms, budget, imp):
    """one long block of a concrete length, inner loops summarised, then (for FIR stages) a short one.
    Returns [(kind, what, history)], histories analysed"""
    out = []; runs = []; t0 = time.process_time()
    fir = P.kind == 'fir'
    if not fir and (getattr(P, 'machine', None) is None or P.infer_bad): return out, runs
    ker = None
    for m in ms:
        if time.process_time() - t0 > budget: break
        if not ker and fir:
            f = Fresh(P, obj); f.block(160)
            if not f.st: return out, runs
            ker = [phase_kernel(f.st[0][1], P.a, P.b, i) for i in range(P.b)]
            if any(k is None for k in ker): return out, runs
        hist = [m * P.a]
        try:
            e = Log(P.mod); e.accel = True
            inr, outr = P.io(m)
            if not fir: e.machine = P.machine; e.machine_kx = P.a
            st = P.st0.copy() if fir else P.state(0)
            outs = P.call(e, st, m, inr, outr)
        except (Budget, Imprecise, PathDead, RecursionError) as x: imp.append('long block %d: %r' % (m, x)); continue
        nt = notes(e, P.mod)
        runs.append(list(hist))
        ok = lambda g: not nt and all(exact(x) for x in g.exprs())
        e.collect = False
        for kind, data, loc, g in e.evs:
            if ok(g): out.append(('event-' + kind, '%s at %s' % (data, P.mod.loc_user(loc)), hist))
        for (kind, loc), o in e.obs.items():
            for d, mod_, g in o.cand[:1]:
                if ok(g): out.append((kind, P.mod.loc_user(loc) + ': ' + str(d), hist))
        want = None
        ks = sorted(set(k for k in [0, 1, 2, 17, m // 3, m // 2, m - 65, m - 2, m - 1] + [c + d for c in (4096, 8192, 16384, 32768, 65536) for d in (-1, 0, 1)] if 0 <= k < m))
        for s, _ in outs[:6]:
            if not ok(s.gam): imp.append('long block %d: %s' % (m, nt[:1] or 'path conditions')); continue
            bad = None
            for k in ks:
                for i in range(P.b):
                    v = e.readq_(s, outr, 4 * (P.b * k + i))
                    w = predict(ker[i], P.a, k) if fir else l_map(P.outs[i], lambda x: (x[0], x[1], P.a * k + x[2]) if x[0] == 'X' else (x[0], x[1], x[2], k))
                    d = differs(P, v, w)
                    if d: bad = bad or ('output sample %d of a block of %d units is %s' % (P.b * k + i, m, d), v)
            if not fir:
                for key in P.machine:
                    d = differs(P, e.readq_(s, REGS[key[0]], key[1] * 4), atom('S', key[0], key[1], m))
                    if d: bad = bad or ('filter state after a block of %d units is %s' % (m, d), 0.0)
            if bad:
                c = classify(without_state(bad[1]))
                if c != 'value': out.append((c, bad[0], hist))
                if c != 'nonlinear': out.append(('split', bad[0], hist))
            elif fir:
                # the block after it
                try:
                    e2 = Log(P.mod, prefer_unroll=True, steps=3000000)
                    in2 = mkregion('input', 'in', 4 * 40 * P.a, 64, base=Shifted(m * P.a), const=True)
                    out2 = mkregion('output', 'out', 4 * 40 * P.b, 64, base=BaseStream('O', 'out'))
                    for s2, _ in e2.call(P.fname, [P.this, Ptr(in2, 0), 40 * P.a, Ptr(out2, 0)], s.copy())[:4]:
                        if notes(e2, P.mod): break
                        for j in range(40 * P.b):
                            k, i = divmod(j, P.b)
                            v = e2.readq_(s2, out2, 4 * j)
                            d = differs(P, v, predict(ker[i], P.a, m + k))
                            if d:
                                c = classify(v); t = 'output sample %d after a block of %d units is %s' % (j, m, d); h2 = hist + [40 * P.a]
                                if c != 'value': out.append((c, t, h2))
                                if c != 'nonlinear': out.append(('split', t, h2))
                                break
                        if out: break
                except (Budget, Imprecise, PathDead, RecursionError) as x: imp.append('block after %d: %r' % (m, x))
        if out: break
    return out, runs

def exact(ex): return all(SYM[v] != 'h' for v, _ in lin_of(ex))     # no loop-carried value the analysis lost

def differs(P, v, w):
    """None, or how a value definitely differs from the expected one (unknown values never do)"""
    if is_imprecise(v) or not isinstance(v, (float, Lin, int)): return None
    v = tolin(v); w = tolin(w)
    for x in v.t:
        if x[0] == 'X' and not isinstance(x[2], int) or x[0] == 'S' and not isinstance(x[3], int): return None
    if v.bad: return 'not linear (%s)' % ','.join(sorted(v.bad))
    for x in v.t:
        if x[0] in ('O', 'U', 'L') and abs(v.t[x]) > 1e-6: return 'made of ' + taint_name(x)
    if P.kind == 'iir':
        ps = [x[3] for x in list(v.t) + list(w.t) if x[0] == 'S']
        if ps:
            L = max(min(ps), max(ps) - 64)
            v = expand(P, v, L); w = expand(P, w, L)
            if v.bad or w.bad: return None
            if any(x[0] == 'S' and x[3] != L for x in list(v.t) + list(w.t)):
                keep = lambda f: Lin({x: c for x, c in f.t.items() if x[0] == 'X' and x[2] >= P.a * L}, f.c)
                v = keep(v); w = keep(w)
    if close(v, w) and abs(v.c - w.c) <= 1e-6: return None
    return brief(v, w) + ', expected ' + brief(w, v)

def without_state(v): return Lin({x: c for x, c in v.t.items() if x[0] != 'S'}, v.c, v.bad) if isinstance(v, Lin) else v

def expand(P, v, L):
    for _ in range(70):
        hi = [x for x in v.t if x[0] == 'S' and x[3] > L]
        if not hi: break
        r = Lin({x: c for x, c in v.t.items() if x not in hi}, v.c)
        for x in hi:
            p = x[3] - 1
            step = P.machine.get(x[1:3])
            if step is None: return badf('imprecise')
            r = l_add(r, l_scale(l_map(step, lambda y: (y[0], y[1], P.a * p + y[2]) if y[0] == 'X' else (y[0], y[1], y[2], p)), v.t[x]))
        v = r
    return v

def close(v, w, tol=1e-4):
    sc = max([1e-3] + [abs(x) for x in w.t.values()])
    return all(abs(v.t.get(k, 0.0) - w.t.get(k, 0.0)) <= tol * sc for k in set(v.t) | set(w.t))
def brief(v, w):
    d = sorted((k for k in set(v.t) | set(w.t) if abs(v.t.get(k, 0.0) - w.t.get(k, 0.0)) > 1e-6), key=lambda k: -abs(v.t.get(k, 0.0) - w.t.get(k, 0.0)))[:3]
    return '{' + ', '.join('%s: %.6g' % (fmt_atom(k), v.t.get(k, 0.0)) for k in d) + (', const %.6g' % v.c if v.c else '') + (', ' + ','.join(sorted(v.bad)) if v.bad else '') + '}'

# -------------------------------------------------------------------------------------------------- one stage
def discover(mod, obj, st, n=8):
    calls = []
    def hook(eng, name, args, s, I):
        if 'f' in I: return None
        if len(args) == 4 and isinstance(args[1], Ptr) and isinstance(args[0], Ptr):
            calls.append((name, args[0])); return [(s, None)]
    h = Log(mod, prefer_unroll=True); h.call_hook = hook
    inr = mkregion('input', 'in', 4 * n, 4, base=BaseStream('X', 'in'), const=True)
    outr = mkregion('output', 'out', 4 * 8 * n, 4, base=BaseStream('O', 'out'))
    h.call('vp_process', [Ptr(obj, 0), Ptr(inr, 0), n, Ptr(outr, 0)], st.copy())
    return calls, h

def merge_ev(a, b):
    d = {}
    for ev in a + b: d[ev[:3]] = d.get(ev[:3], 0) + ev[3]
    return sorted(k + (v,) for k, v in d.items())

def analyse(mod, cfg, ratio, idx, res=16, budget=60.0, force_bounded=False):
    """facts about stage number idx (in processing order) of a configuration (mode, prec, sse, filt)"""
    mode, prec, sse, filt = cfg
    F = {'cfg': cfg, 'ratio': ratio, 'idx': idx, 'viol': [], 'runs': [], 'imp': [], 'open': []}
    t0 = time.time()
    e, obj, outs = construct(mod, mode, ratio, prec, sse, filt, res)
    if len(outs) != 1: F['open'].append('constructor has %d outcomes' % len(outs)); F['missing'] = True; return F
    st = outs[0][0]
    calls, h = discover(mod, obj, st)
    if idx >= len(calls): F['missing'] = True; F['open'].append('stage missing'); return F
    fname, this = calls[idx]
    F['fn'] = mod.funcs[fname].dem; F['fname'] = fname
    fir = filt == 1
    P = (FIRProof if fir else IIRProof)(mod, st, fname, this, mode)
    with cpu_limit(30 if budget <= 20 else 120): r = P.general()
    F['general'] = r
    F['a'] = P.a; F['b'] = P.b
    side = []          # side conditions that failed: (kind, text, witness)
    try:
      with cpu_limit(20 if budget <= 20 else 90): side = side_conditions(P, obj, F, fir) if not r['fail'] or r.get('kernel') or r.get('markov') else []
    except (Budget, Imprecise, PathDead, RecursionError) as x: F['open'].append('side conditions gave up: %s' % type(x).__name__)
    F['side'] = side
    F['proved'] = r['proved'] and not side and not F['open']
    F['t_general'] = time.time() - t0
    if not F['proved'] or force_bounded:
        ws = [c[2] for c in r['cand']] + [c[2] for c in side]
        with cpu_limit(1.5 * budget): v, runs, imp, F['bker'] = bounded(P, obj, ws, budget, any('data dependent' in n for n in r.get('notes', [])) or any('paths differ' in str(x) for x in r['fail']))
        if not v and not F['proved']:
            with cpu_limit(1.5 * budget):
                try: v, r2 = accelerated(P, obj, big_lengths(P, ws, 30000 if fir else 400), budget / 2, imp); runs += r2
                except (Budget, Imprecise, PathDead, RecursionError) as x: imp.append('long blocks: %r' % x)
        F['viol'] = v[:40]; F['runs'] = runs; F['imp'] = sorted(set(imp))[:10]
        F['open'] += ['%s' % x for x in r['fail'][:5]] + ['%s: %s' % (c[0], c[1]) for c in side[:5]]
    F['t'] = time.time() - t0
    return F

def side_conditions(P, obj, F, fir):
    mod = P.mod; side = []
    def entry(): return P.install() if fir else P.state(0)
    skip = set()
    if fir:
        for r in P.written:
            if isinstance(r.base, BaseState): skip.add(r.id)
    else:
        for rid, offs in P.cells.items(): skip |= set((rid, o) for o in offs)
    def live_same(s, want0, tag, e):
        """live cells of s equal those of state want0"""
        bad = []
        if fir:
            for rid, ps in P.live.items():
                for lo, cnt, f in ps:
                    j = fresh('j')
                    g = s.gam.add_ge(j).add_ge(sub(cnt - 1, j))
                    if g is None: continue
                    s2 = s.copy(); s2.gam = g
                    col = e.collect; e.collect = False
                    alts = query(e, s2, REGS[rid], add(lo, mulc(j, 4)), 'f32')
                    e.collect = col
                    for s3, v in alts or [(s2, badf('imprecise'))]:
                        w = want0(s3, rid, lo, j, f, e)
                        if not (isinstance(v, (float, Lin)) and gam_l_eq(s3.gam, tolin(w), tolin(v))): bad.append('%s elements %d..%d hold %s' % (REGS[rid].name, lo // 4, lo // 4 + cnt - 1, fmt_form(v))); break
        else:
            for key in P.machine:
                v = e.readq_(s, REGS[key[0]], key[1] * 4); w = want0(s, key[0], key[1] * 4, None, None, e)
                if not isinstance(v, (float, Lin)) or not gam_l_eq(s.gam, tolin(w), tolin(v)): bad.append('%s element %d holds %s' % (REGS[key[0]].name, key[1], fmt_form(v)))
        return bad
    zero = lambda s, *a: 0.0
    if fir: same = lambda s, rid, lo, j, f, e: v_subst(f, K, j)
    else: same = lambda s, rid, off, j, f, e: atom('S', rid, off // 4, 0)
    # 1. the constructed state is the state after endless silence
    bad = live_same(P.st0.copy(), zero, 'fresh', Engine(mod))
    for b in bad: side.append(('fresh', 'after construction: ' + b, None))
    # 2. reset from any reachable state
    st = entry(); e = Log(mod, prefer_unroll=True)
    outs = e.call('vp_reset', [Ptr(obj, 0)], st)
    if not outs: side.append(('reset', 'reset does not return', None))
    ev = events(e, mod)
    for s, _ in outs:
        for b in live_same(s, zero, 'reset', e): side.append(('reset', 'after reset: ' + b, None))
        for b in state_unchanged(P, e, s, P.st0, skip): side.append(('reset', 'reset changes ' + b, None))
    obs = obligations(e, mod)
    for o in obs:
        if o['cand'] or o['nunk']: side.append((o['kind'], 'reset: %s not proved at %s' % (o['kind'], o['at']), None))
    F['reset'] = {'obs': obs, 'events': ev, 'notes': notes(e, mod), 'writes': sorted(set(REGS[x].kind for x in e.writes)), 'callees': sorted(e.callees)}
    # 3. int/pointer state is not touched by processing, nothing is retained
    if P.last is None: F['open'].append('general analysis did not finish'); outs = []; keep = []; e = Log(mod)
    else: e, outs, inr, outr, mv = P.last; keep = []
    for s, _ in outs:
        for b in state_unchanged(P, e, s, P.st0, skip): side.append(('int-state', 'processing changes ' + b, P.witness(s, mv)))
        keep += retained(s, inr, outr)
    F['retained'] = sorted(set(keep))
    seen = set()
    for kind, data, loc, g in e.evs:
        if kind in ('diag', 'abort') and (kind, loc) not in seen:
            seen.add((kind, loc))
            gm = g.model()
            side.append(('event-' + kind, '%s at %s' % (data, mod.loc_user(loc)), None if gm is None else gm.get(mv)))
    for k in F['retained']: side.append(('retain', k, None))
    # 4. empty block
    inr, outr = P.io(0); e = Log(mod)
    if not fir: e.machine = P.machine; e.machine_kx = P.a
    outs = e.call(P.fname, [P.this, Ptr(inr, 0), 0, Ptr(outr, 0)], entry())
    ev = events(e, mod); obs = obligations(e, mod)
    F['empty'] = {'paths': len(outs), 'events': ev, 'obs': obs}
    if not outs: side.append(('empty', 'an empty block does not return', 0))
    for x in ev: side.append(('empty', 'an empty block causes %s %s at %s' % x[:3], 0))
    for s, _ in outs:
        for b in live_same(s, same, 'empty', e): side.append(('empty', 'empty block changes the state: ' + b, 0))
    if any(REGS[x] is outr for x in e.writes): side.append(('empty', 'an empty block writes output', 0))
    for o in obs:
        if o['cand'] or o['nunk']: side.append((o['kind'], 'empty block: %s not proved at %s' % (o['kind'], o['at']), 0))
    # 5. odd block of a FIR downsampler
    if fir and P.a == 2:
        m = fresh('m'); inr, outr = P.io(m, 1); st = entry(); P.bound(st, m, 0, NMAX)
        e = Log(mod)
        outs = e.call(P.fname, [P.this, Ptr(inr, 0), add(mulc(m, 2), 1), Ptr(outr, 0)], st)
        ev = events(e, mod); obs = obligations(e, mod)
        F['odd'] = {'paths': len(outs), 'events': ev, 'obs': obs}
        if not outs: side.append(('odd', 'an odd block does not return', 1))
        if not any(x[0] == 'diag' for x in ev): side.append(('odd', 'an odd block is not reported', 1))
        if any(REGS[x] is outr for x in e.writes): side.append(('odd', 'an odd block writes output', 1))
        for s, _ in outs:
            for b in live_same(s, same, 'odd', e): side.append(('odd', 'odd block changes the state: ' + b, P.witness(s, m.t[0][0])))
            for b in state_unchanged(P, e, s, P.st0, skip): side.append(('odd', 'odd block changes ' + b, None))
        for o in obs:
            if o['cand'] or o['nunk']: side.append((o['kind'], 'odd block: %s not proved at %s' % (o['kind'], o['at']), 1))
    return side
