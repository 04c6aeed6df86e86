"""Rules for moving resamplers, the built-in self test, unusable parameters and the delay functions of the designer."""
import math
import facts, misc, designer
import ir as irmod
from model import *
from config import fingerprint

# ------------------------------------------------------------------------------------------------- moving (C35)
def moving(R):
    """after a move the target is what the source was: the same stages, with the same content"""
    mod = misc.own()
    E = facts.enums()
    size = misc.conc(mod, 'vp_rs_sizeof')
    for kind, text in (('mc', 'move construction'), ('ma', 'move assignment')):
        if not misc.conc(mod, 'vp_rs_can_' + kind):
            R.check(False, 'move:%s:possible' % kind, '%s of Resampler2 is no longer possible' % text); continue
        for m in (E.UP, E.DOWN):
            for r in (1, 2, 4, 8):
                for f in (E.FIR, E.IIR):
                    for p in (12, 24):
                        for s in (1, 0):
                            R.instances += 1
                            lab = '%s of %s ratio=%d %s prec=%d sse=%d' % (text, 'UP' if m == E.UP else 'DOWN', r, 'FIR' if f == E.FIR else 'IIR', p, s)
                            move1(R, mod, E, kind, lab, size, (m, r, p, s, f))

def move1(R, mod, E, kind, lab, size, cfg):
    e = Log(mod, prefer_unroll=True); e.malloc_res = 16; st = State()
    a = mkregion('source', 'obj', size, 16, base=BaseUninit()); b = mkregion('target', 'obj', size, 16, base=BaseUninit())
    outs = e.call('vp_rs_ctor', [Ptr(a, 0)] + list(cfg), st)
    if len(outs) != 1: R.unknown(lab + ': construction has %d outcomes' % len(outs)); return
    st = outs[0][0]
    # a state that is not the initial one
    n = 3 * cfg[1]
    inr = mkregion('input', 'in', 4 * n, 4, base=BaseStream('X', 'in'), const=True); outr = mkregion('output', 'out', 4 * 8 * n, 4, base=BaseStream('O', 'out'))
    outs = e.call('vp_rs_process', [Ptr(a, 0), Ptr(inr, 0), n, Ptr(outr, 0)], st)
    if not outs: R.unknown(lab + ': no path returns from processing'); return
    st = outs[0][0]
    want = fingerprint(e, st, a); q0 = queries(mod, st, a)
    if kind == 'ma':
        other = (1 - cfg[0], 4, 12, cfg[3], cfg[4])
        st = e.call('vp_rs_ctor', [Ptr(b, 0)] + list(other), st)[0][0]
    live = set(r for r, _ in st.allocs if r not in st.dead)
    sts = e.call('vp_rs_' + kind, [Ptr(b, 0), Ptr(a, 0)], st)
    R.check(bool(sts), 'move:%s:returns' % kind, lab + ': does not return')
    for s, _ in sts:
        got = fingerprint(e, s, b); q1 = queries(mod, s, b)
        R.check(got == want, 'move:%s:state' % kind, '%s: the target differs from what the source was%s' % (lab, move_diff(mod, q0, q1)))
        R.check(q0 == q1, 'move:%s:queries' % kind, '%s: queries answer %r instead of %r' % (lab, q1, q0))
        # the target survives the destruction of the source
        for s2, _ in e.call('vp_rs_dtor', [Ptr(a, 0)], s.copy()):
            R.check(fingerprint(e, s2, b) == want and not released(e, s2, b), 'move:%s:independent' % kind, '%s: destroying the source changes the target' % lab)
    if notes(e, mod): R.unknown('%s: %s' % (lab, notes(e, mod)[0]))
    for o in obligations(e, mod):
        if o['at'].find('process') < 0 and o['cand'] and o['kind'] in ('lifetime', 'null', 'wildptr', 'free'): R.check(False, 'move:%s:%s' % (kind, o['kind']), '%s: %s at %s' % (lab, o['kind'], o['at']))
        else: R.add()
    R.sample(lab + ': state of the target equals that of the source')

def queries(mod, s, a):
    out = []
    for f in ('vp_rs_order', 'vp_rs_delay', 'vp_rs_sse'):
        try: out.append(repr([v for _, v in Engine(mod, prefer_unroll=True).call(f, [Ptr(a, 0)], s.copy())]))
        except Exception as x: out.append(type(x).__name__)
    return out
def move_diff(mod, q0, q1): return '' if q0 == q1 else ' (queries %r instead of %r)' % (q1, q0)
def released(e, s, root):
    seen, order, cells = graph(e, s, root)
    return [r.name for r in order if r.id in s.dead]

# --------------------------------------------------------------------------------------------- self test (C36)
class SelfTest:
    """abstract run of test_filter_impl over unknown random values. A comparison is a difference of two values that both
    depend on the samples; `wrong` maps the index of a comparison to the deviation it is made to see"""
    def __init__(self, mod, verbose, wrong=None):
        self.n = 0; self.bad = []; self.pairs = set(); self.wrong = wrong
        e = self.e = Log(mod, prefer_unroll=True, steps=40000000); e.malloc_res = 16
        def hook(eng, name, args, s, I):
            if I.get('f') in ('rand', 'random', 'lrand48'): return [(s, sym(newsym('rand')))]
        e.call_hook = hook
        e.i2f = lambda a: atom('X', 'rand', a.t[0][0]) if isinstance(a, Aff) and len(a.t) == 1 and a.c == 0 and SYM[a.t[0][0]] == 'rand' else badf('integer to float')
        e.fsub_hook = self.deviation
        with cpu_limit(60): self.outs = e.call('vp_test_impl', [verbose], State())
    def deviation(self, a, b, loc):
        v = l_add(a, b, -1.0)
        k = self.n; self.n += 1
        self.pairs.add((fmt(a), fmt(b)))
        if self.wrong is not None: return self.wrong.get(k, 0.0)
        if v.bad or any(abs(c) > 1e-6 for c in v.t.values()) or abs(v.c) > 1e-6:
            self.bad.append((k, fmt_form(v), loc)); return 1e6
        return 0.0

_st = None
def fmt(a): return frozenset((k, round(c, 4)) for k, c in a.t.items())
def _selftest(mod, verbose, wrong):
    try: T = SelfTest(_st, verbose, wrong)
    except (Budget, Imprecise, RecursionError) as x: return {'gave': repr(x)}
    m = _st
    return {'vals': [v for _, v in T.outs], 'n': T.n, 'distinct': len(T.pairs), 'bad': [(k, f, m.loc_user(l)) for k, f, l in T.bad[:3]], 'nbad': len(T.bad), 'notes': notes(T.e, m),
            'obs': obligations(T.e, m), 'events': events(T.e, m), 'held': [misc.held(m, s)[:2] for s, _ in T.outs if misc.held(m, s)], 'globals': global_writes(T.e, m)}

def selftest(R):
    global _st
    _st = facts.load_driver()
    st, _, b = facts.pool([(_selftest, (None, 0, None))], 150)[0]
    if st != 'ok' or 'gave' in b: R.unknown('self test not resolved: %s' % str(b)[:200]); R.instances += 1; return
    def common(b, lab):
        R.instances += 1
        for o in b['obs']:
            R.add(o['ok'] + len(o['cand']) + o['nunk'], o['ok'])
            if o['cand']: R.bad('selftest:' + o['kind'], '%s: %s at %s: %s' % (lab, o['kind'], o['at'], o['cand'][0][0]))
            elif o['nunk']: R.undecided.append('%s: %s at %s' % (lab, o['kind'], o['at']))
        R.check(not b['held'], 'selftest:leak', '%s: never released: %s' % (lab, b['held'][:1]))
        R.check(not b['globals'], 'selftest:global', '%s: %s' % (lab, b['globals'][:1]))
        if b['notes']: R.unknown('%s: %s' % (lab, b['notes'][0]))
    lab = 'test_filter_impl'
    common(b, lab)
    for k, f, at in b['bad']: R.check(False, 'selftest:convolution', '%s: the vectorised and the plain convolution differ by %s at %s' % (lab, f, at))
    if not b['bad'] and not b['notes']:
        if all(isinstance(v, int) for v in b['vals']) and b['vals']: R.check(all(v & 1 for v in b['vals']), 'selftest:true', lab + ' reports failure although the vectorised and the plain convolution agree')
        else: R.unknown(lab + ': result %r' % (b['vals'][:2],))
        d = [x for x in b['events'] if x[0] == 'diag']
        R.check(not d, 'selftest:quiet', '%s: prints without being asked to (%s)' % (lab, d[:1]))
    R.check(b['distinct'] >= 4 * 63 or b['n'] == 0, 'selftest:coverage', '%s compares only %d different values, not 4 for each of 63 lengths' % (lab, b['distinct']))
    R.sample('%s: %d comparisons of the vectorised with the plain convolution, result %r' % (lab, b['n'], b['vals']))
    if b['bad'] or b['n'] == 0:
        if b['n'] == 0: R.unknown('no difference of the two convolutions is formed: sensitivity not decided')
        return
    # a deviation of any lane at any length must make it fail
    n = b['n']
    ks = sorted(set(k for k in [0, 1, 2, 3, 4, 6, 9, 14, 21, n // 2, n // 2 + 1, n - 4, n - 3, n - 2, n - 1] if 0 <= k < n))
    cases = [({k: d}, 'comparison %d of %d sees a deviation of %g' % (k, n, d)) for k in ks for d in (([1e-2, -1e-2][k % 2],) if 4 <= k < n - 4 else (1e-2, -1e-2))]
    # one that compensates another, within a group of lanes and between groups
    cases += [({k: d, j: -d}, 'comparisons %d and %d of %d see deviations of %g and %g' % (k, j, n, d, -d))
              for k, j, d in ((0, 1, 1e-2), (n - 4, n - 1, 1e-2), (n - 3, n - 2, -1e-2), (n // 2, n // 2 + 4, 1e-2), (n // 2 + 1, n // 2 + 4, -1e-2)) if 0 <= k < j < n]
    for (st, args, x), (k, text) in zip(facts.pool([(_selftest, (None, 0, k)) for k, _ in cases] + [(_selftest, (None, 1, None))], 150), cases + [(None, '')]):
        R.instances += 1
        if st != 'ok' or 'gave' in x: R.unknown('self test with deviation %s not resolved' % k); continue
        if k is None: common(x, 'test_filter_impl (verbose)'); continue
        if not all(isinstance(v, int) for v in x['vals']): R.unknown('self test when %s: result %r' % (text, x['vals'])); continue
        R.check(x['vals'] and not any(v & 1 for v in x['vals']), 'selftest:sensitive', 'test_filter_impl reports success although %s' % text)

# ------------------------------------------------------------------------------------- unusable parameters (C37)
def reported(R):
    mod = facts.load_driver(); E = facts.enums()
    size = misc.conc(mod, 'vp_sizeof')
    U = 2 ** 32 - 1
    ratios = [(0, 0), (3, 3), (5, 7), (9, U)]
    precs = [(-2 ** 31, 0), (2, 7), (9, 11), (13, 15), (17, 19), (21, 23), (25, 2 ** 31 - 1)]
    jobs = []
    for m in (E.UP, E.DOWN):
        for f in (E.FIR, E.IIR):
            for s in (1, 0):
                for lo, hi in ratios: jobs.append(('ratio', lo, hi, (m, None, 12, s, f)))
                for r in (2, 4, 8):
                    for lo, hi in precs: jobs.append(('precision', lo, hi, (m, r, None, s, f)))
    for what, lo, hi, (m, r, p, s, f) in jobs:
        R.instances += 1
        lab = '%s %s sse=%d%s with %s %d..%d' % ('UP' if m == E.UP else 'DOWN', 'FIR' if f == E.FIR else 'IIR', s, '' if r is None else ' ratio=%d' % r, what, lo, hi)
        e = Log(mod, prefer_unroll=True); e.malloc_res = 16; st = State()
        if lo == hi: v = lo
        else:
            v = fresh('v'); st.gam = st.gam.add_ge(sub(v, lo)).add_ge(sub(hi, v))
        obj = mkregion('Resampler2', 'obj', size, 16, base=BaseUninit())
        args = [m, v if r is None else r, v if p is None else p, s, f]
        try:
            with cpu_limit(20): outs = e.call('vp_ctor', [Ptr(obj, 0)] + args, st)
        except (Budget, Imprecise, RecursionError) as x: R.unknown('%s: %s' % (lab, type(x).__name__)); continue
        if notes(e, mod): R.unknown('%s: %s' % (lab, notes(e, mod)[0]))
        R.check(bool(outs), 'misuse:%s:return' % what, '%s: the constructor does not return' % lab)
        for o in obligations(e, mod):
            if o['cand'] and o['kind'] in ('null', 'wildptr', 'lifetime', 'free', 'bounds-read', 'bounds-write'): R.check(False, 'misuse:%s:%s' % (what, o['kind']), '%s: %s at %s: %s' % (lab, o['kind'], o['at'], o['cand'][0][0]))
            else: R.add(o['ok'] + o['nunk'], o['ok'] + o['nunk'])
        for s1, _ in outs:
            g = (s1.gam.model() or {}).get(v.t[0][0]) if not isinstance(v, int) else v
            ev = [k for k, d, l in s1.events]
            R.check('diag' in ev or 'abort' in ev, 'misuse:%s:silent' % what, '%s (e.g. %s): constructed without a diagnostic' % (lab, g))
            # what was constructed can be destroyed
            d = Log(mod, prefer_unroll=True)
            for s2, _ in d.call('vp_dtor', [Ptr(obj, 0)], s1.copy()):
                R.check(not misc.held(mod, s2), 'misuse:%s:leak' % what, '%s: never released: %s' % (lab, misc.held(mod, s2)[:1]))
            for o in obligations(d, mod):
                if o['cand']: R.check(False, 'misuse:%s:destroy' % what, '%s: destroying it: %s at %s' % (lab, o['kind'], o['at']))
        R.sample('%s: %d paths, each reports' % (lab, len(outs)))

# ------------------------------------------------------------------------------------------ delay functions (C38)
# polynomials in a, f, c, s, t: {(exponents): coefficient}; c = cos 2w, s = sin 2w of the unit's frequency, kept in
# terms of cos w and sin w with s*s replaced by 1 - c*c, which makes the form unique
VARS = ('a', 'f', 'c', 's', 't')
class NoForm(Exception): pass
def P(v, k=1.0): return {tuple(int(x == v) for x in VARS): k}
def C(k): return {(0,) * 5: float(k)} if k else {}
def padd(p, q, k=1.0):
    d = dict(p)
    for m, c in q.items(): d[m] = d.get(m, 0.0) + k * c
    return {m: c for m, c in d.items() if abs(c) > 1e-13}
def pmul(p, q):
    d = {}
    for m, c in p.items():
        for n, e in q.items():
            x = tuple(i + j for i, j in zip(m, n)); d[x] = d.get(x, 0.0) + c * e
    return reduce_(d)
def reduce_(d):
    while True:
        big = [m for m in d if m[3] >= 2]
        if not big: break
        for m in big:
            c = d.pop(m)
            lo = m[:3] + (m[3] - 2,) + m[4:]
            hi = (m[0], m[1], m[2] + 2, m[3] - 2, m[4])
            d[lo] = d.get(lo, 0.0) + c; d[hi] = d.get(hi, 0.0) - c
    if sum(d[m] != 0 for m in d) > 4000: raise NoForm('size')
    return {m: c for m, c in d.items() if abs(c) > 1e-13}
ONE = C(1)
COS2 = padd(pmul(P('c'), pmul(P('c'), C(2))), C(-1)); SIN2 = pmul(pmul(P('s'), P('c')), C(2))

class Ratio:
    def __init__(self, n, d=None): self.n = n; self.d = d if d is not None else ONE
def radd(x, y, k=1.0):
    if x.d == y.d: return Ratio(padd(x.n, y.n, k), x.d)
    return Ratio(padd(pmul(x.n, y.d), pmul(y.n, x.d), k), pmul(x.d, y.d))
def rmul(x, y): return Ratio(pmul(x.n, y.n), pmul(x.d, y.d))
def equal(x, y):
    d = padd(pmul(x.n, y.d), pmul(y.n, x.d), -1.0)
    sc = max([1.0] + [abs(v) for v in x.n.values()] + [abs(v) for v in y.n.values()])
    return all(abs(v) < 1e-9 * sc for v in d.values())

class Formula:
    """turns a term of the value numbering into a ratio of polynomials"""
    def __init__(self, A, F): self.A = A; self.F = F; self.at = {}; self.half = False
    def of(self, x):
        if isinstance(x, bool) or isinstance(x, (int, float)): return Ratio(C(x))
        if x == self.A: return Ratio(P('a'))
        if x == self.F: return Ratio(P('f'))
        op = x[0]
        if op == 'f': return Ratio(C(x[1]))
        if op in ('sitofp', 'uitofp') and isinstance(x[1], int): return Ratio(C(x[1]))
        if op == 'fadd': return radd(self.of(x[1]), self.of(x[2]))
        if op == 'fsub': return radd(self.of(x[1]), self.of(x[2]), -1.0)
        if op == 'fneg': return rmul(Ratio(C(-1)), self.of(x[1]))
        if op == 'fmul': return rmul(self.of(x[1]), self.of(x[2]))
        if op == 'fdiv':
            d = self.of(x[2])
            if not d.n: raise NoForm('division by zero')
            return rmul(self.of(x[1]), Ratio(d.d, d.n))
        if op == 'call':
            f = x[1]
            if f in ('cos', 'sin', 'llvm.cos.f64', 'llvm.sin.f64'):
                k = self.multiple(x[2])
                one = Ratio(P('c')) if 'cos' in f else Ratio(P('s'))
                two = Ratio(COS2) if 'cos' in f else Ratio(SIN2)
                sg = -1.0 if 'sin' in f and k < 0 else 1.0
                r = {0: Ratio(C(1 if 'cos' in f else 0)), 1: one, 2: two}.get(abs(k))
                if r is None: raise NoForm('angle')
                return rmul(Ratio(C(sg)), r)
            if f in ('pow', 'llvm.pow.f64') and x[3] in (('f', 2.0), 2): y = self.of(x[2]); return rmul(y, y)
            if f.startswith('llvm.powi') and x[3] == 2: y = self.of(x[2]); return rmul(y, y)
            if f in ('llvm.fmuladd.f64', 'llvm.fma.f64', 'fma'): return radd(rmul(self.of(x[2]), self.of(x[3])), self.of(x[4]))
            if f == 'atan':
                r = self.of(x[2]); self.half = True; self.at[x] = (Ratio(r.n), Ratio(r.d)); self.t = x
                if len(self.at) > 1: raise NoForm('two angles')
                return Ratio(P('t'))
            if f == 'atan2':
                self.at[x] = (self.of(x[2]), self.of(x[3])); self.t = x
                if len(self.at) > 1: raise NoForm('two angles')
                return Ratio(P('t'))
        raise NoForm(designer.short(x))
    def multiple(self, x):
        """x = k * 2 * pi * f"""
        r = self.of(x)
        fm = (0, 1, 0, 0, 0)
        if set(r.d) != {(0,) * 5} or set(r.n) - {fm}: raise NoForm('angle')
        k = r.n.get(fm, 0.0) / r.d[(0,) * 5] / (2 * math.pi)
        if abs(k - round(k)) > 1e-9: raise NoForm('angle')
        return int(round(k))

NAMES = dict(designer.KEEP)
def paths(mod, fn):
    T = designer.Terms(mod, fn, NAMES)
    return T.run()

def where_(st): return '; '.join('%s%s%s' % (designer.short(a), {'lt': ' < ', 'eq': ' == '}.get(k, '?') if t else {'lt': ' >= ', 'eq': ' != '}.get(k, '?'), designer.short(b)) for (k, a, b), t in st.lits[-4:])

def delays(R):
    one = designer.PFX + '19compute_group_delayEddb'
    with facts.Work() as w:
        mod = designer.build(w, [one], 'dly')
        flat = designer.build(w, [], 'dlf')
    a, f, ph = ('arg', 0), ('arg', 1), ('arg', 2)
    # one unit: 2 (1 - a^2) / (1 +- 2 a cos 2w + a^2)
    a2 = pmul(P('a'), P('a')); num = padd(C(2), pmul(C(2), a2), -1.0)
    try: res = paths(flat, 'vp_gd1')
    except designer.Giveup as x: res = []; R.unknown('compute_group_delay of one unit: %s' % x)
    phs = set()
    for st, v in res:
        R.instances += 1
        mode = None
        for (k, x, y), t in st.lits:
            if (x, y) in ((ph, 0), (0, ph)) and k == 'eq': mode = not t
            if k == 'bool' and x == ph: mode = t
        unk = [l for l, t in st.lits if not (ph in l)]
        cases = [mode] if mode is not None else [False, True]
        for mo in cases:
            phs.add(mo)
            den = padd(padd(ONE, a2), pmul(pmul(P('a'), COS2), C(-2.0 if mo else 2.0)))
            lab = 'group delay of one unit%s' % (' in phaser mode' if mo else '')
            try: got = Formula(a, f).of(v)
            except NoForm as x: R.unknown('%s: form not recognised (%s)' % (lab, x)); continue
            if equal(got, Ratio(num, den)): R.add()
            elif unk: R.unknown('%s: special case %s' % (lab, where_(st)))
            else: R.check(False, 'delay:unit', '%s is not 2(1-a^2)/(1%s2a cos 2w+a^2)' % (lab, '-' if mo else '+'), path=where_(st))
            R.sample('%s = %s' % (lab, designer.short(v)[:200]))
    # a whole filter: the sum over the units of A0, the even coefficients
    for n in list(range(1, 33)) + [63, 64]:
        R.instances += 1
        e = Log(mod, prefer_unroll=True); calls = []
        def hook(eng, name, args, s, I):
            if I.get('f') == one:
                v = tolin(args[0]) if isinstance(args[0], (float, Lin)) else badf('?')
                calls.append((v, args[1:])); ks = [x[2] for x in v.t] if len(v.t) == 1 and not v.bad and abs(v.c) < 1e-12 and abs(list(v.t.values())[0] - 1) < 1e-12 else [None]
                return [(s, atom('X', 'unit', ks[0]) if ks[0] is not None else badf('unit'))]
        e.call_hook = hook
        src = mkregion('coef_arr', 'input', 8 * n, 8, base=Coefs(), const=True)
        lab = 'group delay of %d coefficients' % n
        try: outs = e.call('vp_gd', [Ptr(src, 0), n, atom('X', 'freq', 0), 0], State())
        except (Budget, Imprecise, RecursionError) as x: R.unknown('%s: %s' % (lab, type(x).__name__)); continue
        misc.bad_obs(R, e, mod, lab, 'delay:sum')
        want = Lin({('X', 'unit', k): 1.0 for k in range(0, n, 2)})
        if not calls: R.unknown(lab + ': the delay of one unit is not computed by its function'); continue
        for s, v in outs:
            if not isinstance(v, (float, Lin)) or tolin(v).bad: R.unknown('%s: %s' % (lab, fmt_form(v))); continue
            v = tolin(v)
            ok = set(k for k, c in v.t.items() if abs(c) > 1e-12) == set(want.t) and all(abs(v.t[k] - 1) < 1e-9 for k in want.t) and abs(v.c) < 1e-12
            R.check(ok, 'delay:sum', '%s is the sum over the units %s' % (lab, sorted(x[2] for x in v.t if len(x) > 2)[:12]))
        for v, rest in calls:
            fr = rest[0]
            R.check(isinstance(fr, Lin) and set(fr.t) == {('X', 'freq', 0)} and abs(fr.t[('X', 'freq', 0)] - 1) < 1e-12, 'delay:freq', '%s: a unit is evaluated at another frequency: %s' % (lab, fmt_form(fr)))
    # phase delay
    try: res = paths(flat, 'vp_phase')
    except designer.Giveup as x: R.unknown('compute_phase_delay: %s' % x); res = []
    X0 = padd(pmul(C(2), P('a')), pmul(padd(ONE, a2), COS2)); Y0 = pmul(padd(ONE, a2, -1.0), SIN2)
    zero = False
    for st, v in res:
        R.instances += 1
        fm = Formula(a, f); lab = 'phase delay of one unit'
        try: got = fm.of(v)
        except NoForm as x: R.unknown('%s: form not recognised (%s)' % (lab, x)); continue
        if not fm.at:
            # the limit at frequency 0
            lim = Ratio(padd(C(2), pmul(C(2), P('a')), -1.0), padd(ONE, P('a')))
            if equal(got, lim) and silent(st, f, fm): zero = True; R.add()
            elif silent(st, f, fm): R.check(False, 'delay:phase0', 'the phase delay at frequency 0 is not 2(1-a)/(1+a)', path=where_(st)); zero = True
            else: R.unknown('%s: special case %s' % (lab, where_(st)))
            continue
        (y, x), = fm.at.values()
        # value = (k t + 2 pi m) / (2 pi f)
        q = rmul(got, Ratio(P('f', 2 * math.pi)))
        k = None
        for cand in (1.0, -1.0):
            for m in (0, 1, -1):
                if equal(q, Ratio(padd(P('t', cand), C(2 * math.pi * m)))): k, turns = cand, m
        if k is None:
            R.check(False, 'delay:phase', 'the phase delay is not the phase lag divided by the frequency', path=where_(st)) if polyform(q) else R.unknown(lab + ': form not recognised'); continue
        cross = padd(pmul(pmul(y.n, x.d), pmul(X0, C(k))), pmul(pmul(x.n, y.d), Y0), -1.0)
        if any(abs(c) > 1e-9 for c in cross.values()): R.check(False, 'delay:phase', 'the angle used for the phase delay is not the phase lag of (a + z^-2) / (1 + a z^-2)', path=where_(st)); continue
        if fm.half:
            # an arc tangent lies within a quarter turn of 0, the phase lag does not
            if all(angle_only(l, fm, f) for l, t in st.lits): R.check(False, 'delay:phase', 'the angle used for the phase delay is half a turn off where the real part is negative', path=where_(st))
            else: R.unknown(lab + ': angle only known up to half a turn')
            continue
        r = [kk for kk in (0.5, 1.0, 2.0) if equal(x, Ratio(pmul(C(kk), X0)))] ; rn = [kk for kk in (0.5, 1.0, 2.0) if equal(x, Ratio(pmul(C(-kk), X0)))]
        if rn: R.check(False, 'delay:phase', 'the angle used for the phase delay is half a turn off', path=where_(st)); continue
        if not r: R.unknown(lab + ': angle only known up to half a turn'); continue
        neg = None
        for (kk, p, q2), t in st.lits:
            if kk == 'lt' and p == fm.t and q2 in (('f', 0.0), 0): neg = t
            if kk == 'lt' and q2 == fm.t and p in (('f', 0.0), 0): neg = False if t else neg if neg is not None else 'le'
        if k == 1.0 and neg is True: R.check(turns == 1, 'delay:phase', 'a negative phase lag is reported', path=where_(st))
        elif k == 1.0 and neg is False: R.check(turns == 0, 'delay:phase', 'the phase lag is %d turns off' % turns, path=where_(st))
        else: R.unknown('%s: turns not decided: %s' % (lab, where_(st)))
    if res: R.check(zero, 'delay:phase0', 'the phase delay at frequency 0 is 0 / 0')

def angle_only(l, fm, f):
    for x in l[1:]:
        if x == fm.t or not isinstance(x, tuple) or x[0] == 'f': continue
        try: g = Formula(('arg', 0), f).of(x)
        except NoForm: return False
        if set(g.n) - {(0, 1, 0, 0, 0), (0,) * 5} or set(g.d) != {(0,) * 5}: return False
    return True
def polyform(q): return set(m for m in q.n if m[4]) and all(m[4] <= 1 for m in q.n)
def silent(st, f, fm):
    """the path is taken at frequency 0 only"""
    for (k, x, y), t in st.lits:
        for p, q in ((x, y), (y, x)):
            if q not in (('f', 0.0), 0): continue
            try: g = Formula(('arg', 0), f).of(p)
            except NoForm: continue
            if set(g.n) != {(0, 1, 0, 0, 0)} or set(g.d) != {(0,) * 5}: continue
            if k == 'eq' and t: return True
            if k == 'lt' and not t and q is x: return True     # not 0 < f
    return False
class Coefs:
    def elem(self, eng, st, r, off, ty):
        p = divexact(off, 8)
        return atom('X', 'c', p) if p is not None and ty == 'f64' else badf('misaligned')

# ------------------------------------------------------------------------------ the designer's entry points (C39)
P_ = designer.PFX
FN = {'param': P_ + '24compute_transition_paramERdS2_d', 'order': P_ + '13compute_orderEdd', 'atten': P_ + '13compute_attenEdi', 'coef': P_ + '12compute_coefEiddi'}
def agree(R):
    """compute_coefs, compute_coefs_spec_order_tbw, compute_nbr_coefs_from_proto and compute_atten_from_order_tbw apply
    the same formulas to the same order"""
    with facts.Work() as w:
        mod = designer.build(w, list(FN.values()), 'agr')
        raw = tolerant(w, 'VP_ORDER'); pw = tolerant(w, 'VP_POW')
    miss = [k for k, f in FN.items() if f not in mod.funcs]
    if miss: R.unknown('no function %s: entry points not compared' % miss); R.instances += 1; return
    def run(fn, args, order=None):
        """[(state, value)], calls; the formulas are uninterpreted"""
        e = Log(mod, prefer_unroll=True); calls = {k: [] for k in FN}
        def hook(eng, name, a, s, I):
            f = I.get('f')
            if f == FN['param']:
                calls['param'].append(a[2])
                for i, q in ((0, 'k'), (1, 'q')):
                    if not isinstance(a[i], Ptr): return None
                    eng.write(s, a[i].r, a[i].o, 'f64', atom('X', q, 0))
                return [(s, None)]
            if f == FN['order']: calls['order'].append(tuple(a)); return [(s, order)]
            if f == FN['atten']: calls['atten'].append(tuple(a)); return [(s, atom('X', 'attenuation', a[1] if isinstance(a[1], int) else -1))]
            if f == FN['coef']:
                calls['coef'].append(tuple(a)); i, n = a[0], a[3]
                return [(s, atom('X', 'coef', i * 100000 + n) if isinstance(i, int) and isinstance(n, int) else badf('coefficient'))]
        e.call_hook = hook
        return e.call(fn, args, State()), calls, e
    T = atom('X', 'transition', 0); A = atom('X', 'attenuation wanted', 0)
    def same(v, *w):
        v = tolin(v) if isinstance(v, (float, Lin)) else badf('?')
        return not v.bad and abs(v.c) < 1e-12 and {k: round(c, 9) for k, c in v.t.items()} == {('X',) + w: 1.0}
    for n in list(range(1, 25)) + [63, 127]:
        lab = '%d coefficients' % n; o = 2 * n + 1; got = {}
        R.instances += 1
        for fn in ('vp_tbw', 'vp_coefs', 'vp_nbr', 'vp_atten'):
            src = mkregion('coef_arr', 'out', 8 * n, 8, base=designer.BaseUntouched())
            args = {'vp_tbw': [Ptr(src, 0), n, T], 'vp_coefs': [Ptr(src, 0), A, T], 'vp_nbr': [A, T], 'vp_atten': [n, T]}[fn]
            try: outs, calls, e = run(fn, args, o)
            except (Budget, Imprecise, RecursionError) as x: R.unknown('%s: %s: %s' % (lab, fn, type(x).__name__)); continue
            name = {'vp_tbw': 'compute_coefs_spec_order_tbw', 'vp_coefs': 'compute_coefs', 'vp_nbr': 'compute_nbr_coefs_from_proto', 'vp_atten': 'compute_atten_from_order_tbw'}[fn]
            misc.bad_obs(R, e, mod, name + ', ' + lab, 'designer:' + fn)
            if not calls['param']: R.unknown('%s, %s: the transition parameters are not computed by their function' % (name, lab)); continue
            for t in calls['param']: R.check(same(t, 'transition', 0), 'designer:%s:transition' % fn, '%s, %s: designs for another transition bandwidth: %s' % (name, lab, fmt_form(t)))
            for a, q in calls['order']:
                R.check(same(a, 'attenuation wanted', 0) and same(q, 'q', 0), 'designer:%s:order' % fn, '%s, %s: order computed from (%s, %s), not from the attenuation and q' % (name, lab, fmt_form(a), fmt_form(q)))
            for s, v in outs:
                if fn in ('vp_coefs', 'vp_nbr'):
                    if not isinstance(v, int): R.unknown('%s, order %d: result %r' % (name, o, v)); continue
                    R.check(v == n, 'designer:%s:count' % fn, '%s reports %d coefficients for a filter of order %d' % (name, v, o))
                if fn == 'vp_atten':
                    if not calls['atten']: R.unknown('%s: the attenuation is not computed by its function' % name); continue
                    R.check(same(v, 'attenuation', o) and all(same(c[0], 'q', 0) for c in calls['atten']), 'designer:vp_atten:order', '%s, %s: result is %s, not the attenuation of order %d for q' % (name, lab, fmt_form(v), o))
                if fn in ('vp_tbw', 'vp_coefs'):
                    if not calls['coef']: R.unknown('%s: coefficients are not computed by their function' % name); continue
                    vals = [e.readq_(s, src, 8 * i, 'f64') for i in range(n)]
                    got[fn] = [tolin(x).t if isinstance(x, (float, Lin)) else None for x in vals]
                    for i, x in enumerate(vals):
                        R.check(same(x, 'coef', i * 100000 + o), 'designer:%s:coef' % fn, '%s, %s: element %d is %s, not coefficient %d of order %d' % (name, lab, i, coefname(x), i, o))
                    for c in calls['coef']: R.check(same(c[1], 'k', 0) and same(c[2], 'q', 0), 'designer:%s:param' % fn, '%s, %s: a coefficient is computed from (%s, %s), not from k and q' % (name, lab, fmt_form(c[1]), fmt_form(c[2])))
        R.sample('%s: elements 0..%d are coefficients of order %d in both designs' % (lab, n - 1, o))
    # the order is odd, so that it is the one of the reported count
    if pw: powers(R, pw)
    else: R.unknown('no helper ipowp (double, long)')
    R.instances += 1
    if not raw: R.unknown('no function compute_order (double, double)'); return
    e = Log(raw); syms = []
    def anyint(s):
        h = fresh('order'); s.gam = s.gam.add_ge(add(h, 2 ** 24)).add_ge(sub(2 ** 24, h)); syms.append(h); return h
    def hook(eng, fp, args, s, I):
        f = I.get('f', '')
        if f.startswith(designer.IMATH) or f in designer.MATH: return [(s, anyint(s) if str(I.get('ty')) in ('i32', 'i64') else badf('computed'))]
    e.call_hook = hook; e.fp2int = anyint
    try:
        outs = e.call('vp_order', [badf('a'), badf('q')], State())
        for s, v in outs:
            try: q, r = e.divmod_(s, v, 2)
            except Exception: r = None
            if isaff(r) and not isinstance(r, int): r = s.gam.fixed(r) if s.gam.fixed(r) is not None else r
            if isinstance(r, int): R.check(r == 1, 'designer:odd', 'compute_order gives the even order %s' % designer.ev(v, s.gam.model()))
            elif isaff(r) and s.gam.add_eq(r) is not None and (s.gam.add_eq(r).model() is not None): R.check(False, 'designer:odd', 'compute_order gives the even order %s' % designer.ev(v, s.gam.add_eq(r).model()))
            else: R.unknown('compute_order: parity of %r' % (v,))
    except (Budget, Imprecise, RecursionError, NeedSplit) as x: R.unknown('compute_order: %s' % type(x).__name__)

def tolerant(w, d):
    """a private function: not every version needs to have it"""
    try: return designer.build(w, [], d.lower(), ('-DNDEBUG', '-D' + d))
    except irmod.BuildError: return None

def coefname(x):
    x = tolin(x) if isinstance(x, (float, Lin)) else None
    if x is None: return '?'
    return ' + '.join('%g * coefficient %d of order %d' % (c, k[2] // 100000, k[2] % 100000) if k[:2] == ('X', 'coef') else fmt_form(Lin({k: c})) for k, c in x.t.items()) or fmt_form(x)

def powers(R, mod):
    """ipowp (x, n) is x to the n"""
    for n in list(range(0, 70)) + [100, 127, 128, 255, 256, 1000]:
        R.instances += 1
        try: res = power_paths(mod, n)
        except (designer.Giveup, NoForm) as x: R.unknown('ipowp (x, %d): %s' % (n, x)); continue
        for c, p in res: R.check(p == n and abs(c - 1) < 1e-12, 'designer:ipowp', 'ipowp (x, %d) is %g times x to the %s' % (n, c, p))
class Pow:
    """monomial domain: c * x^p"""
def power_paths(mod, n):
    e = Engine(mod, prefer_unroll=True); st = State()
    class M(float): pass
    def fop(op, a, b, ty):
        for v in (a, b):
            if not (isinstance(v, tuple) and v[0] == 'pow') and not isinstance(v, float): raise NoForm('operand')
        f = lambda v: (v[1], v[2]) if isinstance(v, tuple) else (v, 0)
        (c, p), (d, q) = f(a), f(b)
        if op == 'fmul': return ('pow', c * d, p + q)
        if op == 'fdiv' and d: return ('pow', c / d, p - q)
        raise NoForm(op)
    e.fop = fop
    out = []
    for s, v in e.call('vp_ipowp', [('pow', 1.0, 1), n], st):
        if isinstance(v, float): v = ('pow', v, 0)
        if not (isinstance(v, tuple) and v[0] == 'pow'): raise NoForm(repr(v))
        out.append((v[1], v[2]))
    return out

# --------------------------------------------------------------------------------- copies of IIR filters (C40)
OPS = (('cc', 'copy construction'), ('mc', 'move construction'), ('ca', 'copy assignment'), ('ma', 'move assignment'))
def copies(R):
    """a copied or moved IIR filter object continues like the original, and the two do not influence each other"""
    import os, hiir
    with facts.Work() as w: mod = irmod.Module(irmod.build_json(os.path.join(irmod.HERE, 'drv', 'hcopy.cc'), facts.REPO, [], w, tag='hc'))
    for cls in hiir.CLASSES:
        for nc in hiir.COUNTS:
            for op, text in OPS:
                R.instances += 1
                try: copy1(R, mod, cls, nc, op, text)
                except (Budget, Imprecise, RecursionError) as x: R.unknown('%s of %s<%d>: %s' % (text, cls, nc, repr(x)[:100]))

def copy1(R, mod, cls, nc, op, text):
    import hiir
    pre = 'vq_%s_%d_' % (cls, nc); lab = '%s of %s<%d>' % (text, cls, nc); site = 'copy:%s:%s:' % (cls, op)
    down = cls.startswith('Down'); a = 2 if down else 1; b = 3 - a
    e = Log(mod, prefer_unroll=True); st = State()
    size = misc.conc(mod, pre + 'size'); al = misc.conc(mod, pre + 'align')
    src = mkregion('source', 'obj', size, al, base=BaseUninit()); dst = mkregion('target', 'obj', size, al, base=BaseUninit())
    def coef(s, obj, cs):
        arr = mkregion('coefficients', 'in', 8 * nc, 8, base=BaseUninit())
        for i, c in enumerate(cs): e.write(s, arr, 8 * i, 'f64', c)
        arr.const = True
        return e.call(pre + 'ctor', [Ptr(obj, 0), Ptr(arr, 0)], s)
    def one(outs, what):
        if len(outs) != 1: raise Imprecise('%s has %d outcomes' % (what, len(outs)))
        return outs[0][0]
    def block(s, obj, name, n):
        inr = mkregion(name, 'in', 4 * a * n, 4, base=BaseStream(name, 'in'), const=True); outr = mkregion('output', 'out', 4 * b * n, 4, base=BaseStream('O', 'out'))
        outs = e.call(pre + 'block', [Ptr(obj, 0), Ptr(inr, 0), n, Ptr(outr, 0)], s)
        if not outs: raise Imprecise('process_block does not return')
        rs = [[e.readq_(s, outr, 4 * i, 'f32') for i in range(b * n)] for s, _ in outs]
        f0 = fingerprint(e, outs[0][0], obj)
        for (s, _), r in zip(outs[1:], rs[1:]):
            # paths that differ in the placement of the caller's blocks only
            if not all(same_form(x, y) for x, y in zip(r, rs[0])) or fingerprint(e, s, obj) != f0: raise Imprecise('process_block has %d outcomes' % len(outs))
        return outs[0][0], rs[0]
    st = one(coef(st, src, hiir.coefs(nc)), 'construction')
    st, _ = block(st, src, 'first', 3)
    if op in ('ca', 'ma'):
        st = one(coef(st, dst, [0.5 + 0.01 * i for i in range(nc)]), 'construction')
        st, _ = block(st, dst, 'other', 2)
    # reference: the original goes on
    ref, r1 = block(st.copy(), src, 'next', 5)
    before = fingerprint(e, st, src)
    outs = e.call(pre + op, [Ptr(dst, 0), Ptr(src, 0)], st.copy())
    for s, v in outs:
        if v == 0: R.check(cls.endswith('Fpu') and False, site + 'possible', lab + ' is not possible'); continue
        if op in ('cc', 'ca'): R.check(fingerprint(e, s, src) == before, site + 'source', lab + ' changes the source')
        s2, c1 = block(s, dst, 'next', 5)
        bad = [i for i, (x, y) in enumerate(zip(c1, r1)) if not same_form(x, y)]
        R.check(not bad, site + 'continues', '%s: output %s of the target is %s, the original gives %s' % (lab, bad[:1] and bad[0], fmt_form(tolin(c1[bad[0]])) [:80] if bad else '', fmt_form(tolin(r1[bad[0]]))[:80] if bad else ''))
        if op in ('cc', 'ca'):
            R.check(fingerprint(e, s2, src) == before, site + 'shared', lab + ': processing with the copy changes the original')
            s3, o1 = block(s2, src, 'next', 5)
            R.check(all(same_form(x, y) for x, y in zip(o1, r1)), site + 'shared', lab + ': the original gives other samples after the copy has processed')
        s4 = one(e.call(pre + 'clear', [Ptr(dst, 0)], s2.copy()), 'clear_buffers')
        f = mkregion('fresh', 'obj', size, al, base=BaseUninit())
        s5, want = block(one(coef(s4.copy(), f, hiir.coefs(nc)), 'construction'), f, 'next', 5)
        s5, have = block(s5, dst, 'next', 5)
        R.check(all(same_form(x, y) for x, y in zip(have, want)), site + 'clear', lab + ': the cleared target is not a new object with the same coefficients')
    for o in obligations(e, mod):
        if o['cand']: R.check(False, site + o['kind'], '%s: %s at %s: %s' % (lab, o['kind'], o['at'], o['cand'][0][0]))
        else: R.add(o['ok'] + o['nunk'], o['ok'])
    if notes(e, mod): R.unknown('%s: %s' % (lab, notes(e, mod)[0]))
    R.sample('%s: 5 further samples of unknown value agree' % lab)

def same_form(x, y):
    x, y = tolin(x), tolin(y)
    if x.bad or y.bad: return bool(x.bad) == bool(y.bad)
    return all(abs(x.t.get(k, 0.0) - y.t.get(k, 0.0)) < 1e-6 for k in set(x.t) | set(y.t)) and abs(x.c - y.c) < 1e-9
