"""The IIR designer: value-numbering path analysis of the bisection, and array rules for the design routines."""
import os, json, subprocess
import facts, ir as irmod
from model import *

PFX = '_ZN14PandaResampler4hiir21PolyphaseIir2Designer'
KEEP = {'coefs': PFX + '28compute_coefs_spec_order_tbwEPdid', 'gd': PFX + '19compute_group_delayEPKdidb', 'atten': PFX + '28compute_atten_from_order_tbwEid'}

def build(w, keep, tag, defs=('-DNDEBUG',), inline=True):
    bc = os.path.join(w, tag + '.bc'); nb = os.path.join(w, tag + '.n.bc')
    irmod.sh(['clang++', '-std=c++11', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-w', '-I', os.path.join(facts.REPO, 'include')] + list(defs) +
             ['-emit-llvm', '-c', os.path.join(irmod.HERE, 'drv', 'designer.cc'), '-o', bc])
    if not inline: return irmod.Module(irmod.sh([irmod.exporter(), bc]))
    irmod.sh([irmod.OPT, '-inline-threshold=100000000'] + ['-force-attribute=%s:noinline' % k for k in keep] + ['-passes=forceattrs,' + irmod.PIPE, bc, '-o', nb])
    return irmod.Module(irmod.sh([irmod.exporter(), nb]))

# ------------------------------------------------------------------------------------------ value numbering
class Giveup(Exception): pass

class St:
    __slots__ = ('env', 'mem', 'lits', 'ints')
    def __init__(self): self.env = {}; self.mem = {}; self.lits = []; self.ints = {}
    def copy(self):
        s = St(); s.env = dict(self.env); s.mem = dict(self.mem); s.lits = list(self.lits); s.ints = dict(self.ints); return s

def iadd(a, b):
    """integer terms: int or ('i', sym, c)"""
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(a, tuple) and a[0] == 'i' and isinstance(b, int): return ('i', a[1], a[2] + b)
    if isinstance(b, tuple) and b[0] == 'i' and isinstance(a, int): return ('i', b[1], b[2] + a)
    return ('iadd', a, b)

class Terms:
    """enumerates the paths of one function; loops: an arbitrary iteration followed by the leaving one"""
    def __init__(self, mod, fn, names):
        self.mod = mod; self.F = mod.funcs[fn]; self.names = names; self.n = 0; self.results = []; self.steps = 0
        self.known_calls = 0
    def fresh(self, what): self.n += 1; return ('h', what, self.n)
    def run(self):
        st = St()
        for i in range(len(self.F.args)): st.env[i] = ('arg', i)
        self.walk(st, 0, None, {})
        return self.results
    def val(self, st, o):
        if isinstance(o, int): return st.env.get(o, ('undef', o))
        if 'i' in o: return o['i']
        if 'f' in o: return ('f', float(o['f']))
        if 'null' in o: return ('null',)
        if 'g' in o: return ('g', o['g'], o['o'])
        return ('u',)
    def walk(self, st, b, pred, loops):
        """loops: {header: phase}; phases: 1 first pass with the initial state, 2 pass from an arbitrary state, 3 leaving pass"""
        self.steps += 1
        if self.steps > 60000: raise Giveup('too many paths')
        F = self.F
        loops = {h: p for h, p in loops.items() if b in F.headers[h].b}      # loops that have been left
        if b in F.headers:
            back = pred in F.headers[b].b
            if not back:
                s1 = st.copy(); self.phis(s1, b, pred); self.block(s1, b, {**loops, b: 1})
                s2 = st.copy(); self.havoc(s2, F.headers[b]); self.block(s2, b, {**loops, b: 2})
                return
            ph = loops.get(b)
            if ph == 1 or ph == 3: return
            s = st.copy(); self.phis(s, b, pred); self.block(s, b, {**loops, b: 3})
            return
        s = st; self.phis(s, b, pred)
        self.block(s, b, loops)
    def phis(self, st, b, pred):
        new = {}
        for I in self.F.blocks[b]:
            if I['op'] != 'phi': break
            for p, v in I['inc']:
                if p == pred: new[I['id']] = self.val(st, v)
        st.env.update(new)
    def havoc(self, st, lp):
        for I in self.F.blocks[lp.h]:
            if I['op'] != 'phi': break
            t = str(I['ty'])
            n = self.fresh('loop')
            st.env[I['id']] = ('i', n, 0) if t in ('i32', 'i64') else n
        for b in lp.b:
            for I in self.F.blocks[b]:
                if I['op'] == 'store': self.forget(st, self.root(st, I['p']))
                if I['op'] in ('call', 'invoke'):
                    for o in I['a']:
                        if isinstance(o, int): self.forget(st, self.root(st, o))
    def root(self, st, o):
        v = self.val(st, o)
        return v
    def forget(self, st, p):
        if isinstance(p, tuple) and p[0] in ('arg', 'stack', 'h'): st.mem[p] = self.fresh('memory')
        elif isinstance(p, tuple) and p[0] == 'undef':
            for k in list(st.mem): st.mem[k] = self.fresh('memory')
    def block(self, st, b, loops, start=0):
        F = self.F
        # leaving pass rule: paths that leave the loop in phase 2 are covered by phase 3
        for i, I in enumerate(F.blocks[b]):
            op = I['op']
            if op == 'phi' or i < start: continue
            if op == 'br':
                if 'c' not in I: return self.goto(st, b, I['t'][0], loops)
                for tgt, truth in ((I['t'][0], True), (I['t'][1], False)):
                    for s in self.assume(st, self.val(st, I['c']), truth): self.goto(s, b, tgt, loops)
                return
            if op == 'switch':
                v = self.val(st, I['c'])
                if isinstance(v, int):
                    return self.goto(st, b, dict(map(tuple, I['cases'])).get(v, I['d']), loops)
                raise Giveup('switch')
            if op == 'ret':
                self.results.append((st, self.val(st, I['a'][0]) if I.get('a') else self.val(st, I['v']) if 'v' in I else None)); return
            if op == 'unreachable': return
            if op in ('call', 'invoke') and self.call(st, I) == 'abort': return
            elif op not in ('call', 'invoke'):
                if op == 'select':
                    c = self.val(st, I['a'][0])
                    if isinstance(c, int): st.env[I['id']] = self.val(st, I['a'][1 if c else 2]); continue
                    # split the path
                    for truth in (True, False):
                        for s in self.assume(st, c, truth):
                            s.env[I['id']] = self.val(s, I['a'][1 if truth else 2])
                            self.block(s, b, loops, i + 1)
                    return
                self.simple(st, I)
            if op == 'invoke': return self.goto(st, b, I['t'][0], loops)
    def goto(self, st, b, t, loops):
        for h, ph in loops.items():
            if ph == 2 and t not in self.F.headers[h].b: return
        self.walk(st.copy(), t, b, loops)
    def simple(self, st, I):
        op = I['op']; g = lambda k: self.val(st, I['a'][k])
        if op == 'store':
            p = self.root(st, I['p']); v = self.val(st, I['v'])
            st.mem[p] = v; return
        if op == 'load':
            p = self.root(st, I['p'])
            if p not in st.mem: st.mem[p] = ('init', p)
            st.env[I['id']] = st.mem[p]; return
        if op == 'alloca': st.env[I['id']] = ('stack', I['id']); return
        if op == 'getelementptr':
            b = self.val(st, I['b'])
            if not I.get('x') and I.get('o', 0) == 0: st.env[I['id']] = b
            else: st.env[I['id']] = ('ptr', b, I.get('o', 0), tuple(repr(self.val(st, t[0])) for t in I.get('x') or []))
            return
        if op in ('bitcast', 'freeze', 'zext', 'sext', 'trunc') :
            st.env[I['id']] = g(0); return
        if op in ('add', 'sub'):
            a, b = g(0), g(1)
            if op == 'sub' and isinstance(b, int): st.env[I['id']] = iadd(a, -b)
            elif op == 'add': st.env[I['id']] = iadd(a, b)
            else: st.env[I['id']] = (op, a, b)
            return
        if op in ('fadd', 'fmul'): st.env[I['id']] = (op,) + tuple(sorted((g(0), g(1)), key=repr)); return
        if op == 'fsub': st.env[I['id']] = (op, g(0), g(1)); return
        if op == 'fneg': st.env[I['id']] = ('fneg', g(0)); return
        if op == 'fcmp': st.env[I['id']] = ('fcmp', I['pr'], g(0), g(1)); return
        if op == 'icmp': st.env[I['id']] = self.icmp(I['pr'], g(0), g(1)); return
        if op in ('and', 'or', 'xor') and str(I['ty']) == 'i1':
            a, b = g(0), g(1)
            if op == 'xor' and b in (1, -1, True): st.env[I['id']] = ('not', a)
            elif op == 'xor' and a in (1, -1, True): st.env[I['id']] = ('not', b)
            else: st.env[I['id']] = (op, a, b)
            return
        if I.get('id') is not None: st.env[I['id']] = (op,) + tuple(self.val(st, x) for x in I.get('a', []))
    def icmp(self, pr, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return int({'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[pr])
        if a == ('null',) and isinstance(b, tuple) and b[0] == 'stack' or b == ('null',) and isinstance(a, tuple) and a[0] == 'stack': return int(pr == 'ne')
        return ('icmp', pr, a, b)
    def call(self, st, I):
        f = I.get('f', '')
        if f.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental')): return
        a = [self.val(st, x) for x in I['a']]
        if f == self.names['coefs']:
            self.known_calls += 1
            st.mem[a[0]] = ('coefs', a[1], a[2]); return
        if f == self.names['gd']:
            self.known_calls += 1
            c = st.mem.get(a[0], ('init', a[0]))
            st.env[I['id']] = ('gd', c, a[1], a[2], a[3]); return
        if f == self.names['atten']: st.env[I['id']] = ('atten', a[0], a[1]); return
        if f in ('fabs', 'llvm.fabs.f64'):
            x = a[0]
            st.env[I['id']] = ('abs',) + tuple(sorted(x[1:], key=repr)) if isinstance(x, tuple) and x[0] == 'fsub' else ('fabs', x); return
        if f in ('abort', '__assert_fail', 'exit') or 'nr' in I: return 'abort'
        F = self.mod.funcs.get(f)
        if F is not None and F.decl is False or f == '':
            for p in a:
                if isinstance(p, tuple) and p[0] in ('arg', 'stack'): st.mem[p] = self.fresh('memory')
        if I.get('id') is not None: st.env[I['id']] = ('call', f) + tuple(a)
    # literals
    def atom(self, c):
        """(kind, a, b, polarity): kind 'lt' or 'eq' over terms, NaN ignored"""
        pr, a, b = c[1], c[2], c[3]
        p = pr[1:] if c[0] == 'fcmp' and pr not in ('ord', 'uno', 'true', 'false') else pr[1:] if pr[0] in 'su' and len(pr) == 3 else pr
        if p == 'lt': return ('lt', a, b, True)
        if p == 'gt': return ('lt', b, a, True)
        if p == 'le': return ('lt', b, a, False)
        if p == 'ge': return ('lt', a, b, False)
        if p == 'eq': return ('eq',) + tuple(sorted((a, b), key=repr)) + (True,)
        if p == 'ne': return ('eq',) + tuple(sorted((a, b), key=repr)) + (False,)
        return (pr, a, b, True)
    def assume(self, st, c, truth):
        """states in which condition c has the given truth value"""
        if isinstance(c, (int, bool)): return [st.copy()] if bool(c) == truth else []
        if c[0] == 'not': return self.assume(st, c[1], not truth)
        if c[0] in ('and', 'or'):
            conj = (c[0] == 'and') == truth
            if conj: return [s2 for s in self.assume(st, c[1], truth) for s2 in self.assume(s, c[2], truth)]
            return self.assume(st, c[1], truth) + [s2 for s in self.assume(st, c[1], not truth) for s2 in self.assume(s, c[2], truth)]
        if c[0] in ('fcmp', 'icmp'):
            k, a, b, pol = self.atom(c)
            return self.lit(st, (k, a, b), pol == truth)
        return self.lit(st, ('bool', c, None), truth)
    def lit(self, st, at, truth):
        for x, t in st.lits:
            if x == at: return [st.copy()] if t == truth else []
        k, a, b = at
        s = st.copy()
        if k in ('lt', 'eq') and (isinstance(a, int) or isinstance(b, int)):
            v, c, left = (b, a, False) if isinstance(a, int) else (a, b, True)
            if isinstance(v, tuple) and v[0] == 'i' and isinstance(c, int):
                lo, hi = s.ints.get(v[1], (-2 ** 31, 2 ** 31 - 1)); c -= v[2]
                if k == 'lt':
                    if left: lo, hi = (lo, min(hi, c - 1)) if truth else (max(lo, c), hi)
                    else: lo, hi = (max(lo, c + 1), hi) if truth else (lo, min(hi, c))
                elif truth: lo, hi = max(lo, c), min(hi, c)
                if lo > hi: return []
                s.ints[v[1]] = (lo, hi)
        s.lits.append((at, truth))
        return [s]

def mentions(t, pred):
    if pred(t): return True
    return isinstance(t, tuple) and any(mentions(x, pred) for x in t)

def short(t, d=0):
    if isinstance(t, tuple):
        if t[0] == 'arg': return ARGS.get(t[1], 'arg%d' % t[1])
        if d > 3: return '..'
        return '%s(%s)' % (t[0], ', '.join(short(x, d + 1) for x in t[1:]))
    return str(t)
ARGS = {0: 'coef_arr', 1: 'attenuation_ptr', 2: 'transition_ptr', 3: 'nbr_coefs', 4: 'group_delay', 5: 'f_rel', 6: 'prec', 7: 'atten_lb', 8: 'atten_ub', 9: 'trans_lb', 10: 'trans_ub'}
A = {v: ('arg', k) for k, v in ARGS.items()}

def convergence(R, mod, names):
    T = Terms(mod, 'vp_gdly', names)
    try: res = T.run()
    except Giveup as x: R.unknown('group delay design: %s' % x); return
    ok = 0; conv = conc(mod, 'vp_OK')
    R.info['paths of the bisection'] = len(res)
    if not T.known_calls: R.unknown('group delay design does not call the design routines'); return
    for st, v in res:
        R.instances += 1
        if not isinstance(v, int): R.unknown('result code not constant on a path: %s' % short(v)); continue
        if v != conv: R.add(); continue
        ok += 1
        c = st.mem.get(A['coef_arr'])
        if not (isinstance(c, tuple) and c[0] == 'coefs'):
            if c is None or c[0] == 'init': R.check(False, 'gdly:unwritten', 'success is reported on a path that never writes the coefficients')
            else: R.unknown('coefficients of a successful path not resolved: %s' % short(c))
            continue
        R.check(c[1] == A['nbr_coefs'], 'gdly:count', 'success is reported for %s coefficients instead of nbr_coefs' % short(c[1]))
        gds = [('gd', c, A['nbr_coefs'], A['f_rel'], 0), ('gd', c, A['nbr_coefs'], A['f_rel'], ('f', 0.0))]
        good = None; related = []
        for (k, a, b), t in st.lits:
            if k not in ('lt', 'eq'): 
                continue
            for g in gds:
                d = ('abs',) + tuple(sorted((g, A['group_delay']), key=repr))
                if (a, b) == (A['prec'], d) and k == 'lt': good = not t if good is None else good or not t
                if (a, b) == (d, A['prec']) and k == 'lt' and t: good = True
            if mentions((a, b), lambda x: x == A['prec']) and mentions((a, b), lambda x: isinstance(x, tuple) and x[:1] == ('gd',)): related.append(short(a) + (' < ' if t else ' >= ') + short(b))
        where = 'path conditions: ' + '; '.join('%s%s%s' % (short(a), {'lt': ' < ', 'eq': ' == '}.get(k, '?') if t else {'lt': ' >= ', 'eq': ' != '}.get(k, '?'), short(b)) for (k, a, b), t in st.lits[-4:])
        if good is None and related:
            v = [within_prec(st.lits, g) for g in gds if any(mentions(x[0][1:], lambda y: y == g) for x in st.lits)]
            if True in v: good = True
            elif v and None not in v: good = False
        if good is True: R.add()
        elif good is False: R.check(False, 'gdly:convergence', 'success is reported although the tests passed admit a measured group delay that misses the request by more than prec', path=where)
        elif related and any(not final(x, c) for x in [0]): R.unknown('convergence test not recognised: %s' % related[0])
        elif related and not unmeasured(st, c): R.unknown('convergence test not recognised: %s' % related[0])
        else: R.check(False, 'gdly:convergence', 'success is reported on a path where the group delay of the returned coefficients is not compared with the request', path=where)
        # attenuation within the requested bounds
        att = ('atten', A['nbr_coefs'], c[2])
        lo = hi = False; rel = []
        for (k, a, b), t in st.lits:
            if k != 'lt': continue
            if (a, b) == (att, A['atten_lb']): lo = lo or not t
            if (a, b) == (A['atten_lb'], att): lo = lo or t
            if (a, b) == (A['atten_ub'], att): hi = hi or not t
            if (a, b) == (att, A['atten_ub']): hi = hi or t
            if mentions((a, b), lambda x: x in (A['atten_lb'], A['atten_ub'])): rel.append(short(a) + ' ' + short(b))
        for okk, nm in ((lo, 'lower'), (hi, 'upper')):
            if okk: R.add()
            elif rel and any('atten(' not in x for x in rel): R.unknown('attenuation test not recognised: %s' % rel[:2])
            else: R.check(False, 'gdly:attenuation', 'success is reported although the attenuation of the returned coefficients is not tested against its %s bound' % nm, path=where)
        # what is reported belongs to the coefficients returned
        for p, want, nm in ((A['attenuation_ptr'], att, 'attenuation'), (A['transition_ptr'], c[2], 'transition bandwidth')):
            null = [t for (k, a, b), t in st.lits if k == 'eq' and set([a, b]) == set([p, ('null',)])]
            got = st.mem.get(p)
            if null == [True]: R.check(got is None or got[0] == 'init', 'gdly:report', 'a null %s pointer is written' % nm)
            elif got is None: R.check(False, 'gdly:report', 'success does not report the %s' % nm)
            elif got == want: R.add()
            elif isinstance(got, tuple) and got[0] in ('atten', 'fmul', 'arg', 'f', 'h', 'fadd'): R.check(False, 'gdly:report', 'the reported %s is %s, not that of the returned coefficients %s' % (nm, short(got), short(want)))
            else: R.unknown('reported %s: %s' % (nm, short(got)))
        R.sample('successful path: ' + where[:300])
    R.check(ok > 0, 'gdly:reachable', 'the design never reports success')

class NonLinear(Exception): pass
def linform(x, tgt, opaque_ok):
    """term as {atom: coefficient}, None = the constant; case distinctions for absolute values come as a list of
    (form, [side conditions form >= 0])"""
    if isinstance(x, (int, float)): return [({None: float(x)}, [])]
    op = x[0]
    if op == 'f': return [({None: x[1]}, [])]
    def comb(a, b, k):
        r = []
        for fa, ca in linform(a, tgt, opaque_ok):
            for fb, cb in linform(b, tgt, opaque_ok):
                d = dict(fa)
                for v, c in fb.items(): d[v] = d.get(v, 0.0) + k * c
                r.append((d, ca + cb))
        return r
    if op == 'fadd': return comb(x[1], x[2], 1.0)
    if op == 'fsub': return comb(x[1], x[2], -1.0)
    if op == 'fneg': return [({v: -c for v, c in f.items()}, cs) for f, cs in linform(x[1], tgt, opaque_ok)]
    if op in ('abs', 'fabs'):
        r = []
        for f, cs in comb(x[1], x[2], -1.0) if op == 'abs' else linform(x[1], tgt, opaque_ok):
            n = {v: -c for v, c in f.items()}
            r += [(f, cs + [f]), (n, cs + [n])]
        return r
    if op == 'fmul':
        for a, b in ((x[1], x[2]), (x[2], x[1])):
            if isinstance(a, tuple) and a[0] == 'f': return [({v: a[1] * c for v, c in f.items()}, cs) for f, cs in linform(b, tgt, opaque_ok)]
    if x in tgt: return [({x: 1.0}, [])]
    if mentions((x,), lambda y: y in tgt): raise NonLinear()
    return [({x: 1.0}, [])]

def infeasible(cons):
    """no real point satisfies all f >= 0 / f > 0 (Fourier-Motzkin); cons: [(form, strict)]"""
    while True:
        vs = set(v for f, _ in cons for v in f if v is not None and f[v])
        if not vs: return any((f.get(None, 0.0) < 0 or (st and f.get(None, 0.0) <= 0)) for f, st in cons)
        v = min(vs, key=lambda v: (sum(1 for f, _ in cons if f.get(v)), repr(v)))
        pos = [c for c in cons if c[0].get(v, 0) > 0]; neg = [c for c in cons if c[0].get(v, 0) < 0]
        rest = [c for c in cons if not c[0].get(v, 0)]
        for f, s1 in pos:
            for g, s2 in neg:
                a = -g[v]; b = f[v]; d = {}
                for k in set(f) | set(g):
                    if k != v: d[k] = a * f.get(k, 0.0) + b * g.get(k, 0.0)
                rest.append((d, s1 or s2))
        if len(rest) > 400: return False
        cons = rest

def sign_of_product(x, y, g):
    """sign test of a product with one factor about another set of coefficients (the bracketing of the bisection)"""
    return y in (0, ('f', 0.0)) and isinstance(x, tuple) and x[0] == 'fmul' and any(not mentions(f, lambda z: z == g) and mentions(f, lambda z: isinstance(z, tuple) and (z[:1] == ('gd',) or z[:1] == ('h',))) for f in x[1:])

def within_prec(lits, g):
    """do the tests a path passed imply |g - requested| <= prec? True / False / None (tests of another form)"""
    tgt = (g, A['group_delay'], A['prec'])
    cases = [[({A['prec']: 1.0}, False)]]
    for (k, a, b), t in lits:
        if not mentions((a, b), lambda y: y in tgt): continue
        if k not in ('lt', 'eq'): continue
        try: fs = linform(('fsub', b, a), tgt, True)         # b - a
        except NonLinear:
            if any(sign_of_product(x, y, g) for x, y in ((a, b), (b, a))): continue
            return None
        new = []
        for f, cs in fs:
            n = {v: -c for v, c in f.items()}
            side = [(c, False) for c in cs]
            if k == 'eq':
                if t: opts = [[(f, False), (n, False)]]
                else: opts = [[]]
            else: opts = [[(f, True)]] if t else [[(n, False)]]
            new += [c + side + o for c in cases for o in opts]
        cases = new
        if len(cases) > 64: return None
    miss = ({g: 1.0, A['group_delay']: -1.0, A['prec']: -1.0}, True), ({g: -1.0, A['group_delay']: 1.0, A['prec']: -1.0}, True)
    return all(infeasible(c + [x]) for c in cases for x in miss)

def final(x, c): return True
def unmeasured(st, c):
    """no condition of the path measures the coefficients that are returned"""
    for (k, a, b), t in st.lits:
        if mentions((a, b), lambda x: isinstance(x, tuple) and x[:2] == ('gd', c)): return False
    return True

def conc(mod, f, *a): return Engine(mod, prefer_unroll=True).call(f, list(a), State())[0][1]

# ------------------------------------------------------------------------------------------ arrays and counts
class BaseUntouched:
    """memory of the caller: every element is an unknown that only the caller has written"""
    def elem(self, eng, st, r, off, ty): return atom('O', r.id, off) if ty in ('f64', 'f32') else Top('caller data')

MATH = {'pow', 'tan', 'sin', 'cos', 'log', 'exp', 'sqrt', 'atan', 'atan2', 'fabs', 'log10', 'log2', 'ceil', 'floor', 'cosh', 'sinh', 'tanh', 'round', 'fmin', 'fmax', 'fmod', 'lround', 'lrint', 'rint', 'trunc', 'cbrt', 'hypot', 'exp2', 'expm1', 'log1p'}
IMATH = ('llvm.ceil', 'llvm.floor', 'llvm.round', 'llvm.rint', 'llvm.trunc', 'llvm.fabs', 'llvm.sqrt', 'llvm.pow', 'llvm.log', 'llvm.exp', 'llvm.sin', 'llvm.cos', 'llvm.maxnum', 'llvm.minnum', 'llvm.copysign')

def arrays(R, w):
    """every design routine returns a positive count n and writes elements 0..n-1 of the caller's array and nothing else"""
    raw = build(w, [], 'raw', inline=False)
    def leaf(f):
        """functions on numbers only: their result is some number, they touch no memory (checked by reads())"""
        ts = [str(t) for t in args_of(f)]
        return 'f64' in ts and not any('ptr' in t for t in ts) and str(f.ret) == 'f64'
    scalar = [n for n, f in raw.funcs.items() if not f.decl and leaf(f) and pure(raw, f)]
    mod = build(w, scalar, 'desa')
    counts = {}
    for fn, lab in (('vp_nbr', 'number of coefficients for an attenuation'), ('vp_tbw', 'design for a number of coefficients'), ('vp_coefs', 'design for an attenuation')):
        R.instances += 1
        e = Log(mod); syms = []
        def anyint(s):
            h = fresh('order'); s.gam = s.gam.add_ge(add(h, 2 ** 24)).add_ge(sub(2 ** 24, h)); syms.append(h); return h
        def hook(eng, fp, args, s, I):
            f = I.get('f', '')
            if f.startswith(IMATH) or f in scalar or f in MATH:
                if str(I.get('ty')) in ('i32', 'i64'): return [(s, anyint(s))]
                return [(s, badf('computed'))]
            return None
        e.call_hook = hook; e.fp2int = anyint
        st = State()
        coef = mkregion('coef_arr', 'out', None, 8, base=BaseUntouched())
        n = None
        if fn == 'vp_tbw':
            n = fresh('n'); st.gam = st.gam.add_ge(add(n, -1)).add_ge(sub(256, n))
            coef.size = mulc(n, 8)
            args = [Ptr(coef, 0), n, badf('t')]
        else:
            coef.size = 2 ** 40
            args = ([Ptr(coef, 0)] if fn == 'vp_coefs' else []) + [badf('a'), badf('t')]
        try: outs = e.call(fn, args, st)
        except (Budget, Imprecise, RecursionError) as x: R.unknown('%s: %r' % (lab, x)); continue
        for o in obligations(e, mod):
            R.add(o['ok'] + len(o['cand']) + o['nunk'], o['ok'])
            if o['cand']: R.bad('%s:%s' % (fn, o['kind']), '%s: %s at %s: %s' % (lab, o['kind'], o['at'], o['cand'][0][0]))
            elif o['nunk']: R.undecided.append('%s: %s at %s' % (lab, o['kind'], o['at']))
        und = [x for x in notes(e, mod) if not x.startswith('data dependent')]
        if und: R.unknown('%s: %s' % (lab, und[:2]))
        R.check(bool(outs), fn + ':return', lab + ': does not return')
        cnt = counts.setdefault(fn, [])
        for s, v in outs:
            if fn != 'vp_tbw':
                if not isaff(v): R.unknown('%s: result %r' % (lab, v)); continue
                g = s.gam.add_ge(neg(v))
                if g is not None and g.feasible(): R.check(False, fn + ':count', '%s: %s coefficients for rounded order %s' % (lab, ev(v, g.model()), ev(syms[0], g.model()) if syms else '?'))
                else: R.add()
                if len(syms) == 1: cnt.append((s.gam, syms[0], v))
            if fn == 'vp_nbr': continue
            m = n if fn == 'vp_tbw' else v
            k = fresh('k')
            def elems(g, rule, text, want):
                if g is None or not g.feasible(): return
                s2 = s.copy(); s2.gam = g; e.collect = False
                for s3, x in query(e, s2, coef, mulc(k, 8), 'f64') or [(s2, None)]:
                    if x is None or isinstance(x, Lin) and any('imprecise' in q for q in x.bad): R.unknown('%s: element k is %r' % (lab, x)); continue
                    old = isinstance(x, Lin) and not x.bad and bool(x.t) and all(a[0] == 'O' for a in x.t)
                    R.check(old == want, fn + rule, '%s: %s (element %s, count %s)' % (lab, text, ev(k, s3.gam.model()), ev(m, s3.gam.model())))
                e.collect = True
            g = s.gam.add_ge(k); g = g.add_ge(sub(add(m, -1), k)) if g is not None else None
            elems(g, ':short', 'an element below the count is not written', False)
            if fn == 'vp_coefs':
                g = s.gam.add_ge(sub(k, m)); g = g.add_ge(k) if g is not None else None; g = g.add_ge(sub(2 ** 30, k)) if g is not None else None
                elems(g, ':long', 'an element beyond the reported count is written', True)
            R.sample('%s: elements 0..%r-1 written, %d loops' % (lab, m, len(e.loop_info)))
    # both count functions agree on every rounded order
    a, b = counts.get('vp_nbr') or [], counts.get('vp_coefs') or []
    if not a or not b: R.unknown('counts of the two functions are not both functions of one rounded order')
    for ga, ha, va in a:
        for gb, hb, vb in b:
            g = ga
            for e in gb.exprs():
                g = g.add_ge(e) if g is not None else None
            g = g.add_eq(sub(ha, hb)) if g is not None else None
            for d in (sub(va, vb), sub(vb, va)):
                x = g.add_ge(add(d, -1)) if g is not None else None
                if x is not None and x.feasible(): R.check(False, 'counts', 'compute_nbr_coefs_from_proto() and compute_coefs() give %s and %s coefficients for rounded order %s' % (ev(va, x.model()), ev(vb, x.model()), ev(ha, x.model())))
                else: R.add()
    R.instances += 1

def ev(a, m):
    if not isaff(a) or m is None: return repr(a)
    if isinstance(a, int): return a
    return a.c + sum(m.get(v, 0) * c for v, c in a.t)

def pure(mod, f, seen=None):
    """no stores except to its own stack, no calls except pure ones and libm"""
    seen = seen or set()
    if f in seen: return True
    seen = seen | {f}
    al = {I['id'] for b in blocks(f) for I in b if I['op'] == 'alloca'}
    for b in blocks(f):
        for I in b:
            if I['op'] == 'store' and I['p'] not in al: return False
            if I['op'] == 'load' and I['p'] not in al and not isinstance(I['p'], dict): return False
            if I['op'] in ('call', 'invoke'):
                g = I.get('f')
                if not g: return False
                if g.startswith('llvm.') or g in MATH: continue
                h = mod.funcs.get(g)
                if h is None or h.decl or not pure(mod, h, seen): return False
    return True
def blocks(f): return f.blocks if isinstance(f.blocks, list) else list(f.blocks.values())
def args_of(f): return [a.get('ty') if isinstance(a, dict) else a for a in f.args]

def check(R):
    with facts.Work() as w:
        mod = build(w, list(KEEP.values()), 'des')
        convergence(R, mod, KEEP)

def check_counts(R):
    with facts.Work() as w: arrays(R, w)
