"""Abstract domains: affine integers, linear constraint sets, linear forms over stream samples."""
import struct, itertools
from math import gcd

# ---------------------------------------------------------------- symbols
SYM = []          # id -> name
def newsym(name):
    SYM.append(name)
    return len(SYM) - 1
K = newsym('K')   # element index inside a segment template

class Aff:
    """sum coef*var + const, integer coefficients; always has at least one variable"""
    __slots__ = ('t', 'c', 'h')
    def __init__(self, t, c):
        self.t = t; self.c = c; self.h = hash((t, c))
    def __hash__(self): return self.h
    def __eq__(self, o):
        return isinstance(o, Aff) and self.c == o.c and self.t == o.t
    def __ne__(self, o): return not self.__eq__(o)
    def __repr__(self):
        s = []
        for v, k in self.t:
            s.append(('%+d*' % k if abs(k) != 1 else '+' if k > 0 else '-') + SYM[v] + '#%d' % v)
        if self.c: s.append('%+d' % self.c)
        return ' '.join(s)

def sym(v): return Aff(((v, 1),), 0)
def fresh(name): return sym(newsym(name))

def mk(d, c):
    t = tuple(sorted((v, k) for v, k in d.items() if k))
    return Aff(t, c) if t else c

def add(a, b):
    if a.__class__ is int:
        if b.__class__ is int: return a + b
        return Aff(b.t, b.c + a) if a else b
    if b.__class__ is int:
        return Aff(a.t, a.c + b) if b else a
    if isinstance(a, int) or isinstance(b, int): return add(int(a), b) if isinstance(a, int) else add(a, int(b))
    d = dict(a.t)
    for v, k in b.t: d[v] = d.get(v, 0) + k
    return mk(d, a.c + b.c)
def mulc(a, k):
    if isinstance(a, int): return a * k
    if k == 0: return 0
    if k == 1: return a
    return Aff(tuple((v, c * k) for v, c in a.t), a.c * k)
def neg(a): return mulc(a, -1)
def sub(a, b):
    if isinstance(b, int): return add(a, -b)
    return add(a, neg(b))
def isaff(a): return isinstance(a, (int, Aff)) and not isinstance(a, bool)
def lin_of(a): return () if isinstance(a, int) else a.t
def const_of(a): return a if isinstance(a, int) else a.c
def coef(a, v):
    if isinstance(a, int): return 0
    for w, k in a.t:
        if w == v: return k
    return 0
def subst(a, v, e):
    """a with variable v replaced by affine e"""
    if isinstance(a, int): return a
    k = coef(a, v)
    if k == 0: return a
    d = dict(a.t); del d[v]
    return add(mk(d, a.c), mulc(e, k))
def hasvar(a, v):
    if a.__class__ is int: return False
    for w, _ in a.t:
        if w == v: return True
    return False
def content(a):
    g = abs(const_of(a))
    for _, k in lin_of(a): g = gcd(g, abs(k))
    return g
def divexact(a, d):
    """a / d if every coefficient is divisible, else None"""
    if isinstance(a, int): return a // d if a % d == 0 else None
    if a.c % d or any(k % d for _, k in a.t): return None
    return Aff(tuple((v, k // d) for v, k in a.t), a.c // d)
def evalaff(a, m):
    if isinstance(a, int): return a
    return a.c + sum(k * m[v] for v, k in a.t)

# ---------------------------------------------------------------- constraint sets
INF = None
def _norm(t, c):
    """normalise sum t + c >= 0 with integer tightening; returns (t, c) or True/False"""
    if not t: return c >= 0
    g = 0
    for _, k in t: g = gcd(g, abs(k))
    if g > 1:
        t = tuple((v, k // g) for v, k in t); c = c // g
    return (t, c)

class Gamma:
    """conjunction of affine constraints  e >= 0, immutable"""
    __slots__ = ('cs', 'cache', 'feas')
    def __init__(self, cs=None):
        self.cs = cs or {}      # lin part -> const   (sum + const >= 0), tightest
        self.cache = {}
        self.feas = None
    def items(self): return self.cs.items()
    def exprs(self): return [Aff(t, c) for t, c in self.cs.items()]
    def add_ge(self, e):
        """returns self with e >= 0 or None when infeasible"""
        if isinstance(e, int): return self if e >= 0 else None
        n = _norm(e.t, e.c)
        t, c = n
        old = self.cs.get(t)
        if old is not None and old <= c: return self
        lo = self.minimum(Aff(t, 0))
        if lo is not INF and lo + c >= 0: return self       # entailed
        hi = self.maximum(Aff(t, 0))
        if hi is not INF and hi + c < 0: return None
        d = dict(self.cs); d[t] = c
        g = Gamma(d)
        if not g.feasible(): return None
        return g
    def add_eq(self, e):
        if isinstance(e, int): return self if e == 0 else None
        for v, k in e.t: pass
        gg = 0
        for _, k in e.t: gg = gcd(gg, abs(k))
        if e.c % gg: return None
        g = self.add_ge(e)
        return g.add_ge(neg(e)) if g is not None else None
    def _component(self, vs):
        vs = set(vs); out = []; rest = list(self.cs.items()); ch = True
        while ch:
            ch = False; keep = []
            for t, c in rest:
                if any(v in vs for v, _ in t):
                    out.append((t, c)); ch = True
                    for v, _ in t: vs.add(v)
                else: keep.append((t, c))
            rest = keep
        return out, vs
    def feasible(self):
        if self.feas is None:
            self.feas = _fm(dict(self.cs), set(v for t in self.cs for v, _ in t), None) is not False
        return self.feas
    def minimum(self, a):
        """lower bound of an affine expression (exact over the rationals), INF if none"""
        if isinstance(a, int): return a
        t = a.t
        if t in self.cache:
            r = self.cache[t]
        else:
            if len(t) == 1:
                v, k = t[0]
            cons, vs = self._component([v for v, _ in t])
            z = -1
            cs = {}
            for tt, c in cons: cs[tt] = c
            # z - lin >= 0, lin - z >= 0
            d = {v: -k for v, k in t}; d[z] = 1
            a1 = tuple(sorted(d.items())); a2 = tuple(sorted((v, -k) for v, k in d.items()))
            cs[a1] = 0; cs[a2] = 0
            r = _fm(cs, vs, z)
            if r is False: r = 0           # infeasible set: anything goes
            self.cache[t] = r
        return INF if r is INF else r + a.c
    def maximum(self, a):
        if isinstance(a, int): return a
        m = self.minimum(neg(a))
        return INF if m is INF else -m
    def ge(self, a):
        """entails a >= 0"""
        if isinstance(a, int): return a >= 0
        c = self.cs.get(a.t)
        if c is not None and c <= a.c: return True
        m = self.minimum(a)
        return m is not INF and m >= 0
    def lt0(self, a):
        return self.ge(sub(-1, a))
    def eq0(self, a):
        return self.ge(a) and self.ge(neg(a))
    def fixed(self, a):
        if isinstance(a, int): return a
        lo = self.minimum(a)
        if lo is INF: return None
        hi = self.maximum(a)
        return lo if hi == lo else None
    def eqs(self):
        """pairs of opposite constraints = equalities"""
        out = []
        for t, c in self.cs.items():
            nt = tuple((v, -k) for v, k in t)
            c2 = self.cs.get(nt)
            if c2 is not None and c2 == -c and t[0][1] > 0: out.append(Aff(t, c))
        return out
    def model(self, prefer=None, extra=()):
        """an integer point satisfying the constraints, or None"""
        return _model(self, prefer or {})

def _fm(cs, vs, z):
    """Fourier-Motzkin. cs: lin->const. Eliminates all of vs (not z).
    z is None: returns True/False (feasible). else lower bound of z (int, tightened) / None / False."""
    vs = set(vs); vs.discard(z)
    cs = dict(cs)
    while vs:
        # substitution by equality with unit coefficient first
        done = False
        for t, c in list(cs.items()):
            nt = tuple((v, -k) for v, k in t)
            c2 = cs.get(nt)
            if c2 is not None and c2 == -c:
                for v, k in t:
                    if v in vs and abs(k) == 1:
                        # v = -(rest)/k
                        e = mk({w: (-kk if k == 1 else kk) for w, kk in t if w != v}, -c if k == 1 else c)
                        new = {}
                        for tt, cc in cs.items():
                            if tt == t or tt == nt: continue
                            ex = subst(Aff(tt, cc), v, e) if any(w == v for w, _ in tt) else Aff(tt, cc)
                            if not _ins(new, ex): return False
                        cs = new; vs.discard(v); done = True
                        break
            if done: break
        if done: continue
        cnt = {}
        for t in cs:
            for v, k in t:
                if v in vs:
                    p = cnt.setdefault(v, [0, 0]); p[0 if k > 0 else 1] += 1
        vs &= set(cnt)
        if not vs: break
        v = min(vs, key=lambda x: (cnt[x][0] * cnt[x][1] - sum(cnt[x]), x))
        pos = []; ngs = []; new = {}
        for t, c in cs.items():
            k = 0
            for w, kk in t:
                if w == v: k = kk
            if k > 0: pos.append((t, c, k))
            elif k < 0: ngs.append((t, c, -k))
            else: new[t] = c
        if len(pos) * len(ngs) > 4000: return INF if z is not None else True
        for tp, cp, kp in pos:
            for tn, cn, kn in ngs:
                g = gcd(kp, kn); a = kn // g; b = kp // g
                d = {}
                for w, kk in tp: d[w] = kk * a
                for w, kk in tn: d[w] = d.get(w, 0) + kk * b
                d.pop(v, None)
                if not _ins(new, mk(d, cp * a + cn * b)): return False
        vs.discard(v); cs = new
        if len(cs) > 600: return INF if z is not None else True
    if z is None:
        return True
    lo = INF; hi = INF
    for t, c in cs.items():
        if len(t) == 1 and t[0][0] == z:
            k = t[0][1]
            if k > 0:
                b = -(c // k)        # k z + c >= 0 -> z >= -c/k -> ceil
                if lo is INF or b > lo: lo = b
            else:
                b = c // (-k)
                if hi is INF or b < hi: hi = b
    if lo is not INF and hi is not INF and lo > hi: return False
    return lo

def _ins(cs, e):
    if isinstance(e, int): return e >= 0
    t, c = _norm(e.t, e.c)
    o = cs.get(t)
    if o is None or c < o: cs[t] = c
    return True

def _model(g, prefer, budget=4000):
    """integer model by bound propagation + depth first search with small values first"""
    vs = sorted(set(v for t in g.cs for v, _ in t))
    cnt = [budget]
    def rec(gm, i, m):
        cnt[0] -= 1
        if cnt[0] < 0: return None
        if i == len(vs): return dict(m)
        v = vs[i]
        a = sym(v)
        lo = gm.minimum(a); hi = gm.maximum(a)
        cands = []
        if v in prefer: cands.append(prefer[v])
        if lo is not INF: cands += [lo, lo + 1, lo + 2, lo + 3]
        if hi is not INF: cands += [hi, hi - 1]
        if lo is INF and hi is INF: cands += [0, 1, 64]
        seen = set()
        for x in cands:
            if x in seen or (lo is not INF and x < lo) or (hi is not INF and x > hi): continue
            seen.add(x)
            g2 = gm.add_eq(sub(a, x))
            if g2 is None: continue
            # replace v by x to keep sets small
            cs = {}; ok = True
            for t, c in g2.cs.items():
                if not _ins(cs, subst(Aff(t, c), v, x)): ok = False; break
            if not ok: continue
            m[v] = x
            r = rec(Gamma(cs), i + 1, m)
            if r is not None: return r
            del m[v]
        return None
    return rec(g, 0, {})

# ---------------------------------------------------------------- conditions
class Cond:
    __slots__ = ('op', 'a', 'b')
    def __init__(self, op, a, b=None): self.op = op; self.a = a; self.b = b
    def __repr__(self): return '(%s %r %r)' % (self.op, self.a, self.b)
def c_not(c):
    if isinstance(c, int): return 0 if c else 1
    if c.op == 'not': return c.a
    return Cond('not', c)
def c_and(a, b):
    if isinstance(a, int): return b if a else 0
    if isinstance(b, int): return a if b else 0
    return Cond('and', a, b)
def c_or(a, b): return c_not(c_and(c_not(a), c_not(b)))

def decide(c, g):
    """True / False / None"""
    if isinstance(c, int): return bool(c)
    o = c.op
    if o == 'ge':
        if g.ge(c.a): return True
        if g.lt0(c.a): return False
        return None
    if o == 'eq':
        e = c.a
        if isinstance(e, int): return e == 0
        gg = 0
        for _, k in e.t: gg = gcd(gg, abs(k))
        if e.c % gg: return False
        lo = g.ge(e); hi = g.ge(neg(e))
        if lo and hi: return True
        if lo and g.ge(add(e, -1)): return False
        if hi and g.ge(sub(-1, e)): return False
        return None
    if o == 'not':
        r = decide(c.a, g); return None if r is None else not r
    if o == 'and':
        r = decide(c.a, g)
        if r is False: return False
        s = decide(c.b, g)
        if s is False: return False
        return True if r and s else None
    return None

def split(c, g):
    """[(truth, gamma, exact)] covering g"""
    if isinstance(c, int): return [(bool(c), g, True)]
    d = decide(c, g)
    if d is not None: return [(d, g, True)]
    o = c.op
    if o == 'ge':
        out = []
        g1 = g.add_ge(c.a)
        if g1 is not None: out.append((True, g1, True))
        g2 = g.add_ge(sub(-1, c.a))
        if g2 is not None: out.append((False, g2, True))
        return out
    if o == 'eq':
        out = []
        g1 = g.add_eq(c.a)
        if g1 is not None: out.append((True, g1, True))
        for e in (add(c.a, -1), sub(-1, c.a)):
            g2 = g.add_ge(e)
            if g2 is not None: out.append((False, g2, True))
        return out
    if o == 'not':
        return [(not t, gg, e) for t, gg, e in split(c.a, g)]
    if o == 'and':
        out = []
        for t, gg, e in split(c.a, g):
            if not t: out.append((False, gg, e))
            else: out += [(t2, g2, e and e2) for t2, g2, e2 in split(c.b, gg)]
        return out
    return [(True, g, False), (False, g, False)]       # unknown condition

# ---------------------------------------------------------------- floats
def f32(x):
    try: return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError: return float('inf') if x > 0 else float('-inf')

class Lin:
    """linear form over atoms; atom = tuple (kind, ...). bad = set of reasons the value is not exact"""
    __slots__ = ('t', 'c', 'bad', 'vs')
    def __init__(self, t=None, c=0.0, bad=frozenset()):
        self.t = t if t is not None else {}; self.c = c; self.bad = bad; self.vs = None
    def vars(self):
        if self.vs is None:
            vs = set()
            for a in self.t:
                for y in a:
                    if y.__class__ is Aff:
                        for w, _ in y.t: vs.add(w)
            self.vs = vs
        return self.vs
    def __repr__(self):
        s = ' '.join('%+g*%s' % (k, fmt_atom(a)) for a, k in list(self.t.items())[:8])
        if len(self.t) > 8: s += ' ... (%d terms)' % len(self.t)
        if self.c or not self.t: s += ' %+g' % self.c
        if self.bad: s += ' !' + ','.join(sorted(self.bad))
        return s
def fmt_atom(a):
    return a[0] + '[' + ','.join(str(x) for x in a[1:]) + ']'
def atom(*a): return Lin({tuple(a): 1.0})
NOBAD = frozenset()
def badf(why): return Lin({}, 0.0, frozenset([why]))

def tolin(x):
    if isinstance(x, Lin): return x
    if isinstance(x, (int, float)) and not isinstance(x, bool): return Lin({}, float(x))
    return badf('imprecise')
def l_add(a, b, s=1.0):
    if isinstance(a, float) and isinstance(b, float): return a + s * b
    a = tolin(a); b = tolin(b)
    if len(b.t) > len(a.t) and s == 1.0: a, b = b, a
    d = dict(a.t)
    for k, v in b.t.items():
        n = d.get(k, 0.0) + s * v
        if n == 0.0: d.pop(k, None)
        else: d[k] = n
    return Lin(d, a.c + s * b.c, a.bad | b.bad if b.bad or a.bad else NOBAD)
def l_scale(a, k):
    if k == 0.0:
        bad = a.bad
        if any(x[0] == 'U' or x[0] == 'L' for x in a.t): bad = bad | frozenset(['uninit'])
        return Lin({}, 0.0, bad) if bad else 0.0
    return Lin({x: v * k for x, v in a.t.items()}, a.c * k, a.bad)
def l_mul(a, b):
    if isinstance(a, float):
        if isinstance(b, float): return a * b
        return l_scale(tolin(b), a)
    if isinstance(b, float): return l_scale(tolin(a), b)
    a = tolin(a); b = tolin(b)
    if not a.t and not a.bad: return l_scale(b, a.c)
    if not b.t and not b.bad: return l_scale(a, b.c)
    bad = a.bad | b.bad | frozenset(['nonlinear'])
    if any(x[0] == 'U' for x in a.t) or any(x[0] == 'U' for x in b.t): bad |= frozenset(['uninit'])
    return Lin({}, 0.0, bad)

def l_subst(a, v, e):
    if not isinstance(a, Lin) or v not in a.vars(): return a
    d = {}
    for at, k in a.t.items():
        at2 = tuple(subst(x, v, e) if isinstance(x, Aff) else x for x in at)
        n = d.get(at2, 0.0) + k
        d[at2] = n
    return Lin({x: k for x, k in d.items() if k != 0.0}, a.c, a.bad)
def l_map(a, f):
    if not isinstance(a, Lin): return a
    d = {}
    for at, k in a.t.items():
        at2 = f(at)
        d[at2] = d.get(at2, 0.0) + k
    return Lin({x: k for x, k in d.items() if k != 0.0}, a.c, a.bad)

TOL = 2e-6
def l_eq(a, b, tol=TOL):
    """equality of linear forms up to tolerance relative to the largest coefficient; taint makes it False"""
    a = tolin(a); b = tolin(b)
    if a.bad or b.bad: return False
    scale = max([1e-3] + [abs(v) for v in a.t.values()] + [abs(v) for v in b.t.values()])
    if abs(a.c - b.c) > tol * max(scale, abs(a.c)): return False
    for k, v in a.t.items():
        if abs(v - b.t.get(k, 0.0)) > tol * scale: return False
    for k, v in b.t.items():
        if k not in a.t and abs(v) > tol * scale: return False
    return True
def l_diff(a, b):
    a = tolin(a); b = tolin(b)
    return l_add(a, b, -1.0)
