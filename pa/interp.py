"""Abstract interpreter for exported LLVM IR (see DESIGN.md, section Engine)."""
import sys
from dom import *
from math import gcd
sys.setrecursionlimit(20000)

class Region:
    n = 0
    __slots__ = ('id', 'name', 'kind', 'size', 'align', 'addr', 'base', 'const', 'tags', 'asym')
    def __init__(self, name, kind, size, align, base=None, const=False):
        Region.n += 1
        self.id = Region.n; self.name = name; self.kind = kind; self.size = size; self.align = align
        self.asym = newsym('addr(%s)' % name); self.addr = mulc(sym(self.asym), align)
        self.base = base          # object with .elem(eng, st, off(bytes), ty) -> value, .template(lo) -> value over K
        self.const = const; self.tags = {}
    def __repr__(self): return '<%s>' % self.name
ADDR2REG = {}

class Ptr:
    __slots__ = ('r', 'o')
    def __init__(self, r, o): self.r = r; self.o = o
    def __repr__(self): return '&%s+%r' % (self.r.name, self.o)
    def __eq__(self, p): return isinstance(p, Ptr) and p.r is self.r and p.o == self.o
    def __hash__(self): return hash((self.r.id, self.o))
class FnPtr:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __repr__(self): return '@' + self.name
    def __eq__(self, p): return isinstance(p, FnPtr) and p.name == self.name
    def __hash__(self): return hash(self.name)
class Top:
    __slots__ = ('why',)
    def __init__(self, why=''): self.why = why
    def __repr__(self): return 'TOP(%s)' % self.why
    def __eq__(self, o): return isinstance(o, Top)
    def __hash__(self): return 7
TOP = Top('?')
UNDEF = Top('undef')

KV = K
class NeedSplit(Exception):
    def __init__(self, cond): self.cond = cond
class Imprecise(Exception): pass
class PathDead(Exception): pass
class Budget(Exception): pass
import time as _time
LIMIT = [None]
class cpu_limit:
    """raise Budget from the interpreter once this much processor time is used (nested limits only shrink)"""
    def __init__(self, sec): self.sec = sec
    def __enter__(self):
        self.old = LIMIT[0]; d = _time.process_time() + self.sec
        LIMIT[0] = d if self.old is None else min(d, self.old)
    def __exit__(self, *a): LIMIT[0] = self.old

# ------------------------------------------------------------- memory
class Cells:
    __slots__ = ('d', 'lo', 'hi')
    def __init__(self, d=None, lo=None, hi=None): self.d = d if d is not None else {}; self.lo = lo; self.hi = hi
    def copy(self): return Cells(dict(self.d), self.lo, self.hi)
class Seg:
    """elements at byte offsets lo + stride*k, 0 <= k < count, each esz bytes, value = f[K := k]"""
    __slots__ = ('lo', 'stride', 'count', 'esz', 'f', 'ty')
    def __init__(self, lo, stride, count, esz, f, ty='f32'):
        self.lo = lo; self.stride = stride; self.count = count; self.esz = esz; self.f = f; self.ty = ty
    def __repr__(self): return 'Seg[%r +%d*(%r) f=%r]' % (self.lo, self.stride, self.count, self.f)
    def end(self): return add(self.lo, mulc(self.count, self.stride)) if self.count != 1 else add(self.lo, self.esz)
class Mark:
    __slots__ = ()
class RS:
    __slots__ = ('log',)
    def __init__(self, log=None): self.log = log or []

def v_subst(x, v, e):
    if isinstance(x, Aff): return subst(x, v, e)
    if isinstance(x, Lin): return l_subst(x, v, e)
    if isinstance(x, Ptr): return Ptr(x.r, subst(x.o, v, e)) if hasvar(x.o, v) else x
    if isinstance(x, tuple): return tuple(v_subst(y, v, e) for y in x)
    if isinstance(x, Cond):
        return Cond(x.op, v_subst(x.a, v, e), v_subst(x.b, v, e) if x.b is not None else None)
    return x
def v_hasvar(x, v):
    if isinstance(x, Aff): return hasvar(x, v)
    if x.__class__ is Lin: return v in x.vars()
    if isinstance(x, Ptr): return hasvar(x.o, v)
    if isinstance(x, tuple): return any(v_hasvar(y, v) for y in x)
    if isinstance(x, Cond): return v_hasvar(x.a, v) or (x.b is not None and v_hasvar(x.b, v))
    return False
def v_same(a, b):
    if isinstance(a, (Lin, float)) or isinstance(b, (Lin, float)):
        if isinstance(a, (Lin, float)) and isinstance(b, (Lin, float)): return l_eq(a, b)
        return False
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(v_same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b

class State:
    __slots__ = ('mem', 'own', 'gam', 'env', 'dead', 'div', 'events', 'allocs', 'depth')
    def __init__(self):
        self.mem = {}; self.own = set(); self.gam = Gamma(); self.env = {}; self.dead = frozenset(); self.div = {}
        self.events = (); self.allocs = (); self.depth = 0
    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.own = set(); self.own = set()
        s.gam = self.gam; s.env = dict(self.env); s.dead = self.dead; s.div = self.div
        s.events = self.events; s.allocs = self.allocs; s.depth = self.depth
        return s
    def rs(self, r):
        x = self.mem.get(r.id)
        return x
    def wrs(self, r):
        x = self.mem.get(r.id)
        if x is None:
            x = RS(); self.mem[r.id] = x; self.own.add(r.id); return x
        if r.id not in self.own:
            log = list(x.log)
            if log and isinstance(log[-1], Cells): log[-1] = log[-1].copy()
            x = RS(log); self.mem[r.id] = x; self.own.add(r.id)
        return x

REGS = {}
def mkregion(*a, **k):
    r = Region(*a, **k)
    REGS[r.id] = r
    ADDR2REG[r.asym] = r
    return r

# ------------------------------------------------------------- base contents
class BaseUninit:
    def elem(self, eng, st, r, off, ty):
        if ty == 'f32' or ty == 'f64': return atom('U', r.id, off)
        return Top('uninitialised')
    def template(self, r, lo, stride): return atom('U', r.id, add(lo, mulc(sym(K), stride)))
class BaseStream:
    """element e (float) holds sample  e*mul + shift  of a stream"""
    def __init__(self, kind, stream): self.kind = kind; self.stream = stream
    def elem(self, eng, st, r, off, ty):
        if ty != 'f32': return Top('non-float read')
        p = divexact(off, 4)
        if p is None: return badf('misaligned float')
        return atom(self.kind, self.stream, p)
    def template(self, r, lo, stride):
        p = divexact(add(lo, mulc(sym(K), stride)), 4)
        return atom(self.kind, self.stream, p) if p is not None else badf('misaligned float')
class BaseState:
    """unknown float content of an object's array at entry: ('S', region, elem, pos)"""
    def __init__(self, pos=0, pieces=None): self.pos = pos; self.pieces = pieces or []
    # pieces: list of (lo, hi, template over K=element index)
    def elem(self, eng, st, r, off, ty):
        if ty != 'f32': return Top('non-float read')
        p = divexact(off, 4)
        if p is None: return badf('misaligned float')
        for lo, hi, t in self.pieces:
            if decide_ge(st, add(off, -lo)) and decide_ge(st, sub(hi - 4, off)): return v_subst(t, K, p)
        return atom('S', r.id, p, self.pos)
    def template(self, r, lo, stride):
        p = divexact(add(lo, mulc(sym(K), stride)), 4)
        if p is None: return badf('misaligned float')
        return None       # handled piecewise
class BaseGlobal:
    def __init__(self, g, eng):
        self.d = {}; self.z = []
        for off, ty, v in g.get('init') or []:
            if ty == 'z': self.z.append((off, off + v))
            else: self.d[off] = (ty, v)
    def elem(self, eng, st, r, off, ty):
        if not isinstance(off, int):
            f = st.gam.fixed(off)
            if f is None: return badf('symbolic table index') if ty in ('f32', 'f64') else Top('symbolic table index')
            off = f
        if off in self.d:
            t, v = self.d[off]
            if t == ty: return eng.const(v, ty)
            if t in ('i8', 'i32', 'i64', 'i16') and ty[0] == 'i': pass
        for a, b in self.z:
            if a <= off < b: return 0.0 if ty[0] == 'f' else 0
        return Top('global content')
    def template(self, r, lo, stride): return None
class BaseZero:
    def elem(self, eng, st, r, off, ty): return 0.0 if ty[0] == 'f' else 0
    def template(self, r, lo, stride): return 0.0

def decide_ge(st, e):
    """e >= 0 known / known false, otherwise fork the path"""
    if isinstance(e, int): return e >= 0
    d = decide(Cond('ge', e), st.gam)
    if d is None: raise NeedSplit(Cond('ge', e))
    return d

TYSZ = {'f32': 4, 'f64': 8, 'ptr': 8, 'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8}
def vecinfo(ty):
    i = 1
    while ty[i].isdigit(): i += 1
    return int(ty[1:i]), ty[i:]
def tysize(ty):
    if ty in TYSZ: return TYSZ[ty]
    if ty[0] == 'v' and ty[1:2].isdigit():
        n, e = vecinfo(ty); return n * TYSZ[e] if e in TYSZ else None
    return None

class Ob:
    __slots__ = ('kind', 'loc', 'ok', 'unk', 'cand', 'info')
    def __init__(self, kind, loc): self.kind = kind; self.loc = loc; self.ok = 0; self.unk = []; self.cand = []; self.info = None

class Engine:
    def __init__(self, mod, prefer_unroll=False, unroll_limit=80, steps=10000000, wide=64):
        self.policy = None; self.accel = False
        self.mod = mod; self.prefer_unroll = prefer_unroll; self.unroll_limit = unroll_limit
        self.collect = True; self.obs = {}; self.gregions = {}; self.call_hook = None; self.fp2int = None
        self.steps = steps; self.base_reads = {}; self.writes = {}; self.notes = {}
        self.loops_summarised = 0; self.paths = 0; self.callees = set(); self.max_paths = 20000
        self.loop_info = []; self.state_shift = {}; self.stack_max = 0
        self.trace_access = None
        self.machine = None; self.machine_kx = None; self.malloc_res = None; self.i2f = None; self.fsub_hook = None
        self.vsp = wide

    # ---------------- obligations
    def ob(self, kind, loc, status, st=None, detail=None):
        if not self.collect: return
        key = (kind, loc)
        o = self.obs.get(key)
        if o is None: o = self.obs[key] = Ob(kind, loc)
        if status is True: o.ok += 1
        elif status is None:
            if len(o.unk) < 4: o.unk.append((detail, st.gam if st else None))
            else: o.unk.append(None)
        else:
            if len(o.cand) < 4: o.cand.append((detail, status, st.gam if st else None))
    def note(self, why, loc=-1):
        self.notes[(why, loc)] = self.notes.get((why, loc), 0) + 1

    # ---------------- constants
    def const(self, v, ty=None):
        if 'i' in v: return v['i'] & 1 if ty == 'i1' else v['i']
        if 'f' in v: return float(v['f'])
        if 'g' in v:
            n = v['g']
            if n in self.mod.funcs: return FnPtr(n)
            return Ptr(self.gregion(n), v['o'])
        if 'null' in v: return 0
        if 'v' in v: return tuple(self.const(x) for x in v['v'])
        if 'zs' in v:
            if ty and ty[0] == 'v':
                n, e = vecinfo(ty); return tuple((0.0 if e[0] == 'f' else 0) for _ in range(n))
            return 0
        return UNDEF
    def gregion(self, n):
        r = self.gregions.get(n)
        if r is None:
            g = self.mod.globals[n]
            r = mkregion('global ' + n, 'global', g.get('size'), max(1, g.get('align', 1)), base=BaseGlobal(g, self), const=g['const'])
            r.tags['g'] = g
            self.gregions[n] = r
        return r

    # ---------------- memory access
    def check_access(self, st, r, off, size, kind, loc, align=1):
        if self.trace_access is not None and self.collect: self.trace_access(st, r, off, size, kind, loc)
        if r.id in st.dead:
            self.ob('lifetime', loc, {}, st, '%s of freed %s' % (kind, r.name))
        if kind == 'write':
            if r.const: self.ob('constwrite', loc, {}, st, 'write to constant %s' % r.name)
            if self.collect:
                w = self.writes.setdefault(r.id, set())
                if isinstance(off, int) and isinstance(size, int) and size <= 16384:
                    for o in range(off, off + size, 4): w.add((o, loc))
                else: w.add((None, loc))
        if r.size is not None:
            up = sub(r.size, add(off, size))
            if isinstance(off, int) and isinstance(up, int):
                ok = off >= 0 and up >= 0
            else: ok = st.gam.ge(off) and st.gam.ge(up)
            k = 'bounds-' + kind
            if ok: self.ob(k, loc, True)
            elif self.collect:
                m = None
                for e in (sub(-1, off), sub(-1, up)):
                    g = st.gam.add_ge(e)
                    if g is not None:
                        m = g.model()
                        if m is not None: break
                if m is not None: self.ob(k, loc, m, st, '%s %s offset %r size %r of %r bytes' % (kind, r.name, off, size, r.size))
                else: self.ob(k, loc, None, st, '%s %s offset %r size %r of %r bytes' % (kind, r.name, off, size, r.size))
        if align >= 16:
            self.check_align(st, r, off, align, loc)
    def no_overlap(self, st, d, s, ln, loc):
        """memcpy: the two ranges are the same or do not overlap"""
        if not (isinstance(d, Ptr) and isinstance(s, Ptr)) or not self.collect: return
        if d.r is not s.r or isinstance(ln, Top): return
        x = sub(d.o, s.o); g = st.gam
        bad = None; open_ = False
        for y in (x, mulc(x, -1)):
            h = g.add_ge(add(y, -1))
            if h is not None: h = h.add_ge(add(sub(ln, y), -1))
            if h is None: continue
            m = h.model()
            if m is not None: bad = h, m; break
            open_ = True
        t = 'memcpy of %r bytes within %s, from offset %r to %r' % (ln, d.r.name, s.o, d.o)
        if bad: self.ob('overlap', loc, bad[1], st, t)
        else: self.ob('overlap', loc, None if open_ else True, st, t)
    def check_align(self, st, r, off, align, loc):
        a = add(r.addr, off)
        ok = self.divisible(st, a, align)
        if ok: self.ob('align', loc, True)
        elif self.collect:
            m = self.misaligned_model(st, a, align)
            d = '%d-byte aligned access to %s offset %r' % (align, r.name, off)
            if m is not None: self.ob('align', loc, m, st, d)
            else: self.ob('align', loc, None, st, d)
    def divisible(self, st, a, m):
        for _ in range(6):
            if isinstance(a, int): return a % m == 0
            d = {}
            for v, k in a.t:
                k %= m
                if k: d[v] = k
            a = mk(d, a.c % m)
            if isinstance(a, int): return a % m == 0
            ch = False
            for v, k in a.t:
                f = st.gam.fixed(sym(v))
                if f is not None: a = subst(a, v, f); ch = True; break
            if ch: continue
            vs = sorted((v for v, _ in a.t))
            for e in st.gam.eqs():
                if any(v in vs for v, _ in e.t):
                    # solve for a variable of a with unit coefficient, prefer the oldest
                    for v, k in e.t:
                        if abs(k) == 1 and v == vs[0]:
                            rest = mk({w: (-kk if k == 1 else kk) for w, kk in e.t if w != v}, -e.c if k == 1 else e.c)
                            a = subst(a, v, rest); ch = True
                            break
                if ch: break
            if not ch: return False
        return False
    def misaligned_model(self, st, a, m):
        q = fresh('q'); r = fresh('r')
        e = sub(a, add(mulc(q, m), r))
        g = st.gam.add_eq(e)
        if g is not None: g = g.add_ge(add(r, -1))
        if g is not None: g = g.add_ge(sub(m - 1, r))
        return g.model() if g is not None else None

    def read(self, st, r, off, ty):
        if ty[0] == 'v':
            n, e = vecinfo(ty); s = TYSZ[e]
            return tuple(self.read(st, r, add(off, i * s), e) for i in range(n))
        rs = st.mem.get(r.id)
        if rs is None: return self.read_log(st, r, off, ty, ())
        try: return self.read_log(st, r, off, ty, rs.log)
        except NeedSplit:
            ml = self.merged_log(st, r)
            if ml is None: raise
            return self.read_log(st, r, off, ty, ml)
    def merged_log(self, st, r):
        """the write log with loop marks dropped and adjacent segments joined across them (same content)"""
        log = st.mem[r.id].log
        if not any(en.__class__ is Mark for en in log): return None
        t = st.copy(); t.mem[r.id] = RS(); t.own.add(r.id)
        dst = t.mem[r.id].log
        for en in log:
            if en.__class__ is Mark: continue
            if isinstance(en, Seg): self.push_seg(t, r, en)
            elif dst and isinstance(dst[-1], Cells):
                for o, (sz, v) in en.d.items(): self.write(t, r, o, tyof(v, sz), v)
            else: dst.append(en.copy())
        if len(dst) == sum(1 for en in log if en.__class__ is not Mark): return None
        return dst
    def read_log(self, st, r, off, ty, log):
        size = TYSZ[ty]
        if log:
            for en in reversed(log):
                if en.__class__ is Mark: continue
                if isinstance(en, Cells):
                    if isinstance(off, int):
                        c = en.d.get(off)
                        if c is not None and c[0] == size: return self.retype(c[1], ty)
                        if off >= en.hi or off + size <= en.lo: continue
                        hit = False
                        for o in range(off - 15, off + size):
                            c2 = en.d.get(o)
                            if c2 is not None and o + c2[0] > off: hit = True; break
                        if hit: return self.partial(st, en, off, size, ty)
                    else:
                        if en.lo is None: continue
                        if decide(Cond('ge', sub(off, en.hi)), st.gam) or decide(Cond('ge', sub(en.lo - size, off)), st.gam): continue
                        f = st.gam.fixed(off)
                        if f is not None: return self.read(st, r, f, ty)
                        for o in sorted(en.d):
                            dlt = sub(off, o); s2 = en.d[o][0]
                            if decide(Cond('ge', add(dlt, -s2)), st.gam) or decide(Cond('ge', sub(-size, dlt)), st.gam): continue
                            if decide(Cond('eq', dlt), st.gam) is False:
                                # may be misaligned overlap; element arrays only
                                if divexact(add(off, 0), 4) is not None and o % 4 == 0 and s2 == 4 and size == 4: continue
                                return self.imprecise_val(ty, 'overlap')
                            raise NeedSplit(Cond('eq', dlt))
                else:
                    h = self.seg_hit(st, en, off, size)
                    if h is None: continue
                    if h is False: return self.imprecise_val(ty, 'partial overlap')
                    if en.esz != size: return self.imprecise_val(ty, 'size mismatch')
                    return v_subst(en.f, K, h)
        return self.read_base(st, r, off, ty)
    def read_base(self, st, r, off, ty):
        if self.collect: self.base_reads.setdefault(r.id, []).append((off, st.gam))
        if r.base is None: return self.imprecise_val(ty, 'no content')
        return r.base.elem(self, st, r, off, ty)
    def imprecise_val(self, ty, why):
        return badf('imprecise: ' + why) if ty in ('f32', 'f64') else Top(why)
    def retype(self, v, ty):
        if ty in ('f32', 'f64') and not isinstance(v, (float, Lin)):
            if v == 0 and isinstance(v, int): return 0.0
            if isinstance(v, Top): return badf(v.why)
            return badf('imprecise: retype')
        if ty[0] == 'i' and isinstance(v, (float, Lin)):
            if isinstance(v, float):
                import struct
                return struct.unpack('<i', struct.pack('<f', v))[0] if ty == 'i32' else Top('retype')
            return Top('retype')
        return v
    def partial(self, st, en, off, size, ty):
        # zero bytes written by memset or adjacent float pairs
        if ty == 'f64' or ty == 'i64':
            a = en.d.get(off); b = en.d.get(off + 4)
            if a and b and a[0] == 4 and b[0] == 4: return PairVal(a[1], b[1]) if ty == 'f64' else PairVal(a[1], b[1])
        z = True
        for o in range(off - 15, off + size):
            c2 = en.d.get(o)
            if c2 is not None and o + c2[0] > off and not (isinstance(c2[1], (int, float)) and c2[1] == 0): z = False
        if z: return 0.0 if ty[0] == 'f' else 0
        return self.imprecise_val(ty, 'partial read')
    def seg_hit(self, st, s, off, size):
        """None: definitely not touched; index: element index; False: partial; forks if unknown"""
        d = sub(off, s.lo)
        g = st.gam
        if isinstance(s.count, int) and s.count <= 0: return None
        if g.ge(sub(-size, d)) or g.ge(sub(d, mulc(s.count, s.stride))): return None
        if s.stride == s.esz:
            if size == s.esz:
                # element aligned?
                if not decide_ge(st, d): return None
                if not decide_ge(st, sub(sub(mulc(s.count, s.stride), d), size)): return None
                q = divexact(d, s.stride)
                if q is None:
                    x = self.split_stride(st, d, s.stride)
                    return x if x is not None else False
                return q
            if not decide_ge(st, d): return False
            return False
        # strided
        q, r = self.stride_decomp(st, d, s.stride)
        if q is None: return False
        if isinstance(r, int):
            if r != 0:
                return None if r >= s.esz and r + size <= s.stride else False
        if not decide_ge(st, q): return None
        if not decide_ge(st, sub(add(s.count, -1), q)): return None
        return q
    def split_stride(self, st, d, m): return None
    def stride_decomp(self, st, d, m):
        q, r = self.divmod_(st, d, m)
        if not isinstance(r, int):
            f = st.gam.fixed(r)
            if f is not None: return q, f
            # fork over the residues
            lo = st.gam.minimum(r)
            raise NeedSplit(Cond('eq', add(r, -(lo or 0))))
        return q, r

    def masked(self, st, a, mask, w):
        """a & mask for a mask of few low bits"""
        if mask >> (w - 1) or mask >= 1 << 24 or bin(mask).count('1') > 4: return None
        if mask & (mask + 1) == 0: return self.divmod_(st, a, mask + 1)[1]
        r = 0
        for k in range(24):
            if mask >> k & 1:
                hi = self.divmod_(st, a, 2 << k)[1]; lo = self.divmod_(st, a, 1 << k)[1] if k else 0
                r = add(r, sub(hi, lo))
        return r
    def divmod_(self, st, a, m):
        """a = m*q + r, 0 <= r < m (fresh symbols recorded in the path constraints)"""
        if isinstance(a, int): return a // m, a % m
        d1 = {}; d2 = {}
        for v, k in a.t:
            r = k % m
            if r > m // 2: r -= m
            q = (k - r) // m
            if q: d1[v] = q
            if r: d2[v] = r
        c2 = a.c % m
        A = mk(d1, (a.c - c2) // m)
        R = mk(d2, c2)
        if isinstance(R, int): return add(A, R // m), R % m
        if st.gam.ge(R) and st.gam.ge(sub(m - 1, R)): return A, R
        g = gcd(content(R), m)
        if g > 1:
            q, r = self.divmod_(st, divexact(R, g), m // g)
            return add(A, q), mulc(r, g)
        key = (m, R)
        z = st.div.get(key)
        if z is None:
            # numeric quotient range small? keep symbolic
            q = fresh('q'); r = fresh('r')
            gm = st.gam.add_eq(sub(R, add(mulc(q, m), r)))
            if gm is not None: gm = gm.add_ge(r)
            if gm is not None: gm = gm.add_ge(sub(m - 1, r))
            if gm is None: raise PathDead()
            st.gam = gm
            st.div = dict(st.div); st.div[key] = (q, r)
            z = (q, r)
        q, r = z
        f = st.gam.fixed(r)
        if f is not None: r = f
        f = st.gam.fixed(q)
        if f is not None: q = f
        return add(A, q), r

    def write(self, st, r, off, ty, v):
        if ty[0] == 'v':
            n, e = vecinfo(ty); s = TYSZ[e]
            if not isinstance(v, tuple): v = (self.imprecise_val(e, 'vector'),) * n
            for i in range(n): self.write(st, r, add(off, i * s), e, v[i])
            return
        if ty == 'struct' or ty == 'array':
            self.havoc_region(st, r, 'aggregate store'); return
        size = TYSZ[ty]
        if isinstance(v, PairVal) and size == 8:
            self.write(st, r, off, 'f32', v.a); self.write(st, r, add(off, 4), 'f32', v.b); return
        if not isinstance(off, int):
            f = st.gam.fixed(off)
            if f is not None: off = f
        rs = st.wrs(r)
        if isinstance(off, int):
            if not rs.log or not isinstance(rs.log[-1], Cells): rs.log.append(Cells({}, off, off + size))
            c = rs.log[-1]; d = c.d
            if off not in d or d[off][0] != size:
                for o in range(off - 15, off + size):
                    x = d.get(o)
                    if x is not None and o != off and o + x[0] > off:
                        # overlapping older cell of another shape: keep the bytes only if zero
                        del d[o]
                        if isinstance(x[1], (int, float)) and x[1] == 0:
                            for b in range(o, o + x[0]):
                                if not off <= b < off + size: d[b] = (1, 0)
                        else:
                            for b in range(o, o + x[0]):
                                if not off <= b < off + size: d[b] = (1, Top('clobbered'))
            d[off] = (size, v)
            if off < c.lo: c.lo = off
            if off + size > c.hi: c.hi = off + size
        else:
            self.push_seg(st, r, Seg(off, size, 1, size, v, ty))
    def havoc_region(self, st, r, why):
        rs = st.wrs(r)
        self.note('havoc ' + why)
        rs.log.append(Seg(0, 4, (r.size // 4) if isinstance(r.size, int) else 1 << 40, 4, badf('imprecise: ' + why)))

    def aff_eq(self, st, a, b):
        if a == b and type(a) == type(b): return True
        d = sub(a, b)
        if isinstance(d, int): return d == 0
        return st.gam.eq0(d)

    def push_seg(self, st, r, s):
        """append a segment, merging with an adjacent one holding the same function"""
        if isinstance(s.count, int) and s.count <= 0: return
        g = st.gam
        if g.ge(neg(s.count)): return
        rs = st.wrs(r)
        i = len(rs.log) - 1
        depth = 0
        while i >= 0 and depth < 6:
            en = rs.log[i]
            if en.__class__ is Mark: break
            if isinstance(en, Seg):
                m = self.try_merge(st, en, s)
                if m is not None:
                    del rs.log[i]
                    s = m
                    # the merged segment is appended again: try further merges
                    i = len(rs.log) - 1; depth = 0
                    continue
                if self.shadows(st, s, en): del rs.log[i]; i -= 1; continue
                if not self.disjoint(st, en, s): break
            else:
                if isinstance(s.f, Top) or s.ty != 'f32': break
                m = self.absorb_cells(st, en, s)
                if m is not None:
                    # cells become part of the segment
                    nd, s = m
                    if nd.d: rs.log[i] = nd
                    else: del rs.log[i]
                    i = len(rs.log) - 1; depth = 0
                    continue
                if not (g.ge(sub(s.lo, en.hi)) or g.ge(sub(en.lo, s.end()))): break
            i -= 1; depth += 1
        rs.log.append(s)
    def shadows(self, st, s, en):
        """every byte of en is overwritten by s"""
        if s.count == 1 and en.count == 1: return s.esz == en.esz and s.lo == en.lo
        if s.stride != s.esz: return False
        g = st.gam
        return g.ge(sub(en.lo, s.lo)) and g.ge(sub(s.end(), en.end()))
    def absorb_cells(self, st, c, s):
        return None
    def disjoint(self, st, a, b):
        g = st.gam
        if g.ge(sub(b.lo, a.end())) or g.ge(sub(a.lo, b.end())): return True
        if a.stride == b.stride or (a.count == 1 or b.count == 1):
            m = a.stride if b.count == 1 or a.stride == b.stride else b.stride
            d = sub(b.lo, a.lo)
            if isinstance(d, Aff):
                if any(k % m for _, k in d.t): return False
                r = d.c % m
            else: r = d % m
            if r >= a.esz and r + b.esz <= m: return True
        return False
    def try_merge(self, st, a, b):
        """b was written after a, adjacent or overlapping with the same function -> one segment"""
        if a.esz != b.esz or a.ty != b.ty: return None
        stride = a.stride
        if a.count == 1 and b.count == 1 and not (a.stride == b.stride and v_hasvar(a.f, KV) and v_hasvar(b.f, KV)):
            d = sub(b.lo, a.lo)
            if not isinstance(d, int) or d == 0: return None
            if abs(d) not in (4, 8): return None
            return None          # two single elements: no slope known
        if (a.count == 1) != (b.count == 1) and not v_hasvar(a.f if a.count == 1 else b.f, KV):
            one, many = (a, b) if a.count == 1 else (b, a)
            stride = many.stride
            d = sub(one.lo, many.lo)
            q = divexact(d, stride)
            if q is None: return None
            if not v_same(one.f, v_subst(many.f, K, q)): return None
            if self.aff_eq(st, q, many.count): return Seg(many.lo, stride, add(many.count, 1), many.esz, many.f, many.ty)
            if self.aff_eq(st, q, -1):
                return Seg(one.lo, stride, add(many.count, 1), many.esz, v_subst(many.f, K, add(sym(K), -1)), many.ty)
            if st.gam.ge(q) and st.gam.ge(sub(add(many.count, -1), q)): return many
            return None
        if a.stride != b.stride: return None
        d = sub(b.lo, a.lo)
        q = divexact(d, stride)
        if q is None: return None
        if not v_same(b.f, v_subst(a.f, K, add(sym(K), q))): return None
        g = st.gam
        # b starts inside or at end of a
        if g.ge(q) and g.ge(sub(a.count, q)):
            if g.ge(sub(add(q, b.count), a.count)): return Seg(a.lo, stride, add(q, b.count), a.esz, a.f, a.ty)
            if g.ge(sub(a.count, add(q, b.count))): return a
            return None
        if g.ge(neg(q)) and g.ge(add(q, b.count)):
            if g.ge(sub(a.count, add(q, b.count))):
                return Seg(b.lo, stride, sub(a.count, q), a.esz, b.f, a.ty)
        return None

    # range copy -----------------------------------------------------------
    def resolve(self, st, r, a, ln):
        """content of bytes [a, a+ln) of r as a list of pieces (rel_lo, stride, count, esz, f, ty), bottom first"""
        g = st.gam
        out = []
        unc = [(a, add(a, ln))]
        rs = st.mem.get(r.id)
        log = rs.log if rs is not None else []
        if log and not (isinstance(a, int) and isinstance(ln, int)):
            ml = self.merged_log(st, r)
            if ml is not None: log = ml
        for en in reversed(log):
            if not unc: break
            if en.__class__ is Mark: continue
            if isinstance(en, Cells):
                nu = []
                for lo, hi in unc:
                    if g.ge(sub(lo, en.hi)) or g.ge(sub(en.lo, hi)): nu.append((lo, hi)); continue
                    if isinstance(lo, int) and isinstance(hi, int):
                        cs = sorted(o for o in en.d if o + en.d[o][0] > lo and o < hi)
                        cur = lo
                        for o in cs:
                            sz, v = en.d[o]
                            if o < lo or o + sz > hi: raise Imprecise('partial cell copy')
                            if o > cur: nu.append((cur, o))
                            out.append((o - lo + sub0(lo, a), sz, 1, sz, v, tyof(v, sz)))
                            cur = o + sz
                        if cur < hi: nu.append((cur, hi))
                    else:
                        cur = lo
                        pend = True
                        for o in sorted(en.d):
                            sz, v = en.d[o]
                            # relation of o to [cur, hi)
                            if g.ge(sub(cur, o + sz)): continue
                            if g.ge(sub(o, hi)): continue
                            if not decide_ge(st, sub(o, cur)): continue
                            if not decide_ge(st, sub(hi, o + sz)): continue
                            if not self.aff_eq(st, cur, o): nu.append((cur, o))
                            out.append((sub(o, a), sz, 1, sz, v, tyof(v, sz)))
                            cur = o + sz
                        if not g.ge(sub(cur, hi)): nu.append((cur, hi))
                unc = nu
            else:
                nu = []
                for lo, hi in unc:
                    el = en.lo; eh = en.end()
                    if g.ge(sub(el, hi)) or g.ge(sub(lo, eh)): nu.append((lo, hi)); continue
                    if not decide_ge(st, add(sub(hi, el), -1)) or not decide_ge(st, add(sub(eh, lo), -1)) or not decide_ge(st, add(sub(hi, lo), -1)):
                        nu.append((lo, hi)); continue
                    left = lo; s0 = el
                    if decide_ge(st, sub(lo, el)): s0 = lo
                    else: nu.append((lo, el))
                    if decide_ge(st, sub(eh, hi)): e0 = hi
                    else: e0 = eh; nu.append((eh, hi))
                    if en.stride == en.esz:
                        k0 = divexact(sub(s0, el), en.esz); n = divexact(sub(e0, s0), en.esz)
                        if k0 is None or n is None: raise Imprecise('misaligned range')
                        out.append((sub(s0, a), en.esz, n, en.esz, v_subst(en.f, K, add(sym(K), k0)), en.ty))
                    else:
                        raise Imprecise('strided source range')
                unc = nu
        for lo, hi in unc:
            if not decide_ge(st, add(sub(hi, lo), -1)): continue
            b = r.base
            if isinstance(b, BaseState):
                cur = [(lo, hi)]
                for pl, ph, t in b.pieces:
                    nx = []
                    for l2, h2 in cur:
                        if st.gam.ge(sub(pl, h2)) or st.gam.ge(sub(l2, ph)): nx.append((l2, h2)); continue
                        s0 = l2 if decide_ge(st, sub(l2, pl)) else pl
                        if s0 is not l2: nx.append((l2, pl))
                        e0 = h2 if decide_ge(st, sub(ph, h2)) else ph
                        if e0 is not h2: nx.append((ph, h2))
                        p = divexact(s0, 4); n = divexact(sub(e0, s0), 4)
                        if p is None or n is None: raise Imprecise('misaligned range')
                        if self.collect:
                            self.base_reads.setdefault(r.id, []).append((s0, st.gam)); self.base_reads[r.id].append((add(e0, -4), st.gam))
                        out.append((sub(s0, a), 4, n, 4, v_subst(t, K, add(sym(K), p)), 'f32'))
                    cur = nx
                for l2, h2 in cur:
                    if st.gam.ge(sub(l2, h2)): continue
                    p = divexact(l2, 4); n = divexact(sub(h2, l2), 4)
                    if p is None or n is None: raise Imprecise('misaligned range')
                    if self.collect:
                        self.base_reads.setdefault(r.id, []).append((l2, st.gam)); self.base_reads[r.id].append((add(h2, -4), st.gam))
                    out.append((sub(l2, a), 4, n, 4, atom('S', r.id, add(sym(K), p), b.pos), 'f32'))
                continue
            if b is None: raise Imprecise('no content')
            n = divexact(sub(hi, lo), 4)
            if isinstance(b, BaseGlobal):
                if isinstance(lo, int) and isinstance(hi, int):
                    for o in sorted(b.d):
                        if lo <= o < hi:
                            t, v = b.d[o]; sz = TYSZ[t]
                            out.append((o - a if isinstance(a, int) else sub(o, a), sz, 1, sz, self.const(v, t), t))
                    for zl, zh in b.z:
                        s0 = max(lo, zl); e0 = min(hi, zh)
                        for o in range(s0, e0, 4):
                            out.append((sub(o, a), min(4, e0 - o), 1, min(4, e0 - o), 0, 'i32'))
                    continue
                raise Imprecise('symbolic table range')
            if n is None and isinstance(lo, int) and isinstance(hi, int) and hi - lo < 256:
                # concrete bytes around aligned words
                c = lo
                while c < hi:
                    wd = 4 if c % 4 == 0 and c + 4 <= hi else 1
                    t = b.template(r, c, 4) if wd == 4 else b.elem(self, st, r, c, 'i8')
                    if t is None: raise Imprecise('base range')
                    out.append((sub(c, a), wd, 1, wd, v_subst(t, K, 0) if wd == 4 else t, 'f32' if wd == 4 else 'i8'))
                    c += wd
                continue
            if n is None: raise Imprecise('misaligned range')
            if self.collect:
                self.base_reads.setdefault(r.id, []).append((lo, st.gam)); self.base_reads[r.id].append((add(hi, -4), st.gam))
            t = b.template(r, lo, 4)
            if t is None: raise Imprecise('base range')
            out.append((sub(lo, a), 4, n, 4, t, 'f32'))
        out.reverse()
        return out
    def copy_range(self, st, dr, do, sr, so, ln, loc, checked=False):
        if not isinstance(ln, int):
            f = st.gam.fixed(ln)
            if f is not None: ln = f
        if isinstance(ln, int) and ln == 0: return
        if not checked:
            if not isinstance(ln, int):
                if not decide_ge(st, add(ln, -1)): return
            self.check_access(st, sr, so, ln, 'read', loc)
            self.check_access(st, dr, do, ln, 'write', loc)
        try: ps = self.resolve(st, sr, so, ln)
        except Imprecise as e:
            self.note('copy: %s' % e, loc)
            n = divexact(ln, 4) if isaff(ln) else None
            self.push_seg(st, dr, Seg(do, 4, n if n is not None else 1 << 40, 4, badf('imprecise: copy')))
            return
        for rel, stride, cnt, esz, f, ty in ps:
            lo = add(do, rel)
            if isinstance(cnt, int) and cnt <= 16 and isinstance(lo, int):
                for k in range(cnt):
                    self.write(st, dr, lo + k * stride, ty, v_subst(f, K, k))
            elif cnt == 1: self.write(st, dr, lo, ty, v_subst(f, K, 0))
            else: self.push_seg(st, dr, Seg(lo, stride, cnt, esz, f, ty))

    # ---------------- integers
    def norm_u(self, st, v, w):
        if isinstance(v, int): return v & ((1 << w) - 1)
        if not isinstance(v, Aff): return v
        if w == 64 and self.is_address(v): return v      # addresses lie in [0, 2^63)
        g = st.gam; M = 1 << w
        if g.ge(v):
            if g.ge(sub(M - 1, v)): return v
            if g.ge(sub(v, M)) and g.ge(sub(2 * M - 1, v)): return add(v, -M)
            if g.ge(sub(2 * M - 1, v)): raise NeedSplit(Cond('ge', sub(v, M)))
            hi = g.maximum(v)
            if hi is None: return Top('unbounded unsigned')
            q, r = self.divmod_(st, v, M)
            return r
        if g.ge(add(v, M)):
            if g.lt0(v): return add(v, M)
            if g.ge(sub(M - 1, v)): raise NeedSplit(Cond('ge', v))
        return Top('unbounded')
    def norm_s(self, st, v, w):
        if isinstance(v, int):
            v &= (1 << w) - 1
            return v - (1 << w) if v >> (w - 1) else v
        if not isinstance(v, Aff): return v
        g = st.gam; H = 1 << (w - 1)
        if g.ge(add(v, H)) and g.ge(sub(H - 1, v)): return v
        if g.ge(sub(v, H)) and g.ge(sub(3 * H - 1, v)): return add(v, -2 * H)
        if w >= 64: return v          # addresses and 64-bit counters: assumed not to wrap
        if g.ge(add(v, H)) and g.ge(sub(3 * H - 1, v)): raise NeedSplit(Cond('ge', sub(v, H)))
        return Top('unbounded signed')

    def addr_of(self, p):
        if isinstance(p, Ptr): return add(p.r.addr, p.o)
        return p
    def to_ptr(self, st, v):
        if isinstance(v, Ptr) or isinstance(v, FnPtr): return v
        if isinstance(v, int): return v
        if isinstance(v, Aff):
            for s, k in v.t:
                r = ADDR2REG.get(s)
                if r is not None and k == r.align: return Ptr(r, sub(v, r.addr))
        return TOP

    def cond_of(self, st, v):
        if isinstance(v, int): return v & 1
        if isinstance(v, Cond): return v
        if isinstance(v, Aff):
            q, r = self.divmod_(st, v, 2)
            return Cond('ge', add(r, -1)) if not isinstance(r, int) else r
        return Cond('unk', repr(v))
    def need(self, st, c):
        """truth of a condition on this path, forking if undetermined"""
        c = self.cond_of(st, c)
        d = decide(c, st.gam)
        if d is None: raise NeedSplit(c)
        return d

    def icmp(self, st, pr, a, b, ty):
        if ty == 'ptr' or isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if ty == 'ptr':
                a = self.to_ptr(st, a) if isinstance(a, Aff) else a
                b = self.to_ptr(st, b) if isinstance(b, Aff) else b
            if isinstance(a, Top) or isinstance(b, Top): return Cond('unk', 'ptr')
            if pr in ('eq', 'ne'):
                if isinstance(a, FnPtr) or isinstance(b, FnPtr): r = a == b
                elif isinstance(a, Ptr) and isinstance(b, Ptr):
                    if a.r is b.r:
                        c = self.simple(Cond('eq', sub(a.o, b.o)), st)
                        return c if pr == 'eq' else c_not(c)
                    # different objects; one-past-the-end coincidences are handled as unequal
                    r = False
                else: r = (not isinstance(a, Ptr) and not isinstance(b, Ptr) and a == b)
                return int(r if pr == 'eq' else not r)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is not b.r:
                self.order_regions(st, a.r, b.r)
            a = self.addr_of(a); b = self.addr_of(b)
            if not isaff(a) or not isaff(b): return Cond('unk', 'ptr')
            return self.cmp_math(st, pr, a, b)
        if isinstance(a, Cond) or isinstance(b, Cond) or ty == 'i1':
            a = self.cond_of(st, a); b = self.cond_of(st, b)
            if pr in ('eq', 'ne'):
                if isinstance(b, int): r = a if b else c_not(a)
                elif isinstance(a, int): r = b if a else c_not(b)
                else: r = self.need(st, a); r = b if r else c_not(b)
                return r if pr == 'eq' else c_not(r)
            a = int(self.need(st, a)); b = int(self.need(st, b))
        if ty[0] == 'v' or not isaff(a) or not isaff(b): return Cond('unk', 'cmp')
        w = int(ty[1:])
        if pr in ('eq', 'ne'):
            d = sub(a, b)
            if isinstance(d, int): r = int(d % (1 << w) == 0)
            else:
                M = 1 << w
                g = st.gam
                if g.ge(add(d, M - 1)) and g.ge(sub(M - 1, d)): r = self.simple(Cond('eq', d), st)
                elif w == 64: r = self.simple(Cond('eq', d), st)
                else:
                    x = self.norm_u(st, d, w)
                    if not isaff(x): return Cond('unk', 'cmp')
                    r = self.simple(Cond('eq', x), st)
            return r if pr == 'eq' else c_not(r)
        if pr[0] == 'u': a = self.norm_u(st, a, w); b = self.norm_u(st, b, w)
        else: a = self.norm_s(st, a, w); b = self.norm_s(st, b, w)
        if not isaff(a) or not isaff(b): return Cond('unk', 'cmp')
        return self.cmp_math(st, pr, a, b)
    def simple(self, c, st):
        d = decide(c, st.gam)
        return c if d is None else int(d)
    def cmp_math(self, st, pr, a, b):
        p = pr[1:]
        if p == 'lt': c = Cond('ge', add(sub(b, a), -1))
        elif p == 'le': c = Cond('ge', sub(b, a))
        elif p == 'gt': c = Cond('ge', add(sub(a, b), -1))
        else: c = Cond('ge', sub(a, b))
        return self.simple(c, st)
    def order_regions(self, st, r1, r2):
        """distinct live objects do not overlap: decide (fork) which one comes first"""
        if r1.size is None or r2.size is None: return
        e12 = sub(r2.addr, add(r1.addr, r1.size)); e21 = sub(r1.addr, add(r2.addr, r2.size))
        if st.gam.ge(e12) or st.gam.ge(e21): return
        raise NeedOrder(e12, e21)

    # ---------------- execution
    def call(self, fname, args, st):
        F = self.mod.funcs[fname]
        self.callees.add(fname)
        save = st.env
        st.env = {}
        for i, a in enumerate(args): st.env[i] = a
        st.depth += 1
        if st.depth > 60: raise Imprecise('recursion')
        outs = self.run(F, 0, None, st, None)
        res = []
        for o in outs:
            if o[0] == 'ret':
                s = o[1]; s.env = dict(save); s.depth -= 1
                res.append((s, o[2]))
            elif o[0] == 'abort':
                self.aborted(o)
        return res
    def aborted(self, o): pass

    def opv(self, st, x, ty=None):
        if isinstance(x, int): return st.env[x]
        return self.const(x, ty)

    def run(self, F, blk, prev, st, scope, start=0):
        outs = []
        work = [(st, blk, prev, start)]
        blocks = F.blocks
        def goto(s, frm, to):
            if scope is not None:
                if to == scope.h: outs.append(('latch', s, frm)); return
                if to not in scope.b: outs.append(('exit', s, frm, to)); return
            L = F.headers.get(to)
            if L is not None and (scope is None or L is not scope) and frm not in L.b:
                for o in self.handle_loop(F, L, frm, s):
                    if o[0] == 'exit': goto(o[1], o[2], o[3])
                    else: outs.append(o)
                return
            k = self.phis(F, s, frm, to)
            work.append((s, to, frm, k))
        self._goto = goto
        while work:
            s, b, p, idx = work.pop()
            self.paths += 1
            if self.paths > self.max_paths * 50: raise Budget('paths')
            if LIMIT[0] is not None and _time.process_time() > LIMIT[0]: raise Budget('time')
            ins = blocks[b]
            n = len(ins)
            while idx < n:
                I = ins[idx]
                self.steps -= 1
                if self.steps < 0: raise Budget('steps')
                op = I['op']
                try:
                    if op == 'br':
                        t = I['t']
                        if len(t) == 1: goto(s, b, t[0])
                        elif t[0] == t[1]: goto(s, b, t[0])
                        else:
                            c = self.cond_of(s, self.opv(s, I['c']))
                            d = decide(c, s.gam)
                            if d is not None: goto(s, b, t[0] if d else t[1])
                            else:
                                alts = split(c, s.gam)
                                if any(not e for _, _, e in alts): self.note('undecided branch', I.get('l', -1))
                                for i, (tr, g, ex) in enumerate(alts):
                                    s2 = s.copy() if i + 1 < len(alts) else s
                                    s2.gam = g
                                    goto(s2, b, t[0] if tr else t[1])
                        break
                    if op == 'ret':
                        outs.append(('ret', s, self.opv(s, I['a'][0], I['at'][0]) if I.get('a') else None))
                        break
                    if op == 'unreachable':
                        outs.append(('abort', s, 'unreachable')); break
                    if op == 'resume':
                        outs.append(('abort', s, 'exception')); break
                    if op == 'switch':
                        v = self.opv(s, I['c'])
                        if not isaff(v):
                            self.note('undecided switch', I.get('l', -1))
                            for t in set([I['d']] + [x[1] for x in I['cases']]): goto(s.copy(), b, t)
                            break
                        f = s.gam.fixed(v) if not isinstance(v, int) else v
                        if f is None:
                            for cv, t in I['cases']:
                                d = decide(Cond('eq', sub(v, cv)), s.gam)
                                if d is not False: raise NeedSplit(Cond('eq', sub(v, cv)))
                            goto(s, b, I['d'])
                        else:
                            w = int(I['cty'][1:]); M = 1 << w
                            for cv, t in I['cases']:
                                if (cv - f) % M == 0: goto(s, b, t); break
                            else: goto(s, b, I['d'])
                        break
                    if op == 'call' or op == 'invoke':
                        rs = self.do_call(s, I, F)
                        if rs is None:       # simple: handled in place
                            if op == 'invoke': goto(s, b, I['t'][0]); break
                            idx += 1; continue
                        if rs == 'abort': break
                        for i, (s2, v) in enumerate(rs):
                            if 'id' in I: s2.env[I['id']] = v
                            if op == 'invoke': goto(s2, b, I['t'][0])
                            else: work.append((s2, b, p, idx + 1))
                        break
                    r = self.instr(s, I, op)
                    if 'id' in I: s.env[I['id']] = r
                    idx += 1
                except NeedSplit as e:
                    alts = split(e.cond, s.gam)
                    if any(not ex for _, _, ex in alts):
                        # condition outside the domain: the value becomes unknown
                        self.note('undecided value', I.get('l', -1))
                        if 'id' in I:
                            s.env[I['id']] = self.imprecise_val(I['ty'], 'undecided') if I['ty'][0] != 'v' else tuple(badf('imprecise: undecided') for _ in range(vecinfo(I['ty'])[0]))
                        idx += 1
                        continue
                    for tr, g, ex in alts:
                        s2 = s.copy(); s2.gam = g
                        work.append((s2, b, p, idx))
                    break
                except NeedOrder as e:
                    for x in (e.a, e.b):
                        g = s.gam.add_ge(x)
                        if g is not None:
                            s2 = s.copy(); s2.gam = g
                            work.append((s2, b, p, idx))
                    break
                except PathDead:
                    break
        return outs

    def phis(self, F, s, frm, to):
        ins = F.blocks[to]
        k = 0; new = {}
        while k < len(ins) and ins[k]['op'] == 'phi':
            I = ins[k]
            for pb, x in I['inc']:
                if pb == frm: new[I['id']] = self.opv(s, x, I['ty']); break
            k += 1
        s.env.update(new)
        return k

    def vec(self, v, n, e):
        if isinstance(v, tuple): return v
        return tuple(self.imprecise_val(e, 'vec') for _ in range(n))

    def instr(self, s, I, op):
        ty = I.get('ty')
        if op == 'load':
            p = self.to_ptr(s, self.opv(s, I['p']))
            loc = I.get('l', -1)
            if isinstance(p, int) and p == 0:
                self.ob('null', loc, {}, s, 'load through null pointer')
                raise PathDead()
            if not isinstance(p, Ptr):
                self.ob('wildptr', loc, None, s, 'load through unknown pointer %r' % (p,)); self.note('unknown pointer', loc)
                return self.top(ty)
            self.check_access(s, p.r, p.o, I['sz'], 'read', loc, I['al'])
            v = self.read(s, p.r, p.o, ty) if tysize(ty) else Top('aggregate load')
            return v
        if op == 'store':
            p = self.to_ptr(s, self.opv(s, I['p']))
            loc = I.get('l', -1)
            v = self.opv(s, I['v'], I['vty'])
            if isinstance(p, int) and p == 0:
                self.ob('null', loc, {}, s, 'store through null pointer')
                raise PathDead()
            if not isinstance(p, Ptr):
                self.ob('wildptr', loc, None, s, 'store through unknown pointer %r' % (p,)); self.note('unknown pointer', loc)
                return None
            self.check_access(s, p.r, p.o, I['sz'], 'write', loc, I['al'])
            if I['vty'] == 'i1' or I['vty'] == 'i8':
                if isinstance(v, Cond): v = int(self.need(s, v))
            if self.collect and isinstance(v, Ptr): self.ptr_store(s, p, v, loc)
            self.write(s, p.r, p.o, I['vty'], v)
            return None
        if op == 'getelementptr':
            b = self.to_ptr(s, self.opv(s, I['b']))
            if 'bad' in I: return TOP
            o = I['o']
            for x, k, t in I['x']:
                v = self.opv(s, x)
                if t != 'i64':
                    v = self.norm_s(s, v, int(t[1:]))
                if not isaff(v): return Top('index')
                o = add(o, mulc(v, k))
            if isinstance(b, Ptr): return Ptr(b.r, add(b.o, o))
            if isinstance(b, FnPtr): return b
            if isinstance(b, int):
                if isinstance(o, int) : return b + o
                return TOP
            return TOP
        if op == 'alloca':
            n = self.opv(s, I['n'])
            if isaff(n) and not isinstance(n, int):
                n = self.norm_u(s, n, int(I['nty'][1:]))
            size = mulc(n, I['esz']) if isaff(n) else None
            if isinstance(size, Aff):
                f = s.gam.fixed(size)
                if f is not None: size = f
            r = mkregion('stack@%s' % self.mod.loc(I.get('l', -1)).split('/')[-1] + '#%d' % (Region.n + 1), 'alloca', size, max(1, I['al']), base=BaseUninit())
            r.tags['loc'] = I.get('l', -1)
            if self.collect and not isinstance(size, int): self.note('variable stack', I.get('l', -1))
            return Ptr(r, 0)
        if op in ('add', 'sub', 'mul', 'shl'):
            a = self.opv(s, I['a'][0], ty); b = self.opv(s, I['a'][1], ty)
            if ty[0] == 'v': return tuple(Top('ivec') for _ in range(vecinfo(ty)[0]))
            a = self.intval(s, a, ty); b = self.intval(s, b, ty)
            if not isaff(a) or not isaff(b): return Top('arith')
            if op == 'add': r = add(a, b)
            elif op == 'sub': r = sub(a, b)
            elif op == 'mul':
                if isinstance(b, int): r = mulc(a, b)
                elif isinstance(a, int): r = mulc(b, a)
                else:
                    fa = s.gam.fixed(a); fb = s.gam.fixed(b)
                    if fb is not None: r = mulc(a, fb)
                    elif fa is not None: r = mulc(b, fa)
                    else: return Top('product')
            else:
                if not isinstance(b, int): return Top('shift')
                r = mulc(a, 1 << b)
            if isinstance(r, int):
                w = int(ty[1:]); r &= (1 << w) - 1
                if r >> (w - 1): r -= 1 << w
            return r
        if op in ('udiv', 'urem', 'sdiv', 'srem', 'lshr', 'ashr', 'and', 'or', 'xor'):
            return self.bitop(s, I, op, ty)
        if op == 'icmp':
            a = self.opv(s, I['a'][0], I['oty']); b = self.opv(s, I['a'][1], I['oty'])
            return self.icmp(s, I['pr'], a, b, I['oty'])
        if op in ('zext', 'sext'):
            a = self.opv(s, I['a'][0], I['at'][0]); w = int(I['at'][0][1:]) if I['at'][0][0] == 'i' else 0
            if w == 0: return TOP
            if w == 1:
                t = self.need(s, a)
                return (1 if op == 'zext' else -1) if t else 0
            if isinstance(a, Cond): a = int(self.need(s, a))
            if not isaff(a): return a if isinstance(a, Top) else TOP
            return self.norm_u(s, a, w) if op == 'zext' else self.norm_s(s, a, w)
        if op == 'trunc':
            a = self.opv(s, I['a'][0])
            if isinstance(a, Cond): return a
            if ty == 'i1':
                if isinstance(a, int): return a & 1
                return self.cond_of(s, a)
            if isinstance(a, int):
                w = int(ty[1:]); a &= (1 << w) - 1
                return a - (1 << w) if a >> (w - 1) else a
            return a
        if op == 'select':
            c = self.opv(s, I['a'][0], 'i1'); a = self.opv(s, I['a'][1], ty); b = self.opv(s, I['a'][2], ty)
            if isinstance(c, tuple): return self.top(ty)
            c = self.cond_of(s, c)
            if ty == 'i1' and isinstance(c, Cond):
                a = self.cond_of(s, a); b = self.cond_of(s, b)
                if isinstance(b, int) and b == 0: return c_and(c, a)
                if isinstance(a, int) and a == 1: return c_or(c, b)
            d = decide(c, s.gam)
            if d is None:
                if not isinstance(a, Cond) and not isinstance(b, Cond) and v_same(a, b): return a
                raise NeedSplit(c)
            return a if d else b
        if op == 'ptrtoint':
            p = self.opv(s, I['a'][0])
            if isinstance(p, Ptr): return self.addr_of(p)
            return p
        if op == 'inttoptr':
            return self.to_ptr(s, self.opv(s, I['a'][0]))
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            a = self.opv(s, I['a'][0], I['at'][0])
            if op == 'bitcast': return self.bitcast(a, I['at'][0], ty)
            return a
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a = self.opv(s, I['a'][0], ty); b = self.opv(s, I['a'][1], ty)
            if ty[0] == 'v':
                n, e = vecinfo(ty); a = self.vec(a, n, e); b = self.vec(b, n, e)
                return tuple(self.fop(op, x, y, e) for x, y in zip(a, b))
            if self.fsub_hook and op == 'fsub' and isinstance(a, Lin) and isinstance(b, Lin) and a.t and b.t:
                h = self.fsub_hook(a, b, I.get('l'))
                if h is not None: return h
            return self.fop(op, a, b, ty)
        if op == 'fneg':
            a = self.opv(s, I['a'][0], ty)
            if ty[0] == 'v': return tuple(l_mul(tolin0(x), -1.0) for x in self.vec(a, *vecinfo(ty)))
            return l_mul(tolin0(a), -1.0)
        if op == 'fptrunc':
            a = self.opv(s, I['a'][0])
            return f32(a) if isinstance(a, float) else tolin0(a)
        if op == 'fpext': return tolin0(self.opv(s, I['a'][0]))
        if op in ('sitofp', 'uitofp'):
            a = self.opv(s, I['a'][0])
            w = int(I['at'][0][1:]) if I['at'][0][0] == 'i' else 0
            if isinstance(a, int): 
                a = (a & ((1 << w) - 1)) if op == 'uitofp' else a
                return f32(float(a)) if ty == 'f32' else float(a)
            return self.i2f(a) if self.i2f else badf('integer to float')
        if op in ('fptosi', 'fptoui'):
            a = self.opv(s, I['a'][0])
            if isinstance(a, float) and abs(a) < 1e15: return int(a)
            return self.fp2int(s) if self.fp2int else Top('float to integer')
        if op == 'fcmp':
            a = self.opv(s, I['a'][0], I['oty']); b = self.opv(s, I['a'][1], I['oty'])
            if isinstance(a, float) and isinstance(b, float):
                return int({'oeq': a == b, 'one': a != b, 'olt': a < b, 'ole': a <= b, 'ogt': a > b, 'oge': a >= b, 'ueq': a == b, 'une': a != b,
                            'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b, 'ord': True, 'uno': False, 'true': True, 'false': False}[I['pr']])
            if self.collect: self.note('data dependent branch', I.get('l', -1))
            if self.policy: return self.policy(I.get('l', -1))
            return Cond('unk', 'fcmp')
        if op == 'extractelement':
            v = self.opv(s, I['a'][0], I['at'][0]); i = self.opv(s, I['a'][1])
            if isinstance(v, tuple) and isinstance(i, int) and 0 <= i < len(v): return v[i]
            return self.top(ty)
        if op == 'insertelement':
            v = self.opv(s, I['a'][0], ty); x = self.opv(s, I['a'][1], I['at'][1]); i = self.opv(s, I['a'][2])
            n, e = vecinfo(ty)
            if not isinstance(v, tuple): v = tuple(atom('U', 0, k) if e == 'f32' else UNDEF for k in range(n)) if isinstance(v, Top) and v is UNDEF else self.vec(v, n, e)
            if not isinstance(i, int): return self.top(ty)
            l = list(v); l[i] = x; return tuple(l)
        if op == 'shufflevector':
            nl = I['nl']; n, e = vecinfo(ty)
            a = self.opv(s, I['a'][0], 'v%d%s' % (nl, e)); b = self.opv(s, I['a'][1], 'v%d%s' % (nl, e))
            und = atom('U', 0, 0) if e == 'f32' else UNDEF
            a = a if isinstance(a, tuple) else (und,) * nl if a is UNDEF else self.vec(a, nl, e)
            b = b if isinstance(b, tuple) else (und,) * nl if b is UNDEF else self.vec(b, nl, e)
            return tuple(und if m < 0 else a[m] if m < nl else b[m - nl] for m in I['m'])
        if op == 'extractvalue':
            v = self.opv(s, I['a'][0])
            for m in I['m']:
                if isinstance(v, tuple) and m < len(v): v = v[m]
                else: return self.top(ty)
            return v
        if op == 'insertvalue':
            return Top('aggregate')
        if op == 'landingpad': return Top('exception')
        if op == 'fence': return None
        self.note('unsupported ' + op, I.get('l', -1))
        return self.top(ty) if ty else None
    def ptr_store(self, s, p, v, loc): pass
    def top(self, ty):
        if ty is None: return None
        if ty in ('f32', 'f64'): return badf('imprecise')
        if ty[0] == 'v':
            n, e = vecinfo(ty); return tuple(self.top(e) for _ in range(n))
        return TOP
    def intval(self, s, v, ty):
        if isinstance(v, Cond): return int(self.need(s, v))
        if isinstance(v, Ptr): return self.addr_of(v)
        return v
    def bitcast(self, a, f, t):
        if isinstance(a, PairVal) and t == 'v2f32': return (a.a, a.b)
        if t in ('f64', 'i64') and isinstance(a, tuple) and len(a) == 2: return PairVal(a[0], a[1])
        if f == t or (f[0] == 'v' and t[0] == 'v' and vecinfo(f) == vecinfo(t)): return a
        if isinstance(a, tuple) and f.startswith('v4f32') and t == 'v2f64': return (PairVal(a[0], a[1]), PairVal(a[2], a[3]))
        if isinstance(a, tuple) and f == 'v2f64' and t == 'v4f32':
            out = []
            for x in a:
                if isinstance(x, PairVal): out += [x.a, x.b]
                elif isinstance(x, float) and x == 0.0: out += [0.0, 0.0]
                else: out += [badf('imprecise: bitcast')] * 2
            return tuple(out)
        if isinstance(a, float) and a == 0.0 or (isinstance(a, int) and a == 0):
            if t[0] == 'v': n, e = vecinfo(t); return tuple((0.0 if e[0] == 'f' else 0) for _ in range(n))
            return 0.0 if t[0] == 'f' else 0
        if isinstance(a, tuple) and all(isinstance(x, (int, float)) and x == 0 for x in a) and t[0] == 'v':
            n, e = vecinfo(t); return tuple((0.0 if e[0] == 'f' else 0) for _ in range(n))
        return self.top(t)
    def fop(self, op, a, b, ty):
        if isinstance(a, float) and isinstance(b, float):
            try:
                r = a + b if op == 'fadd' else a - b if op == 'fsub' else a * b if op == 'fmul' else (a / b if b else float('nan'))
            except OverflowError: r = float('inf')
            return f32(r) if ty == 'f32' else r
        a = tolin0(a); b = tolin0(b)
        if op == 'fadd': return l_add(a, b)
        if op == 'fsub': return l_add(a, b, -1.0)
        if op == 'fmul': return l_mul(a, b)
        if isinstance(b, float) and b: return l_mul(a, 1.0 / b)
        return Lin({}, 0.0, tolin(a).bad | tolin(b).bad | frozenset(['nonlinear']))
    def bitop(self, s, I, op, ty):
        a = self.opv(s, I['a'][0], ty); b = self.opv(s, I['a'][1], ty)
        if ty == 'i1':
            a = self.cond_of(s, a); b = self.cond_of(s, b)
            if op == 'and': return c_and(a, b)
            if op == 'or': return c_or(a, b)
            if op == 'xor':
                if isinstance(b, int): return c_not(a) if b else a
                if isinstance(a, int): return c_not(b) if a else b
                t = self.need(s, a)
                return c_not(b) if t else b
            return TOP
        if ty[0] == 'v': return self.top(ty)
        w = int(ty[1:])
        if isinstance(a, Cond): a = int(self.need(s, a))
        if isinstance(b, Cond): b = int(self.need(s, b))
        if isinstance(a, Ptr): a = self.addr_of(a)
        if not isaff(a) or not isaff(b): return Top('bitop')
        if isinstance(a, int) and isinstance(b, int):
            M = (1 << w) - 1; ua = a & M; ub = b & M
            sa = ua - M - 1 if ua >> (w - 1) else ua; sb = ub - M - 1 if ub >> (w - 1) else ub
            try:
                r = {'and': lambda: ua & ub, 'or': lambda: ua | ub, 'xor': lambda: ua ^ ub, 'lshr': lambda: ua >> ub, 'ashr': lambda: sa >> ub,
                     'udiv': lambda: ua // ub, 'urem': lambda: ua % ub,
                     'sdiv': lambda: abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1),
                     'srem': lambda: abs(sa) % abs(sb) * (1 if sa >= 0 else -1)}[op]()
            except ZeroDivisionError: return Top('div0')
            r &= M
            return r - M - 1 if r >> (w - 1) else r
        if op in ('and', 'or', 'xor') and isinstance(a, int): a, b = b, a
        if not isinstance(b, int):
            f = s.gam.fixed(b)
            if f is None: return Top('bitop')
            b = f
        M = 1 << w
        if op == 'xor':
            if b % M == M - 1: return sub(-1, a)
            m = self.masked(s, a, b % M, w)
            return Top('xor') if m is None else sub(add(a, b % M), mulc(m, 2)) if b >= 0 else Top('xor')
        if op == 'and':
            ub = b % M
            if ub == M - 1: return a
            if ub & (ub + 1) == 0:
                q, r = self.divmod_(s, a, ub + 1); return r
            low = (M - ub) if ub else 0
            if low and low & (low - 1) == 0:
                q, r = self.divmod_(s, a, low); return sub(a, r)
            m = self.masked(s, a, ub, w)
            return Top('and') if m is None else m
        if op == 'or':
            if b == 0: return a
            k = (b & -b)
            ub = b % M
            p = 1
            while p <= ub: p *= 2
            q, r = self.divmod_(s, a, p)
            if isinstance(r, int): return add(sub(a, r), r | ub)
            if self.divisible(s, a, p): return add(a, ub)
            m = self.masked(s, a, ub, w)
            return Top('or') if m is None or b < 0 else sub(add(a, ub), m)
        if op in ('lshr', 'udiv', 'urem'):
            a = self.norm_u(s, a, w)
            if not isaff(a): return Top(op)
            m = (1 << b) if op == 'lshr' else b % M
            if m == 0: return Top('div0')
            if 'exact' in I:
                x = divexact(a, m)
                if x is not None: return x
            q, r = self.divmod_(s, a, m)
            return r if op == 'urem' else q
        if op in ('ashr', 'sdiv', 'srem'):
            if 'exact' in I:
                m = (1 << b) if op == 'ashr' else b
                x = divexact(a, m)
                if x is not None: return x
            a = self.norm_s(s, a, w)
            if not isaff(a): return Top(op)
            m = (1 << b) if op == 'ashr' else b
            if m <= 0: return Top('div')
            if op == 'ashr': return self.divmod_(s, a, m)[0]
            # pointers/addresses count as non-negative
            if not isinstance(a, int) and self.is_address(a): nonneg = True
            else: nonneg = decide_ge(s, a)
            if nonneg:
                q, r = self.divmod_(s, a, m); return r if op == 'srem' else q
            q, r = self.divmod_(s, neg(a), m)
            return neg(r) if op == 'srem' else neg(q)
        return Top(op)
    def is_address(self, a):
        return any(v in ADDR2REG and k > 0 for v, k in a.t)

    # ---------------- calls
    def do_call(self, s, I, F):
        loc = I.get('l', -1)
        if 'f' in I: name = I['f']
        else:
            fp = self.opv(s, I['fp'])
            if isinstance(fp, FnPtr): name = fp.name
            else:
                args = [self.opv(s, a, t) for a, t in zip(I['a'], I['at'])]
                if isinstance(fp, Ptr) and self.call_hook:
                    r = self.call_hook(self, fp, args, s, I)
                    if r is not None: return r
                if isinstance(fp, int) and fp == 0: self.ob('null', loc, {}, s, 'call through null pointer'); return 'abort'
                self.ob('wildcall', loc, None, s, 'indirect call through %r' % (fp,))
                self.note('unknown call', loc)
                if 'id' in I: s.env[I['id']] = self.top(I['ty'])
                return None
        if name.startswith('llvm.'):
            if self.fp2int and self.call_hook:
                r = self.call_hook(self, name, [], s, I)
                if r is not None: return r
            return self.intrinsic(s, I, name, loc)
        args = [self.opv(s, a, t) for a, t in zip(I['a'], I['at'])]
        if self.call_hook:
            r = self.call_hook(self, name, args, s, I)
            if r is not None: return r
        fn = self.mod.funcs.get(name)
        if fn is not None and not fn.decl:
            return self.call(name, args, s)
        return self.external(s, I, name, args, loc, fn)
    def event(self, s, kind, data, loc):
        s.events = s.events + ((kind, data, loc),)
        if self.collect: self.on_event(s, kind, data, loc)
    def on_event(self, s, kind, data, loc): pass
    def alloc(self, s, size, align, name, loc):
        if self.malloc_res is not None and align == 16:
            r = mkregion(name, 'malloc', size, 64, base=BaseUninit())
            r.addr = add(r.addr, self.malloc_res)
        else: r = mkregion(name, 'malloc', size, align, base=BaseUninit())
        r.tags['loc'] = loc
        s.allocs = s.allocs + ((r.id, name),)
        return Ptr(r, 0)
    def external(self, s, I, name, args, loc, fn):
        def ret(v):
            if 'id' in I: s.env[I['id']] = v
            return None
        if name in ('malloc', '_Znwm', '_Znam', 'aligned_alloc', '_ZnwmSt11align_val_t'):
            size = args[0] if name != 'aligned_alloc' else args[1]
            if isinstance(size, Aff):
                f = s.gam.fixed(size)
                if f is not None: size = f
            self.event(s, 'alloc', name, loc)
            al = 16
            if name in ('_ZnwmSt11align_val_t',) and isinstance(args[1], int): al = max(16, args[1])
            if name == 'aligned_alloc' and isinstance(args[0], int): al = max(16, args[0])
            return ret(self.alloc(s, size if isaff(size) else None, al, '%s#%d' % ('malloc' if name == 'malloc' else name if 'alloc' in name else 'new' if name != '_Znam' else 'new[]', len(s.allocs)), loc))
        if name in ('free', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t'):
            p = self.to_ptr(s, args[0])
            self.event(s, 'free', name, loc)
            if isinstance(p, Ptr):
                fam = {'malloc': 'free', 'aligned_alloc': 'free', 'new[]': '_ZdaPv'}.get(p.r.name.split('#')[0], '_ZdlPv')
                if p.r.kind != 'malloc' or p.o != 0:
                    self.ob('free', loc, {}, s, 'release of %r which is not an allocation' % p)
                elif p.r.id in s.dead: self.ob('free', loc, {}, s, 'second release of %s' % p.r.name)
                elif not name.startswith(fam): self.ob('free', loc, {}, s, '%s released by %s' % (p.r.name, name))
                else: self.ob('free', loc, True)
                s.dead = s.dead | frozenset([p.r.id])
            elif isinstance(p, int) and p == 0: self.ob('free', loc, True)
            else: self.ob('free', loc, None, s, 'release of unknown pointer')
            return None
        if name in ('memmove', 'memcpy'):
            if name == 'memcpy': self.no_overlap(s, args[0], args[1], args[2], loc)
            self.mem_copy(s, args[0], args[1], args[2], loc); return ret(args[0])
        if name == 'memset':
            self.mem_set(s, args[0], args[1], args[2], loc); return ret(args[0])
        if name in ('fprintf', 'printf', 'puts', 'fputs', 'fwrite', 'putchar', 'fputc', 'perror', 'vfprintf'):
            self.event(s, 'diag', name, loc)
            return ret(0)
        if fn is not None and fn.noreturn or 'nr' in I or name in ('abort', 'exit', '_exit', '__assert_fail', '__cxa_throw', '_ZSt9terminatev'):
            self.event(s, 'abort', name, loc)
            return 'abort'
        if name in ('fabs', 'fabsf', 'sqrt', 'sqrtf', 'exp', 'log', 'sin', 'cos', 'tan', 'atan', 'pow', 'floor', 'ceil', 'log10', 'round', 'fmax', 'fmin'):
            import math
            if all(isinstance(a, float) for a in args):
                try: return ret(getattr(math, name.rstrip('f') if name in ('fabsf', 'sqrtf') else name)(*args))
                except Exception: pass
            return ret(badf('imprecise: ' + name))
        self.event(s, 'extern', name, loc)
        self.note('external ' + name, loc)
        for a in args:
            if isinstance(a, Ptr) and not a.r.const: self.havoc_region(s, a.r, 'passed to ' + name)
        return ret(self.top(I.get('ty')) if 'id' in I else None)
    def mem_copy(self, s, d, so, n, loc):
        d = self.to_ptr(s, d); so = self.to_ptr(s, so)
        if isinstance(n, int) and n == 0: return
        if not isaff(n):
            self.note('unknown length', loc)
            if isinstance(d, Ptr): self.havoc_region(s, d.r, 'copy of unknown length')
            return
        if isinstance(n, Aff):
            f = s.gam.fixed(n)
            if f is not None: n = f
            if n == 0: return
        if not isinstance(d, Ptr) or not isinstance(so, Ptr):
            if isinstance(n, int) or s.gam.ge(add(n, -1)):
                if d == 0 or so == 0: self.ob('null', loc, {}, s, 'copy through null pointer'); raise PathDead()
                self.ob('wildptr', loc, None, s, 'copy through unknown pointer')
                if isinstance(d, Ptr): self.havoc_region(s, d.r, 'copy from unknown')
            return
        self.copy_range(s, d.r, d.o, so.r, so.o, n, loc)
    def mem_set(self, s, d, v, n, loc):
        d = self.to_ptr(s, d)
        if isinstance(n, Aff):
            f = s.gam.fixed(n)
            if f is not None: n = f
        if isinstance(n, int) and n == 0: return
        if not isinstance(d, Ptr) or not isaff(n):
            self.ob('wildptr', loc, None, s, 'memset'); return
        if not isinstance(n, int) and not decide_ge(s, add(n, -1)): return
        self.check_access(s, d.r, d.o, n, 'write', loc)
        z = isinstance(v, int) and v & 255 == 0
        if isinstance(n, int) and isinstance(d.o, int) and n <= 65536:
            o = d.o; e = d.o + n
            while o < e:
                k = 4 if e - o >= 4 else 1
                self.write(s, d.r, o, 'i32' if k == 4 else 'i8', 0 if z else Top('memset')); o += k
            return
        c = divexact(n, 4)
        if c is None: self.havoc_region(s, d.r, 'memset'); return
        self.push_seg(s, d.r, Seg(d.o, 4, c, 4, 0.0 if z else badf('imprecise: memset')))
    def intrinsic(self, s, I, name, loc):
        a = I['a']
        def ret(v):
            if 'id' in I: s.env[I['id']] = v
            return None
        if name.startswith(('llvm.lifetime', 'llvm.experimental.noalias', 'llvm.dbg', 'llvm.assume', 'llvm.prefetch', 'llvm.donothing')): return None
        if name.startswith('llvm.stacksave'): return ret(Top('stack'))
        if name.startswith('llvm.stackrestore'): return None
        at = I['at']
        v = [self.opv(s, x, t) for x, t in zip(a, at)]
        if name.startswith(('llvm.expect', 'llvm.threadlocal.address', 'llvm.launder.invariant', 'llvm.strip.invariant', 'llvm.ssa.copy')): return ret(v[0])
        if name.startswith(('llvm.invariant', 'llvm.sideeffect', 'llvm.pseudoprobe')): return ret(Top('token')) if 'id' in I else None
        if name.startswith('llvm.usub.sat'):
            return ret(sub(v[0], v[1]) if self.need(s, self.icmp(s, 'uge', v[0], v[1], I['ty'])) and isaff(v[0]) and isaff(v[1]) else 0)
        if name.startswith('llvm.vector.reduce.fadd'):
            n, el = vecinfo(at[1]); acc = v[0]
            for x in self.vec(v[1], n, el): acc = self.fop('fadd', acc, x, el)
            return ret(acc)
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            if name.startswith('llvm.memcpy'): self.no_overlap(s, v[0], v[1], v[2], loc)
            self.mem_copy(s, v[0], v[1], v[2], loc); return None
        if name.startswith('llvm.memset'):
            self.mem_set(s, v[0], v[1], v[2], loc); return None
        if name.startswith(('llvm.fmuladd', 'llvm.fma')):
            ty = I['ty']
            if ty[0] == 'v':
                n, e = vecinfo(ty); x, y, z = (self.vec(q, n, e) for q in v)
                return ret(tuple(self.fop('fadd', self.fop('fmul', p, q, e), r, e) for p, q, r in zip(x, y, z)))
            return ret(self.fop('fadd', self.fop('fmul', v[0], v[1], ty), v[2], ty))
        if name.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
            ty = I['ty']; pr = name[5] + ('lt' if name[6:9] == 'min' else 'gt')
            c = self.icmp(s, pr, v[0], v[1], ty)
            return ret(v[0] if self.need(s, c) else v[1])
        if name.startswith('llvm.fabs'):
            if isinstance(v[0], float): return ret(abs(v[0]))
            return ret(Lin({}, 0.0, tolin(v[0]).bad | frozenset(['nonlinear'])))
        if name.startswith('llvm.trap') or name.startswith('llvm.ubsantrap'):
            self.event(s, 'abort', name, loc); return 'abort'
        if name.startswith('llvm.objectsize'): return ret(-1)
        if name.startswith('llvm.is.constant'): return ret(0)
        if name.startswith('llvm.abs') and isaff(v[0]):
            return ret(v[0] if decide_ge(s, v[0]) else neg(v[0]))
        if name.startswith(('llvm.umul.with.overflow', 'llvm.uadd.with.overflow', 'llvm.usub.with.overflow', 'llvm.smul.with.overflow', 'llvm.sadd.with.overflow')):
            if all(isinstance(x, int) for x in v):
                w = int(at[0][1:])
                r = {'mul': v[0] * v[1], 'add': v[0] + v[1], 'sub': v[0] - v[1]}[name[6:9]]
                return ret((r, int(not 0 <= r < (1 << w)) if name[5] == 'u' else 0))
            return ret((TOP, Cond('unk', 'ovf')))
        if name.startswith('llvm.eh.') : return ret(Top('eh'))
        if name.startswith('llvm.x86.sse'):
            self.note('intrinsic ' + name, loc)
            return ret(self.top(I.get('ty')))
        if name.startswith('llvm.sqrt') and isinstance(v[0], float): return ret(v[0] ** 0.5)
        self.note('intrinsic ' + name, loc)
        return ret(self.top(I.get('ty')) if 'id' in I else None)

    def readq_(self, st, r, off, ty='f32'):
        """read a cell without recording obligations"""
        old = self.collect; self.collect = False
        try: return self.read(st.copy(), r, off, ty)
        except (NeedSplit, PathDead): return Top('undecided')
        finally: self.collect = old
    # ---------------- linear state machines (IIR stages)
    def machine_match(self, step, kx, define=True):
        """number of machine steps an update performs (defines the machine on first use)"""
        if self.machine is None:
            if not define: return None
            self.machine = step; self.machine_kx = kx
            return 1
        cur = self.machine; acc = cur
        for n in range(1, 9):
            if set(acc) == set(step) and all(l_eq(acc[k], step[k]) for k in acc): return n
            acc = self.compose(acc)
        return None
    def compose(self, acc):
        """acc followed by one more machine step"""
        kx = self.machine_kx or 0
        n = getattr(acc, 'n', 1)
        out = StepMap(); out.n = n + 1
        for key, f in self.machine.items():
            r = Lin({}, f.c)
            for a, k in f.t.items():
                if a[0] == 'S':
                    src = acc.get(a[1:3])
                    r = l_add(r, l_scale(src, k) if src is not None else Lin({a: k}))
                else: r = l_add(r, Lin({('X', a[1], a[2] + kx * n): k}))
            out[key] = r
        return out
    def x_per_step(self, sm):
        return self.machine_kx if self.machine is not None else (sm.kx or 0)

    # ---------------- loops: see loops.py
    def handle_loop(self, F, L, frm, st):
        import loops
        return loops.handle(self, F, L, frm, st)

class StepMap(dict):
    n = 1

class PairVal:
    """two float lanes travelling as one 64-bit value"""
    __slots__ = ('a', 'b')
    def __init__(self, a, b): self.a = a; self.b = b
    def __repr__(self): return 'Pair(%r,%r)' % (self.a, self.b)
class NeedOrder(Exception):
    def __init__(self, a, b): self.a = a; self.b = b
def tolin0(x):
    if isinstance(x, (float, Lin)): return x
    if isinstance(x, int) and not isinstance(x, bool): return float(x)
    if x is UNDEF: return atom('U', 0, 0)
    return badf('imprecise')
def sub0(lo, a): return sub(lo, a) if not (isinstance(lo, int) and isinstance(a, int)) else lo - a
def tyof(v, sz):
    if isinstance(v, (float, Lin)): return 'f32' if sz == 4 else 'f64'
    if isinstance(v, (Ptr, FnPtr)): return 'ptr'
    return {1: 'i8', 2: 'i16', 4: 'i32', 8: 'i64'}.get(sz, 'i8')
