"""Loop handling: full unrolling of constant-trip loops, otherwise inductive summaries.

A summary guesses, from the first abstract iteration, how every loop-carried value and memory cell
evolves (affine recurrences of one driver counter c, array sweeps, shifts of stream positions, one step of a
linear state machine), and then checks the guess on an arbitrary iteration. Only what is verified
inductively is kept; the rest becomes unknown (and is reported as imprecision, never as a violation)."""
from interp import *
import dom, os
DEBUG = os.environ.get('PA_DEBUG')

def marks_on(st):
    m = Mark()
    for rid in list(st.mem):
        st.wrs(REGS[rid]).log.append(m)
    return m
def since(st, rid, m):
    rs = st.mem.get(rid)
    if rs is None: return []
    for i in range(len(rs.log) - 1, -1, -1):
        if rs.log[i] is m: return rs.log[i + 1:]
    return list(rs.log)
def marks_off(eng, st, m):
    for rid in list(st.mem):
        rs = st.mem[rid]
        idx = None
        for i in range(len(rs.log) - 1, -1, -1):
            if rs.log[i] is m: idx = i; break
        if idx is None: continue
        rs = st.wrs(REGS[rid])
        tail = rs.log[idx + 1:]
        del rs.log[idx:]
        for en in tail:
            if isinstance(en, Cells):
                if rs.log and isinstance(rs.log[-1], Cells):
                    for o, (sz, v) in en.d.items(): eng.write(st, REGS[rid], o, tyof(v, sz), v)
                else: rs.log.append(en)
            else: eng.push_seg(st, REGS[rid], en)

def query(eng, st, r, off, ty, limit=64):
    """all (state, value) alternatives of reading a cell"""
    out = []; work = [st]
    while work:
        s = work.pop()
        try: out.append((s, eng.read(s, r, off, ty)))
        except NeedSplit as e:
            for tr, g, ex in split(e.cond, s.gam):
                s2 = s.copy(); s2.gam = g; work.append(s2)
        except PathDead: pass
        if len(out) + len(work) > limit: return None
    return out

def shift_form(f, e, kx, ks):
    """advance every stream position of a form by e driver units"""
    def g(a):
        if a[0] == 'X' and kx is not None: return (a[0], a[1], add(a[2], mulc(e, kx)))
        if a[0] == 'S' and ks is not None: return a[:3] + (add(a[3], mulc(e, ks)),)
        return a
    return l_map(f, g)
def shiftable(f):
    return isinstance(f, (float, Lin)) and not (isinstance(f, Lin) and (f.bad or any(a[0] not in ('X', 'S') for a in f.t)))

def gen_template(f, cv, m):
    """element function over the global index K' = m*c + i, from the form of element i=0 at iteration c"""
    if not isinstance(f, Lin): return f if isinstance(f, float) else None
    bad = [False]
    def g(a):
        o = []
        for x in a:
            if isinstance(x, Aff):
                k = coef(x, cv)
                if k:
                    if k % m: bad[0] = True
                    x = add(subst(x, cv, 0), mulc(sym(K), k // m))
            o.append(x)
        return tuple(o)
    r = l_map(f, g)
    return None if bad[0] else r

class HeaderOnly:
    def __init__(self, h): self.h = h; self.b = {h}

def handle(eng, F, L, frm, st):
    ins = F.blocks[L.h]
    phis = []
    for I in ins:
        if I['op'] != 'phi': break
        phis.append(I)
    nphi = len(phis)
    def incoming(s, frm):
        d = {}
        for I in phis:
            for pb, x in I['inc']:
                if pb == frm: d[I['id']] = eng.opv(s, x, I['ty']); break
        return d
    head = HeaderOnly(L.h)
    def raw_body(s, vals):
        s.env.update(vals)
        return eng.run(F, L.h, frm, s, L, start=nphi)
    def body(s, vals):
        outs = raw_body(s, vals)
        if eng.prefer_unroll or sum(o[0] == 'latch' for o in outs) < 2: return outs
        res = []
        for o in outs:
            if o[0] == 'latch':
                # a path whose next test of the loop condition leaves the loop is a way out, not an iteration to repeat
                col = eng.collect; eng.collect = False
                try: nxt = peek(o)
                finally: eng.collect = col
                if nxt is not None: res += peek(o) if col else nxt; continue
            res.append(o)
        return res
    def peek(o):
        s = o[1].copy(); s.env.update(incoming(s, o[2]))
        outs = eng.run(F, L.h, o[2], s, head, start=nphi)
        if outs and all(x[0] == 'exit' and x[3] not in L.b for x in outs): return outs
        return None
    init = incoming(st, frm)
    limit = 20000 if eng.prefer_unroll else eng.unroll_limit
    if eng.prefer_unroll:
        return unroll_all(eng, body, incoming, st, init, limit)
    # ---- try a short deterministic unrolling
    mark0 = len(SYM)
    def unroll(limit, s, vals):
        acc = []; first = None
        for it in range(limit):
            outs = body(s.copy(), vals)
            if it == 0: first = outs
            lat = [o for o in outs if o[0] == 'latch']
            if not lat: return acc + outs, first, True
            oth = [o for o in outs if o[0] != 'latch']
            if len(lat) == 1 and all(o[0] == 'abort' for o in oth):
                acc += oth
                s = lat[0][1]; vals = incoming(s, lat[0][2])
                continue
            return None, first, False
        return None, first, True
    col = eng.collect
    res, first, det = unroll(limit, st, init)
    if res is not None: return res
    lat = [o for o in first if o[0] == 'latch']
    if eng.accel and not det:
        # few iterations on few paths (blocks of one concrete length)
        eng.collect = False
        try: r = unroll_few(eng, body, incoming, st, init)
        finally: eng.collect = col
        if r: return unroll_few(eng, body, incoming, st, init)
    # ---- at most one iteration on every path: no summary needed
    if len(lat) <= 2:
        acc = [o for o in first if o[0] != 'latch']
        for o in lat:
            more = body(o[1].copy(), incoming(o[1], o[2]))
            if any(x[0] == 'latch' for x in more): acc = None; break
            acc += more
        if acc is not None: return acc
    early = []
    if len(lat) < len(first):
        # entered at least once: constraints common to every path back to the header
        common = st.gam
        for t, c in lat[0][1].gam.cs.items():
            e = Aff(t, c)
            if any(v >= mark0 for v, _ in t): continue
            if all(o[1].gam.ge(e) for o in lat[1:]):
                g = common.add_ge(e)
                if g is not None: common = g
        if common is not st.gam:
            early = [o for o in first if o[0] != 'latch']
            st = st.copy(); st.gam = common
    sm = Summary(eng, F, L, st, phis, init, incoming, body, lat)
    sm.run()
    eng.loops_summarised += 1
    if sm.fail and det:
        res, _, _ = unroll(5000, st, init)
        if res is not None: return res
    if sm.fail: eng.note('loop: ' + sm.fail, ins[-1].get('l', -1) if ins else -1)
    # obligations are recorded on the final pass only
    return early + sm.finish()

def unroll_few(eng, body, incoming, st, init):
    out = []; work = [(st, init)]; n = 0
    while work:
        nxt = []
        for s, vals in work:
            for o in body(s.copy(), dict(vals)):
                if o[0] == 'latch': nxt.append((o[1], incoming(o[1], o[2])))
                else: out.append(o)
        n += 1
        if n > 24 or len(nxt) > 4: return None
        work = nxt
    return out

def unroll_all(eng, body, incoming, st, init, limit):
    out = []; work = [(st, init, 0)]
    while work:
        s, vals, it = work.pop()
        if it > limit: raise Budget('unroll')
        for o in body(s, vals):
            if o[0] == 'latch': work.append((o[1], incoming(o[1], o[2]), it + 1))
            else: out.append(o)
    return out

def delta(a, b):
    """b - a for recurrence candidates, None if not numeric"""
    if isinstance(a, Ptr) and isinstance(b, Ptr): return sub(b.o, a.o) if a.r is b.r else None
    if isaff(a) and isaff(b): return sub(b, a)
    return None

class Summary:
    def __init__(self, eng, F, L, st, phis, init, incoming, body, lat):
        self.eng = eng; self.F = F; self.L = L; self.st = st; self.phis = phis; self.init = init
        self.incoming = incoming; self.body = body; self.fail = None
        self.marker = len(SYM); self.regmark = Region.n
        self.c = fresh('c'); self.cv = self.c.t[0][0]
        self.lat0 = lat
        self.kinds = {}      # phi id -> (kind, ...)
        self.cells = {}      # (rid, off, size) -> (kind, entry value, step)
        self.sweeps = {}     # rid -> [(lo0, stride, per, esz, f, ty)]
        self.pieces = {}     # rid -> [(lo, count, f0, mode)]  for regions/cells rewritten every iteration
        self.wild = set()    # regions with unknown content
        self.G = []
        self.kx = None; self.ks = None; self.driver = None; self.step = None
        self.prov = [sub(1 << 24, self.c)]     # provisional bound, only used to discover the guards

    # ----- first guess
    def guess(self):
        eng = self.eng
        ent = {}
        for I in self.phis:
            i = I['id']; v0 = self.init[i]
            ent[('p', i)] = (v0, [self.incoming(o[1], o[2])[i] for o in self.lat0])
        # integer memory cells changed in the first iteration
        for o in self.lat0:
            for rid, rs in o[1].mem.items():
                if rid > self.regmark: continue
                old = self.st.mem.get(rid)
                if rs is old: continue
                for en in rs.log:
                    if isinstance(en, Cells):
                        for off, (sz, v) in en.d.items():
                            if isinstance(v, (int, Aff, Ptr, FnPtr)) and not isinstance(v, bool): ent.setdefault(('m', rid, off, sz), None)
        for k in [k for k in ent if k[0] == 'm']:
            _, rid, off, sz = k
            ty = {1: 'i8', 2: 'i16', 4: 'i32', 8: 'i64'}.get(sz)
            vals = []
            v0 = self.readq(self.st, rid, off, ty)
            for o in self.lat0: vals.append(self.readq(o[1], rid, off, ty))
            if v0 is None or any(v is None for v in vals): del ent[k]; continue
            if isinstance(v0, (float, Lin)): del ent[k]; continue
            if all(v_same(v0, v) for v in vals): del ent[k]; continue
            ent[k] = (v0, vals)
        num = {}
        for k, (v0, vs) in ent.items():
            ds = [delta(v0, v) for v in vs]
            if any(d is None for d in ds): continue
            num[k] = ds
        inv = [k for k, ds in num.items() if all(isinstance(d, int) and d == 0 for d in ds)]
        var = {k: ds for k, ds in num.items() if k not in inv}
        best = None
        for k, ds in var.items():
            g = 0
            for d in ds: g = gcd(g, content(d))
            if g == 0: continue
            sgn = 1
            dl = [divexact(d, g) for d in ds]
            if not all(self.lat0[i][1].gam.ge(d) for i, d in enumerate(dl)):
                dl = [neg(d) for d in dl]; sgn = -1
                if not all(self.lat0[i][1].gam.ge(d) for i, d in enumerate(dl)): continue
            steps = {}
            for k2, ds2 in var.items():
                a = self.ratio(ds2, dl)
                if a is not None: steps[k2] = a
            sc = (len(steps), -g)
            if best is None or sc > best[0]: best = (sc, k, steps, sgn * g)
        steps = best[2] if best else {}
        if best: self.driver = best[1]; self.step = best[3]
        big = max([1] + [abs(x) for x in steps.values() if isinstance(x, int)])
        if big > 64: self.prov = [sub((1 << 30) // big, self.c)]      # so that no 32 bit counter wraps
        for k, (v0, vs) in ent.items():
            if k in inv or (k not in num and all(v_same(v0, v) for v in vs) and not isinstance(v0, Lin)): kd = ('inv', v0)
            elif k in steps: kd = ('rec', v0, steps[k])
            elif isinstance(v0, (float, Lin)) or isinstance(v0, tuple): kd = ('shift', v0)
            else: kd = ('havoc', v0)
            if k[0] == 'p': self.kinds[k[1]] = kd
            else: self.cells[k[1:]] = kd
        self.set_kx()
        # float regions with known entry content that the iteration rewrites: assume they move with the stream
        for o in self.lat0:
            for rid, rs in o[1].mem.items():
                old = self.st.mem.get(rid)
                if rid > self.regmark or rid in self.pieces or old is None or rs is old or not old.log: continue
                if any(k[0] == rid for k in self.cells): continue
                if not isinstance(REGS[rid].size, int): continue
                es = [f for en in old.log if en.__class__ is not Mark for f in ([v for _, v in en.d.values()] if isinstance(en, Cells) else [en.f])]
                if not es or not all(isinstance(f, (float, Lin)) or f == 0 for f in es): continue
                if not any(isinstance(f, Lin) and not f.bad and any(a[0] in ('X', 'S') for a in f.t) for f in es): continue
                if any(isinstance(f, Lin) and any(a[0] == 'L' for a in f.t) for f in es): continue
                self.pieces[rid] = self.entry_pieces(rid, set(), True)
    def set_kx(self):
        self.kx = None
        for i, kd in list(self.kinds.items()) + list(self.cells.items()):
            if kd[0] == 'rec' and isinstance(kd[1], Ptr) and isinstance(kd[1].r.base, BaseStream) and kd[1].r.base.kind == 'X' and kd[2] % 4 == 0:
                self.kx = kd[2] // 4
        if self.kx is None:
            # indexed access: take the rate from an index recurrence by inspecting forms later
            self.kx = None
    def ratio(self, ds, dl):
        a = None
        for i, (d, e) in enumerate(zip(ds, dl)):
            g = self.lat0[i][1].gam
            f = g.fixed(e) if not isinstance(e, int) else e
            if f is not None:
                fd = g.fixed(d) if not isinstance(d, int) else d
                if fd is None: return None
                if f == 0:
                    if fd: return None
                    continue
                if fd % f: return None
                q = fd // f
            else:
                v, k = e.t[0]
                kd = coef(d, v)
                if kd % k: return None
                q = kd // k
                if not self.eng.aff_eq(self.lat0[i][1], d, mulc(e, q)): return None
            if a is None: a = q
            elif a != q: return None
        return a
    def readq(self, s, rid, off, ty):
        if ty is None: return None
        old = self.eng.collect; self.eng.collect = False
        try: return self.eng.read(s.copy(), REGS[rid], off, ty)
        except (NeedSplit, PathDead): return None
        finally: self.eng.collect = old

    # ----- state at the start of iteration number c
    def val(self, kd, ty=None):
        k = kd[0]; v0 = kd[1]
        if k == 'inv': return v0
        if k == 'rec':
            e = mulc(self.c, kd[2])
            return Ptr(v0.r, add(v0.o, e)) if isinstance(v0, Ptr) else add(v0, e)
        if k == 'shift':
            if isinstance(v0, tuple): return tuple(shift_form(x, self.c, self.kx, self.ks) for x in v0)
            return shift_form(v0, self.c, self.kx, self.ks)
        if k == 'opaque':
            if isinstance(v0, tuple): return tuple(badf('imprecise: loop value') for _ in v0)
            return badf('imprecise: loop value')
        if isaff(v0):
            s = fresh('h')
            return s
        if isinstance(v0, Ptr):
            return Ptr(v0.r, fresh('h')) if k == 'havocptr' else Top('loop pointer')
        if isinstance(v0, Cond): return Cond('unk', 'loop flag')
        return Top('loop value')
    def build(self):
        s = self.st.copy()
        g = s.gam.add_ge(self.c)
        for e in self.G + self.prov:
            g2 = g.add_ge(e)
            if g2 is not None: g = g2
        s.gam = g
        eng = self.eng
        for rid in self.wild:
            eng.havoc_region(s, REGS[rid], 'loop')
        for rid, ps in self.pieces.items():
            r = REGS[rid]
            for lo, cnt, f0, mode in ps:
                if mode == 'shift': f = shift_form(f0, self.c, self.kx, self.ks)
                else: f = atom('L', rid, add(divexact(lo, 4), sym(K)) if isaff(lo) and divexact(lo, 4) is not None else 0, self.cv)
                if cnt == 1: eng.write(s, r, lo, 'f32', v_subst(f, K, 0))
                else: s.wrs(r).log.append(Seg(lo, 4, cnt, 4, f))
        for rid, sw in self.sweeps.items():
            r = REGS[rid]
            for lo0, stride, per, esz, f, ty in sw:
                if per >= 0: seg = Seg(lo0, stride, mulc(self.c, per), esz, f, ty)
                else:
                    seg = Seg(add(lo0, mulc(add(self.c, -1), -stride)), stride, self.c, esz, v_subst(f, K, sub(add(self.c, -1), sym(K))), ty)
                s.wrs(r).log.append(seg)
        vals = {}
        for I in self.phis: vals[I['id']] = self.val(self.kinds[I['id']], I['ty'])
        for (rid, off, sz), kd in self.cells.items():
            v = self.val(kd)
            eng.write(s, REGS[rid], off, 'ptr' if isinstance(v, (Ptr, FnPtr)) else {1: 'i8', 2: 'i16', 4: 'i32', 8: 'i64'}[sz], v)
        m = marks_on(s)
        return s, vals, m

    def dbg(self, what):
        if not DEBUG: return
        print('LOOP', self.F.name[-30:], self.L.h, what, 'fail', self.fail, 'driver', self.driver, self.step, 'kx', self.kx, 'ks', self.ks)
        for x in self.kinds.items(): print('    phi', x)
        for x in self.cells.items(): print('    cell', x)
        for x in self.sweeps.items(): print('    sweep', REGS[x[0]], x[1])
        for x in self.pieces.items(): print('    piece', REGS[x[0]], x[1])
        print('    G', self.G, 'wild', self.wild)
    # ----- main
    def run(self):
        eng = self.eng
        self.guess()
        self.dbg('guess')
        old = eng.collect; eng.collect = False
        try:
            self.cand_G_templates()
            for it in range(14):
                s, vals, m = self.build()
                outs = self.body(s, vals)
                lat = [o for o in outs if o[0] == 'latch']
                ok = self.check(lat, m, it)
                self.dbg('check %d %s' % (it, ok))
                if not ok: continue
                break
            else:
                self.fail = self.fail or 'no stable summary'
                self.prov = []
                self.give_up()
        finally: eng.collect = old
    def finish(self):
        eng = self.eng
        s, vals, m = self.build()
        outs = self.body(s, vals)
        res = []
        eng.loop_info.append((self.F.name, self.L.h, bool(self.fail)))
        for o in outs:
            if o[0] == 'latch': continue
            if o[0] in ('exit', 'ret'):
                x = o[1]
                self.fold(x, m)
                marks_off(eng, x, m)
                self.elim(x)
            res.append(o)
        return res
    def elim(self, s):
        """replace the counter by its value if the exit condition fixes it"""
        g = s.gam
        for e in g.eqs():
            k = coef(e, self.cv)
            if abs(k) == 1:
                rest = mk({w: (-kk if k == 1 else kk) for w, kk in e.t if w != self.cv}, -e.c if k == 1 else e.c)
                if any(w > self.cv for w, _ in lin_of(rest)): continue
                self.subst_state(s, self.cv, rest)
                return
        f = g.fixed(self.c)
        if f is not None: self.subst_state(s, self.cv, f)
    def subst_state(self, s, v, e):
        for k, x in s.env.items():
            if v_hasvar(x, v): s.env[k] = v_subst(x, v, e)
        for rid in list(s.mem):
            rs = s.mem[rid]
            hit = False
            for en in rs.log:
                if en.__class__ is Mark: continue
                if isinstance(en, Cells):
                    if any(v_hasvar(x[1], v) for x in en.d.values()): hit = True; break
                elif hasvar(en.lo, v) or hasvar(en.count, v) or v_hasvar(en.f, v): hit = True; break
            if not hit: continue
            rs = s.wrs(REGS[rid])
            nl = []
            for en in rs.log:
                if en.__class__ is Mark: nl.append(en)
                elif isinstance(en, Cells):
                    nl.append(Cells({o: (sz, v_subst(x, v, e)) for o, (sz, x) in en.d.items()}, en.lo, en.hi))
                else:
                    nl.append(Seg(subst(en.lo, v, e), en.stride, subst(en.count, v, e), en.esz, v_subst(en.f, v, e), en.ty))
            rs.log[:] = []
            for en in nl:
                if isinstance(en, Seg): self.eng.push_seg(s, REGS[rid], en)
                else: rs.log.append(en)
        cs = {}
        for t, c in s.gam.cs.items():
            ex = subst(Aff(t, c), v, e)
            if isinstance(ex, int): continue
            dom._ins(cs, ex)
        # keep the definition for later alignment queries
        s.gam = Gamma(cs)
        if s.div:
            nd = {}
            for (m, R), (q, r) in s.div.items():
                nd[(m, subst(R, v, e))] = (subst(q, v, e), subst(r, v, e))
            s.div = nd
    def give_up(self):
        """nothing verified: forget everything the loop writes"""
        for I in self.phis:
            kd = self.kinds[I['id']]
            if kd[0] not in ('inv',):
                self.kinds[I['id']] = ('opaque', kd[1]) if isinstance(kd[1], (float, Lin, tuple)) else ('havocptr', kd[1]) if isinstance(kd[1], Ptr) else ('havoc', kd[1])
        for k in self.cells: self.cells[k] = ('havoc', self.cells[k][1])
        self.wild |= set(self.sweeps) | set(self.pieces)
        self.sweeps = {}; self.pieces = {}; self.G = []

    # ----- candidate invariants
    def cand_G_templates(self):
        g = self.st.gam
        for kd in list(self.kinds.values()) + list(self.cells.values()):
            if kd[0] == 'rec' and isaff(kd[1]) and kd[2] < 0 and g.ge(kd[1]):
                self.G.append(add(kd[1], mulc(self.c, kd[2])))
    def cand_G_guards(self, lat):
        ch = False
        g0 = self.st.gam
        have = set(self.G)
        for o in lat:
            for t, c in o[1].gam.cs.items():
                if not any(v == self.cv for v, _ in t): continue
                if any(v >= self.marker and v != self.cv for v, _ in t): continue
                e0 = subst(Aff(t, c), self.cv, 0)
                lo = g0.minimum(e0) if not isinstance(e0, int) else e0
                if lo is None: continue
                kk = -coef(Aff(t, c), self.cv)
                slack = [0]
                for d in self.ds:
                    if isinstance(d, int) and kk * d > 0 and kk * d not in slack: slack.append(kk * d)
                for sl in slack:
                    cand = add(Aff(t, c), max(sl, -lo))
                    if isinstance(cand, int) or cand == self.c or cand in have or cand in self.badG: continue
                    ok = True
                    for p, d in zip(lat, self.ds):
                        nx = subst(cand, self.cv, add(self.c, d))
                        if p[1].gam.ge(nx): continue
                        hyp = p[1].gam.add_ge(cand)      # induction: it held when this iteration began
                        if hyp is not None and not hyp.ge(nx): ok = False; break
                    if ok:
                        self.G.append(cand); have.add(cand); ch = True
                        break
        return ch
    badG = frozenset()
    def delt(self, o):
        """driver advance on a latch path"""
        if self.driver is None: return 1
        if self.driver[0] == 'p':
            v0 = self.val_at(self.kinds[self.driver[1]]); v1 = self.incoming(o[1], o[2])[self.driver[1]]
        else:
            v0 = self.val_at(self.cells[self.driver[1:]]); _, rid, off, sz = self.driver
            v1 = self.readq(o[1], rid, off, {1: 'i8', 2: 'i16', 4: 'i32', 8: 'i64'}[sz])
        d = delta(v0, v1)
        if d is None: return None
        r = divexact(d, self.step)
        if r is None:
            f = o[1].gam.fixed(d)
            if f is not None and f % self.step == 0: return f // self.step
        return r
    def val_at(self, kd): return self.val(kd)

    # ----- one inductive step
    def check(self, lat, m, it):
        eng = self.eng; ok = True
        if not lat: return True
        # recurrences
        ds = []
        for o in lat:
            d = self.delt(o)
            if d is None or not o[1].gam.ge(d):
                # driver does not advance regularly
                if self.driver is not None:
                    k = self.driver
                    if k[0] == 'p': self.kinds[k[1]] = ('havoc', self.kinds[k[1]][1])
                    else: self.cells[k[1:]] = ('havoc', self.cells[k[1:]][1])
                    self.fail = 'irregular induction'
                    # pick another recurrence as driver
                    self.driver = None; self.step = None
                    for i, kd in self.kinds.items():
                        if kd[0] == 'rec': self.driver = ('p', i); self.step = kd[2]; break
                    self.G = []
                    return False
            ds.append(d)
        self.ds = ds
        for I in self.phis:
            i = I['id']; kd = self.kinds[i]
            if kd[0] in ('havoc', 'opaque', 'havocptr'): continue
            for o, d in zip(lat, ds):
                v1 = self.incoming(o[1], o[2])[i]
                if kd[0] == 'inv':
                    if v_same(kd[1], v1): continue
                    if isaff(v1) and isaff(kd[1]) and eng.aff_eq(o[1], v1, kd[1]): continue
                elif kd[0] == 'rec':
                    dd = delta(self.val(kd), v1)
                    if dd is not None and eng.aff_eq(o[1], dd, mulc(d, kd[2])): continue
                elif kd[0] == 'shift':
                    if self.shift_ok(kd[1], v1, d, o[1]): continue
                self.kinds[i] = ('opaque', kd[1]) if kd[0] == 'shift' else ('havocptr' if isinstance(kd[1], Ptr) else 'havoc', kd[1])
                self.fail = 'loop-carried value outside the domain'
                ok = False
                break
        for k, kd in list(self.cells.items()):
            if kd[0] == 'havoc': continue
            rid, off, sz = k
            for o, d in zip(lat, ds):
                v1 = self.readq(o[1], rid, off, {1: 'i8', 2: 'i16', 4: 'i32', 8: 'i64'}[sz])
                if kd[0] == 'rec' and v1 is not None:
                    dd = delta(self.val(kd), v1)
                    if dd is not None and eng.aff_eq(o[1], dd, mulc(d, kd[2])): continue
                if kd[0] == 'inv' and v1 is not None and v_same(kd[1], v1): continue
                self.cells[k] = ('havoc', kd[1]); self.fail = 'loop-carried memory outside the domain'; ok = False
                break
        if not ok: return False
        # invariants
        keep = []
        for e in self.G:
            if all(o[1].gam.ge(subst(e, self.cv, add(self.c, d))) for o, d in zip(lat, ds)): keep.append(e)
            else: self.badG = self.badG | frozenset([e])
        if len(keep) != len(self.G): self.G = keep; return False
        if self.cand_G_guards(lat): return False
        if self.prov:
            self.prov = []
            return False
        # memory
        W = []
        for o, d in zip(lat, ds):
            w = {}
            for rid in o[1].mem:
                if rid > self.regmark: continue
                en = since(o[1], rid, m)
                if en: w[rid] = en
            W.append(w)
        rids = set(r for w in W for r in w)
        for rid in sorted(rids):
            if rid in self.wild: continue
            if not self.check_region(rid, lat, ds, W, m): ok = False
        if not ok: return False
        if not self.check_machine(lat, ds): return False
        return True

    def shift_ok(self, f0, v1, d, s):
        if isinstance(f0, tuple):
            return isinstance(v1, tuple) and len(v1) == len(f0) and all(self.shift_ok(x, y, d, s) for x, y in zip(f0, v1))
        if not isinstance(f0, (float, Lin)) or not isinstance(v1, (float, Lin)): return False
        if isinstance(f0, float):
            return isinstance(v1, float) and f0 == v1
        if not shiftable(f0): return False
        if self.kx is None and any(a[0] == 'X' for a in f0.t):
            # learn the rate from the form itself
            self.kx = self.learn_kx(f0, v1, d)
        want = shift_form(f0, add(self.c, d), self.kx, self.ks)
        if l_eq(want, v1): return True
        if self.mstate(f0) is not None: return True       # verified jointly by check_machine
        return False
    def learn_kx(self, f0, v1, d):
        if not isinstance(v1, Lin) or not isinstance(d, int) or d == 0: return None
        p0 = [a[2] for a in f0.t if a[0] == 'X']; p1 = [a[2] for a in v1.t if a[0] == 'X']
        if not p0 or not p1: return None
        x = sub(p1[0], p0[0])
        return coef(x, self.cv) or None

    # state machine cells: entry form is exactly one S atom
    def mstate(self, f):
        if isinstance(f, Lin) and not f.bad and f.c == 0.0 and len(f.t) == 1:
            (a, k), = f.t.items()
            if a[0] == 'S' and k == 1.0 and (self.eng.machine is None or a[1:3] in self.eng.machine): return a
        return None

    def check_machine(self, lat, ds):
        eng = self.eng
        ents = []
        for i, kd in self.kinds.items():
            if kd[0] == 'shift':
                f0 = kd[1] if isinstance(kd[1], tuple) else (kd[1],)
                for j, f in enumerate(f0):
                    a = self.mstate(f)
                    if a is not None: ents.append((a, ('p', i, j if isinstance(kd[1], tuple) else None)))
        for rid, ps in self.pieces.items():
            for n, (lo, cnt, f0, mode) in enumerate(ps):
                if mode == 'shift' and cnt == 1:
                    a = self.mstate(v_subst(f0, K, 0))
                    if a is not None: ents.append((a, ('m', rid, lo, n)))
        if not ents: return True
        pos = set(a[3] for a, _ in ents)
        if len(pos) != 1: return self.machine_fail(ents, 'state cells at different stream positions')
        p0 = pos.pop()
        for o, d in zip(lat, ds):
            after = {}
            for a, w in ents:
                if w[0] == 'p':
                    v = self.incoming(o[1], o[2])[w[1]]
                    if w[2] is not None: v = v[w[2]] if isinstance(v, tuple) else badf('imprecise')
                else: v = self.readq(o[1], w[1], w[2], 'f32')
                if v is None or not isinstance(v, (float, Lin)): return self.machine_fail(ents, 'state outside the domain')
                key = a[1:3]
                if w[0] == 'm' and key in after: continue     # register copy wins
                after[key] = v
            if all(isinstance(v, Lin) and self.mstate(v) is not None and self.mstate(v)[1:] == key + (add(p0, mulc(self.c, self.ks or 0)),) for key, v in after.items()) and self.ks is None:
                continue
            if self.kx is None:
                # input indexed by the loop counter
                for v in after.values():
                    if isinstance(v, Lin):
                        for x in v.t:
                            if x[0] == 'X' and isinstance(x[2], Aff) and coef(x[2], self.cv): self.kx = coef(x[2], self.cv); break
                    if self.kx is not None: break
            ks = self.ks if self.ks is not None else None
            if ks is None:
                # forms were computed with the state position frozen at p0: they describe one iteration
                step = self.norm_step(after, p0, 0)
                if step is None: return self.machine_fail(ents, 'state update is not a fixed linear step')
                if not isinstance(d, int) or d != 1: return self.machine_fail(ents, 'irregular state loop')
                n = eng.machine_match(step, self.kx)
                if n is None: return self.machine_fail(ents, 'different state update than elsewhere')
                self.ks = n
                return False
            step = self.norm_step(after, add(p0, mulc(self.c, self.ks)), None)
            n = eng.machine_match(step, self.kx) if step is not None else None
            if n != ks: return self.machine_fail(ents, 'state update is not a fixed linear step')
        return True
    def norm_step(self, after, p, mode):
        """rewrite an update relative to state position p"""
        kx = self.kx
        out = {}
        for key, v in after.items():
            f = {}
            if not isinstance(v, Lin): v = tolin(v)
            if v.bad: return None
            for a, k in v.t.items():
                if a[0] == 'S':
                    q = sub(a[3], p)
                    if not isinstance(q, int) or q != 0: return None
                    na = ('S',) + a[1:3] + (0,)
                elif a[0] == 'X':
                    if mode == 0: q = subst(sub(a[2], self.xbase(p)), self.cv, 0)
                    else: q = sub(a[2], self.xbase(p))
                    if not isinstance(q, int): return None
                    na = ('X', a[1], q)
                else: return None
                f[na] = f.get(na, 0.0) + k
            out[key] = Lin(f, v.c)
        return out
    def xbase(self, p):
        """input position belonging to state position p"""
        return mulc(p, self.eng.x_per_step(self)) if p != 0 else 0
    def machine_fail(self, ents, why):
        self.fail = why
        for a, w in ents:
            if w[0] == 'p': self.kinds[w[1]] = ('opaque', self.kinds[w[1]][1])
            else:
                lo, cnt, f0, mode = self.pieces[w[1]][w[3]]
                self.pieces[w[1]][w[3]] = (lo, cnt, f0, 'opaque')
        return False
    def fold(self, s, m):
        """state cells advanced by a partial iteration: recognise one machine step"""
        eng = self.eng
        if self.ks is None or eng.machine is None: return
        p = None; cells = {}
        for rid, ps in self.pieces.items():
            for lo, cnt, f0, mode in ps:
                if mode == 'shift' and cnt == 1:
                    a = self.mstate(v_subst(f0, K, 0))
                    if a is not None:
                        cells[(rid, lo)] = a; p = add(a[3], mulc(self.c, self.ks))
        if not cells: return
        after = {}
        for (rid, lo), a in cells.items():
            v = self.readq(s, rid, lo, 'f32')
            if v is None: return
            after[a[1:3]] = v
        if all(isinstance(v, Lin) and self.mstate(v) == ('S',) + k + (p,) for k, v in after.items()): return
        step = self.norm_step(after, p, None)
        if step is None: return
        n = eng.machine_match(step, self.kx, define=False)
        if n is None: return
        for (rid, lo), a in cells.items():
            eng.write(s, REGS[rid], lo, 'f32', atom('S', a[1], a[2], add(p, n)))

    # ----- region writes
    def check_region(self, rid, lat, ds, W, m):
        eng = self.eng; r = REGS[rid]
        sweeps = None; inv_cells = set(); inv_segs = False; varying = False
        for o, d, w in zip(lat, ds, W):
            sw = []
            for en in w.get(rid, []):
                if isinstance(en, Cells):
                    for off, (sz, v) in en.d.items():
                        if (rid, off, sz) in self.cells: continue
                        if isinstance(v, (float, Lin)) or (isinstance(v, int) and v == 0 and sz == 4): inv_cells.add((off, sz))
                        elif isinstance(v, (int, Aff, Ptr, FnPtr, Top, Cond)):
                            # integer cell not seen in the first iteration
                            ty = {1: 'i8', 2: 'i16', 4: 'i32', 8: 'i64'}.get(sz)
                            v0 = self.readq(self.st, rid, off, ty)
                            if v0 is not None and v_same(v0, v): continue
                            self.cells[(rid, off, sz)] = ('havoc', v0 if v0 is not None else TOP)
                            self.fail = 'loop-carried memory outside the domain'
                            return False
                else:
                    if hasvar(en.lo, self.cv): sw.append(en)
                    elif isinstance(d, int) and any(v >= self.marker and v != self.cv for v, _ in lin_of(en.lo)):
                        self.wild.add(rid); self.fail = 'irregular store'; return False
                    else: inv_segs = True
            self.fuse_rid = rid
            df = o[1].gam.fixed(d) if not isinstance(d, int) else d
            t = self.make_sweeps(o, d if df is None else df, sw) if sw else []
            if t is None:
                self.wild.add(rid); self.fail = 'stores outside the domain'
                self.sweeps.pop(rid, None); self.pieces.pop(rid, None)
                return False
            if sweeps is None: sweeps = t
            elif not self.same_sweeps(o, sweeps, t):
                self.wild.add(rid); self.fail = 'paths store different data'
                self.sweeps.pop(rid, None); self.pieces.pop(rid, None)
                return False
        if sweeps and (inv_segs):
            self.wild.add(rid); self.fail = 'mixed stores'; self.sweeps.pop(rid, None); self.pieces.pop(rid, None)
            return False
        ok = True
        if sweeps:
            cur = self.sweeps.get(rid)
            if cur is None or not self.same_sweeps(lat[0], cur, sweeps):
                self.sweeps[rid] = sweeps; ok = False
        if inv_segs or inv_cells:
            if rid not in self.pieces:
                self.pieces[rid] = self.entry_pieces(rid, inv_cells, inv_segs)
                return False
            ps = self.pieces[rid]
            have = [(lo, cnt) for lo, cnt, f0, mode in ps]
            if not inv_segs:
                for off, sz in inv_cells:
                    if not any(isinstance(lo, int) and isinstance(cnt, int) and lo <= off < lo + 4 * cnt for lo, cnt in have):
                        ps += self.entry_pieces(rid, {(off, sz)}, False); ok = False
            elif not any(mode == 'whole' or True for _, _, _, mode in ps): ok = False
            if inv_segs and not self.covers_whole(rid, ps):
                self.pieces[rid] = self.entry_pieces(rid, inv_cells, True); return False
            if not ok: return False
            for n, (lo, cnt, f0, mode) in enumerate(ps):
                if mode != 'shift': continue
                if cnt == 1 and self.mstate(v_subst(f0, K, 0)) is not None: continue   # check_machine
                for o, d in zip(lat, ds):
                    if not self.piece_ok(o, d, r, lo, cnt, f0):
                        ps[n] = (lo, cnt, f0, 'opaque'); ok = False
                        break
        return ok
    def covers_whole(self, rid, ps):
        return any(True for lo, cnt, f0, mode in ps) and getattr(self, 'wholes', {}).get(rid)
    def piece_ok(self, o, d, r, lo, cnt, f0):
        eng = self.eng
        if self.kx is None and isinstance(f0, Lin) and any(a[0] == 'X' for a in f0.t): return False
        s = o[1].copy()
        k = fresh('k')
        g = s.gam.add_ge(k)
        g = g.add_ge(sub(add(cnt, -1), k)) if g is not None else None
        if g is None: return True
        s.gam = g
        alts = query(eng, s, r, add(lo, mulc(k, 4)), 'f32')
        if alts is None: return False
        want = v_subst(shift_form(f0, add(self.c, d), self.kx, self.ks), K, k)
        for s2, v in alts:
            w = want
            if not gam_l_eq(s2.gam, w, v): return False
        return True
    def entry_pieces(self, rid, cells, whole):
        """content at loop entry of what the loop rewrites in place"""
        eng = self.eng; r = REGS[rid]; out = []
        if whole:
            if not hasattr(self, 'wholes'): self.wholes = {}
            self.wholes[rid] = True
            size = r.size
            try:
                ps = eng.resolve(self.st.copy(), r, 0, size // 4 * 4) if isinstance(size, int) else None
            except (NeedSplit, Imprecise): ps = None
            if ps is None:
                n = divexact(size, 4) if size is not None else None
                return [(0, n if n is not None else 1 << 40, 0.0, 'opaque')]
            for rel, stride, cnt, esz, f, ty in ps:
                if esz != 4 or stride != 4 or not isinstance(f, (float, Lin, int)):
                    return [(0, size // 4, 0.0, 'opaque')]
                if isinstance(f, int): f = float(f)
                out.append((rel, cnt, f, 'shift' if shiftable(f) else 'opaque'))
            return out
        for off, sz in sorted(cells):
            v = self.readq(self.st, rid, off, 'f32' if sz == 4 else 'f64')
            if sz != 4 or not isinstance(v, (float, Lin)): out.append((off, 1, 0.0, 'opaque'))
            else: out.append((off, 1, v, 'shift' if shiftable(v) and not isinstance(v, float) else 'opaque'))
        return out
    def same_sweeps(self, o, a, b):
        if len(a) != len(b): return False
        for x, y in zip(a, b):
            if x[1] != y[1] or x[2] != y[2] or x[3] != y[3] or x[5] != y[5]: return False
            if not self.eng.aff_eq(o[1], x[0], y[0]): return False
            if not v_same(x[4], y[4]) and not (isinstance(x[4], Lin) and isinstance(y[4], Lin) and x[4].bad and x[4].bad == y[4].bad): return False
        return True
    def closed(self, v):
        """mentions only symbols that exist outside the iteration"""
        if isinstance(v, Aff): return all(w < self.marker or w == self.cv or w == K for w, _ in v.t)
        if isinstance(v, Lin): return all(self.closed(x) for a in v.t for x in a if isinstance(x, Aff))
        if isinstance(v, Ptr): return self.closed(v.o)
        return True
    def fuse(self, o, a, segs):
        eng = self.eng
        if a <= 0 or self.kx is None: return None
        esz = segs[0].esz
        for s4 in (x for x in range(esz, a + 1) if a % x == 0 and x % esz == 0 and self.kx * x % a == 0):
            t = o[1].copy()
            r = REGS[self.fuse_rid]
            t.mem[r.id] = RS(); t.own.add(r.id)
            for s in segs:
                if s.esz != esz: return None
                if isinstance(s.count, int) and s.count == 1:
                    if not isinstance(s.f, (float, Lin)): return None
                    f = v_subst(s.f, K, 0)
                    # template along the stream
                    f = l_map(f, lambda x: (x[0], x[1], add(x[2], mulc(sym(K), self.kx * s4 // a))) if x[0] == 'X' else x)
                    s = Seg(s.lo, s4, 1, esz, f, s.ty)
                eng.push_seg(t, r, s)
            log = t.mem[r.id].log
            if all(isinstance(x, Seg) and not (isinstance(x.count, int) and x.count == 1) for x in log): return log
        return None
    def make_sweeps(self, o, d, segs):
        eng = self.eng; cv = self.cv
        a = coef(segs[0].lo, cv)
        groups = {}
        for s in segs:
            groups.setdefault(coef(s.lo, cv), []).append(s)
        out = []
        for a, ss in groups.items():
            ones = [s for s in ss if isinstance(s.count, int) and s.count == 1]
            many = [s for s in ss if not (isinstance(s.count, int) and s.count == 1)]
            if ones and not (isinstance(d, int) and d == 1):
                # single stores in an iteration that advances by more than one unit: join them along the stream
                many = self.fuse(o, a, ss)
                if many is None: return None
                ones = []
            if ones:
                adv = a
                if any(not isinstance(sub(s.lo, ones[0].lo), int) for s in ones): return None
                # last store to an address wins
                byoff = {}
                for s in ones: byoff[sub(s.lo, ones[0].lo)] = s
                offs = sorted(byoff)
                A = abs(adv)
                if any(s.esz != 4 and len(offs) > 1 for s in ones): return None
                # addresses of different iterations must not collide: they differ mod A
                if offs[-1] - offs[0] + ones[0].esz > A: return None
                done = False
                for s4 in sorted(x for x in range(ones[0].esz, A + 1) if A % x == 0 and x % ones[0].esz == 0):
                    mm = A // s4
                    cls = {}
                    for q in offs: cls.setdefault((q - offs[0]) % s4, []).append(q)
                    if any(len(v) != mm for v in cls.values()): continue
                    res = []; okk = True
                    for rr, v in sorted(cls.items()):
                        f0 = byoff[v[0]]
                        if adv < 0 and mm > 1: okk = False; break
                        G = gen_template(f0.f, cv, mm) if isinstance(f0.f, (float, Lin)) else (v_subst(f0.f, cv, sym(K)) if mm == 1 else None)
                        if G is None or not self.closed(G): okk = False; break
                        for n, q in enumerate(v[1:], 1):
                            if not v_same(byoff[q].f, v_subst(G, K, add(mulc(self.c, mm), n))): okk = False; break
                        if not okk: break
                        lo0 = subst(f0.lo, cv, 0)
                        if not self.closed(lo0): okk = False; break
                        res.append((lo0, s4, mm if adv > 0 else -1, f0.esz, G, f0.ty))
                    if okk: out += res; done = True; break
                if not done: return None
            for s in many:
                if not eng.aff_eq(o[1], mulc(s.count, s.stride), mulc(d, a)): return None
                if a <= 0 or a % s.stride: return None
                f0 = v_subst(s.f, cv, 0)
                if not self.closed(f0) or not self.closed(s.lo): return None
                if not v_same(v_subst(f0, K, add(mulc(self.c, a // s.stride), sym(K))), s.f): return None
                out.append((subst(s.lo, cv, 0), s.stride, a // s.stride, s.esz, f0, s.ty))
        out.sort(key=lambda x: (const_of(x[0]), x[1]))
        return out

def gam_l_eq(g, a, b):
    """equality of forms modulo the equalities of the path constraints"""
    if l_eq(a, b): return True
    a = tolin(a); b = tolin(b)
    if a.bad or b.bad: return False
    d = l_diff(a, b)
    rest = dict(d.t)
    scale = max([1e-3] + [abs(v) for v in a.t.values()])
    if abs(d.c) > TOL * scale: return False
    # cancel atoms whose positions are equal under g
    keys = list(rest)
    while keys:
        k = keys.pop()
        if k not in rest or abs(rest[k]) <= TOL * scale: continue
        for k2 in list(rest):
            if k2 is k or k2[0] != k[0] or len(k2) != len(k): continue
            if abs(rest[k2]) <= TOL * scale: continue
            same = True
            for x, y in zip(k, k2):
                if x == y and type(x) == type(y): continue
                if isaff(x) and isaff(y) and g.eq0(sub(x, y)): continue
                same = False; break
            if same:
                rest[k2] += rest.pop(k)
                keys.append(k2)
                break
    return all(abs(v) <= TOL * scale for v in rest.values())
