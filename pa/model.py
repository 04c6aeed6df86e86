"""Object graphs from constructor analysis, and the per-stage proofs.

A stage is one factor 2 Impl object of a Resampler2. `StageProof` derives what a stage computes and proves it
for every block length and buffer placement at once (`general`); `bounded` repeats the analysis with the block
lengths fixed (loops fully unrolled), to confirm or refute what the general analysis could not decide."""
import os, sys, time
from interp import *
from loops import query, gam_l_eq, shift_form
import ir as irmod

DRV = os.path.join(irmod.HERE, 'drv', 'drv.cc')
NMAX = 1 << 27
MODES = {0: 'UP', 1: 'DOWN'}

class Enums:
    def __init__(self, mod):
        def g(n): return Engine(mod, prefer_unroll=True).call('vp_' + n, [], State())[0][1]
        self.UP = g('UP'); self.DOWN = g('DOWN'); self.FIR = g('FIR'); self.IIR = g('IIR')
        self.precs = [(n, g(n)) for n in ('P1', 'P8', 'P12', 'P16', 'P20', 'P24')]

class Log(Engine):
    """engine that remembers events with the path they occur on"""
    def __init__(self, *a, **k):
        Engine.__init__(self, *a, **k); self.evs = []; self.escapes = []; self.vp_m = None
    def on_event(self, s, kind, data, loc): self.evs.append((kind, data, loc, s.gam))

def construct(mod, mode, ratio, prec, sse, filt, res=16):
    e = Log(mod, prefer_unroll=True); e.malloc_res = res
    sz = e.call('vp_sizeof', [], State())[0][1]
    obj = mkregion('Resampler2', 'obj', sz, 16, base=BaseUninit())
    st = State()
    outs = e.call('vp_ctor', [Ptr(obj, 0), mode, ratio, prec, sse, filt], st)
    return e, obj, outs

def obligations(eng, mod, mvar=None):
    """plain-data summary of the obligations of one run"""
    out = []
    for (kind, loc), o in eng.obs.items():
        c = []
        for x in o.cand:
            d, m, g = x
            c.append((d, (m or {}).get(mvar) if mvar is not None else None))
        out.append({'kind': kind, 'at': mod.loc_user(loc), 'ok': o.ok, 'unk': [x[0] for x in o.unk if x], 'nunk': len(o.unk), 'cand': c})
    return out
def events(eng, mod):
    out = {}
    for kind, data, loc, g in eng.evs: out.setdefault((kind, str(data), mod.loc_user(loc)), 0); out[(kind, str(data), mod.loc_user(loc))] += 1
    return sorted(k + (n,) for k, n in out.items())
def notes(eng, mod):
    return sorted('%s at %s' % (k[0], mod.loc_user(k[1])) for k in eng.notes)

def global_writes(e, mod):
    return sorted(set('%s written at %s' % (REGS[r].name, mod.loc_user(l)) for r, ws in e.writes.items() if REGS[r].kind == 'global' for o, l in ws))[:5]

def graph(eng, st, root):
    """object graph reachable from a region: {path: ...}, for comparing objects up to addresses"""
    seen = {}; order = []; cells = []
    def visit(r):
        if r.id in seen: return
        seen[r.id] = len(order); order.append(r)
        rs = st.mem.get(r.id)
        offs = set()
        if rs is not None:
            for en in rs.log:
                if isinstance(en, Cells): offs |= set((o, s) for o, (s, _) in en.d.items())
        for o, sz in sorted(offs):
            try: v = eng.readq_(st, r, o, {1: 'i8', 4: 'i32', 8: 'i64'}.get(sz, 'i32'))
            except Exception: continue
            last = None
            for en in reversed(rs.log):
                if isinstance(en, Cells) and o in en.d: last = en.d[o]; break
            if last is None or last[0] != sz: continue
            v = last[1]
            if isinstance(v, Ptr):
                if v.r.kind in ('malloc', 'obj'): visit(v.r)
                cells.append((r.id, o, sz, v))
            else: cells.append((r.id, o, sz, v))
    visit(root)
    return seen, order, cells

class StageProof:
    def __init__(self, mod, st0, fname, this, mode, res=16):
        self.mod = mod; self.st0 = st0; self.fname = fname; self.this = this; self.mode = mode
        self.a = 1 if mode == 0 else 2; self.b = 2 if mode == 0 else 1
        self.res = res
        self.why = []; self.last = None
    def io(self, m, extra=0):
        inr = mkregion('input', 'in', add(mulc(m, 4 * self.a), 4 * extra), 4, base=BaseStream('X', 'in'), const=True)
        outr = mkregion('output', 'out', mulc(m, 4 * self.b), 4, base=BaseStream('O', 'out'))
        return inr, outr
    def call(self, e, st, m, inr, outr, extra=0, pos=0):
        return e.call(self.fname, [self.this, Ptr(inr, 0), add(mulc(m, self.a), extra), Ptr(outr, 0)], st)
    def bound(self, st, m, lo, hi):
        st.gam = st.gam.add_ge(add(m, -lo)).add_ge(sub(hi, m))

    def witness(self, s, mv):
        g = s.gam.model()
        return None if g is None else g.get(mv)

    def persistent(self, e):
        return [REGS[rid] for rid in e.writes if REGS[rid].kind in ('malloc', 'obj') and isinstance(REGS[rid].size, int)]

class FIRProof(StageProof):
    kind = 'fir'
    # ----------------------------------------------------------- live state inference
    def infer(self):
        m = fresh('m'); inr, outr = self.io(m)
        st = self.st0.copy(); self.bound(st, m, 256, 1000)
        e = Log(self.mod)
        outs = self.call(e, st, m, inr, outr)
        self.written = [r for r in self.persistent(e)]
        mv = m.t[0][0]
        live = None
        for s, _ in outs:
            cur = {}
            for r in self.written:
                try: ps = e.resolve(s.copy(), r, 0, r.size // 4 * 4)
                except (Imprecise, NeedSplit): ps = []
                for rel, stride, cnt, esz, f, ty in ps:
                    if stride != 4 or esz != 4 or not isinstance(f, Lin) or f.bad or not isinstance(rel, int) or not isinstance(cnt, int): continue
                    if not all(x[0] == 'X' and coef(x[2], mv) == self.a for x in f.t): continue
                    cur.setdefault(r.id, []).append((rel, cnt, v_subst(f, mv, 0)))
            self.norm_live(cur)
            live = cur if live is None else self.common(live, cur)
        self.live = live or {}
        self.infer_notes = notes(e, self.mod)
    def norm_live(self, cur):
        for rid, ps in cur.items():
            ps.sort(key=lambda x: x[0])
            out = []
            for rel, cnt, f in ps:
                if out:
                    r0, c0, f0 = out[-1]
                    q = (rel - r0) // 4
                    if q == c0 and c0 > 1 and (v_same(f, v_subst(f0, K, add(sym(K), q))) or cnt == 1 and v_same(v_subst(f, K, 0), v_subst(f0, K, q))):
                        out[-1] = (r0, c0 + cnt, f0); continue
                    if q == c0 and c0 == 1 and cnt >= 1:
                        g = self.join1(f0, v_subst(f, K, 0))
                        if g is not None and (cnt == 1 or v_same(f, v_subst(g, K, add(sym(K), 1)))):
                            out[-1] = (r0, 1 + cnt, g); continue
                out.append((rel, cnt, f))
            cur[rid] = out
    def join1(self, f0, f1):
        if len(f0.t) != 1 or len(f1.t) != 1: return None
        (a0, k0), = f0.t.items(); (a1, k1), = f1.t.items()
        if k0 != k1 or a0[:2] != a1[:2]: return None
        d = sub(a1[2], a0[2])
        if not isinstance(d, int): return None
        return Lin({(a0[0], a0[1], add(subst(a0[2], K, 0), mulc(sym(K), d))): k0})
    def common(self, x, y):
        out = {}
        for rid in x:
            for p in x[rid]:
                for q in y.get(rid, []):
                    lo = max(p[0], q[0]); hi = min(p[0] + 4 * p[1], q[0] + 4 * q[1])
                    if lo < hi:
                        fp = v_subst(p[2], K, add(sym(K), (lo - p[0]) // 4)); fq = v_subst(q[2], K, add(sym(K), (lo - q[0]) // 4))
                        if v_same(fp, fq): out.setdefault(rid, []).append((lo, (hi - lo) // 4, fp))
        return out
    def install(self):
        """arbitrary reachable entry state: live cells hold past input samples, the rest of the arrays is stale"""
        st = self.st0.copy()
        for r in self.written:
            rs = st.wrs(r)
            fl = all(isinstance(v, (float, Lin)) or v == 0 for en in rs.log if isinstance(en, Cells) for _, v in en.d.values())
            if not fl: continue
            rs.log[:] = []
            r.base = BaseState()
            for rel, cnt, f in self.live.get(r.id, []): rs.log.append(Seg(rel, 4, cnt, 4, f))
        return st
    def live_desc(self):
        return ['%s[%d..%d] = %s' % (REGS[r].name, p[0] // 4, p[0] // 4 + p[1] - 1, fmt_form(p[2])) for r, ps in self.live.items() for p in ps]
    # ----------------------------------------------------------- proof for all block lengths
    def general(self):
        r = {'kind': 'fir', 'proved': False, 'fail': [], 'cand': []}
        try: self.infer()
        except (Budget, Imprecise, PathDead) as x:
            r['fail'].append('inference gave up: %r' % (x,)); return r
        for it in range(3):
            r['fail'] = []; r['cand'] = []
            try: done = self.verify(r)
            except (Budget, Imprecise, RecursionError) as x:
                r['fail'].append('analysis gave up: %s' % type(x).__name__); return r
            if done: break
        r['live'] = self.live_desc()
        r['proved'] = not r['fail'] and not r['cand']
        return r
    def verify(self, r):
        mod = self.mod
        m = fresh('m'); mv = m.t[0][0]
        inr, outr = self.io(m)
        st = self.install(); self.bound(st, m, 0, NMAX)
        e = Log(mod)
        outs = self.call(e, st, m, inr, outr)
        r['obs'] = obligations(e, mod, mv); r['events'] = events(e, mod); r['notes'] = notes(e, mod)
        r['paths'] = len(outs); r['loops'] = len(e.loop_info); r['callees'] = sorted(e.callees)
        r['writes'] = sorted(set(REGS[x].kind for x in e.writes)); r['globals'] = global_writes(e, mod)
        if not outs: r['fail'].append('no path returns')
        self.last = (e, outs, inr, outr, mv)
        kernel = None; bad = False; drop = []
        for s, _ in outs:
            # outputs
            k = fresh('k'); s1 = s.copy()
            g = s1.gam.add_ge(k)
            g = g.add_ge(sub(add(m, -1), k)) if g is not None else None
            if g is not None:
                for i in range(self.b):
                    s2 = s1.copy(); s2.gam = g
                    e.collect = False
                    alts = query(e, s2, outr, add(mulc(k, 4 * self.b), 4 * i), 'f32')
                    if alts is None: r['fail'].append('output not resolved'); continue
                    for s3, v in alts:
                        kk, t = self.kern(v, k, s3)
                        if t is not None:
                            w = self.witness(s3, mv)
                            r['fail'].append('output phase %d: %s' % (i, t)); r['cand'].append(('output', t, w))
                            continue
                        if kernel is None: kernel = [None] * self.b
                        if kernel[i] is None: kernel[i] = kk
                        elif not same_kernel(kernel[i], kk):
                            r['fail'].append('output phase %d differs between paths' % i); r['cand'].append(('output', 'different filter on different paths', self.witness(s3, mv)))
            # state
            for rid, ps in self.live.items():
                for n, (lo, cnt, f) in enumerate(ps):
                    j = fresh('j'); s2 = s.copy()
                    g = s2.gam.add_ge(j).add_ge(sub(cnt - 1, j))
                    if g is None: continue
                    s2.gam = g
                    alts = query(e, s2, REGS[rid], add(lo, mulc(j, 4)), 'f32')
                    want = v_subst(shift_form(f, m, self.a, None), K, j)
                    okk = alts is not None and all(gam_l_eq(s3.gam, want, v) for s3, v in alts)
                    if not okk:
                        w = None
                        if alts:
                            for s3, v in alts:
                                if not gam_l_eq(s3.gam, want, v): w = self.witness(s3, mv); break
                        r['fail'].append('history %s not carried over' % REGS[rid].name); r['cand'].append(('state', 'history %s elements %d..%d' % (REGS[rid].name, lo // 4, lo // 4 + cnt - 1), w))
                        drop.append((rid, n))
        r['kernel'] = kernel
        self.e = e
        for o in r['obs']:
            if o['kind'] == 'constwrite' or o['kind'] == 'lifetime' or o['cand'] or o['nunk']:
                if o['cand']: r['cand'].append((o['kind'], o['at'] + ': ' + str(o['cand'][0][0]), next((c[1] for c in o['cand'] if c[1] is not None), None)))
                r['fail'].append('%s not proved at %s' % (o['kind'], o['at']))
        if drop and not any(x[0] == 'output' for x in r['cand']):
            # forget pieces that are not maintained: they may not be needed at all
            for rid, n in sorted(set(drop), reverse=True): del self.live[rid][n]
            return False
        return True
    def kern(self, v, k, s):
        v = tolin(v) if isinstance(v, (float, Lin)) else badf('not a float')
        if v.bad: return None, 'outside the domain: ' + ','.join(sorted(v.bad))
        if abs(v.c) > 1e-9: return None, 'constant offset %g' % v.c
        out = {}
        for a, c in v.t.items():
            if abs(c) < 1e-12: continue
            if a[0] != 'X': return None, taint_name(a)
            q = sub(a[2], mulc(k, self.a))
            f = s.gam.fixed(q) if not isinstance(q, int) else q
            if f is None: return None, 'sample position not a fixed distance from the output position'
            out[f] = out.get(f, 0.0) + c
        return out, None

def taint_name(a):
    return {'S': 'stale state', 'U': 'uninitialised memory', 'O': 'previous output buffer content', 'L': 'stale scratch memory'}.get(a[0], a[0]) + ' ' + fmt_atom(a)
def fmt_form(f):
    return repr(f)[:120]
def same_kernel(a, b, tol=TOL):
    sc = max([1e-3] + [abs(x) for x in a.values()])
    return all(abs(a.get(k, 0.0) - b.get(k, 0.0)) <= tol * sc for k in set(a) | set(b))

class IIRProof(StageProof):
    kind = 'iir'
    def out_at(self, outr, k, i): return outr, add(mulc(k, 4 * self.b), 4 * i)
    def float_cells(self):
        inr, outr = self.io(1)
        st = self.st0.copy()
        e = Engine(self.mod, prefer_unroll=True)
        outs = self.call(e, st, 1, inr, outr)
        cells = {}
        for rid, ws in e.writes.items():
            r = REGS[rid]
            if r.kind not in ('malloc', 'obj'): continue
            for off, loc in ws:
                if off is None: continue
                for s, _ in outs:
                    v = e.readq_(s, r, off)
                    if isinstance(v, (float, Lin)): cells.setdefault(rid, set()).add(off)
        self.cells = cells
    def state(self, pos):
        st = self.st0.copy()
        w = Engine(self.mod)
        for rid, offs in self.cells.items():
            for o in offs: w.write(st, REGS[rid], o, 'f32', atom('S', rid, o // 4, pos))
        return st
    def infer(self):
        self.float_cells()
        inr, outr = self.io(1)
        e = Engine(self.mod, prefer_unroll=True)
        outs = self.call(e, self.state(0), 1, inr, outr)
        M = None
        for s, _ in outs:
            step = StepMap(); ys = []
            for rid, offs in self.cells.items():
                for o in offs: step[(rid, o // 4)] = tolin(e.readq_(s, REGS[rid], o))
            for i in range(self.b):
                r_, o_ = self.out_at(outr, 0, i)
                ys.append(tolin(e.readq_(s, r_, o_)))
            if M is None: M = (step, ys)
            else:
                for k in step:
                    if not l_eq(M[0][k], step[k]): M[0][k] = badf('paths differ')
                for i in range(self.b):
                    if not l_eq(M[1][i], ys[i]): M[1][i] = badf('paths differ')
        if M is None: return False
        live = set(); work = [x[1:3] for y in M[1] for x in y.t if x[0] == 'S']
        while work:
            k = work.pop()
            if k in live: continue
            live.add(k)
            if k in M[0]: work += [x[1:3] for x in M[0][k].t if x[0] == 'S']
        self.machine = StepMap((k, M[0][k]) for k in sorted(live)); self.step = M[0]
        self.outs = M[1]
        bad = [tuple(sorted(v.bad)) for v in list(self.machine.values()) + self.outs if v.bad]
        odd = [fmt_atom(a) for v in list(self.machine.values()) + self.outs for a in v.t if a[0] not in ('X', 'S')]
        self.infer_bad = bad + odd
        return True
    def matrices(self):
        """(A, B, C, D) as plain lists; inputs of a unit are its a samples"""
        ks = list(self.machine); ix = {k: i for i, k in enumerate(ks)}
        n = len(ks)
        def row(v):
            a = [0.0] * n; b = [0.0] * self.a
            for x, c in v.t.items():
                if x[0] == 'S': a[ix[x[1:3]]] += c
                elif x[0] == 'X' and isinstance(x[2], int) and 0 <= x[2] < self.a: b[x[2]] += c
            return a, b
        A = []; B = []; C = []; D = []
        for k in ks:
            a, b = row(self.machine[k]); A.append(a); B.append(b)
        for y in self.outs:
            a, b = row(y); C.append(a); D.append(b)
        return A, B, C, D
    def markov(self, N):
        """impulse responses h[phase][input phase][0..N)"""
        A, B, C, D = self.matrices()
        n = len(A); h = []
        res = [[[D[i][j]] for j in range(self.a)] for i in range(self.b)]
        for j in range(self.a):
            x = [B[r][j] for r in range(n)]
            for t in range(1, N):
                for i in range(self.b): res[i][j].append(sum(C[i][q] * x[q] for q in range(n)))
                x = [sum(A[r][q] * x[q] for q in range(n) if A[r][q]) for r in range(n)]
        return res
    def general(self):
        r = {'kind': 'iir', 'proved': False, 'fail': [], 'cand': []}
        try:
            if not self.infer(): r['fail'].append('no path returns for one unit'); return r
        except (Budget, Imprecise, PathDead) as x:
            r['fail'].append('inference gave up: %r' % (x,)); return r
        if self.infer_bad: r['fail'].append('one step is not linear: %s' % self.infer_bad[:2]); return r
        r['order'] = len(self.machine)
        r['markov'] = self.markov(400); r['mat'] = self.matrices()
        r['live'] = ['%s[%d]' % (REGS[k[0]].name, k[1]) for k in self.machine]
        try: self.verify(r)
        except (Budget, Imprecise, RecursionError) as x: r['fail'].append('analysis gave up: %s' % type(x).__name__)
        r['proved'] = not r['fail'] and not r['cand']
        return r
    def verify(self, r):
        mod = self.mod
        m = fresh('m'); mv = m.t[0][0]
        inr, outr = self.io(m)
        st = self.state(0); self.bound(st, m, 0, NMAX)
        e = Log(mod); e.machine = self.machine; e.machine_kx = self.a
        outs = self.call(e, st, m, inr, outr)
        r['obs'] = obligations(e, mod, mv); r['events'] = events(e, mod); r['notes'] = notes(e, mod)
        r['paths'] = len(outs); r['loops'] = len(e.loop_info); r['callees'] = sorted(e.callees)
        r['writes'] = sorted(set(REGS[x].kind for x in e.writes)); r['globals'] = global_writes(e, mod)
        if not outs: r['fail'].append('no path returns')
        self.last = (e, outs, inr, outr, mv)
        e.collect = False
        for s, _ in outs:
            mm = s.gam.fixed(m)
            k = fresh('k'); s1 = s.copy()
            g = s1.gam.add_ge(k)
            g = g.add_ge(sub(add(m, -1), k)) if g is not None else None
            if g is not None:
                for i in range(self.b):
                    s2 = s1.copy(); s2.gam = g
                    r_, o_ = self.out_at(outr, k, i)
                    alts = query(e, s2, r_, o_, 'f32')
                    want = l_map(self.outs[i], lambda x: (x[0], x[1], add(mulc(k, self.a), x[2])) if x[0] == 'X' else (x[0], x[1], x[2], k))
                    if alts is None: r['fail'].append('output not resolved'); continue
                    for s3, v in alts:
                        if not gam_l_eq(s3.gam, want, v):
                            t = 'output is not the filter output'
                            if isinstance(v, Lin):
                                tt = [taint_name(x) for x in v.t if x[0] in ('O', 'U', 'L')]
                                if tt: t = tt[0]
                            r['fail'].append('output phase %d: %s' % (i, t)); r['cand'].append(('output', t, self.witness(s3, mv)))
            for key in self.machine:
                v = e.readq_(s, REGS[key[0]], key[1] * 4)
                if mm is not None and mm <= 16:
                    want = atom('S', key[0], key[1], 0)
                    acc = {q: Lin({('S',) + q + (0,): 1.0}) for q in self.machine}
                    for t in range(mm):
                        acc = {q: self.apply(self.machine[q], acc, t) for q in self.machine}
                    want = acc[key]
                else: want = atom('S', key[0], key[1], m)
                if not isinstance(v, (float, Lin)) or not gam_l_eq(s.gam, want, v):
                    r['fail'].append('state cell not advanced'); r['cand'].append(('state', 'state %s[%d]' % (REGS[key[0]].name, key[1]), self.witness(s, mv)))
        for o in r['obs']:
            if o['cand'] or o['nunk']:
                if o['cand']: r['cand'].append((o['kind'], o['at'] + ': ' + str(o['cand'][0][0]), next((c[1] for c in o['cand'] if c[1] is not None), None)))
                r['fail'].append('%s not proved at %s' % (o['kind'], o['at']))
    def apply(self, f, acc, t):
        r = Lin({}, f.c)
        for x, c in f.t.items():
            if x[0] == 'S': r = l_add(r, l_scale(acc[x[1:3]], c))
            else: r = l_add(r, Lin({(x[0], x[1], x[2] + self.a * t): c}))
        return r
