"""The composition of the factor 2 stages, with each stage's process_block replaced by its contract.

Contract of stage s (proved separately in model.py): given n input samples it appends n*b/a samples to its output
stream. A ghost counter per stage counts the samples consumed so far; a call is correct iff its input block holds
samples consumed, consumed+1, ... of the stage's input stream, in order, and the output block is disjoint from it."""
from model import *

class Cascade:
    def __init__(self, mod, st0, obj, mode, ratio, mvals=None):
        self.mod = mod; self.st0 = st0; self.obj = obj; self.mode = mode; self.ratio = ratio
        self.a = 1 if mode == 0 else ratio; self.b = ratio if mode == 0 else 1
        self.calls = {}
    def hook(self, eng, fp, args, s, I):
        if 'f' in I: return None
        if not (len(args) == 4 and isinstance(args[1], Ptr) and isinstance(args[0], Ptr)): return None
        loc = I.get('l', -1)
        this, src, n, dst = args
        if not isinstance(dst, Ptr) or not isaff(n):
            eng.ob('stage', loc, None, s, 'arguments of a stage not resolved: %r %r' % (n, dst)); return [(s, None)]
        if this.r.id not in self.order:
            eng.ob('stage', loc, None, s, 'call of an unknown stage'); return None
        i = self.order[this.r.id]
        if self.odd is not None: pass
        if isinstance(n, Aff):
            f = s.gam.fixed(n)
            if f is not None: n = f
        sa, sb = (1, 2) if self.mode == 0 else (2, 1)
        g = eng.read(s, self.ghost, 8 * i, 'i64')
        if sa == 2:
            ok = eng.divisible(s, n, 2)
            if ok is not True:
                eng.ob('stage-even', loc, {} if isinstance(n, int) else None, s, 'stage %d is given %r samples, not a multiple of 2' % (i + 1, n))
                if isinstance(n, int): nout = n // 2
                else: return [(s, None)]
            else: eng.ob('stage-even', loc, True)
        nout = mulc(n, 2) if sa == 1 else divexact(n, 2) if not isinstance(n, int) else n // 2
        if nout is None: eng.ob('stage-even', loc, None, s, 'length'); return [(s, None)]
        if isinstance(n, int) and n == 0: return [(s, None)]
        if not decide_ge(s, add(n, -1)): return [(s, None)]
        eng.check_access(s, src.r, src.o, mulc(n, 4), 'read', loc)
        # content
        want_stream = 'in' if i == 0 else i - 1
        k = fresh('k')
        gg = s.gam.add_ge(k)
        gg = gg.add_ge(sub(add(n, -1), k)) if gg is not None else None
        if gg is not None:
            s2 = s.copy(); s2.gam = gg
            col = eng.collect; eng.collect = False
            alts = query(eng, s2, src.r, add(src.o, mulc(k, 4)), 'f32')
            eng.collect = col
            want = atom('X', want_stream, add(g, k)) if isaff(g) else None
            if alts is None or want is None: eng.ob('stage-input', loc, None, s, 'input of stage %d not resolved' % (i + 1))
            else:
                for s3, v in alts:
                    if isinstance(v, (float, Lin)) and gam_l_eq(s3.gam, want, v): eng.ob('stage-input', loc, True)
                    elif isinstance(v, (float, Lin)) and not (isinstance(v, Lin) and any('imprecise' in b for b in v.bad)):
                        eng.ob('stage-input', loc, s3.gam.model() or {}, s3, 'stage %d is given %r instead of %r' % (i + 1, v, want))
                    else: eng.ob('stage-input', loc, None, s3, 'stage %d input %r' % (i + 1, v))
        if src.r is dst.r:
            d1 = s.gam.ge(sub(dst.o, add(src.o, mulc(n, 4)))); d2 = s.gam.ge(sub(src.o, add(dst.o, mulc(nout, 4))))
            eng.ob('stage-alias', loc, True if d1 or d2 else ({} if isinstance(n, int) else None), s, 'input and output of stage %d overlap' % (i + 1))
        eng.check_access(s, dst.r, dst.o, mulc(nout, 4), 'write', loc)
        gout = mulc(g, 2) if sa == 1 else divexact(g, 2) if not isinstance(g, int) else g // 2
        if gout is None: eng.ob('stage-even', loc, None, s, 'count'); return [(s, None)]
        eng.push_seg(s, dst.r, Seg(dst.o, 4, nout, 4, atom('X', i, add(gout, sym(K)))))
        eng.write(s, self.ghost, 8 * i, 'i64', add(g, n))
        self.calls[(i, self.mod.loc_user(loc))] = self.calls.get((i, self.mod.loc_user(loc)), 0) + 1
        return [(s, None)]
    def stages(self):
        """order of the stages in the signal path, from a block that reaches each of them"""
        order = []
        def hook(eng, fp, args, s, I):
            if 'f' in I: return None
            if len(args) == 4 and isinstance(args[1], Ptr) and isinstance(args[0], Ptr):
                order.append((fp, args[0])); return [(s, None)]
        h = Log(self.mod, prefer_unroll=True); h.call_hook = hook
        inr = mkregion('input', 'in', 64, 4, base=BaseStream('X', 'in'), const=True)
        outr = mkregion('output', 'out', 256, 4, base=BaseStream('O', 'out'))
        h.call('vp_process', [Ptr(self.obj, 0), Ptr(inr, 0), 8, Ptr(outr, 0)], self.st0.copy())
        self.events = events(h, self.mod); self.obs = obligations(h, self.mod)
        return order
    def run(self, m, unroll, st=None):
        """analyse one process_block call of m units; returns (engine, fails)"""
        order = self.stages()
        self.order = {}
        for f, p in order: self.order.setdefault(p.r.id, len(self.order))
        self.odd = None
        # memory of the stages: only their own process_block may change it
        g0_ = Log(self.mod)
        own = {}
        for f, p in order:
            for r in graph(g0_, self.st0, p.r)[1]: own.setdefault(r.id, self.order[p.r.id])
        e = Log(self.mod, prefer_unroll=unroll); e.call_hook = self.hook
        self.ghost = mkregion('ghost', 'ghost', 8 * max(1, len(self.order)), 8)
        st = self.st0.copy()
        g0 = fresh('g')       # samples already consumed by the first stage
        st.gam = st.gam.add_ge(g0)
        for i in range(len(self.order)):
            c = mulc(g0, self.a) if i == 0 else c
            e.write(st, self.ghost, 8 * i, 'i64', c)
            c = mulc(c, 2) if self.mode == 0 else divexact(c, 2)
        if not isinstance(m, int): st.gam = st.gam.add_ge(m).add_ge(sub(NMAX // 8, m))
        inr = mkregion('input', 'in', mulc(m, 4 * self.a), 4, base=None, const=True)
        outr = mkregion('output', 'out', mulc(m, 4 * self.b), 4, base=BaseStream('O', 'out'))
        class In:
            def elem(s_, eng, st, r, off, ty):
                q = divexact(off, 4)
                return atom('X', 'in', add(q, mulc(g0, self.a))) if q is not None and ty == 'f32' else badf('imprecise: sub-word read')
            def template(s_, r, lo, stride):
                q = divexact(lo, 4)
                return atom('X', 'in', add(add(q, mulc(g0, self.a)), mulc(sym(K), stride // 4))) if q is not None and stride % 4 == 0 else None
        inr.base = In()
        fails = []; cands = []
        outs = e.call('vp_process', [Ptr(self.obj, 0), Ptr(inr, 0), mulc(m, self.a), Ptr(outr, 0)], st)
        if not outs: fails.append('no path returns')
        last = len(self.order) - 1 if self.order else 'in'
        e.collect = False
        for s, _ in outs:
            k = fresh('k')
            g = s.gam.add_ge(k)
            g = g.add_ge(sub(add(mulc(m, self.b), -1), k)) if g is not None else None
            if g is None: continue
            s2 = s.copy(); s2.gam = g
            alts = query(e, s2, outr, mulc(k, 4), 'f32')
            want = atom('X', last, add(k, mulc(g0, self.b)))
            if alts is None: fails.append('output not resolved'); continue
            for s3, v in alts:
                if not (isinstance(v, (float, Lin)) and gam_l_eq(s3.gam, want, v)):
                    fails.append('output holds %r instead of %r' % (v, want))
                    if isinstance(v, (float, Lin)) and not (isinstance(v, Lin) and any('imprecise' in b for b in v.bad)): cands.append(('output', 'output holds %r instead of %r' % (v, want), s3.gam.model()))
            # every stage consumed everything
            for i in range(len(self.order)):
                gi = e.read(s, self.ghost, 8 * i, 'i64')
                w = mulc(add(g0, m), self.a)
                if self.mode == 0: w = mulc(w, 2 ** i)
                else: w = divexact(w, 2 ** i)
                if gi != w: fails.append('stage %d consumed %r of %r' % (i + 1, gi, w)); cands.append(('stage', 'stage %d consumed %r of %r' % (i + 1, gi, w), None))
        for rid, ws in e.writes.items():
            if rid in own and own[rid] is not None:
                for o, l in sorted(ws, key=repr)[:1]:
                    t = 'the state of stage %d is changed outside its process_block, at %s' % (own[rid] + 1, self.mod.loc_user(l))
                    fails.append(t); cands.append(('stage-state', t, None))
        self.e = e; self.fails = fails; self.cands = cands
        self.noutregs = outs
        self.paths = len(outs)
        return e
