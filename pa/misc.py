"""Rules for the small parts of the API: aligned arrays, ownership, precision lookup."""
import os
import facts
import ir as irmod
from model import *

_own = None
def own():
    global _own
    if _own is None:
        with facts.Work() as w:
            _own = irmod.Module(irmod.build_json(os.path.join(irmod.HERE, 'drv', 'own.cc'), facts.REPO, [], w, tag='own'))
    return _own

def conc(mod, f, *a):
    return Engine(mod, prefer_unroll=True).call(f, list(a), State())[0][1]

def held(mod, s):
    return ['%s allocated at %s' % (n, mod.loc_user(REGS[r].tags['loc'])) for r, n in s.allocs if r not in s.dead]

def bad_obs(R, e, mod, lab, site):
    for o in obligations(e, mod):
        R.add(o['ok'] + len(o['cand']) + o['nunk'], o['ok'])
        if o['cand']: R.bad('%s:%s' % (site, o['kind']), '%s: %s at %s: %s' % (lab, o['kind'], o['at'], o['cand'][0][0]))
        elif o['nunk']: R.undecided.append('%s: %s at %s' % (lab, o['kind'], o['at']))

# ------------------------------------------------------------------------------------------------ ownership (C15)
def copies(R):
    """whatever kind of copy or move the owning types allow, every allocation is still released exactly once"""
    mod = own()
    for X, what in (('aa', 'AlignedArray<float>'), ('rs', 'Resampler2')):
        size = conc(mod, 'vp_%s_sizeof' % X)
        for kind, text in (('cc', 'copy construction'), ('ca', 'copy assignment'), ('mc', 'move construction'), ('ma', 'move assignment')):
            lab = '%s of %s' % (text, what)
            can = conc(mod, 'vp_%s_can_%s' % (X, kind))
            R.instances += 1
            if not can:
                R.check(True, '', ''); R.sample(lab + ': rejected at compile time'); continue
            R.sample(lab + ': possible')
            for args in ([(8,)] if X == 'aa' else [(m, r, p, s, f) for m in (0, 1) for r in (1, 8) for p in (12, 24) for s in (0, 1) for f in (0, 1)]):
                e = Log(mod, prefer_unroll=True); e.malloc_res = 16; st = State()
                a = mkregion('a', 'obj', size, 16, base=BaseUninit()); b = mkregion('b', 'obj', size, 16, base=BaseUninit())
                outs = e.call('vp_%s_ctor' % X, [Ptr(a, 0)] + list(args), st)
                if len(outs) != 1: R.unknown(lab + ': construction has %d outcomes' % len(outs)); continue
                st = outs[0][0]
                if kind in ('ca', 'ma'):
                    st = e.call('vp_%s_ctor' % X, [Ptr(b, 0)] + list(args), st)[0][0]
                    order = [Ptr(b, 0), Ptr(a, 0)]
                else: order = [Ptr(b, 0), Ptr(a, 0)]
                sts = [s for s, _ in e.call('vp_%s_%s' % (X, kind), order, st)]
                for victim in (a, b):
                    nxt = []
                    for s in sts: nxt += [x for x, _ in e.call('vp_%s_dtor' % X, [Ptr(victim, 0)], s)]
                    sts = nxt
                bad_obs(R, e, mod, lab, 'copy:%s:%s' % (X, kind))
                for s in sts: R.check(not held(mod, s), 'copy:%s:%s:leak' % (X, kind), '%s: never released: %s' % (lab, held(mod, s)[:2]))

# ------------------------------------------------------------------------------------------------ aligned arrays (C16)
def aligned(R, release=False):
    mod = own()
    size = conc(mod, 'vp_aa_sizeof')
    for res in range(64):
        for n in ('n', 0, 1, 7) if res in (0, 16, 63) else ('n',):
            R.instances += 1
            lab = 'AlignedArray<float> (%s) at an allocation address = %d mod 64' % (n, res); site = 'aligned:%s' % ('n' if n == 'n' else 'c')
            e = Log(mod, prefer_unroll=isinstance(n, int)); e.malloc_res = res
            st = State()
            if n == 'n':
                N = fresh('n'); st.gam = st.gam.add_ge(N).add_ge(sub(2 ** 40, N))
            else: N = n
            a = mkregion('array', 'obj', size, 8, base=BaseUninit())
            outs = e.call('vp_aa_ctor', [Ptr(a, 0), N], st)
            array_rules(R, e, mod, outs, a, N, res, lab, site, lambda s, k: 0.0, release)
    # from a vector
    for res in (0, 16, 32, 48):
        for n in ('n', 0, 3):
            R.instances += 1
            lab = 'AlignedArray<float> (vector of %s elements)' % n; site = 'alignedvec:%s' % ('n' if n == 'n' else 'c')
            e = Log(mod, prefer_unroll=isinstance(n, int)); e.malloc_res = res
            st = State()
            if n == 'n':
                N = fresh('n'); st.gam = st.gam.add_ge(N).add_ge(sub(2 ** 40, N))
            else: N = n
            data = mkregion('vector data', 'input', mulc(N, 4), 4, base=BaseStream('X', 'v'), const=True)
            vec = mkregion('vector', 'obj', 24, 8, base=BaseUninit())
            for i, o in ((0, 0), (1, mulc(N, 4)), (2, mulc(N, 4))): e.write(st, vec, 8 * i, 'ptr', Ptr(data, o))
            a = mkregion('array', 'obj', size, 8, base=BaseUninit())
            outs = e.call('vp_aa_vec', [Ptr(a, 0), Ptr(vec, 0)], st)
            array_rules(R, e, mod, outs, a, N, res, lab, site, lambda s, k: atom('X', 'v', k), release)
    counting(R, mod, release)

def array_rules(R, e, mod, outs, a, N, res, lab, site, want, release):
    und = [n for n in notes(e, mod) if 'undecided' in n or n.startswith('loop')]
    if und: R.unknown('%s: %s' % (lab, und[0]))
    R.check(bool(outs), site + ':return', lab + ': the constructor does not return')
    if release:
        for s, _ in outs:
            d = Log(mod, prefer_unroll=isinstance(N, int))
            for s2, _ in d.call('vp_aa_dtor', [Ptr(a, 0)], s.copy()):
                R.check(not held(mod, s2), site + ':leak', '%s: never released: %s' % (lab, held(mod, s2)[:1]))
            bad_obs(R, d, mod, lab + ', destruction', site + ':dtor')
        return
    bad_obs(R, e, mod, lab, site)
    for s, _ in outs:
        q = Log(mod, prefer_unroll=isinstance(N, int))
        def one(f, *x):
            o = q.call(f, [Ptr(a, 0)] + list(x), s.copy())
            return o[0][1] if len(o) == 1 else None
        b = one('vp_aa_begin')
        if not isinstance(b, Ptr):
            R.unknown(lab + ': begin() not resolved'); continue
        if not isaff(b.o) or not isaff(b.r.addr): R.unknown(lab + ': begin() at unknown offset'); continue
        sy = isinstance(N, int)
        mis = congruent(e, s, add(b.r.addr, b.o), 64)
        if mis is None: R.unknown(lab + ': alignment of begin() not decided')
        else: R.check(mis == 0, site + ':align', '%s: first element at address = %s mod 64' % (lab, mis))
        R.check(b.r.kind == 'malloc' and s.gam.ge(b.o), site + ':inside', '%s: elements start outside the allocation (offset %r)' % (lab, b.o))
        room = sub(b.r.size, add(b.o, mulc(N, 4))) if isaff(b.r.size) else None
        if room is None: R.unknown(lab + ': size of the allocation not known')
        elif not s.gam.ge(room):
            m = s.gam.add_ge(sub(-1, room))
            if m is not None and m.feasible(): R.check(False, site + ':inside', '%s: %d bytes too few allocated' % (lab, -s.gam.minimum(room) if s.gam.minimum(room) is not None else 1))
            else: R.unknown(lab + ': room not decided')
        else: R.add()
        n = one('vp_aa_size'); R.check(n == N, site + ':size', '%s: size() is %r' % (lab, n))
        z = one('vp_aa_end'); R.check(isinstance(z, Ptr) and z.r is b.r and sub(z.o, add(b.o, mulc(N, 4))) == 0, site + ':end', '%s: end() is %r' % (lab, z))
        # every element
        k = fresh('k')
        g = s.gam.add_ge(k)
        g = g.add_ge(sub(add(N, -1), k)) if g is not None else None
        if g is None or not g.feasible(): continue
        s2 = s.copy(); s2.gam = g
        for f in ('vp_aa_idx', 'vp_aa_cidx'):
            o = q.call(f, [Ptr(a, 0), k], s2.copy()); p = o[0][1] if len(o) == 1 else None
            R.check(isinstance(p, Ptr) and p.r is b.r and sub(p.o, add(b.o, mulc(k, 4))) == 0, site + ':index', '%s: element k is at %r' % (lab, p))
        q.collect = False
        alts = query(q, s2, b.r, add(b.o, mulc(k, 4)), 'f32')
        if not alts: R.unknown(lab + ': content not resolved'); continue
        for s3, v in alts:
            w = tolin(want(s3, k))
            if isinstance(v, int) and v == 0: v = 0.0
            if isinstance(v, (float, Lin)) and gam_l_eq(s3.gam, w, tolin(v)): R.add()
            elif isinstance(v, (float, Lin)) and not any('imprecise' in x for x in tolin(v).bad): R.check(False, site + ':value', '%s: element holds %s' % (lab, fmt_form(v)))
            else: R.unknown('%s: element value %r' % (lab, v))

def congruent(e, s, a, mod_):
    """a modulo mod_, if it is the same for every value"""
    if isinstance(a, int): return a % mod_
    for r in range(mod_):
        if e.divisible(s, sub(a, r), mod_) is True: return r
    return None

def lifetimes(log, alive, key):
    """objects alive after the logged constructor and destructor calls; text of the first call that is out of order"""
    alive = list(alive); wrong = ''
    for t, p in log:
        k = key(p)
        if t == 'ctor':
            if k in alive: wrong = wrong or ' (an object is constructed twice)'
            alive.append(k)
        elif k in alive: alive.remove(k)
        else: wrong = wrong or ' (something that is no object is destroyed)'
    return alive, wrong

def counting(R, mod, release):
    """element constructors and destructors are called once per element, on the element"""
    size = conc(mod, 'vp_ac_sizeof'); es = conc(mod, 'vp_cnt_sizeof')
    for n in range(0, 6):
        R.instances += 1
        lab = 'array of %d objects' % n
        log = []
        def hook(eng, fp, args, s, I):
            if I.get('f') in ('vp_cnt_ctor', 'vp_cnt_dtor'): log.append((I['f'][7:], args[0])); return [(s, None)]
            return None
        e = Log(mod, prefer_unroll=True); e.malloc_res = 16; e.call_hook = hook
        a = mkregion('array', 'obj', size, 8, base=BaseUninit())
        outs = e.call('vp_ac_ctor', [Ptr(a, 0), n], State())
        if len(outs) != 1: R.unknown(lab + ': %d outcomes' % len(outs)); continue
        s = outs[0][0]; made = list(log); del log[:]
        pos = []
        for i in range(n):
            o = e.call('vp_ac_idx', [Ptr(a, 0), i], s.copy()); pos.append(o[0][1])
        outs = e.call('vp_ac_dtor', [Ptr(a, 0)], s)
        gone = list(log)
        key = lambda p: (p.r.id, p.o) if isinstance(p, Ptr) else None
        if not release:
            # objects that live elsewhere for a moment (temporaries) are no elements
            alive, wrong = lifetimes(made, [], key)
            R.check(not wrong and sorted(alive) == sorted(key(p) for p in pos), 'count:ctor', '%s: %d elements constructed, or not at their place%s' % (lab, len(alive), wrong))
            alive, wrong = lifetimes(gone, alive, key)
            R.check(not wrong and not alive, 'count:dtor', '%s: %d elements not destroyed, or not at their place%s' % (lab, len(alive), wrong))
            for i, p in enumerate(pos): R.check(p.o == pos[0].o + i * es, 'count:place', '%s: element %d at %r' % (lab, i, p))
            bad_obs(R, e, mod, lab, 'count')
        else:
            for s2, _ in outs: R.check(not held(mod, s2), 'count:leak', '%s: never released: %s' % (lab, held(mod, s2)[:1]))
            bad_obs(R, e, mod, lab, 'count')

# ------------------------------------------------------------------------------------------------ precision (C17)
LEVELS = ((1, 'PREC_LINEAR'), (8, 'PREC_48DB'), (12, 'PREC_72DB'), (16, 'PREC_96DB'), (20, 'PREC_120DB'), (24, 'PREC_144DB'))
def precision(R):
    mod = facts.load_driver()
    E = facts.enums()
    lev = sorted(p for _, p in E.precs)
    R.check(lev == [1, 8, 12, 16, 20, 24], 'levels', 'precision levels are %r' % (lev,))
    names = dict((p, n) for p, n in LEVELS)
    pieces = []; lo = 0
    for p in lev: pieces.append((lo, p, p)); lo = p + 1
    pieces.append((lo, 2 ** 32 - 1, lev[-1]))
    e = Log(mod, prefer_unroll=True); e.max_paths = 2000
    b = fresh('bits'); st = State(); st.gam = st.gam.add_ge(b).add_ge(sub(2 ** 32 - 1, b))
    try: outs = e.call('vp_find', [b], st)
    except (Budget, Imprecise, RecursionError) as x: outs = []
    und = [n for n in notes(e, mod)]
    R.info['paths'] = len(outs)
    if not outs or und or any(not isinstance(v, int) for _, v in outs):
        R.unknown('find_precision_for_bits: not resolved for all bit counts (%s)' % (und[:1] or 'values'))
        points = sorted(set([0, 1, 2, 3, 5, 31, 32, 33, 63, 64, 65, 255, 256, 257, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 8, 2 ** 32 - 1] + [p + d for p in lev for d in (-1, 0, 1)] + list(range(0, 130))))
        for x in points:
            try: o = Engine(mod, prefer_unroll=True).call('vp_find', [x], State())
            except Exception: continue
            want = next(v for lo, hi, v in pieces if lo <= x <= hi)
            R.check(len(o) >= 1, 'find:%d' % x, 'find_precision_for_bits (%d) does not return' % x)
            for _, v in o:
                if isinstance(v, int): R.check(v == want, 'find', 'find_precision_for_bits (%d) returns %d instead of %d' % (x, v, want))
    else:
        for lo, hi, want in pieces:
            covered = False
            for s, v in outs:
                R.instances += 1
                g = s.gam.add_ge(sub(b, lo)); g = g.add_ge(sub(hi, b)) if g is not None else None
                if g is None or not g.feasible(): R.add(); continue
                covered = True
                m = g.model() or {}
                R.check(v == want, 'find', 'find_precision_for_bits (%s) returns %d, the lowest sufficient level is %d' % (m.get(b.t[0][0], lo), v, want))
            R.check(covered, 'find', 'find_precision_for_bits does not return for %d..%d' % (lo, hi))
            R.sample('bits %d..%d -> %s' % (lo, hi, names[want]))
    for kind, data, loc, g in e.evs: R.check(False, 'find:' + kind, 'find_precision_for_bits reaches %s' % data)
    # names
    seen = {}
    for p in lev:
        o = Engine(mod, prefer_unroll=True).call('vp_name', [p], State())
        R.instances += 1
        if not R.check(len(o) == 1, 'name:%d' % p, 'precision_name (%d) does not return' % p): continue
        v = o[0][1]
        if isinstance(v, int): R.check(v != 0, 'name:%d' % p, 'precision_name (%s) is null' % names[p]); continue
        t = text(mod, o[0][0], v)
        if t is None: R.unknown('name of %s not resolved' % names[p]); continue
        R.check(t not in seen, 'name:%d' % p, 'precision_name of %s and %s are both "%s"' % (names[p], names.get(seen.get(t)), t)); seen[t] = p
        R.sample('%s: "%s"' % (names[p], t))
    e = Log(mod, prefer_unroll=True)
    p = fresh('p'); st = State(); st.gam = st.gam.add_ge(add(p, 2 ** 31)).add_ge(sub(2 ** 31 - 1, p))
    try: outs = e.call('vp_name', [p], st)
    except (Budget, Imprecise, RecursionError): outs = []
    if not outs: R.unknown('precision_name for arbitrary values not resolved')
    for s, v in outs:
        if isinstance(v, Ptr): R.add(); R.check(v.r.kind == 'global', 'name:any', 'precision_name returns a pointer to %s' % v.r.name)
        elif isinstance(v, int) and v == 0: R.check(False, 'name:any', 'precision_name (%r) is null' % ((s.gam.model() or {}).get(p.t[0][0]),))
        else: R.unknown('precision_name for arbitrary values: %r' % (v,))
    bad_obs(R, e, mod, 'precision_name', 'name')
    for kind, data, loc, g in e.evs: R.check(False, 'name:' + kind, 'precision_name reaches %s' % data)

def text(mod, st, p):
    if not isinstance(p, Ptr) or p.r.kind != 'global' or not isinstance(p.o, int): return None
    e = Engine(mod, prefer_unroll=True); out = ''
    for i in range(200):
        try: c = e.read(st, p.r, p.o + i, 'i8')
        except Exception: return None
        if not isinstance(c, int): return None
        if c == 0: return out
        out += chr(c & 255)
    return None
