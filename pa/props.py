"""The properties, evaluated over the facts. Every evaluator fills a Res: obligations examined, how many were
discharged, what is violated (with a stable site key) and what stayed undecided."""
import math
import facts, quality

GLIBC = 'model of libc/libstdc++ primitives (memcpy, memmove, memset, malloc, free, operator new/delete)'
TRUST = ['clang 18 front end and the normalising opt passes (inlining, SROA, CFG simplification)', 'the abstract interpreter in pa/ (no machine-checked proof of it)', GLIBC,
         'floating point treated as real arithmetic with tolerance 1e-4 of the largest coefficient']

class Res:
    def __init__(self):
        self.ob = 0; self.ok = 0; self.viol = []; self.undecided = []; self.samples = []; self.info = {}; self.instances = 0; self.assume = []
    def add(self, n=1, ok=None):
        self.ob += n; self.ok += n if ok is None else ok
    def bad(self, site, what, **detail): self.viol.append((site, what, detail))
    def check(self, cond, site, what, **d):
        self.ob += 1
        if cond: self.ok += 1
        else: self.bad(site, what, **d)
        return cond
    def unknown(self, what, n=1): self.ob += n; self.undecided.append(what)
    def sample(self, x):
        if len(self.samples) < 12: self.samples.append(x)

NAMES = {1: 'PREC_LINEAR', 8: 'PREC_48DB', 12: 'PREC_72DB', 16: 'PREC_96DB', 20: 'PREC_120DB', 24: 'PREC_144DB'}
DB = {8: 48, 12: 72, 16: 96, 20: 120, 24: 144}
def mname(m): return 'UP' if m == 0 else 'DOWN'
def fname(f): return {1: 'FIR', 0: 'IIR', None: 'default'}[f]
def clabel(c):
    mode, ratio, prec, sse, filt = c
    return '%s ratio=%d %s %s sse=%s' % (mname(mode), ratio, fname(filt), NAMES.get(prec, prec), {1: 'on', 0: 'off', None: 'default'}[sse])
def stage_ratio(mode, ratio, idx): return 2 ** (idx + 1) if mode == 0 else ratio // 2 ** idx
def slabel(k):
    (mode, prec, sse, filt), ratio, idx, res = k
    return '%s %s %s %s stage x%d' % (mname(mode), fname(filt), NAMES.get(prec, prec), 'sse' if sse else 'plain', stage_ratio(mode, ratio, idx))

class Facts:
    def __init__(self, tier): self.tier = tier; self._c = self._s = None; self.errors = []
    def cfg(self):
        if self._c is None:
            self._c, bad = facts.config_facts(self.tier)
            self.errors += ['config %r: %s %s' % (a, st, r) for st, a, r in bad]
        return self._c
    def stages(self):
        if self._s is None:
            self.cfg()
            self._s, bad = facts.stage_facts(self.tier)
            self.errors += ['stage %r: %s %s' % (a, st, r) for st, a, r in bad]
        return self._s

# --------------------------------------------------------------------------------------------------- stage rules
def relevant_obs(F, kinds):
    obs = list((F.get('general') or {}).get('obs') or [])
    for part in ('reset', 'empty', 'odd'):
        if F.get(part): obs += F[part].get('obs') or []
    return [o for o in obs if o['kind'] in kinds]

def stage_rule(R, fx, kinds, sel=lambda F: True, obkinds=None, n=1, side=(), casc=None):
    """a stage satisfies the rule if its general proof went through, or if nothing of these kinds is wrong in it"""
    for k, F in sorted(fx.stages().items(), key=repr):
        if F.get('missing') or not sel(F): continue
        R.instances += 1
        lab = slabel(k)
        w = sum(o['ok'] + o['nunk'] + len(o['cand']) for o in relevant_obs(F, obkinds)) if obkinds else n
        w = max(1, w)
        hits = [v for v in F['viol'] if v[0] in kinds]
        if hits:
            R.add(w, w - 1)
            v = hits[0]
            R.bad('stage:%s:%s' % (lab, v[0]), '%s (%s): %s' % (lab, short_fn(F.get('fn', '?')), v[1]), history=v[2], kinds=sorted(set(x[0] for x in hits)))
        elif F['proved']: R.add(w)
        else:
            # not proved as a whole: is the part this rule needs proved?
            obs = relevant_obs(F, obkinds) if obkinds else None
            if obs and not any(o['cand'] or o['nunk'] for o in obs) and not any(gave_up(x) for x in F['open']): R.add(w)
            else:
                R.ob += w; R.ok += max(0, w - 1)
                R.undecided.append('%s: general proof open (%s); bounded re-analysis of %d histories found nothing of kind %s' % (lab, '; '.join(str(x) for x in F['open'][:2])[:200], len(F['runs']), '/'.join(sorted(kinds))))
        g = F.get('general') or {}
        R.sample('%s: %s; %s paths, %s loops; state %s' % (lab, short_fn(F.get('fn', '?')), g.get('paths'), g.get('loops'), '; '.join(g.get('live', [])[:2])[:120]))

def gave_up(x): return 'gave up' in str(x)
def short_fn(f): return f.replace('PandaResampler::Resampler2::', '').split('(')[0]

def cascades(fx, sel=lambda c: True):
    for (c, res), F in sorted(fx.cfg().items(), key=repr):
        if c[4] is None or not sel(c) or 'cascade' not in F: continue
        yield c, res, F['cascade']

def cascade_rule(R, fx, test, sel=lambda c: True, what='composition'):
    """test(violation tuple, facts) selects what counts"""
    for c, res, K in cascades(fx, sel):
        R.instances += 1
        n = max(1, sum(o['ok'] for o in K['obs']) if K['obs'] else 1)
        hits = [v for v in K['viol'] if test(v, K)]
        if hits:
            R.add(n, n - 1)
            v = hits[0]
            R.bad('config:%s:%s' % (clabel(c), v[0]), '%s, block of %d units: %s' % (clabel(c), v[2], v[1]), units=v[2])
        elif K['proved']: R.add(n)
        else: R.unknown('%s: %s not proved for all lengths (%s)' % (clabel(c), what, '; '.join(str(x) for x in K['open'][:2])[:200]))

FIRSEL = lambda F: F['cfg'][3] == 1
IIRSEL = lambda F: F['cfg'][3] == 0
BOUNDS = {'bounds-read', 'bounds-write', 'overlap', 'lifetime', 'null', 'wildptr', 'wild'}

def missing_stages(R, fx, sel=lambda c: True, key=None):
    """configurations for which the constructor leaves a stage out"""
    for (c, res), F in sorted(fx.cfg().items(), key=repr):
        if res != 16 or c[4] is None or not sel(c): continue
        want = {1: 0, 2: 1, 4: 2, 8: 3}[c[1]]
        got = len(F.get('stages', []))
        if got != want:
            site = 'ctor:%s' % clabel(c)
            if key: site = key(c)
            R.check(False, site, '%s: constructor creates %d of %d stages%s' % (clabel(c), got, want, diag_text(F)))
        else: R.check(True, '', '')
def diag_text(F):
    ev = [e for e in F['ctor']['events'] if e[0] in ('diag', 'abort')] if 'ctor' in F else []
    return ' and reports %s at %s' % (ev[0][1], ev[0][2]) if ev else ''

# --------------------------------------------------------------------------------------------------- properties
def C01(fx):
    R = Res()
    stage_rule(R, fx, {'split'}, n=2)
    def t(v, K): return v[0] in ('output', 'stage', 'stage-input', 'stage-even', 'stage-state') and bool(K['clean'])
    cascade_rule(R, fx, t, what='exactly-once delivery to the stages')
    return R

def C02(fx):
    R = Res()
    stage_rule(R, fx, BOUNDS, obkinds=BOUNDS)
    cascade_rule(R, fx, lambda v, K: v[0] in BOUNDS, what='accesses')
    return R

def C03(fx):
    R = Res()
    stage_rule(R, fx, {'stale-output'})
    cascade_rule(R, fx, lambda v, K: v[0] == 'output' and "O[" in v[1], what='output coverage')
    return R

def C04(fx):
    R = Res()
    stage_rule(R, fx, {'reset', 'fresh'}, n=2)
    for (c, res), F in sorted(fx.cfg().items(), key=repr):
        if c[4] is None or res != 16 or not F.get('q'): continue
        q = F['q']['reset']
        R.check(not [e for e in q['events'] if e[0] in ('diag', 'abort')] and len(q['vals']) == 1, 'reset:' + clabel(c), '%s: reset() does not return normally: %s' % (clabel(c), q['events'][:2]))
    return R

def C05(fx):
    R = Res(); S = fx.stages(); by = {}
    for k, F in S.items():
        if k[3] != 16: continue
        (mode, prec, sse, filt), ratio, idx, _ = k
        by.setdefault((mode, prec, filt, ratio, idx), {})[sse] = F
    for key in sorted(by):
        d = by[key]
        if 0 not in d or 1 not in d: continue
        mode, prec, filt, ratio, idx = key
        lab = '%s %s %s stage x%d' % (mname(mode), fname(filt), NAMES.get(prec), stage_ratio(mode, ratio, idx))
        R.instances += 1
        h1, h0 = quality.impulse(d[1]), quality.impulse(d[0])
        if h1 is None or h0 is None: R.unknown('%s: filter of one implementation not extracted' % lab); continue
        ns = set(h1) | set(h0); mx = max(abs(x) for x in h0.values())
        n = max(ns, key=lambda n: abs(h1.get(n, 0.0) - h0.get(n, 0.0)))
        err = abs(h1.get(n, 0.0) - h0.get(n, 0.0)) / mx
        R.check(err <= 2e-5, 'ssefpu:' + lab, '%s: SSE and plain filters differ: impulse response at %d is %.8g (sse) and %.8g (plain)' % (lab, n, h1.get(n, 0.0), h0.get(n, 0.0)))
        R.sample('%s: %d taps compared, largest difference %.2g of the peak' % (lab, len(ns), err))
        if not (d[0]['proved'] and d[1]['proved']):
            R.unknown('%s: one implementation is proved linear and time invariant only on bounded histories' % lab)
    # the impulse response characterises the whole implementation only if each is linear and time invariant
    bad = {'nonlinear', 'uniform', 'split', 'stale-output', 'stale-memory'}
    for key, d in sorted(by.items()):
        if 0 not in d or 1 not in d: continue
        kinds = [set(v[0] for v in d[s]['viol'] if v[0] in bad) for s in (0, 1)]
        lab = '%s %s %s stage x%d' % (mname(key[0]), fname(key[2]), NAMES.get(key[1]), stage_ratio(key[0], key[3], key[4]))
        for s in (0, 1):
            v = next((v for v in d[s]['viol'] if v[0] in kinds[s] - kinds[1 - s]), None)
            R.check(v is None, 'lti:' + lab, v and '%s: only the %s implementation departs from the filter: %s' % (lab, ('plain', 'sse')[s], v[1]), history=v and v[2])
    return R

def C06(fx):
    R = Res()
    stage_rule(R, fx, {'uniform', 'split', 'stale-output', 'stale-memory', 'nonlinear'}, sel=FIRSEL, n=2)
    cascade_rule(R, fx, lambda v, K: v[0] in ('output', 'stage-input', 'stage', 'stage-state'), sel=lambda c: c[4] == 1)
    # every stage's filter is a finite kernel
    for k, F in fx.stages().items():
        g = F.get('general') or {}
        if FIRSEL(F) and not F.get('missing') and g.get('kernel'): R.check(all(x for x in g['kernel']), 'stage:' + slabel(k), 'no kernel')
    return R

def stage_of(fx, c, i):
    """stage facts for stage i (processing order) of configuration c"""
    S = fx.stages(); mode, ratio, prec, sse, filt = c
    k = ((mode, prec, sse, filt), ratio, i, 16)
    if k in S: return S[k]
    n = {2: 1, 4: 2, 8: 3}[ratio]
    return S.get(((mode, prec, sse, filt), 8, i if mode == 0 else 3 - n + i, 16))

def C07(fx):
    R = Res()
    for (c, res), F in sorted(fx.cfg().items(), key=repr):
        mode, ratio, prec, sse, filt = c
        if res != 16 or filt is None or not F.get('q'): continue
        lab = clabel(c); R.instances += 1
        q = F['q']['delay']
        if len(q['vals']) != 1 or not isinstance(q['vals'][0], (int, float)): R.unknown('%s: delay() not resolved: %r' % (lab, q['vals'])); continue
        d = float(q['vals'][0])
        lo = hi = 0.0; tol = 1e-6; ok = True; n = {1: 0, 2: 1, 4: 2, 8: 3}[ratio]
        for i in range(n):
            S = stage_of(fx, c, i)
            h = quality.impulse(S) if S else None
            if h is None: ok = False; break
            m = quality.measure(h, mode, stage_ratio(mode, ratio, i))
            # the centre of a symmetric response; the group delay between 0 and 1 kHz otherwise
            xs = [m.get('center')] if filt == 1 else m.get('gds')
            if not xs or None in xs: ok = False; break
            if mode == 1: xs = [x / 2.0 for x in xs]             # in output samples of the stage
            left = n - 1 - i                    # stages after this one
            f = 2.0 ** left if mode == 0 else 0.5 ** left
            lo += min(xs) * f; hi += max(xs) * f
            if filt == 0: tol += 1e-4 * f
        if not ok: R.unknown('%s: a stage filter is not known' % lab); continue
        want = min(max(d, lo), hi)
        if R.check(abs(d - want) <= tol, 'delay:' + lab, '%s: delay() returns %.6g, the filters delay by %.6g output samples' % (lab, d, want)):
            R.check(d >= 0, 'delay:' + lab, '%s: delay() is negative' % lab)
            if ratio == 2 and filt == 1:
                unit = 1.0 if mode == 0 else 0.5
                R.check(abs(d / unit - round(d / unit)) < 1e-9, 'delay:' + lab, '%s: delay() %.6g is not a multiple of %g' % (lab, d, unit))
        R.sample('%s: delay() = %.6g, measured on the extracted filters %.6g' % (lab, d, want))
    return R

def quality_of(fx, sel):
    for k, F in sorted(fx.stages().items(), key=repr):
        if k[3] != 16 or F.get('missing') or not sel(F): continue
        (mode, prec, sse, filt), ratio, idx, _ = k
        yield k, F, quality.impulse(F), mode, prec, stage_ratio(mode, ratio, idx)

def C08(fx):
    R = Res()
    for k, F, h, mode, prec, stage in quality_of(fx, FIRSEL):
        lab = slabel(k); R.instances += 1
        if h is None: R.unknown(lab + ': filter not extracted'); continue
        m = quality.measure(h, mode, stage)
        if prec == 1:
            hh = {n: c for n, c in h.items() if abs(c) > 1e-9}
            n0 = min(hh); g = 2.0 if mode == 0 else 1.0
            got = [hh.get(n0 + i, 0.0) / g for i in range(3)]
            R.check(len(hh) == 3 and max(hh) == n0 + 2 and all(abs(x - y) < 1e-7 for x, y in zip(got, (0.25, 0.5, 0.25))), 'quality:' + lab, '%s: kernel %s is not linear interpolation' % (lab, sorted(hh.items())[:6]))
            continue
        lim = 10 ** (-(DB[prec] - 1) / 20.0)
        R.check(abs(m['dc'] - 1) <= lim, 'dc:' + lab, '%s: DC gain %.9g' % (lab, m['dc']))
        R.check(m['pb'] <= lim, 'passband:' + lab, '%s: passband error %.1f dB, allowed %.1f dB' % (lab, quality.db(m['pb']), quality.db(lim)))
        R.check(m['sb'] <= lim, 'stopband:' + lab, '%s: stopband rejection %.1f dB, needed %.1f dB' % (lab, quality.db(m['sb']), quality.db(lim)))
        R.check(m['asym'] <= 3e-8, 'symmetry:' + lab, '%s: kernel is not symmetric (%.3g of the peak)' % (lab, m['asym']))
        R.sample('%s: %d taps, passband error %.1f dB, stopband %.1f dB' % (lab, m['n'], quality.db(m['pb']), quality.db(m['sb'])))
    return R

def nonpad_poles(F):
    p = quality.poles(F)
    if p is None: return None, None
    return [x for x in p if abs(x + 1) > 1e-9], len([x for x in p if abs(x + 1) <= 1e-9])

def C09(fx):
    R = Res(); S = fx.stages()
    for k, F, h, mode, prec, stage in quality_of(fx, IIRSEL):
        lab = slabel(k)
        if prec == 1: continue
        R.instances += 1
        if h is None: R.unknown(lab + ': filter not extracted'); continue
        p, pad = nonpad_poles(F)
        if p is None: R.unknown(lab + ': poles not extracted')
        else:
            for x in p: R.check(-1 < x < 0, 'pole:' + lab, '%s: allpass coefficient %.9g is not inside (0, 1)' % (lab, -x))
            sib = S.get(((mode, prec, 0, 0),) + k[1:])
            if pad:
                sp, spad = nonpad_poles(sib) if sib else (None, None)
                R.check(sp is None or len(sp) == len(p), 'pole:' + lab, '%s: allpass coefficient 1' % lab)
        m = quality.measure(h, mode, stage)
        R.check(abs(m['dc'] - 1) <= 1e-4, 'dc:' + lab, '%s: DC gain %.9g' % (lab, m['dc']))
        lim = 10 ** (-(DB[prec] - 1) / 20.0)
        R.check(m['sb'] <= lim, 'stopband:' + lab, '%s: stopband rejection %.1f dB, needed %.1f dB' % (lab, quality.db(m['sb']), quality.db(lim)))
        # an allpass based halfband filter is power complementary
        R.check(m['pb'] <= max(1e-4, lim), 'passband:' + lab, '%s: passband error %.1f dB' % (lab, quality.db(m['pb'])))
        R.sample('%s: %s coefficients in (0,1), stopband %.1f dB' % (lab, len(p) if p is not None else '?', quality.db(m['sb'])))
    return R

def C10(fx):
    R = Res(); C = fx.cfg(); S = fx.stages()
    missing_stages(R, fx, key=lambda c: ctor_site(c))
    for (c, res), F in sorted(C.items(), key=repr):
        mode, ratio, prec, sse, filt = c
        if res != 16: continue
        lab = clabel(c); R.instances += 1
        R.check(F['ctor']['paths'] == 1, 'ctor:' + lab, '%s: the constructor has %d outcomes' % (lab, F['ctor']['paths']))
        if filt is None:
            # defaulted arguments: use_sse_if_available = true, filter = FILTER_FIR
            ref = C.get(((mode, ratio, prec, 1 if sse is None else sse, 1), 16))
            if ref and 'objfp' in ref: R.check(F.get('objfp') == ref['objfp'], 'ctor:' + lab, '%s: differs from the explicit FIR construction' % lab)
            continue
        st = F.get('stages', [])
        for i, (dem, vec) in enumerate(st):
            if prec == 1: continue
            R.check(vec == bool(sse), 'sse:%s' % lab, '%s: stage %d (%s) is %s' % (lab, i + 1, short_fn(dem), 'vectorised' if vec else 'not vectorised'))
    # precision and stage
    taps = {}
    for k, F, h, mode, prec, stage in quality_of(fx, lambda F: True):
        lab = slabel(k)
        if h is None or prec == 1: continue
        filt = F['cfg'][3]
        fir = F['general'].get('kernel') is not None or F.get('bker')
        R.check(bool(fir) == (filt == 1) or not F['general'].get('proved'), 'filter:' + lab, '%s: wrong filter type' % lab)
        m = quality.measure(h, mode, stage); lim = 10 ** (-(DB[prec] - 1) / 20.0)
        R.check(m['sb'] <= lim, 'stopband:' + lab, '%s: stopband rejection %.1f dB, precision needs %.1f dB' % (lab, quality.db(m['sb']), quality.db(lim)))
        g = 2.0 if mode == 0 else 1.0
        R.check(abs(m['dc'] - 1) <= max(1e-4, lim), 'mode:' + lab, '%s: DC gain %.6g (scaled for the other mode?)' % (lab, m['dc']))
        taps[(mode, F['cfg'][2], filt, prec, stage)] = h
    def same(a, b): return all(abs(a.get(n, 0) - b.get(n, 0)) < 1e-7 for n in set(a) | set(b))
    for (mode, sse, filt, prec, stage), h in sorted(taps.items()):
        for p2 in DB:
            if p2 <= prec: continue
            o = taps.get((mode, sse, filt, p2, stage))
            if o is None or (filt == 0 and stage != 2): continue
            R.check(not same(h, o), 'precision:%d:%d:%d' % (mode, filt, stage), '%s %s x%d: %s and %s use the same filter' % (mname(mode), fname(filt), stage, NAMES[prec], NAMES[p2]))
        o = taps.get((mode, sse, filt, prec, stage * 2))
        if o is not None: R.check(not same(h, o), 'stage:%d:%d:%d' % (mode, filt, stage), '%s %s %s: stages x%d and x%d use the same filter' % (mname(mode), fname(filt), NAMES[prec], stage, stage * 2))
    return R

def ctor_site(c):
    """all sse/mode/ratio variants of a filter and precision share the defect of the precision switch"""
    return 'ctor:filter=%s:precision=%s:no stage' % (fname(c[4]), NAMES[c[2]])

def branch_taps(h):
    """coefficients per polyphase branch of a factor 2 filter; the larger branch is the one that has coefficients"""
    c = [0, 0]
    for n, x in h.items():
        if abs(x) > 1e-9: c[n % 2] += 1
    return max(c)

def numeric_order(fx, c):
    """number of coefficients of the first factor 2 stage, from the filter that is actually applied"""
    n = {2: 1, 4: 2, 8: 3}[c[1]]
    i = 0 if c[0] == 0 else n - 1
    S = stage_of(fx, c, i)
    if S is None: return None
    if c[4] == 1:
        h = quality.impulse(S)
        return None if h is None else branch_taps(h)
    p, pad = nonpad_poles(S)
    return None if p is None else len(p)

def query_obs(R, F, lab, names):
    for q in names:
        Q = F['q'].get(q)
        if not Q: continue
        for o in Q['obs']:
            R.add(o['ok'] + len(o['cand']) + o['nunk'], o['ok'])
            if o['cand']: R.bad('query:%s:%s' % (q, lab), '%s: %s() %s at %s: %s' % (lab, q, o['kind'], o['at'], o['cand'][0][0]))
            elif o['nunk']: R.undecided.append('%s: %s() %s at %s' % (lab, q, o['kind'], o['at']))

def C11(fx):
    R = Res()
    missing_stages(R, fx, key=ctor_site)
    for (c, res), F in sorted(fx.cfg().items(), key=repr):
        mode, ratio, prec, sse, filt = c
        if res != 16 or filt is None or not F.get('q'): continue
        lab = clabel(c); R.instances += 1
        query_obs(R, F, lab, ('order', 'delay', 'sse', 'reset'))
        for q in ('order', 'delay', 'sse', 'reset'):
            R.check(len(F['q'][q]['vals']) == 1, 'query:%s:%s' % (q, lab), '%s: %s() does not return' % (lab, q))
        v = F['q']['order']['vals']
        if len(v) == 1 and isinstance(v[0], int):
            want = 0 if ratio == 1 else numeric_order(fx, c)
            if want is None: R.unknown(lab + ': number of coefficients not known')
            elif not (filt == 0 and prec == 1): R.check(v[0] == want, 'order:' + lab, '%s: order() is %d, the first factor 2 stage has %d coefficients' % (lab, v[0], want))
            R.sample('%s: order() = %s' % (lab, v[0]))
        v = F['q']['sse']['vals']
        if len(v) == 1 and isinstance(v[0], int):
            st = F['stages']
            want = 0
            if ratio > 1: want = int(st[0 if mode == 0 else len(st) - 1][1])
            if prec != 1: R.check(v[0] == want, 'sse:' + lab, '%s: sse_enabled() is %d but the stage is %s' % (lab, v[0], 'vectorised' if want else 'not vectorised'))
        elif len(v) == 1: R.unknown('%s: sse_enabled() %r' % (lab, v))
    return R

BADEV = {'alloc', 'free', 'extern', 'abort'}
def C12(fx):
    R = Res()
    fns = set()
    def effects(lab, events, notes, site):
        for e in events:
            if e[0] in BADEV and not (e[0] == 'abort'): R.check(False, '%s:%s:%s' % (site, e[0], e[2]), '%s: processing reaches %s (%s) at %s' % (lab, e[1], e[0], e[2]))
        for n in notes:
            if n.startswith('variable stack') or n.startswith('loop stack'): R.check(False, '%s:stack:%s' % (site, n), '%s: stack use depends on the input: %s' % (lab, n))
            elif n.startswith('unknown call') : R.unknown('%s: %s' % (lab, n))
            elif n.startswith('external '): R.check(False, '%s:extern:%s' % (site, n), '%s: processing calls %s' % (lab, n))
        R.add()
    for k, F in sorted(fx.stages().items(), key=repr):
        if F.get('missing'): continue
        lab = slabel(k); R.instances += 1
        g = F.get('general') or {}
        fns |= set(g.get('callees') or [])
        effects(lab, g.get('events') or [], g.get('notes') or [], 'stage:' + lab)
        for part in ('reset', 'empty', 'odd'):
            P = F.get(part)
            if P:
                effects(lab + ' ' + part, P.get('events') or [], P.get('notes') or [], 'stage:' + lab + ':' + part); fns |= set(P.get('callees') or [])
        for v in F['viol']:
            if v[0] in ('event-alloc', 'event-free', 'event-extern'): R.check(False, 'stage:' + lab + ':' + v[0], '%s: %s' % (lab, v[1]), history=v[2])
        if not g.get('obs'): R.unknown(lab + ': no path of the general analysis completed')
    for (c, res), F in sorted(fx.cfg().items(), key=repr):
        if c[4] is None or res != 16: continue
        lab = clabel(c); R.instances += 1
        for q, Q in F.get('q', {}).items(): effects('%s %s()' % (lab, q), Q['events'], Q['notes'], 'query:' + q + ':' + lab); fns |= set(Q['callees'])
        K = F.get('cascade')
        if K: effects(lab, K['events'], K['notes'], 'config:' + lab); fns |= set(K['callees'])
    mod = facts.load_driver()
    total = 0
    for f in sorted(fns):
        F = mod.funcs.get(f)
        if F is None or F.decl: continue
        st = 0
        for b, blk in enumerate(F.blocks):
            for I in blk:
                if I['op'] != 'alloca': continue
                if any(b in lp.b for lp in F.loops) : R.check(False, 'alloca:' + f, '%s allocates stack inside a loop at %s' % (F.dem, mod.loc_user(I.get('l', -1))))
        R.add(); total += 1
    for cyc in recursion(mod, fns): R.check(False, 'recursion:' + cyc, 'recursive call: ' + cyc)
    R.info['functions'] = sorted(mod.funcs[f].dem if f in mod.funcs else f for f in fns)[:200]
    return R

def recursion(mod, fns):
    out = []
    edges = {}
    for f in fns:
        F = mod.funcs.get(f)
        if F is None: continue
        edges[f] = set(I['f'] for b in F.blocks for I in b if I['op'] in ('call', 'invoke') and 'f' in I)
    for f in sorted(edges):
        seen = set(); todo = list(edges[f])
        while todo:
            x = todo.pop()
            if x == f: out.append(mod.funcs[f].dem); break
            if x in seen: continue
            seen.add(x); todo += edges.get(x, [])
    return out

def C13(fx):
    R = Res()
    fns = set()
    for k, F in sorted(fx.stages().items(), key=repr):
        if F.get('missing'): continue
        g = F.get('general') or {}; R.instances += 1; fns |= set(g.get('callees') or [])
        for w in g.get('globals') or []: R.check(False, 'stage:%s:%s' % (slabel(k), w), '%s: processing writes shared state: %s' % (slabel(k), w))
        R.add()
        if 'global' in (F.get('reset') or {}).get('writes', []): R.check(False, 'stage:%s:reset' % slabel(k), '%s: reset writes shared state' % slabel(k))
    for (c, res), F in sorted(fx.cfg().items(), key=repr):
        if res != 16: continue
        lab = clabel(c); R.instances += 1
        for w in F['ctor']['globals']: R.check(False, 'ctor:%s:%s' % (lab, w), '%s: construction writes shared state: %s' % (lab, w))
        for q, Q in F.get('q', {}).items():
            for w in Q['globals']: R.check(False, 'query:%s:%s' % (lab, w), '%s: %s() writes shared state: %s' % (lab, q, w))
            if q != 'reset':
                R.check(not Q['writes'], 'const:%s:%s' % (q, lab), '%s: const %s() modifies %s' % (lab, q, Q['writes'][:1]))
        K = F.get('cascade')
        if K:
            for w in K['globals']: R.check(False, 'config:%s:%s' % (lab, w), '%s: process_block writes shared state: %s' % (lab, w))
            R.add()
    import globals_scan
    globals_scan.scan(R)
    return R

def C14(fx):
    R = Res()
    stage_rule(R, fx, {'constwrite', 'retain'}, obkinds={'constwrite'})
    cascade_rule(R, fx, lambda v, K: v[0] == 'constwrite')
    for k, F in fx.stages().items():
        for w in F.get('retained') or []: R.check(False, 'retain:' + slabel(k), '%s: %s' % (slabel(k), w))
    for (c, res), F in sorted(fx.cfg().items(), key=repr):
        if res != 16: continue
        lab = clabel(c)
        for w in F.get('retained') or []: R.check(False, 'ctor:' + lab, '%s: after construction %s' % (lab, w))
        for w in (F.get('cascade') or {}).get('retained') or []: R.check(False, 'config:' + lab, '%s: after process_block %s' % (lab, w))
        R.add()
        for part in ('ctor',):
            for o in F[part]['obs']:
                if o['kind'] == 'constwrite':
                    R.add(o['ok'], o['ok'])
                    if o['cand']: R.bad('ctor:' + lab, '%s: construction modifies coefficients at %s' % (lab, o['at']))
    return R

def obs_rule(R, obs, kinds, lab, site, part):
    for o in obs:
        if o['kind'] not in kinds: continue
        R.add(o['ok'] + len(o['cand']) + o['nunk'], o['ok'])
        if o['cand']: R.bad('%s:%s' % (site, o['kind']), '%s: %s %s at %s: %s' % (lab, part, o['kind'], o['at'], o['cand'][0][0]))
        elif o['nunk']: R.undecided.append('%s: %s %s at %s' % (lab, part, o['kind'], o['at']))

def C15(fx):
    R = Res()
    for (c, res), F in sorted(fx.cfg().items(), key=repr):
        if res != 16 or 'dtor' not in F: continue
        lab = clabel(c); R.instances += 1; D = F['dtor']
        R.check(not D['leak'], 'leak:' + lab, '%s: never released: %s' % (lab, '; '.join(D['leak'][:2])))
        R.check(D['paths'] == 1, 'dtor:' + lab, '%s: the destructor has %d outcomes' % (lab, D['paths']))
        obs_rule(R, D['obs'], {'free', 'lifetime', 'null', 'wildptr'} | BOUNDS, lab, 'dtor:' + lab, 'destructor')
        R.sample('%s: %d allocations, %d releases' % (lab, F['allocs'], D['frees']))
    stage_rule(R, fx, {'free', 'event-alloc', 'event-free'}, obkinds={'free'})
    import misc
    misc.copies(R)
    misc.aligned(R, release=True)
    return R

def C16(fx):
    R = Res()
    import misc
    misc.aligned(R)
    return R

def C17(fx):
    R = Res()
    import misc
    misc.precision(R)
    return R

def C18(fx):
    R = Res()
    import link
    link.check(R, fx)
    return R

def C19(fx):
    R = Res(); C = fx.cfg(); S = fx.stages()
    tabs = {}
    for (c, res), F in sorted(C.items(), key=repr):
        mode, ratio, prec, sse, filt = c
        if res != 16 or filt == 0: continue
        lab = clabel(c); R.instances += 1
        obs_rule(R, F['ctor']['obs'], BOUNDS, lab, 'ctor:' + lab, 'constructor')
        for e in F['ctor']['events']:
            if e[0] in ('diag', 'abort'): R.check(False, 'ctor:' + lab, '%s: constructor reports %s at %s' % (lab, e[1], e[2]))
        for t, (offs, unk, size) in F.get('tables', {}).items():
            d = tabs.setdefault(t, [set(), False, size]); d[0] |= set(offs); d[1] |= unk
        if ratio > 1 and filt == 1 and F.get('q'):
            v = F['q']['order']['vals']; want = numeric_order(fx, c)
            if want is None or len(v) != 1: R.unknown(lab + ': order not resolved')
            else: R.check(v[0] == want, 'order:' + lab, '%s: order() is %r, the filter has %d coefficients' % (lab, v[0], want))
    mod = facts.load_driver()
    for t, (offs, unk, size) in sorted(tabs.items()):
        if unk or not isinstance(size, int): R.unknown('table %s read at unknown positions' % t); continue
        g = mod.globals.get(t[7:]) or {}
        miss = sorted(set(o for o, ty, v in g.get('init') or [] if ty in ('f32', 'f64') and nonzero(v) and o not in offs))
        R.check(not miss, 'table:' + t, 'coefficient table %s: elements at offsets %s are never used' % (t[7:], miss[:5]))
        R.sample('table %s: all %d bytes read' % (t[7:], size) if not miss else t)
    # vectorised coefficients are the scalar ones
    by = {}
    for k, F in S.items():
        if FIRSEL(F) and k[3] == 16: by.setdefault((k[0][0], k[0][1], k[1], k[2]), {})[k[0][2]] = F
    for key, d in sorted(by.items()):
        if len(d) != 2: continue
        lab = '%s FIR %s stage x%d' % (mname(key[0]), NAMES.get(key[1]), stage_ratio(key[0], key[2], key[3]))
        h1, h0 = quality.impulse(d[1]), quality.impulse(d[0])
        if h1 is None or h0 is None: R.unknown(lab + ': kernel not extracted'); continue
        mx = max(abs(x) for x in h0.values())
        n = max(set(h1) | set(h0), key=lambda n: abs(h1.get(n, 0.0) - h0.get(n, 0.0)))
        R.check(abs(h1.get(n, 0.0) - h0.get(n, 0.0)) <= 1e-8 * mx, 'coeffs:' + lab, '%s: coefficient at %d is %.9g vectorised and %.9g scalar' % (lab, n, h1.get(n, 0.0), h0.get(n, 0.0)))
        R.check(branch_taps(h1) == branch_taps(h0), 'coeffs:' + lab, '%s: %d vectorised and %d scalar coefficients' % (lab, branch_taps(h1), branch_taps(h0)))
    stage_rule(R, fx, BOUNDS, sel=FIRSEL, obkinds=BOUNDS)
    return R

def nonzero(v):
    try: return float(v) != 0.0
    except Exception: return True

def C20(fx):
    R = Res()
    stage_rule(R, fx, {'empty'}, n=2)
    cascade_rule(R, fx, lambda v, K: v[2] == 0)
    for k, F in fx.stages().items():
        for v in F['viol']:
            if v[0] in ('event-diag', 'event-abort', 'abort') and v[2] and v[2][-1] == 0: R.check(False, 'stage:%s:%s' % (slabel(k), v[0]), '%s: %s' % (slabel(k), v[1]), history=v[2])
    return R

def C21(fx):
    R = Res()
    stage_rule(R, fx, {'odd'}, sel=lambda F: FIRSEL(F) and F['cfg'][0] == 1 , n=3)
    for k, F in fx.stages().items():
        if not (FIRSEL(F) and F['cfg'][0] == 1): continue
        for v in F['viol']:
            if v[0] in ('abort', 'event-abort') and v[2] and isinstance(v[2][-1], int) and v[2][-1] % 2: R.check(False, 'stage:%s:%s' % (slabel(k), v[0]), '%s: %s' % (slabel(k), v[1]), history=v[2])
    for (c, res), F in sorted(fx.cfg().items(), key=repr):
        if c[4] != 1 or res != 16 or 'odd' not in F: continue
        lab = clabel(c); R.instances += 1
        R.check(not F['odd']['viol'], 'odd:' + lab, '%s: %s' % (lab, '; '.join(F['odd']['viol'])[:300]))
        if F['odd']['open']: R.unknown('%s: %s' % (lab, F['odd']['open'][0]))
        else: R.add()
    return R

def C22(fx):
    R = Res()
    for c, res, K in cascades(fx, lambda c: c[1] == 1):
        q = fx.cfg()[(c, res)].get('q', {}).get('delay')
        lab = clabel(c)
        if q:
            v = q['vals']
            if len(v) == 1 and isinstance(v[0], (int, float)): R.check(float(v[0]) == 0.0, 'delay:' + lab, '%s: delay() is %r' % (lab, v[0]))
            else: R.unknown(lab + ': delay() not resolved')
        R.check(not fx.cfg()[(c, res)].get('stages'), 'stage:' + lab, '%s: a ratio 1 resampler filters the signal' % lab)
    cascade_rule(R, fx, lambda v, K: True, sel=lambda c: c[1] == 1, what='identity')
    return R

def C23(fx):
    R = Res()
    cascade_rule(R, fx, lambda v, K: v[0] in ('stage', 'stage-state', 'stage-input', 'stage-even', 'stage-alias', 'output', 'abort'), sel=lambda c: c[1] in (4, 8))
    for (c, res), F in sorted(fx.cfg().items(), key=repr):
        mode, ratio, prec, sse, filt = c
        if res != 16 or filt is None or ratio < 4 or prec == 1 or 'cascade' not in F: continue
        n = {4: 2, 8: 3}[ratio]; lab = clabel(c)
        for i in range(n):
            S = stage_of(fx, c, i); h = quality.impulse(S) if S else None
            if h is None: R.unknown('%s: stage %d not known' % (lab, i + 1)); continue
            m = quality.measure(h, mode, stage_ratio(mode, ratio, i)); lim = 10 ** (-(DB[prec] - 1) / 20.0)
            R.check(m['sb'] <= lim, 'order:' + lab, '%s: position %d holds a filter that is not made for rate x%d (%.1f dB)' % (lab, i + 1, stage_ratio(mode, ratio, i), quality.db(m['sb'])))
    return R

def C24(fx):
    R = Res()
    stage_rule(R, fx, {'align'}, obkinds={'align'})
    cascade_rule(R, fx, lambda v, K: v[0] == 'align')
    for (c, res), F in sorted(fx.cfg().items(), key=repr):
        lab = clabel(c)
        obs_rule(R, F['ctor']['obs'], {'align'}, lab, 'ctor:' + lab, 'constructor')
        for q, Q in F.get('q', {}).items(): obs_rule(R, Q['obs'], {'align'}, lab, 'query:' + lab, q)
    return R


def C25(fx):
    R = Res()
    missing_stages(R, fx, key=ctor_site)
    stage_rule(R, fx, {'event-diag', 'event-abort', 'abort'})
    cascade_rule(R, fx, lambda v, K: v[0] in ('event-diag', 'event-abort', 'abort'))
    for (c, res), F in sorted(fx.cfg().items(), key=repr):
        if res != 16: continue
        lab = clabel(c)
        for part, ev in [('constructor', F['ctor']['events']), ('destructor', F.get('dtor', {}).get('events', [])), ('first block', F.get('discover', {}).get('events', []))] + [(q + '()', Q['events']) for q, Q in F.get('q', {}).items()]:
            bad = [e for e in ev if e[0] in ('diag', 'abort')]
            site = ctor_site(c) if part in ('constructor', 'first block') and c[4] == 0 and c[2] == 1 else 'config:%s:%s' % (lab, part)
            R.check(not bad, site, bad and '%s: %s reaches %s at %s' % (lab, part, bad[0][1], bad[0][2]))
    return R

def C26(fx):
    R = Res()
    stage_rule(R, fx, {'stale-memory'}, n=2)
    cascade_rule(R, fx, lambda v, K: v[0] in ('stage-input', 'output') and ('U[' in v[1] or 'L[' in v[1] or 'S[' in v[1] or 'uninit' in v[1]))
    return R

def C27(fx):
    R = Res()
    import designer
    designer.check(R)
    return R

def C28(fx):
    R = Res()
    import designer
    designer.check_counts(R)
    return R

NEEDS = {'C16': '', 'C17': '', 'C27': '', 'C28': ''}
ALL = ['C%02d' % i for i in range(1, 29)]

def C33(fx):
    R = Res()
    cs, ss, bad = facts.arm_facts(fx.tier)
    fx.errors += ['ARM build %r: %s %s' % (a, st, r) for st, a, r in bad]
    for c, F in sorted(cs.items(), key=repr):
        mode, ratio, prec, sse, filt = c
        if filt == 0 and prec == 1: continue         # recorded under C10
        R.instances += 1
        lab = 'ARM ' + clabel(c)
        st = F.get('stages', []); want = {1: 0, 2: 1, 4: 2, 8: 3}[ratio]
        if not R.check(len(st) == want, 'arm:ctor:' + lab, '%s: constructor creates %d of %d stages%s' % (lab, len(st), want, diag_text(F))): continue
        vec = bool(sse) and filt == 1
        for i, (dem, v) in enumerate(st):
            if prec == 1 and filt == 1: continue
            R.check(v == vec, 'arm:sse:' + lab, '%s: stage %d (%s) is %s' % (lab, i + 1, short_fn(dem), 'vectorised' if v else 'not vectorised'))
        q = F['q'].get('sse') if F.get('q') else None
        if q and ratio > 1: R.check(q['vals'] == [1 if vec else 0], 'arm:query:' + lab, '%s: sse_enabled() returns %r' % (lab, q['vals']))
        o = F.get('cascade')
        if o:
            R.ob += 1
            if o['viol']: R.bad('arm:cascade:' + lab, '%s, block of %d units: %s' % (lab, o['viol'][0][2], o['viol'][0][1]))
            elif o['proved']: R.ok += 1
            else: R.undecided.append('%s: composition not proved (%s)' % (lab, '; '.join(str(x) for x in o['open'][:2])[:200]))
    by = {}
    for k, F in ss.items(): by.setdefault((k[0][0], k[0][1], k[2], k[3]), {})[k[0][2]] = F
    for (mode, prec, idx, res), d in sorted(by.items()):
        lab = 'ARM %s FIR %s stage x%d' % (mname(mode), NAMES.get(prec), stage_ratio(mode, 8, idx))
        if 0 not in d or 1 not in d or d[0].get('missing') or d[1].get('missing'): continue
        R.instances += 1
        for s in (1, 0):
            F = d[s]; l2 = lab + (' neon' if s else ' plain'); n = max(1, sum(o['ok'] for o in F['general'].get('obs', [])))
            if F['viol']:
                R.add(n, n - 1); v = F['viol'][0]
                R.bad('arm:stage:%s:%s' % (l2, v[0]), '%s (%s): %s' % (l2, short_fn(F.get('fn', '?')), v[1]), history=v[2])
            elif F['proved']: R.add(n)
            else: R.unknown('%s: general proof open (%s)' % (l2, '; '.join(str(x) for x in F['open'][:2])[:200]))
            R.sample('%s: %s; %s paths, %s loops, %d obligations' % (l2, short_fn(F.get('fn', '?')), F['general'].get('paths'), F['general'].get('loops'), n))
        h1, h0 = quality.impulse(d[1]), quality.impulse(d[0])
        if h1 is None or h0 is None: R.unknown(lab + ': filter of one implementation not extracted'); continue
        mx = max(abs(x) for x in h0.values())
        n = max(set(h1) | set(h0), key=lambda n: abs(h1.get(n, 0.0) - h0.get(n, 0.0)))
        R.check(abs(h1.get(n, 0.0) - h0.get(n, 0.0)) <= 2e-5 * mx, 'arm:same:' + lab, '%s: impulse response at %d is %.8g (neon) and %.8g (plain)' % (lab, n, h1.get(n, 0.0), h0.get(n, 0.0)))
    return R

def C29(fx):
    R = Res()
    out, bad = facts.hiir_facts(fx.tier)
    fx.errors += ['%r: %s %s' % (a, st, r) for st, a, r in bad]
    for (cls, nc), F in sorted(out.items()):
        lab = '%s<%d>' % (cls, nc)
        R.check(F['count'] == nc, 'hiir:%s:count' % lab, '%s::NBR_COEFS is %r' % (lab, F['count']))
        R.add(F.get('n', 0))
        for en, what in F['bad']: R.bad('hiir:%s:%s' % (lab, en), '%s %s: %s' % (lab, en, what))
        R.ob += len(F['bad'])
        for x in F['open']: R.unknown('%s: %s' % (lab, x))
        for en, E in sorted(F['entries'].items()):
            R.instances += 1
            if E['proved']: R.add(max(1, E['n']))
            elif any(b[0] == en for b in F['bad']): R.ob += 1
            else: R.unknown('%s %s: general proof open (%s); concrete blocks agree' % (lab, en, '; '.join(E['fail'])[:200]))
            R.sample('%s %s: %s paths, %s loops, %s state words, %s obligations' % (lab, en, E['paths'], E['loops'], E['order'], E['n']))
    return R

def C35(fx):
    R = Res()
    import extra
    extra.moving(R)
    return R

def C36(fx):
    R = Res()
    import extra
    extra.selftest(R)
    return R

def C37(fx):
    R = Res()
    import extra
    extra.reported(R)
    return R

def C38(fx):
    R = Res()
    import extra
    extra.delays(R)
    return R

def C39(fx):
    R = Res()
    import extra
    extra.agree(R)
    return R

def C40(fx):
    R = Res()
    import extra
    extra.copies(R)
    return R
