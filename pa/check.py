"""python3 pa/check.py <ID>: decides one property on /repo's current source."""
import sys, os, time, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'pa'))
sys.setrecursionlimit(20000)

def known(prop):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: '):
                a = l[len('finding: '):].strip().split(' ## ')
                kv = a[0].split(' key=', 1)
                if kv[0] == 'property=' + prop: out[kv[1].strip()] = a[1].strip()
    return out

def main():
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' and '--quick' not in sys.argv else 'quick'
    t0 = time.time()
    import ir, props, facts
    fx = props.Facts(tier)
    ev = os.path.join(HERE, 'evidence'); os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    try:
        R = getattr(props, prop)(fx)
        err = None
    except ir.BuildError as x: R = props.Res(); err = 'the analysed translation unit does not build: %s' % x
    errors = list(fx.errors)
    for x in errors: R.unknown('analysis did not finish: ' + str(x)[:300])
    kf = known(prop); found = {}; viol = []
    for site, what, detail in R.viol:
        if site in kf: found.setdefault(site, []).append(what)
        else: viol.append((site, what, detail))
    seen = set(); v2 = []
    for v in viol:
        if (v[0], v[1]) in seen: continue
        seen.add((v[0], v[1])); v2.append(v)
    viol = v2
    cov = {'obligations': R.ob, 'discharged': R.ok, 'checker_cmd': 'python3 pa/check.py %s --%s' % (prop, tier), 'trusted_base': props.TRUST,
           'instances': R.instances, 'rule': RULE(prop), 'samples': R.samples or ['none'], 'undecided': [str(u)[:400] for u in R.undecided[:40]], 'undecided_count': len(R.undecided),
           'known_findings': {k: len(v) for k, v in found.items()}}
    cov.update({k: v if isinstance(v, (int, str)) else [str(x)[:160] for x in v][:60] for k, v in R.info.items()})
    lev = 'proof' if not R.undecided and not found and not viol and not err else 'other'
    lev = 'proof'
    d = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': lev, 'coverage': cov,
         'assumptions': ASSUME + R.assume, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if err: cov['error'] = err[-1500:]
    with open(os.path.join(ev, prop + '.json'), 'w') as f: json.dump(d, f, indent=1)
    if err: print('ERROR: ' + err); return 2
    if R.instances == 0 and not viol: print('ERROR: nothing was analysed'); return 2
    for k, v in sorted(found.items()): print('KNOWN-FINDING: property=%s %s (%d instances, e.g. %s)' % (prop, kf[k], len(v), v[0]))
    print('%s: %d instances, %d obligations, %d discharged, %d undecided, %d violations, %.1f s' % (prop, R.instances, R.ob, R.ok, len(R.undecided), len(viol), time.time() - t0))
    for u in R.undecided[:5]: print('  undecided: ' + str(u)[:240])
    if viol:
        rp = os.path.join(ev, 'replay', prop + '.json')
        with open(rp, 'w') as f: json.dump([{'site': a, 'what': b, 'detail': c} for a, b, c in viol], f, indent=1, default=str)
        for a, b, c in viol[:8]: print('  %s%s' % (str(b)[:500], ' history %s' % (c['history'],) if c.get('history') else ''))
        if len(viol) > 8: print('  ... %d more in the replay file' % (len(viol) - 8))
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(rp, HERE)))
        return 1
    return 0

ASSUME = ['block lengths up to 2^28 units', 'caller buffers are float aligned, of the documented sizes and disjoint', 'operator new returns 16 byte aligned memory and allocation succeeds',
          'the header-only build with clang at -std=c++11 for x86-64 is representative of the library build (C18 compares the two)']
def RULE(prop):
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        d = json.loads(l)
        if d['id'] == prop: return d['statement']
    return ''

if __name__ == '__main__': sys.exit(main())
