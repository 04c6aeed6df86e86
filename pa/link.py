"""Header-only mode and library mode: linkage of every definition, and equality of the code in both modes."""
import os, json, subprocess
import facts, ir as irmod
from concurrent.futures import ThreadPoolExecutor

MERGEABLE = ('linkonce_odr', 'weak_odr', 'linkonce', 'weak', 'internal', 'private', 'available_externally', 'odr', 'common')
STDS = ('c++11', 'c++14', 'c++17', 'c++20')

def compile_bc(src, out, flags, std='c++11'):
    irmod.sh(['clang++', '-std=' + std, '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-w', '-I', os.path.join(facts.REPO, 'include')] + flags + ['-emit-llvm', '-c', src, '-o', out])
    return out
def raw(bc): return json.loads(irmod.sh([irmod.exporter(), bc]))
def compiles(src, flags, std):
    r = subprocess.run(['clang++', '-std=' + std, '-fsyntax-only', '-w', '-I', os.path.join(facts.REPO, 'include')] + flags + [src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return r.returncode == 0, r.stderr.decode(errors='replace')

def from_repo(j, f):
    return 'PandaResampler' in f['dem'] or 'include/pandaresampler' in (f.get('file') or '')

def canonical(j):
    """functions of a module up to locations and names of private constants"""
    priv = {}
    for g in j['globals']:
        if g['link'] in ('private',) or g['name'].startswith(('.str', '__PRETTY_FUNCTION__', '__func__', '__const.', 'switch.table')): priv[g['name']] = json.dumps(g.get('init'), sort_keys=True)
    out = {}
    alias = {a['name']: a['of'] for a in j.get('aliases', [])}
    def c(x, key=None):
        if key in ('f', 'g') and isinstance(x, str):
            x = alias.get(x, x)
            return x.replace('C1E', 'C2E').replace('D1Ev', 'D2Ev')
        if isinstance(x, dict):
            d = {}
            for k, v in x.items():
                if k == 'l': continue
                if k == 'g' and v in priv: d[k] = 'const ' + priv[v]
                else: d[k] = c(v, k)
            return d
        if isinstance(x, list): return [c(v) for v in x]
        return x
    for f in j['functions']:
        if not f['decl']: out[f['name']] = json.dumps([c(f['args']), f['ret'], c(normal(f['blocks'], len(f['args'])))], sort_keys=True)
    return out

def normal(blocks, nargs):
    """the blocks reachable without exceptions, in depth first order, with values numbered in that order"""
    order = []; num = {}; ids = {}
    def succ(I): return list(I.get('t') or []) + ([I['d']] + [x[1] for x in I['cases']] if I['op'] == 'switch' else [])
    todo = [0]
    while todo:
        b = todo.pop()
        if b in num: continue
        num[b] = len(order); order.append(b)
        t = blocks[b][-1] if blocks[b] else {'op': '?'}
        todo += reversed(succ(t))
    for i in range(nargs): ids[i] = i
    n = nargs
    for b in order:
        for I in blocks[b]:
            if I.get('id') is not None: ids[I['id']] = n; n += 1
    def v(x): return ('v', ids.get(x, x)) if isinstance(x, int) and not isinstance(x, bool) else x
    out = []
    for b in order:
        ob = []
        for I in blocks[b]:
            J = dict(I)
            if J['op'] == 'invoke': J['op'] = 'call'; J.pop('u', None)
            if J.get('id') is not None: J['id'] = ids[J['id']]
            for k in ('p', 'v', 'b', 'c', 'fp'):
                if k in J: J[k] = v(J[k])
            if 'a' in J: J['a'] = [v(x) for x in J['a']]
            if J['op'] == 'phi': J['inc'] = sorted(([num[x], v(y)] for x, y in J['inc'] if x in num), key=repr)
            if J['op'] == 'getelementptr' and isinstance(J.get('x'), list): J['x'] = [[v(t[0])] + t[1:] for t in J['x']]
            if 't' in J: J['t'] = [num.get(x, x) for x in J['t']]
            if J['op'] == 'switch': J['d'] = num.get(J['d']); J['cases'] = [[x, num.get(y)] for x, y in J['cases']]
            ob.append(J)
        out.append(ob)
    return out

def tables(j):
    out = {}
    for g in j['globals']:
        if not g.get('decl') and 'PandaResampler' in g['dem'] and g.get('init'): out[g['name']] = json.dumps(g['init'], sort_keys=True)
    return out

def check(R, fx):
    irmod.exporter()
    inc = os.path.join(facts.REPO, 'include', 'pandaresampler')
    with facts.Work() as w:
        only = os.path.join(w, 'only.cc')
        open(only, 'w').write('#define PANDA_RESAMPLER_HEADER_ONLY\n#include "pandaresampler.hh"\n#include "pandaresampler.hh"\n')
        onlylib = os.path.join(w, 'onlylib.cc')
        open(onlylib, 'w').write('#include "pandaresampler.hh"\n')
        own = os.path.join(irmod.HERE, 'drv', 'own.cc'); api = os.path.join(irmod.HERE, 'drv', 'api.cc')
        lib = os.path.join(inc, 'pandaresampler.cc')
        jobs = {'only': (only, []), 'own': (own, []), 'apiho': (api, ['-DVP_HEADER_ONLY']), 'apilib': (api, []), 'lib': (lib, []), 'onlylib': (onlylib, [])}
        with ThreadPoolExecutor(8) as ex:
            syn = {(n, s): ex.submit(compiles, src, fl, s) for n, (src, fl) in (('header-only user', jobs['apiho']), ('library user', jobs['apilib']), ('library', jobs['lib'])) for s in STDS}
            js = {n: ex.submit(lambda n=n: raw(compile_bc(jobs[n][0], os.path.join(w, n + '.bc'), jobs[n][1]))) for n in jobs}
            for (n, s), f in sorted(syn.items()):
                ok, msg = f.result()
                R.instances += 1
                R.check(ok, 'compile:%s:%s' % (n, s), '%s does not compile as %s: %s' % (n, s, msg[:300]))
            try: J = {n: f.result() for n, f in js.items()}
            except irmod.BuildError as x:
                if R.viol: return
                raise
        # 1. a header-only unit defines nothing that another unit may not define too
        for n in ('only', 'own', 'apiho', 'onlylib'):
            for kind in ('functions', 'globals', 'aliases'):
                for f in J[n][kind]:
                    if f.get('decl') or f['name'].startswith(('vp_', 'llvm.')): continue
                    if f['name'].startswith('_GLOBAL__sub_I') or f['link'] in ('appending',): continue
                    R.instances += 1
                    R.check(f['link'] in MERGEABLE, 'strong:' + f['name'], 'header-only translation units each define %s (%s linkage): linking two of them fails' % (f['dem'], f['link']))
            R.sample('%s: %d functions, %d globals examined for linkage' % (n, len(J[n]['functions']), len(J[n]['globals'])))
        # a definition private to each unit is a different object in each: mutable ones would not be shared
        for g in J['only']['globals']:
            if g['link'] == 'internal' and not g['const'] and not g.get('decl') and not g['dem'].startswith('std::') and 'ioinit' not in g['name']:
                R.check(False, 'private:' + g['name'], 'header-only translation units each have their own mutable %s' % g['dem'])
        # 2. what a library user needs, the library defines with external linkage
        defs = {x['name']: x['link'] for k in ('functions', 'globals', 'aliases') for x in J['lib'][k] if not x.get('decl')}
        mine = {x['name'] for k in ('functions', 'globals') for x in J['apilib'][k] if not x.get('decl')}
        for k in ('functions', 'globals'):
            for x in J['apilib'][k]:
                if x.get('decl') and 'PandaResampler' in x['dem']:
                    R.instances += 1
                    R.check(x['name'] in defs and defs[x['name']] not in ('internal', 'private', 'available_externally'), 'undefined:' + x['name'],
                            'the library does not define %s (%s), which its users need' % (x['dem'], defs.get(x['name'])))
        need = {x['name'] for x in J['apiho']['functions'] if x.get('decl') and 'PandaResampler' in x['dem']}
        for x in sorted(need): R.check(False, 'undefined:' + x, 'header-only mode does not define %s' % x)
        # 3. the same code in both modes
        ho = canonical(J['apiho']); li = canonical(J['lib']); li2 = canonical(J['apilib'])
        dem = {f['name']: f['dem'] for n in J for f in J[n]['functions']}
        diff = []
        both = 0
        for other in (li, li2):
            for f in sorted(set(ho) & set(other)):
                if not (dem[f].startswith('PandaResampler') or f.startswith('vp_')) : continue
                both += 1; R.instances += 1
                if ho[f] == other[f]: R.add()
                else: diff.append(f)
        t1 = tables(J['apiho']); t2 = tables(J['lib'])
        for g in sorted(set(t1) & set(t2)):
            R.instances += 1
            if t1[g] == t2[g]: R.add()
            else: diff.append(g)
        for f in J['lib']['functions']:
            if not f['decl'] and f['link'] == 'external' and 'PandaResampler' in f['dem']:
                R.instances += 1
                if f['name'] in ho: R.add()
                else:
                    # reachable by users only if it is public; a private helper may have been inlined or renamed
                    diff.append(f['name'])
        R.info['functions compared in both modes'] = both; R.info['differ'] = diff
        R.sample('%d functions and %d tables have the same code in both modes' % (both - len(diff), len(set(t1) & set(t2))))
        # what only the self test reaches is compared by its calls and constants, not instruction by instruction
        live = reach(J['apiho']) | reach(J['lib'])
        weak = [f for f in diff if f in dem and f not in live]
        if weak:
            a, b = calls(J['apiho']), calls(J['lib'])
            for f in weak:
                if f in a and f in b and a[f] == b[f]: diff.remove(f); R.add()
                elif f in a and f in b: R.unknown('%s differs between the modes' % dem[f]); diff.remove(f)
        if diff: semantic(R, w, diff, dem, fx)

def reach(j):
    by = {f['name']: f for f in j['functions'] if not f['decl']}
    todo = [f for f in by if f.startswith('vp_') and f != 'vp_test_impl' or '10Resampler2' in f and 'test_filter_impl' not in f]
    seen = set()
    while todo:
        f = todo.pop()
        if f in seen or f not in by: continue
        seen.add(f)
        for b in by[f]['blocks']:
            for I in b:
                if 'f' in I and I['op'] in ('call', 'invoke'): todo.append(I['f'])
    return seen

def calls(j):
    out = {}
    for f in j['functions']:
        if f['decl']: continue
        d = {}
        for b in f['blocks']:
            for I in b:
                k = None
                if I['op'] in ('call', 'invoke') and not str(I.get('f', '')).startswith('llvm.'): k = 'call ' + str(I.get('f'))
                elif I['op'] in ('fadd', 'fsub', 'fmul', 'fdiv', 'fcmp', 'icmp', 'add', 'sub', 'mul', 'udiv', 'urem'): k = I['op'] + repr([x for x in I.get('a', []) if isinstance(x, dict)])
                if k: d[k] = d.get(k, 0) + 1
        out[f['name']] = d
    return out

def semantic(R, w, diff, dem, fx):
    """some code differs between the modes: compare what the library build does, configuration by configuration"""
    linked = os.path.join(w, 'linked.bc'); nb = os.path.join(w, 'linked.n.bc')
    names = ', '.join(dem.get(f, f)[:80] for f in diff[:4])
    try:
        irmod.sh(['/usr/lib/llvm-18/bin/llvm-link', os.path.join(w, 'apilib.bc'), os.path.join(w, 'lib.bc'), '-o', linked])
    except irmod.BuildError as x:
        R.unknown('code differs between the modes (%s) and the library does not link with its user: %s' % (names, x)); return
    irmod.sh([irmod.OPT, '-inline-threshold=100000000', '-passes=' + irmod.PIPE, linked, '-o', nb])
    mod = irmod.Module(irmod.sh([irmod.exporter(), nb]))
    ho = fx.cfg()
    save = facts._mod; facts._mod = mod
    try:
        import model
        E = model.Enums(mod)
        jobs = [(facts._config, (c,)) for c in facts.configs(E)]
        res = facts.pool(jobs, 120)
    finally: facts._mod = save
    bad = 0
    import props
    for st, args, F in res:
        c = args[0]
        G = ho.get((c, 16))
        if st != 'ok' or G is None: R.unknown('library build of %s not analysed' % (c,)); continue
        lab = props.clabel(c)
        for key in ('stages', 'objfp'):
            if F.get(key) != G.get(key): bad += 1; R.check(False, 'mode:%s:%s' % (key, lab), '%s: the library constructs %s, header-only %s' % (lab, str(F.get(key))[:150], str(G.get(key))[:150]))
        for q in ('order', 'delay', 'sse'):
            a = F.get('q', {}).get(q, {}).get('vals'); b = G.get('q', {}).get(q, {}).get('vals')
            if a != b: bad += 1; R.check(False, 'mode:%s:%s' % (q, lab), '%s: %s() is %s in the library, %s header-only' % (lab, q, a, b))
        a = F.get('cascade'); b = G.get('cascade')
        if a and b and a['proved'] != b['proved']:
            if a['viol'] or b['viol']: R.check(False, 'mode:cascade:' + lab, '%s: process_block differs between the modes: %s' % (lab, (a['viol'] or b['viol'])[0]))
            else: R.unknown(lab + ': composition proved in one mode only')
    # the stages themselves
    SF = fx.stages()
    reps = {}
    for (cfg, ratio, idx, r), F in SF.items():
        if r == 16 and ratio == 8: reps[(cfg, ratio, idx)] = F
    facts._mod = mod
    try: res = facts.pool([(facts._stage, k + (16, 20.0)) for k in sorted(reps)], 100)
    finally: facts._mod = save
    import quality
    for st, args, F in res:
        G = reps[args[:3]]
        lab = props.slabel(args[:4])
        if st != 'ok': R.unknown(lab + ': library build not analysed'); continue
        if bool(F['viol']) != bool(G['viol']): bad += 1; R.check(False, 'mode:stage:' + lab, '%s differs between the modes: %s' % (lab, (F['viol'] or G['viol'])[0]))
        a, b = quality.impulse(F), quality.impulse(G)
        if a is None or b is None: R.unknown(lab + ': filter not extracted'); continue
        d = max(abs(a.get(n, 0.0) - b.get(n, 0.0)) for n in set(a) | set(b)); m = max(abs(x) for x in b.values())
        R.check(d <= 1e-5 * m, 'mode:filter:' + lab, '%s: the library applies another filter than header-only code (difference %.3g)' % (lab, d))
        if not (F['proved'] and G['proved']): R.unknown(lab + ': not proved in both modes')
    R.info['functions that differ textually'] = [dem.get(f, f) for f in diff[:30]]
