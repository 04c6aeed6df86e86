"""No function reachable from the API may write a variable with static storage duration."""
import facts

ROOTS = ('vp_process', 'vp_reset', 'vp_delay', 'vp_order', 'vp_sse', 'vp_sse_available', 'vp_ctor', 'vp_ctor4', 'vp_ctor3', 'vp_dtor', 'vp_find', 'vp_name')
STDIO = ('stderr', 'stdout')

def base(v, defs, seen):
    """global a pointer operand may be derived from, or None"""
    if isinstance(v, dict): return v.get('g')
    if not isinstance(v, int) or v in seen or v not in defs: return None
    seen.add(v)
    I = defs[v]; op = I['op']
    if op == 'getelementptr': ops = [I['b']] if 'b' in I else []
    elif op == 'phi': ops = [x[1] for x in I['inc']]
    elif op == 'select': ops = I['a'][1:]
    elif op in ('bitcast', 'freeze', 'addrspacecast'): ops = I.get('a', [])
    else: ops = []
    for o in ops:
        g = base(o, defs, seen)
        if g: return g
    return None

def reachable(mod):
    """functions reachable from the API; calls through vtables reach every implementation class"""
    todo = [r for r in ROOTS if r in mod.funcs]
    for n, f in mod.funcs.items():
        if not f.decl and 'Resampler2::' in f.dem: todo.append(n)
    seen = set()
    while todo:
        f = todo.pop()
        if f in seen or f not in mod.funcs: continue
        seen.add(f)
        for b in mod.funcs[f].blocks:
            for I in b:
                if I['op'] in ('call', 'invoke') and 'f' in I: todo.append(I['f'])
    return seen

def scan(R):
    mod = facts.load_driver()
    fns = reachable(mod); n = 0
    for f in sorted(fns):
        F = mod.funcs[f]
        if F.decl: continue
        defs = {}
        for b in F.blocks:
            for I in b:
                if I.get('id') is not None: defs[I['id']] = I
        for b in F.blocks:
            for I in b:
                op = I['op']
                tgt = None
                if op == 'store': tgt = I['p']
                elif op in ('atomicrmw', 'cmpxchg'): tgt = I.get('p', (I.get('a') or [None])[0])
                elif op in ('call', 'invoke') and str(I.get('f', '')).startswith(('llvm.memcpy', 'llvm.memset', 'llvm.memmove', 'memcpy', 'memset', 'memmove')): tgt = I['a'][0]
                elif op in ('call', 'invoke') and str(I.get('f', '')).startswith('__cxa_guard'):
                    R.check(False, 'guard:%s' % f, '%s initialises a function local static on first use at %s' % (F.dem, mod.loc_user(I.get('l', -1)))); continue
                if tgt is None: continue
                n += 1
                g = base(tgt, defs, set())
                if g is None or g in STDIO: R.add(); continue
                R.check(False, 'global:%s:%s' % (g, F.dem), '%s writes the shared variable %s at %s' % (F.dem, g, mod.loc_user(I.get('l', -1))))
    # mutable variables of the library itself
    for g, d in sorted(mod.globals.items()):
        if d.get('const') or d.get('decl') or g in STDIO: continue
        R.info.setdefault('mutable globals', []).append(g)
    R.info['functions scanned for writes to shared state'] = len(fns); R.info['stores'] = n
