"""The IIR filter classes: every entry point of every class is proved, for all block lengths, to be the documented
polyphase allpass filter of its coefficients; mixing entry points is sound because they advance the same state."""
from model import *

CLASSES = ('Downsampler2xFpu', 'Downsampler2xSse', 'Upsampler2xFpu', 'Upsampler2xSse')
COUNTS = range(1, 15)
def coefs(n): return [f32(0.07 + 0.9 * ((i * 7 + 3) % 17) / 17.0 + 0.001 * i) for i in range(n)]

def allpass(cs, N):
    """impulse response of the cascade of (c + z^-1) / (1 + c z^-1)"""
    x = [1.0] + [0.0] * (N - 1)
    for c in cs:
        y = []; px = py = 0.0
        for v in x:
            w = c * (v - py) + px
            y.append(w); px = v; py = w
        x = y
    return x

class HiirProof(IIRProof):
    def __init__(self, mod, st0, fname, this, down, split):
        IIRProof.__init__(self, mod, st0, fname, this, 1 if down else 0)
        self.split = split
        if split: self.b = 2
    def io(self, m, extra=0):
        inr = mkregion('input', 'in', mulc(m, 4 * self.a), 4, base=BaseStream('X', 'in'), const=True)
        if not self.split: return inr, mkregion('output', 'out', mulc(m, 4 * self.b), 4, base=BaseStream('O', 'out'))
        return inr, (mkregion('low', 'out', mulc(m, 4), 4, base=BaseStream('O', 'low')), mkregion('high', 'out', mulc(m, 4), 4, base=BaseStream('O', 'high')))
    def out_at(self, outr, k, i):
        return (outr[i], mulc(k, 4)) if self.split else IIRProof.out_at(self, outr, k, i)
    def bound(self, st, m, lo, hi): IIRProof.bound(self, st, m, max(1, lo), hi)      # the blocks are documented as non-empty
    def call(self, e, st, m, inr, outr, extra=0, pos=0):
        a, b = outr if self.split else (outr, outr)
        return e.call(self.fname, [self.this, Ptr(inr, 0), m, Ptr(a, 0), Ptr(b, 0)], st)

def analyse(mod, cls, nc, res=16):
    """facts about one class with one coefficient count"""
    pre = 'vh_%s_%d_' % (cls, nc); down = cls.startswith('Down')
    F = {'cls': cls, 'nc': nc, 'entries': {}, 'bad': [], 'open': []}
    def const(n): return Engine(mod, prefer_unroll=True).call(pre + n, [], State())[0][1]
    F['count'] = const('count'); al = const('align')
    e = Log(mod, prefer_unroll=True)
    obj = mkregion(cls, 'obj', const('size'), al, base=BaseUninit())
    st = State()
    arr = mkregion('coefficients', 'in', 8 * nc, 8, base=BaseUninit())
    for i, c in enumerate(coefs(nc)): e.write(st, arr, 8 * i, 'f64', c)
    arr.const = True
    outs = e.call(pre + 'ctor', [Ptr(obj, 0), Ptr(arr, 0)], st)
    obs = obligations(e, mod)
    for o in obs:
        if o['cand']: F['bad'].append(('ctor', '%s %s: %s' % (o['kind'], o['at'], o['cand'][0][0])))
        elif o['nunk']: F['open'].append('%s at %s' % (o['kind'], o['at']))
    F['n'] = sum(o['ok'] for o in obs)
    for ev in events(e, mod): F['bad'].append(('ctor', 'constructing causes %s %s at %s' % ev[:3]))
    if len(outs) != 1: F['open'].append('constructor has %d outcomes' % len(outs)); return F
    st = outs[0][0]
    N = 120
    h = [allpass(coefs(nc)[p::2], N) for p in (0, 1)]
    steps = {}
    names = ('block', 'sample') + (('split', 'blocksplit') if down else ())
    for en in names:
        P = HiirProof(mod, st, pre + en, Ptr(obj, 0), down, 'split' in en)
        E = F['entries'][en] = {}
        with cpu_limit(60): r = P.general()
        E['proved'] = r['proved']; E['fail'] = [str(x)[:200] for x in r['fail'][:3]]
        E['n'] = sum(o['ok'] for o in r.get('obs', [])) + len(getattr(P, 'machine', ())); E['loops'] = r.get('loops'); E['paths'] = r.get('paths')
        E['live'] = r.get('live', [])[:4]; E['order'] = r.get('order')
        E['at'] = mod.loc_user(next((I['l'] for b in mod.funcs[pre + en].blocks for I in b if I.get('l', -1) >= 0 and 'hiir' in mod.locs[I['l']]), -1))
        for ev in r.get('events', []): F['bad'].append((en, '%s %s at %s' % ev[:3]))
        # lengths for which an access is suspected to be wrong; decided by a concrete run below
        wit = sorted(set(w for o in r.get('obs', []) for d, w in o['cand'] if isinstance(w, int) and 0 < w < 5000))[:4]
        if r.get('globals'): F['bad'].append((en, 'writes global state: %s' % r['globals'][0]))
        if 'markov' not in r:
            # one step is not a linear map: show it
            for w in getattr(P, 'infer_bad', [])[:1]: F['bad' if not any('imprecise' in str(x) for x in P.infer_bad) else 'open'].append((en, 'one step is not a linear function of input and state: %s' % (w,)))
            if not r['fail']: E['fail'] = ['no response']
            for n in [1, 2, 3] + wit:
                bad = concrete(P, n, False)
                if bad: F['bad'].append((en, 'a block of %d samples from reset: %s' % (n, bad))); break
            continue
        M = P.markov(N)
        def want(i, j, t):
            if not down: return h[i][t]
            # branch 0 filters the second input sample of each pair, branch 1 the first
            s = 0.5 * h[1 - j][t]
            return s if i == 0 or j == 1 else -s
        worst = None
        for i in range(P.b):
            for j in range(P.a):
                for t in range(N):
                    d = abs(M[i][j][t] - want(i, j, t))
                    if d > 1e-5 and (worst is None or d > worst[0]): worst = (d, i, j, t)
        if worst:
            d, i, j, t = worst
            F['bad'].append((en, 'response of output %s to input sample %d after %d steps is %.8g, the polyphase allpass filter of these coefficients gives %.8g' % (('low', 'high')[i] if P.split else i, j, t, M[i][j][t], want(i, j, t))))
        steps[en] = (P, {k[1]: v for k, v in P.step.items() if k[0] == obj.id}, set(k[1] for k in P.machine))
        if any(k[0] != obj.id for k in P.machine): F['bad'].append((en, 'state outside the object'))
        # the unrolled first calls agree with the step (the loop proof is relative to the step)
        if not r['proved']:
            for n in [1, 2, 3, 5, 8, 17] + wit:
                bad = concrete(P, n)
                if bad: F['bad'].append((en, 'a block of %d samples from reset: %s' % (n, bad))); break
    live = set().union(*[s[2] for s in steps.values()]) if steps else set()
    ref = None
    for en, (P, step, lv) in steps.items():
        for k in sorted(live):
            v = step.get(k)
            if ref is None or k not in ref[1]: continue
            u = ref[1][k]
            F['n'] += 1
            if v is None or not same_step(u, v): F['bad'].append((en, 'leaves state word %d different from %s, so the two cannot be mixed' % (k, ref[0])))
        if ref is None: ref = (en, step)
    # clear_buffers
    if steps:
        P = next(iter(steps.values()))[0]
        for en, (Q, _, _) in steps.items():
            for rid, offs in Q.cells.items(): P.cells.setdefault(rid, set()).update(offs)
        s0 = P.state(0)
        e = Log(mod, prefer_unroll=True)
        outs = e.call(pre + 'clear', [Ptr(obj, 0)], s0)
        if len(outs) != 1: F['open'].append('clear_buffers has %d outcomes' % len(outs))
        for s, _ in outs:
            for k in sorted(live):
                F['n'] += 1
                v = e.readq_(s, obj, 4 * k)
                if not (isinstance(v, (int, float)) and v == 0): F['bad'].append(('clear', 'clear_buffers leaves state word %d as %r' % (k, v)))
            # coefficients and padding constants stay
            for k in range(obj.size // 4):
                if k in live or any(4 * k in o for o in P.cells.values()): continue
                try: a = e.readq_(st, obj, 4 * k, 'f32'); b = e.readq_(s, obj, 4 * k, 'f32')
                except Exception: continue
                if isinstance(a, float) and not (isinstance(b, float) and a == b): F['bad'].append(('clear', 'clear_buffers changes coefficient word %d from %r to %r' % (k, a, b)))
        for o in obligations(e, mod):
            if o['cand']: F['bad'].append(('clear', '%s %s' % (o['kind'], o['at'])))
        # a new object equals a cleared one
        for k in sorted(live):
            v = e.readq_(st, obj, 4 * k)
            if not (isinstance(v, (int, float)) and v == 0): F['bad'].append(('ctor', 'state word %d of a new object is %r' % (k, v)))
    return F

def same_step(u, v):
    return not u.bad and not v.bad and l_eq(u, v, 1e-5)

def concrete(P, n, compare=True):
    """re-analyse one call with n samples from the initial state; text of a definite difference"""
    inr, outr = P.io(n)
    e = Log(P.mod, prefer_unroll=True)
    try:
        with cpu_limit(10): outs = P.call(e, P.st0.copy(), n, inr, outr)
    except (Budget, Imprecise, PathDead, RecursionError): return None
    for o in obligations(e, P.mod):
        if o['cand']: return '%s at %s: %s' % (o['kind'], o['at'], o['cand'][0][0])
    if not compare: return None
    M = P.markov(n + 1)
    for s, _ in outs:
        for k in range(n):
            for i in range(P.b):
                r, o = P.out_at(outr, k, i)
                v = e.readq_(s, r, o)
                if not isinstance(v, (float, Lin)) or isinstance(v, Lin) and any('imprecise' in x for x in v.bad): continue
                v = tolin(v)
                want = {}
                for j in range(P.a):
                    for t in range(k + 1): want[('X', 'in', (k - t) * P.a + j)] = M[i][j][t]
                if v.bad: return 'output %d: %s' % (k, ','.join(v.bad))
                for q in set(want) | set(v.t):
                    if abs(v.t.get(q, 0.0) - want.get(q, 0.0)) > 1e-5: return 'output %d holds %s' % (k, repr(v)[:160])
    return None
