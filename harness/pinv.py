"""C19: symmetries, stability and positivity of the transforms."""
import copy

import numpy as np

from . import core, front, ref1d, ref2d, pjtfs
from .core import quant

MC = """SPECIFICATION Spec
CONSTANT Depth = %d
INVARIANTS InvAxes InvSupport InvGrid InvReversed InvAngles InvSpins InvUndo InvCommute InvBlind
"""
SPEC = "SPECIFICATION Spec\n"


# -- configurations -------------------------------------------------------
def sample1d(rng, kind):
    J = rng.choice([1, 2, 2, 3, 3, 4])
    Q = rng.choice([(1, 1), (2, 1), (4, 1), (8, 1), (3, 2), (1, 2)] if kind == '1d' else [(1, 1), (2, 1), (4, 1), (3, 2)])
    compact = rng.random() < .6
    hi = 420 if kind == 'tf' else 900
    for _ in range(200):
        N = rng.randint(2 ** J, hi) if not compact else rng.randint(60, hi)
        N += N % 2 if rng.random() < .5 else 0
        avg = rng.choice(['local', 'local', 'local', 'global', 'none'])
        cf = dict(kind=kind, fe=rng.choice(front.ALL), J=J, Q=Q, N=N, avg=avg, T=0, stride=0, mo=rng.choice([1, 2, 2, 2]), compact=compact)
        Tv = 2 ** J
        if avg == 'local' and rng.random() < .5:
            Tv = cf['T'] = rng.choice([1, 2, rng.randint(1, min(N, 12)), 2 ** J])
        top = int(np.floor(np.log2(Tv)))
        ls = top
        if avg == 'local' and rng.random() < .6:
            ls = rng.choice([0, 0, rng.randint(0, top)])
            cf['stride'] = 2 ** ls
        if kind == 'tf':
            cf['Jf'] = rng.choice([1, 2, 2, 3])
            cf['fmt'] = rng.choice(['time', 'joint'])
            nin = (J + 1) * Q[0]
            if 2 ** cf['Jf'] > nin:
                continue
            cf['F'] = rng.choice([0, 0, 1, 2, 'zero', 'global'])
        wid = ref1d.support(N, 0.1 / Tv)
        need = 1 << int(np.ceil(np.log2(N + 6 * wid)))
        cap = 1 << int(np.floor(np.log2(max(1, 3 * N - 2))))
        pad = min(need, cap) - N
        pl, pr = pad // 2, pad - pad // 2
        k = dict(kind=kind, size=[N], J=J, avg=avg, ls=ls, wid=wid, compact=compact, pw=[4])
        k['in'] = [[0, N - 1]]
        if compact:
            lo, hi_ = pl + 1, N - 2 - pr
            if hi_ - lo < 2 ** (J + 1) + 3:
                continue
            a = rng.randint(lo, (lo + hi_) // 2)
            b = rng.randint(a + 1, max(a + 1, hi_ - 2 ** J))
            k['in'] = [[a, min(b, hi_)]]
        if kind == 'tf':
            fb = pjtfs.freq_bank(cf['Jf'], 1)
            k['sg'] = [f[3] for f in fb]
        try:
            c1 = ref1d.config(J, N, Q)
            if any(c1['j1'][p] < c1['j2'][q] for p, q in c1['x12']):
                continue
        except Exception:
            continue
        return cf, k
    return sample1d(rng, kind)


def sample2d(rng):
    while True:
        J = rng.choice([1, 1, 2, 2, 2, 3])
        L = rng.choice([1, 2, 2, 3, 4, 4, 6, 8])
        compact = rng.random() < .5
        size = [rng.randint(2 ** J, 30) if not compact else rng.randint(4 * 2 ** J, 44) for _ in range(2)]
        if rng.random() < .3:
            size[1] = size[0]
        k = dict(kind='2d', size=size, J=J, L=L, ls=J, avg='local', compact=compact, pw=[4])
        k['in'] = [[0, n - 1] for n in size]
        if compact:
            k['in'] = []
            for n in size:
                p = ((n + 2 ** J) // 2 ** J + 1) * 2 ** J - n
                lo, hi = p // 2 + 1, n - 2 - (p - p // 2)
                if hi - lo < 2 ** J + 2:
                    break
                a = rng.randint(lo, (lo + hi) // 2)
                k['in'].append([a, rng.randint(a + 1, max(a + 1, hi - 2 ** J))])
            if len(k['in']) < 2:
                continue
        return dict(kind='2d', fe=rng.choice(front.ALL), J=J, L=L, mo=rng.choice([1, 2, 2])), k


def sample3d(rng):
    J, L = rng.choice([0, 1, 1, 2]), rng.choice([0, 1, 2, 2, 3])
    size = [rng.choice([1, 3, 4, 5, 5, 6, 7, 8, 9]) for _ in range(3)]
    if rng.random() < .5:
        size = [rng.choice([3, 4, 5, 6, 7])] * 3
    if rng.random() < .5:
        size = [n | 1 for n in size]
    pw = rng.choice([[2, 4, 8], [4], [8, 2], [6, 12], [1, 4]])
    k = dict(kind='3d', size=size, rc=rng.random() < .6, avg='local', compact=False, pw=pw)
    k['in'] = [[0, n - 1] for n in size]
    return dict(kind='3d', fe=rng.choice(front.ALL), J=J, L=L, mo=rng.choice([1, 2, 2]), rc=k['rc'], pw=pw, s0=rng.choice([1, 1., 1.3, 2])), k


def far(cf):
    """Exponents of two up to which amplitudes are explored."""
    if cf['kind'] == '3d' or cf['fe'] == 'torch':
        return 28
    return 600 if cf['fe'] == 'numpy' else 80


# -- the transforms -------------------------------------------------------
def build(cf, dims):
    C = front.cls(cf['kind'], cf['fe'])
    if cf['kind'] in ('1d', 'tf'):
        kw = dict(J=cf['J'], shape=dims[0], Q=tuple(cf['Q']))
        if cf['avg'] != 'local':
            kw['T'] = 'global' if cf['avg'] == 'global' else 0
        elif cf['T']:
            kw['T'] = cf['T']
        if cf['stride']:
            kw['stride'] = cf['stride']
        if cf['kind'] == 'tf':
            F = {'zero': 0}.get(cf['F'], cf['F'])
            if cf['F'] != 0:
                kw['F'] = F
            return C(J_fr=cf['Jf'], format=cf['fmt'], out_type='list', **kw)
        return C(max_order=cf['mo'], out_type='list', **kw)
    if cf['kind'] == '2d':
        return C(J=cf['J'], shape=tuple(dims), L=cf['L'], max_order=cf['mo'], out_type='list')
    return C(J=cf['J'], shape=tuple(dims), L=cf['L'], sigma_0=cf['s0'], max_order=cf['mo'], rotation_covariant=cf['rc'],
             integral_powers=tuple(p / 4 for p in cf['pw']))


class Table:
    """Coefficients by path: key -> array; order and scales by path."""
    def __init__(self, cf, S, x):
        fe = cf['fe']
        r = S(front.tensor(fe, x))
        self.c, self.order, self.j = {}, {}, {}
        if cf['kind'] == '3d':
            v = front.to_np(r).astype(np.float64)
            for i in np.ndindex(v.shape[:-1]):
                self.add(i, v[i], 1, ())
            return
        for p in r:
            v = front.to_np(p['coef']).astype(np.float64)
            if cf['kind'] == '1d':
                self.add(tuple(p['n']), v, len(p['n']), tuple(p['j']))
            elif cf['kind'] == '2d':
                self.add(tuple(zip(p['j'], p['theta'])), v, len(p['j']), tuple(p['j']))
            elif p['order'] == 0:
                self.add((), v, 0, ())
            else:
                self.add((p['order'],) + tuple(p['n']), v, p['order'], tuple(p['j']), p)

    def add(self, key, v, order, j, p=None):
        if key in self.c:
            raise core.HarnessError('path twice: %r' % (key,))
        self.c[key], self.order[key], self.j[key] = v, order, j


def tfkey(cf, p, nfr):
    return None


def res(cf, k, order, j):
    """log2 of the step of the time grid of a coefficient."""
    if k['avg'] == 'local':
        return k['ls']
    if order == 0:
        return 0
    if cf['kind'] == 'tf' and order == 1:
        return k['ls']
    return int(j[-1])


def rename(cf, key, order, want):
    """The path of the original which plays the role of path key."""
    if order == 0 or cf['kind'] in ('1d', '3d'):
        return key
    if cf['kind'] == '2d':
        return tuple((j, want['th'][t]) for j, t in key)
    # JTFS: the last index is the frequency filter
    if order == 1:
        return key
    return key[:-1] + (want['sp'][key[-1]],)


def move(A, B, mov, r):
    """Coefficients B of the moved signal and those of the original, on the
    samples they have in common."""
    if not mov['a']:
        return A, B
    nd = len(mov['a'])
    lead = A.ndim - nd
    if lead < 0:
        return A, None
    A = np.transpose(A, list(range(lead)) + [lead + a - 1 for a in mov['a']])
    if A.shape[:lead] != B.shape[:lead] or A.shape[lead:] != B.shape[lead:] or B.ndim != A.ndim:
        return A, None
    for i in range(nd):
        n = B.shape[lead + i]
        t = mov['t'][i]
        if t % (1 << r) and mov['f'][i] == 1:
            raise core.HarnessError('shift off the grid')
        q = np.arange(n)
        p = (q - (t >> r)) * mov['f'][i]
        ok = (p >= 0) & (p < n)
        A = np.take(A, p[ok], axis=lead + i)
        B = np.take(B, q[ok], axis=lead + i)
    return A, B


def act(kind, x, u):
    o, a, b = u['o'], u['x'] - 1, u['y']
    if o == 'negate':
        return -x
    if o == 'scale':
        return x * x.dtype.type(2. ** u['x'])
    if o == 'offset':
        return x + x.dtype.type(u['x'] / 8.)
    if o in ('shift', 'roll'):
        return np.roll(x, b, axis=a)
    if o == 'reverse':
        return np.ascontiguousarray(x[::-1])
    if o == 'transpose':
        return np.ascontiguousarray(x.T)
    if o == 'flip':
        return np.ascontiguousarray(np.flip(x, a))
    if o == 'exchange':
        return np.ascontiguousarray(np.swapaxes(x, a, b - 1))
    if o == 'rotate':
        return np.ascontiguousarray(np.flip(np.swapaxes(x, a, b - 1), a))
    raise core.HarnessError(o)


def signal(k, rng, dt):
    x = rng.standard_normal(k['size'])
    if rng.rand() < .4:
        x = x + 2 * np.cos(np.arange(k['size'][-1]) * rng.uniform(.05, 3))
    x = x * rng.choice([1., .25, 4.])
    if k['compact']:
        m = np.zeros(k['size'])
        m[tuple(slice(a, b + 1) for a, b in k['in'])] = 1
        x = x * m
    return x.astype(dt)


def energy(cf, k, S, x, y):
    """Squared distance of the coefficients over that of the signals extended by
    reflection."""
    a, b = Table(cf, S, x), Table(cf, S, y)
    s = 0.
    for key in a.c:
        d = np.sum((a.c[key] - b.c[key]) ** 2)
        if cf['kind'] == '2d':
            d *= 4. ** cf['J']
        else:
            d *= 2. ** res(cf, k, a.order[key], a.j[key])
        s += d
    pads = []
    for n in k['size']:
        if cf['kind'] == '2d':
            p = ((n + 2 ** cf['J']) // 2 ** cf['J'] + 1) * 2 ** cf['J'] - n
        else:
            p = padded(k) - n
        pads.append((p // 2, p - p // 2))
    d = np.pad((x - y).astype(np.float64), pads, mode='reflect')
    return s / max(1e-300, float(np.sum(d ** 2)))


def bound(cf, k):
    """Bound of the squared expansion; a tenth more for what subsampling folds."""
    if cf['kind'] != '2d':
        NP = int(padded(k))
        f = ref1d.Filters(cf['J'], cf['Q'], ref1d.resolve_T(cf['J'], 'val' if cf['T'] else 'none', cf['T']), NP)
        low = np.abs(f.full['phi', 0]) ** 2
        one, two = [sum(np.abs(h) ** 2 for (o, n), h in f.full.items() if o == b) for b in ('psi1', 'psi2')]

        def both(w):
            return .5 * (w + np.roll(w[::-1], 1))
        local = k['avg'] == 'local'
        fr = 1.
        if cf['kind'] == 'tf':
            n = 4096
            fr = max(1., float(np.max(sum(np.abs(ref1d.morlet_hat(n, abs(xi), sg)[::(1 if sp >= 0 else -1)]) ** 2 if sp else ref1d.gauss_hat(n, sg) ** 2
                                          for xi, sg, _, sp in pjtfs.freq_bank(cf['Jf'], 1)))))
        if local:
            return 1.1 * fr * max(1., float(np.max(low + both(one)))) * max(1., float(np.max(low + both(two))))
        a, b = float(np.max(both(one))), float(np.max(both(two)))
        return 1.1 * fr * (1. + a * (1. + b))
    J = cf['J']
    M, N = [((n + 2 ** J) // 2 ** J + 1) * 2 ** J for n in k['size']]
    f = ref2d.Filters(M, N, J, cf['L'])
    w = sum(f.full['psi', n] ** 2 for n in range(J * cf['L']))
    # real signals: both frequencies count
    flip = np.roll(w[::-1, ::-1], (1, 1), (0, 1))
    lp = float(np.max(f.full['phi', 0] ** 2 + .5 * (w + flip)))
    return 1.1 * max(1., lp, float(np.max(w))) ** (1 + cf['mo'])


def packet(k, rng, dt):
    g = 1.
    for i, n in enumerate(k['size']):
        t = np.arange(n)
        w = np.exp(-.5 * ((t - n / 2.) / (n / rng.uniform(6, 10))) ** 2) * np.cos(rng.choice([0., rng.uniform(0, np.pi)]) * t)
        g = np.multiply.outer(g, w) if i else w
    return (g * rng.uniform(.5, 3)).astype(dt)


def session(a):
    cf, k, ops, seed = a
    rng = np.random.RandomState(seed)
    fe, kind = cf['fe'], cf['kind']
    dt = np.float64 if fe == 'numpy' and kind != '3d' else np.float32
    tol = 2e-6 if fe == 'numpy' and kind in ('1d', 'tf') else 1e-3
    base = dict(run='ok', neg=0, exact=True, const=0, czero=0, grow=[])
    made = {}

    def S(dims):
        if tuple(dims) not in made:
            made[tuple(dims)] = build(cf, dims)
        return made[tuple(dims)]
    x = signal(k, rng, dt)
    try:
        A = Table(cf, S(k['size']), x)
    except core.HarnessError:
        raise
    except Exception as e:
        base['run'] = core.excname(e) + ': ' + str(e)[:200]
        return base, []
    high = [key for key in A.c if A.order[key] > 0]
    top = max([float(np.max(np.abs(A.c[q]))) if A.c[q].size else 0. for q in high] + [1e-30])
    low = min([float(np.min(A.c[q])) for q in high if A.c[q].size] + [0.])
    base['exact'] = bool(low >= 0)
    base['neg'] = quant(max(0., -low), (1e-2 if kind == '2d' else tol) * top)
    if kind != '3d':
        v = dt(rng.choice([1., -3., 20.]))
        C = Table(cf, S(k['size']), np.full(k['size'], v, dtype=dt))
        base['const'] = quant(max([float(np.max(np.abs(C.c[q]))) if C.c[q].size else 0. for q in high] + [0.]), (1e-6 if dt == np.float64 and kind != '2d' else 2e-5) * abs(float(v)) *
                              (gainof(k) if k['avg'] == 'global' else 1.))
        for q in C.c:
            if A.order[q] == 0:
                base['czero'] = quant(core.relerr(C.c[q], np.full(C.c[q].shape, float(v) * gainof(k))), tol if dt == np.float64 else 1e-4)
        # sums over all of time or frequency are not normalised
        if k['avg'] != 'global' and cf.get('F') != 'global':
            pairs = [(x, signal(k, rng, dt)), (np.zeros_like(x), x + dt(1)), (np.zeros_like(x), packet(k, rng, dt)), (x, -x), (x, x + packet(k, rng, dt))]
            base['grow'] = [int(min(2e9, 1e6 * energy(cf, k, S(k['size']), p, q) / bound(cf, k))) for p, q in pairs]
    obs = []
    for u in ops:
        w = u['want']
        x = act(kind, x, u)
        e = dict(run='ok', want=w, dims=list(x.shape), keys=True, zero=0, rest=0, wrap=0, free=True)
        obs.append(e)
        try:
            B = Table(cf, S(x.shape), x)
        except core.HarnessError:
            raise
        except Exception as ex:
            e['run'] = core.excname(ex) + ': ' + str(ex)[:200]
            break
        if set(B.c) != set(A.c):
            e['keys'] = False
            break
        scale = 2. ** w['zero']['e']
        offs = abs(w['zero']['off'] / 8.)
        for key in B.c:
            o = B.order[key]
            src = rename(cf, key, o, w)
            if src not in A.c:
                e['keys'] = False
                break
            if kind == '3d':
                fac = np.array([2. ** (f / 4.) for f in w['fac']])
                P, Q = A.c[src] * fac, B.c[key]
                err = np.abs(P - Q) / slack(cf, P, x)
                e['rest'] = max(e['rest'], quant(float(np.max(err)) if np.all(np.isfinite(Q)) else float('inf'), 1.))
                continue
            P, Q = move(A.c[src], B.c[key], w['mov'], res(cf, k, o, B.j[key]))
            if Q is None:
                e['keys'] = False
                break
            if Q.size == 0:
                e['free'] = e['free'] and o > 0
                continue
            if o == 0:
                z = w['zero']
                P = P * z['sgn'] * scale + z['off'] / 8.
                ref = max(float(np.max(np.abs(P))), offs, 1e-3 * scale)
                e['zero'] = max(e['zero'], quant(core.relerr(Q, P, scale=ref), tol if dt == np.float64 else 1e-4))
            else:
                P = P * scale
                # single precision: rounding of the offset is amplified
                ref = max(float(np.max(np.abs(A.c[src]))) * scale, 1e-2 * top * scale) + (.02 * offs if dt != np.float64 or kind == '2d' else offs)
                # the two spins differ by the rounding of their filters
                q = quant(core.relerr(Q, P, scale=ref), tol if kind != 'tf' or w['mov']['f'] != [-1] else max(tol, 1e-4))
                if kind == '2d' and o == 2 and key[0][0] >= 1:
                    e['wrap'] = max(e['wrap'], q)
                else:
                    e['rest'] = max(e['rest'], q)
    return base, obs


def slack(cf, V, x):
    """What rounding of the modulus explains in integrals V of its powers, plus
    a thousandth."""
    d, n = 2e-5 * float(np.max(np.abs(x))), x.size
    out = np.zeros(len(V))
    for i, q in enumerate(cf['pw']):
        p, v = q / 4., max(float(V[i]), 0.)
        out[i] = 1e-3 * v + 1e-300 + ((v ** (1 / p) + d * n ** (1 / p)) ** p - v if p >= 1 else n * d ** p)
    return out


def padded(k):
    n = k['size'][0]
    return min(1 << int(np.ceil(np.log2(n + 6 * k['wid']))), 1 << int(np.floor(np.log2(3 * n - 2))))


def gainof(k):
    return float(padded(k)) if k['avg'] == 'global' else 1.


def corrupt(traces):
    res_, seen = [], set()
    for t in traces:
        kind = t['cfg']['kind']

        def b(clause, **kw):
            w = copy.deepcopy(t)
            w['base'].update(kw)
            res_.append((w, clause))
        if kind not in seen:
            seen.add(kind)
            b('C19.Runs', run='X')
            b('C19.NonNegative.', neg=2000)
            if kind == '3d':
                b('C19.NonNegativeExactly', exact=False)
            else:
                b('C19.ConstantVanishes', const=2000)
                b('C19.ConstantMean', czero=2000)
                b('C19.NonExpansive', grow=[1200000])
        for i, (u, e) in enumerate(zip(t['ops'], t['obs'])):
            if (kind, u['o']) in seen or e['run'] != 'ok':
                continue
            seen.add((kind, u['o']))

            def c(clause, **kw):
                w = copy.deepcopy(t)
                w['obs'][i].update(kw)
                res_.append((w, clause))
            c('C19.Orders.' + u['o'], rest=2000)
            c('C19.OrderZero.' + u['o'], zero=2000)
            c('C19.Paths.' + u['o'], keys=False)
            c('C19.Foreign', dims=e['dims'] + [1])
    return res_


def run(ctx):
    ctx.mc('MC_Invar', MC % ctx.n(4, 5), must_cover=('Act',), workers=6, timeout=3000)
    rng = ctx.rng
    cases, cfgs = [], []
    for i in range(ctx.n(420, 4000)):
        kind = ['1d', '2d', '3d', 'tf', '1d', '2d', '3d'][i % 7]
        cf, k = sample1d(rng, kind) if kind in ('1d', 'tf') else sample2d(rng) if kind == '2d' else sample3d(rng)
        k['far'] = far(cf)
        k['steps'] = rng.randint(3, ctx.n(7, 12))
        cases.append(cf)
        cfgs.append(k)
    plans = ctx.generate('Gen_Invar', SPEC, cfgs, workers=1, extra=['-seed', str(ctx.seed)], timeout=3000)
    seeds = [rng.randrange(2 ** 30) for _ in plans]
    args = [(cf, k, [dict(u) for u in p['ops']], s) for cf, k, p, s in zip(cases, cfgs, plans, seeds)]
    obs = core.pmap(session, args, procs=8, timeout=ctx.n(700, 12000))
    traces, labels, tally, worst = [], [], {}, {}
    for (cf, k, ops, s), o in zip(args, obs):
        if isinstance(o, dict):
            ctx.fail(dict(case=cf, size=k['size'], ops=[[u['o'], u['x'], u['y']] for u in ops], seed=s), ['C19.Survives'])
            continue
        base, ob = o
        plain = [dict(o=u['o'], x=u['x'], y=u['y']) for u in ops][:len(ob)]
        for u, e in zip(plain, ob):
            t = '%s %s' % (cf['kind'], u['o'])
            tally[t] = tally.get(t, 0) + 1
            for f in ('zero', 'rest', 'wrap'):
                worst[t + ' ' + f] = max(worst.get(t + ' ' + f, 0), e[f])
        for f in ('neg', 'const', 'czero'):
            worst[cf['kind'] + ' ' + f] = max(worst.get(cf['kind'] + ' ' + f, 0), base[f])
        worst[cf['kind'] + ' grow'] = max([worst.get(cf['kind'] + ' grow', 0)] + base['grow'])
        ctx.count(dict(case=cf, size=k['size'], ops=plain))
        traces.append(dict(cfg=k, base=base, ops=plain, obs=ob))
        labels.append(dict(case=cf, size=k['size'], support=k['in'], ops=[[u['o'], u['x'], u['y']] for u in plain], seed=s,
                           base=base, obs=[{f: e[f] for f in ('run', 'keys', 'zero', 'rest', 'wrap', 'free')} for e in ob]))
    ctx.notes['operations'] = dict(sorted(tally.items()))
    ctx.notes['worst_of_1000'] = dict(sorted(worst.items()))
    ctx.validate('Trace_Invar', SPEC, traces, labels, clauses='C19', selfcheck=corrupt(traces), timeout=3000, workers=4)
    ctx.sample(dict(case=cases[0], size=cfgs[0]['size'], ops=[[u['o'], u['x'], u['y']] for u in plans[0]['ops']]))
    return ctx.finish('model_checking',
                      'sequences of operations drawn by the machine and applied to concrete signals on the four array frontends; '
                      'the coefficients after every operation compared with what the machine makes of those of the original',
                      ['shifts are compared where the supports and their reflections stay clear of the padding',
                       'tolerance 2e-6 in double, 1e-3 in single precision (2-D and 3-D filters are single precision); '
                       '2-D second orders with j1 >= 1 and J >= 3 under transposition only to 20 percent'])
