"""C08, C09: the 2-D scattering transform."""
import numpy as np

from . import core, front, ref2d
from .core import quant, relerr, excname
from .p1d import ncos

MC = """SPECIFICATION Spec
CONSTANTS JMax=%d LMax=%d NMax=%d
INVARIANTS InvChain InvCount InvOrder InvComplete InvSize
"""
SPECONLY = "SPECIFICATION Spec\n"
GEN = "SPECIFICATION Spec\nINVARIANTS InvChain InvSize\n"
ACTIONS = ('EmitS0', 'First', 'Second', 'Skip', 'Next1', 'Finish')
VTOL = 5e-4


def sample_config(rng, big=False):
    J = rng.choice([1, 1, 2, 2, 2, 3] + ([4, 3] if big else []))
    L = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12] if J < 3 else [1, 2, 3, 4])
    lo = 2 ** J

    def size():
        return rng.choice([lo, lo + rng.randint(0, lo), rng.randint(lo, 40), rng.randint(lo, 60),
                           2 ** rng.randint(J, 5), lo * rng.randint(1, 6), lo * rng.randint(1, 5) + lo - 1])
    M, N = size(), size()
    if rng.random() < .25:
        N = M
    return dict(J=J, L=L, M=M, N=N, mo=rng.choice([1, 2, 2, 2]),
                fe=rng.choice(['numpy', 'numpy', 'numpy', 'torch', 'tensorflow', 'jax']),
                reuse=rng.randrange(2))


FIXED = [dict(J=1, L=1, M=2, N=2, mo=2, fe='numpy', reuse=0),
         dict(J=2, L=8, M=32, N=32, mo=2, fe='numpy', reuse=1),
         dict(J=3, L=2, M=8, N=41, mo=2, fe='numpy', reuse=0),
         dict(J=3, L=2, M=8, N=8, mo=2, fe='torch', reuse=0),
         dict(J=2, L=3, M=4, N=13, mo=2, fe='torch', reuse=0),
         dict(J=2, L=3, M=13, N=4, mo=2, fe='tensorflow', reuse=0),
         dict(J=2, L=4, M=19, N=30, mo=2, fe='tensorflow', reuse=0),
         dict(J=2, L=4, M=19, N=30, mo=2, fe='torch', reuse=1),
         dict(J=2, L=4, M=19, N=30, mo=2, fe='jax', reuse=0),
         dict(J=2, L=4, M=22, N=33, mo=1, fe='jax', reuse=1),
         dict(J=3, L=3, M=35, N=50, mo=2, fe='numpy', reuse=0),
         dict(J=4, L=1, M=49, N=33, mo=2, fe='numpy', reuse=0),
         # many orientations, many scales
         dict(J=1, L=17, M=11, N=24, mo=2, fe='torch', reuse=0),
         dict(J=2, L=16, M=27, N=21, mo=2, fe='numpy', reuse=0),
         dict(J=4, L=5, M=16, N=67, mo=2, fe='numpy', reuse=0),
         dict(J=5, L=2, M=70, N=33, mo=2, fe='numpy', reuse=0),
         dict(J=6, L=1, M=64, N=130, mo=2, fe='numpy', reuse=0)]


def image(cf, seed):
    r = np.random.RandomState(seed)
    x = r.randn(cf['M'], cf['N']) * r.choice([1., 30., .05])
    if seed % 3 == 1:
        x = np.cumsum(np.cumsum(x, 0), 1) / np.sqrt(x.size)
    elif seed % 3 == 2:
        x = x * (r.rand(cf['M'], cf['N']) < .1)
        x[0, 0] = 1.
    return x


def observe(arg):
    cf, plan, seed = arg
    fe = cf['fe']
    dt = front.dtype_of(fe)
    x = image(cf, seed).astype(dt)
    ob = dict(ctor='', list=dict(exc='', rows=[]), arr=dict(exc='', shape=[], same=[]),
              pp=dict(exc='none', err=-1), psi=[], phi=dict(mean=10**9, err=[]))
    C = front.cls('2d', fe)
    kw = dict(J=cf['J'], shape=(cf['M'], cf['N']), L=cf['L'], max_order=cf['mo'])
    try:
        S = C(out_type='list', **kw)
    except Exception as e:
        ob['ctor'] = excname(e)
        return ob
    refs, xp, F = ref2d.coefficients(x, plan, cf['J'], cf['L'])
    big = float(np.abs(x).max())
    L = None
    try:
        t = front.tensor(fe, x)
        L = front.plain(S(t) if cf['reuse'] else S.scattering(t))
        # impulse near the centre, on and off the sampling grid
        imp = None
        st = 2 ** cf['J']
        if min(cf['M'], cf['N']) >= 4 * st:
            rr = np.random.RandomState(seed + 7)
            # on the sampling grid
            a, b = plan['oh'] // 2, plan['ow'] // 2
            p = (plan['offh'] + a * st, plan['offw'] + b * st)
            z = np.zeros((cf['M'], cf['N']), dtype=dt)
            z[p] = 1.
            imp = front.plain(S(front.tensor(fe, z)))
        for i, d in enumerate(L):
            v = d['coef']
            row = dict(n=[int(a_) for a_ in d['n']], j=[int(a_) for a_ in d['j']],
                       th=[int(a_) for a_ in d['theta']], h=int(v.shape[-2]), w=int(v.shape[-1]),
                       err=10**9, own=False, peak=0)
            if i < len(refs) and v.shape == refs[i].shape:
                sc = float(np.abs(refs[i]).max()) + 2e-3 * big + 1e-290
                row['err'] = quant(relerr(v, refs[i], sc), VTOL)
                row['own'] = True
                if row['err'] > 1000:
                    cand = [ncos(v, q) for q in refs]
                    row['own'] = bool(min(cand) >= .9 * ncos(v, refs[i]))
            if imp is not None and len(row['n']) <= 1:
                m = imp[i]['coef']
                k = np.unravel_index(np.argmax(m), m.shape)
                row['peak'] = quant(float(max(abs(k[0] - a), abs(k[1] - b))), .5)
            ob['list']['rows'].append(row)
    except Exception as e:
        ob['list']['exc'] = excname(e)
        L = None
    try:
        if cf['reuse']:
            S2 = S
            S2.out_type = 'array'
        else:
            S2 = C(**kw)
        A = front.plain(S2(front.tensor(fe, x)))
        ob['arr']['shape'] = list(A.shape)
        if L is not None and A.ndim == 3 and len(A) == len(L):
            ob['arr']['same'] = [quant(relerr(A[i], L[i]['coef'], np.abs(L[i]['coef']).max() + 1e-5 * big + 1e-290), 1e-6)
                                 for i in range(len(L))]
    except Exception as e:
        ob['arr']['exc'] = excname(e)
    try:
        ob['pp']['exc'] = ''
        P = C(pre_pad=True, **kw)
        B = front.plain(P(front.tensor(fe, xp.astype(dt))))
        e = relerr(B, np.stack(refs), np.abs(refs).max() + 2e-3 * big) if len(B) == len(refs) else float('inf')
        if L is not None and np.shape(B) == (len(L),) + L[0]['coef'].shape:
            # the same filters and arithmetic: equal to the internally padded result
            e2 = relerr(B, np.stack([d['coef'] for d in L]), np.abs(B).max() + 1e-3 * big) * (VTOL / 1e-4)
            e = max(e, e2)
        ob['pp']['err'] = quant(e, VTOL)
    except Exception as e:
        ob['pp']['exc'] = excname(e)
    # filters (as exposed)
    for n, p in enumerate(S.psi):
        r = dict(j=int(p['j']), th=int(p['theta']), mean=10**9, err=[])
        for q, lev in enumerate(p['levels']):
            h = front.to_np(lev)
            h = h.reshape(h.shape[:2])
            g = F.get('psi', n, q) if n < cf['J'] * cf['L'] else None
            if q == 0:
                r['mean'] = quant(abs(h[0, 0]) / max(np.abs(h).max(), 1e-9), 1e-5)
            r['err'].append(quant(relerr(h, g, np.abs(F.get('psi', n, 0)).max()), VTOL))
        ob['psi'].append(r)
    for q, lev in enumerate(S.phi['levels']):
        h = front.to_np(lev)
        h = h.reshape(h.shape[:2])
        if q == 0:
            ob['phi']['mean'] = quant(abs(h[0, 0] - 1), VTOL)
        ob['phi']['err'].append(quant(relerr(h, F.get('phi', 0, q), 1.), VTOL))
    return ob


def corrupt(traces):
    import copy
    for t in traces:
        o = t['obs']
        if o['ctor'] or o['list']['exc'] or o['arr']['exc'] or o['pp']['exc'] or len(o['list']['rows']) < 4:
            continue
        res = []

        def c(f, clause):
            u = copy.deepcopy(t)
            f(u['obs'])
            res.append((u, clause))
        c(lambda u: u['list']['rows'].reverse(), 'C08.PathLabels')
        c(lambda u: u['list']['rows'].pop(), 'C08.PathCount')
        c(lambda u: u['list']['rows'][-1].__setitem__('h', 99), 'C08.SpatialSize')
        c(lambda u: u['list']['rows'][0].__setitem__('peak', 2000), 'C08.Alignment')
        c(lambda u: u['arr']['same'].__setitem__(0, 2000), 'C08.ArrayEqualsList')
        c(lambda u: u['pp'].__setitem__('err', 2000), 'C08.PrePadSame')
        c(lambda u: u['list']['rows'][-1].__setitem__('err', 1001), 'C09.Value')
        c(lambda u: u['psi'][0].__setitem__('mean', 1001), 'C09.BandPassZeroMean')
        c(lambda u: u['psi'].reverse(), 'C09.FilterLabels')
        c(lambda u: u['phi'].__setitem__('mean', 1001), 'C09.LowPassUnitMean')
        return res
    return []


def run(ctx):
    pid = ctx.pid
    ctx.mc('MC_Scat2D', MC % ctx.n((3, 3, 24), (4, 4, 40)), must_cover=ACTIONS, workers=6, timeout=3000)
    n = ctx.n(60, 600)
    cases = [dict(f) for f in FIXED] + [sample_config(ctx.rng, big=not ctx.quick) for _ in range(n)]
    cfgs = [{k: cf[k] for k in ('J', 'L', 'M', 'N', 'mo')} for cf in cases]
    plans = ctx.generate('Gen_Scat2D', GEN, cfgs)
    seeds = [ctx.rng.randrange(2 ** 31) for _ in cases]
    obs = core.pmap(observe, list(zip(cases, plans, seeds)), timeout=700 if ctx.quick else 7000)
    traces = [dict(cfg=c, obs=(dict(ctor='Crash' + o['dead']) if 'dead' in o else o))
              for c, o in zip(cfgs, obs)]
    ctx.notes['worst_value_error_of_1000'] = max([r['err'] for o in obs if 'dead' not in o for r in o['list']['rows']] + [0])
    ctx.notes['worst_prepad_error_of_1000'] = max([o['pp']['err'] for o in obs if 'dead' not in o] + [0])
    labels = [dict(case=cf, input_seed=s) for cf, s in zip(cases, seeds)]
    for cf, p in zip(cases, plans):
        ctx.count(cf, nontrivial=len(p['paths']) >= 3)
    ctx.validate('Trace_Scat2D', SPECONLY, traces, labels, clauses=pid, selfcheck=corrupt(traces))
    for cf, p in list(zip(cases, plans))[:3]:
        ctx.sample({'config': cf, 'paths': len(p['paths']), 'last': p['paths'][-1]})
    return ctx.finish('model_checking',
                      'seeded random and fixed 2-D configurations over all four array frontends, including '
                      'pre-padded calls and smallest/odd sizes; non-trivial: at least three paths',
                      ['float64 reference filters and FFT arithmetic (numpy)',
                       'value tolerance 5e-4 (filters are single precision and use pi=3.1415)',
                       'J >= 1 and 2**J not larger than the image'])
