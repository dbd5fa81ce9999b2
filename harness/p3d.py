"""C10: 3-D solid harmonic scattering."""
import numpy as np

from . import core, front, ref3d
from .core import quant, excname

MC = """SPECIFICATION Spec
CONSTANTS JMax=%d LMax=%d
INVARIANTS InvRect InvAngular InvOrder
"""
SPECONLY = "SPECIFICATION Spec\n"
GEN = "SPECIFICATION Spec\nINVARIANTS InvRect InvAngular InvOrder\n"
ACTIONS = ('Add1', 'Emit1', 'Add2', 'Emit2', 'NextJ1', 'NextL')
POWERS = [(.5, 1., 2.), (1.,), (2., .5), (1, 2), (3., 1.5), (.25, 1., 2., 4.), (2.,),
          (3.5, .75), (1.25, 2.5), (5., .1, 1.)]


def sample_config(rng, big=False):
    J = rng.choice([0, 1, 1, 2, 2, 3])
    L = rng.choice([0, 1, 1, 2, 2, 3] + ([4, 5] if big else []))
    if rng.random() < .35:
        n = rng.choice([4, 5, 7, 8, 9, 12])
        shape = (n, n, n)
    else:
        shape = tuple(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12]) for _ in range(3))
    return dict(J=J, L=L, shape=shape, s0=rng.choice([.5, 1, 1., 1.5, .8, 2]), mo=rng.choice([1, 2, 2]),
                rc=rng.random() < .6, q=rng.choice(POWERS), batch=rng.choice([(), (1,), (2,), (2, 2)]),
                fe=rng.choice(['numpy', 'numpy', 'torch', 'tensorflow', 'jax']), f32=rng.random() < .3)


FIXED = [dict(J=2, L=2, shape=(8, 8, 8), s0=1, mo=2, rc=True, q=POWERS[0], batch=(), fe='numpy', f32=False),
         dict(J=2, L=2, shape=(5, 7, 9), s0=1, mo=2, rc=False, q=POWERS[7], batch=(2,), fe='numpy', f32=False),
         dict(J=3, L=1, shape=(7, 4, 10), s0=.7, mo=2, rc=True, q=POWERS[2], batch=(1,), fe='torch', f32=False),
         dict(J=3, L=3, shape=(6, 9, 4), s0=.7, mo=1, rc=True, q=POWERS[3], batch=(), fe='tensorflow', f32=False),
         dict(J=1, L=4, shape=(6, 7, 8), s0=.7, mo=2, rc=False, q=POWERS[8], batch=(2,), fe='jax', f32=False),
         dict(J=1, L=5, shape=(9, 7, 8), s0=.9, mo=2, rc=True, q=POWERS[5], batch=(), fe='numpy', f32=False),
         dict(J=4, L=1, shape=(7, 8, 9), s0=.4, mo=2, rc=True, q=POWERS[9], batch=(), fe='torch', f32=False),
         dict(J=5, L=1, shape=(8, 9, 6), s0=.3, mo=2, rc=False, q=POWERS[1], batch=(1,), fe='numpy', f32=False),
         dict(J=1, L=7, shape=(8, 7, 9), s0=1., mo=1, rc=True, q=POWERS[7], batch=(), fe='tensorflow', f32=False)]


def volume(shape, seed):
    r = np.random.RandomState(seed)
    x = r.randn(*shape) * r.choice([1., 20.])
    if seed % 3 == 1:
        x = np.abs(x)
    elif seed % 3 == 2 and x.size > 8:
        x = x * (r.rand(*shape) < .2)
        x.flat[0] = 1.
    return x


def integ(u, q):
    return float(np.sum(u ** q))


def observe(arg):
    cf, plan, seed = arg
    fe = cf['fe']
    single = fe != 'numpy' or cf['f32']
    dt = np.float32 if single else np.float64
    B = int(np.prod(cf['batch'])) if cf['batch'] else 1
    x = np.stack([volume(cf['shape'], seed + b) for b in range(B)]).reshape(tuple(cf['batch']) + tuple(cf['shape'])).astype(dt)
    ob = dict(ctor='', exc='', shape=[], batch=list(cf['batch']), err=[], own=[], filt=[])
    try:
        S = front.cls('3d', fe)(J=cf['J'], shape=cf['shape'], L=cf['L'], sigma_0=cf['s0'], max_order=cf['mo'],
                                rotation_covariant=cf['rc'], integral_powers=cf['q'])
    except Exception as e:
        ob['ctor'] = excname(e)
        return ob
    out = plan['out']
    P, A, R = len(out), cf['L'] + 1, len(cf['q'])
    for l in range(A):
        worst = 0.
        try:
            F = front.to_np(S.filters[l])
            if fe == 'torch':
                F = F[..., 0] + 1j * F[..., 1]
            if F.shape != (cf['J'] + 1, 2 * l + 1) + tuple(cf['shape']):
                worst = float('inf')
            else:
                for j in range(cf['J'] + 1):
                    for m in range(-l, l + 1):
                        h = ref3d.harmonic_hat(cf['shape'], cf['s0'] * 2. ** j, l, m)
                        worst = max(worst, float(np.abs(F[j, m + l] - h).max()))
        except Exception:
            worst = float('inf')
        ob["filt"].append(quant(worst, 1e-5))
    try:
        V = front.to_np(S(front.tensor(fe, x)))
    except Exception as e:
        ob['exc'] = excname(e)
        return ob
    ob['shape'] = list(V.shape)
    if list(V.shape) != list(cf['batch']) + [P, A, R]:
        return ob
    V = V.reshape((B, P, A, R)).astype(np.float64)
    ob['err'] = [[[0] * R for _ in range(A)] for _ in range(P)]
    ob['own'] = [[True] * A for _ in range(P)]
    for b in range(B):
        xb = x.reshape((B,) + tuple(cf['shape']))[b]
        ref = ref3d.Reference(xb, cf['shape'], cf['s0'])
        delta = (2e-5 if single else 2e-6) * float(np.abs(xb).max()) + 1e-290
        vals = np.zeros((P, A, R))
        tols = np.zeros((P, A, R))
        for p in range(P):
            for a in range(A):
                u = ref.cell(out[p][a])
                for r, q in enumerate(cf['q']):
                    vals[p, a, r] = integ(u, q)
                    # what a perturbation of the modulus by delta can explain
                    tols[p, a, r] = integ(u + delta, q) - vals[p, a, r] + 1e-4 * vals[p, a, r] + 1e-30
        with np.errstate(all='ignore'):
            err = np.abs(V[b] - vals) / tols
            err[~np.isfinite(err)] = 1e6
        for p in range(P):
            for a in range(A):
                for r in range(R):
                    ob['err'][p][a][r] = max(ob['err'][p][a][r], quant(err[p, a, r], 1.))
                if err[p, a].max() > 1:
                    other = np.abs(V[b, p, a] - vals) / (np.abs(vals) + 1e-30)
                    mine = other[p, a].max()
                    if np.min(other.max(-1)) < .1 * mine:
                        ob['own'][p][a] = False
    return ob


def corrupt(traces):
    import copy
    for t in traces:
        o = t['obs']
        if o['ctor'] or o['exc'] or len(o['err']) < 3 or t['cfg']['mo'] == 1:
            continue
        res = []

        def c(f, clause):
            u = copy.deepcopy(t)
            f(u['obs'])
            res.append((u, clause))
        c(lambda u: u['shape'].append(1), 'C10.Shape')
        c(lambda u: u['err'][0][0].__setitem__(0, 2000), 'C10.FirstOrderValue')
        c(lambda u: u['err'][-1][-1].__setitem__(0, 2000), 'C10.SecondOrderValue')
        c(lambda u: u['own'][-1].__setitem__(0, False), 'C10.EntryIsItsPath')
        c(lambda u: u['filt'].__setitem__(0, 2000), 'C10.FilterDefinition')
        return res
    return []


def run(ctx):
    ctx.mc('MC_Scat3D', MC % ctx.n((5, 4), (9, 8)), must_cover=ACTIONS, workers=6)
    n = ctx.n(60, 600)
    cases = [dict(f) for f in FIXED] + [sample_config(ctx.rng, big=not ctx.quick) for _ in range(n)]
    cfgs = [dict(J=c['J'], L=c['L'], mo=c['mo'], rc=bool(c['rc']), P=len(c['q'])) for c in cases]
    plans = ctx.generate('Gen_Scat3D', GEN, cfgs)
    seeds = [ctx.rng.randrange(2 ** 31 - 10) for _ in cases]
    obs = core.pmap(observe, list(zip(cases, plans, seeds)), timeout=700 if ctx.quick else 7000)
    traces = [dict(cfg=c, obs=(dict(ctor='Crash' + o['dead']) if 'dead' in o else o)) for c, o in zip(cfgs, obs)]
    labels = [dict(case=cf, input_seed=s) for cf, s in zip(cases, seeds)]
    for cf in cases:
        ctx.count(cf)
    ctx.notes['worst_value_error_of_1000'] = max(
        [v for o in obs if 'dead' not in o for a in o['err'] for b in a for v in b] + [0])
    ctx.notes['worst_filter_error_of_1000'] = max([v for o in obs if 'dead' not in o for v in o['filt']] + [0])
    ctx.validate('Trace_Scat3D', SPECONLY, traces, labels, clauses='C10', selfcheck=corrupt(traces))
    for cf in cases[:4]:
        ctx.sample(cf)
    return ctx.finish('model_checking',
                      'seeded random and fixed 3-D configurations over all four array frontends (odd, even and '
                      'degenerate grid sizes, powers, batches)',
                      ['float64 reference solid harmonics (scipy.special.lpmv) and FFT arithmetic',
                       'tolerance: what a perturbation of the modulus by 2e-6 (double) or 2e-5 (single) of '
                       'max|x| explains, plus 1e-4 relative'])
