"""C22: densities and solid harmonics, the building blocks of the 3-D transform."""
import copy
import math
import warnings

import numpy as np

from . import core, ref3d
from .core import quant, excname

MCD = """SPECIFICATION Spec
CONSTANT Depth=%d
INVARIANTS InvCut InvOps
"""
MCO = """SPECIFICATION Spec
CONSTANTS LMax=%d Depth=%d
INVARIANTS InvIndex InvPath InvSome InvRelations InvParity InvVanish
"""
SPEC = "SPECIFICATION Spec\n"


# ---------------------------------------------------------------- densities
def density_case(rng, steps):
    return dict(dims=[rng.choice([1, 2, 3, 4, 5, 6, 7]) for _ in range(3)], B=rng.choice([1, 2, 2, 3]),
                org=[rng.choice([-16, -12, -8, -4, -3, 0, 2]) for _ in range(3)],
                step=[rng.choice([4, 4, 4, 4, 2, 3, 8]) for _ in range(3)], sig=rng.choice([2, 3, 4, 4, 6, 8]), steps=steps)


def arguments(k, w, style):
    ax = [(w['org'][a] + w['step'][a] * ((np.arange(k['dims'][a]) + w['roll'][a]) % k['dims'][a])) / 4. for a in range(3)]
    grid = np.stack(np.meshgrid(*ax, indexing='ij'))
    pos = np.array([[q['p'] for q in m] for m in w['mols']], dtype=float).reshape(k['B'], -1, 3) / 4.
    wts = np.array([[q['w'] for q in m] for m in w['mols']], dtype=float).reshape(k['B'], -1) / 4.
    sig = w['sig'] / 4.
    if style % 2 and np.all(grid == np.round(grid)):
        grid = grid.astype(int)
    if style % 3 == 1:
        pos, wts = pos.astype(np.float32), wts.astype(np.float32)
    elif style % 3 == 2 and np.all(wts == np.round(wts)):
        wts = wts.astype(int)
    if style % 5 == 3 and sig == int(sig):
        sig = int(sig)
    return grid, pos, wts, sig


def closed(k, w, grid):
    """Density of the points that count, and the scale of its terms at each voxel."""
    sg = w['sig'] / 4.
    out = np.zeros([k['B']] + k['dims'])
    mag = np.zeros_like(out)
    nf = (2 * math.pi) ** 1.5 * sg ** 3
    for b, pts in enumerate(w['eff']):
        for q in pts:
            d2 = sum((grid[a].astype(float) - q['p'][a] / 4.) ** 2 for a in range(3))
            t = q['w'] / 4. * np.exp(-d2 / (2 * sg * sg)) / nf
            out[b] += t
            mag[b] += np.abs(t)
    return out, mag, nf, sg


def density(arg):
    k, plan, seed = arg
    from kymatio.scattering3d.utils import generate_weighted_sum_of_gaussians
    obs = []
    for i, w in enumerate(plan):
        args = arguments(k, w, seed + i)
        before = [np.array(a) for a in args[:3]]
        e = dict(run='ok', shape=[], err=0, probe=[], kept=True)
        obs.append(e)
        try:
            D = np.asarray(generate_weighted_sum_of_gaussians(*args), dtype=float)
        except Exception as ex:
            e['run'] = excname(ex)
            continue
        e['kept'] = all(np.array_equal(a, b) for a, b in zip(args, before))
        e['shape'] = list(D.shape)
        if list(D.shape) != [k['B']] + k['dims']:
            continue
        ref, mag, nf, sg = closed(k, w, args[0])
        scale = 1e-6 * mag + 1e-280
        with np.errstate(all='ignore'):
            e['err'] = quant(float(np.max(np.abs(D - ref) / scale)), 1.)
            for p in w['probes']:
                v = sum(t['w'] / 4. * math.exp(-t['d2'] / 16. / (2 * sg * sg)) for t in p['terms']) / nf
                at = (p['b'] - 1,) + tuple(p['x'])
                e['probe'].append(quant(abs(float(D[at]) - v) / scale[at], 1.))
    return obs


# ---------------------------------------------------------------- harmonics
def orbit_case(rng, steps, q):
    l = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7]) if q >= 8 else q
    n = rng.choice([3, 5, 7, 9])
    n0 = rng.choice([1, 3, 5, 7])
    pt = [rng.randint(-(n0 // 2), n0 // 2), rng.randint(-(n // 2), n // 2), rng.randint(-(n // 2), n // 2)]
    if rng.random() < .3:
        pt[rng.randrange(3)] = 0
    return dict(l=l, m=rng.randint(-l, l), pt=pt, steps=steps), \
        dict(n0=n0, n=n, sigma=rng.choice([.5, .75, 1., 1.25, 2.]), J=rng.choice([0, 1, 2]), L=rng.choice([0, 1, 2, 3]),
             shape=[rng.choice([1, 2, 3, 4, 5, 6, 8, 9]) for _ in range(3)])


def coords(shape, fourier):
    ax = [np.fft.ifftshift(np.arange(n) - n // 2) * (2 * np.pi / n if fourier else 1.) for n in shape]
    return np.meshgrid(*ax, indexing='ij')


def harmonic(shape, sigma, l, m, fourier):
    """r^l exp(-r^2/2) Y_lm, its l1 norm (over all m) being one in space."""
    z, y, x = coords(shape, fourier)
    s = 1. / sigma if fourier else sigma
    r = np.sqrt(x * x + y * y + z * z)
    polar = np.arctan2(np.sqrt(x * x + y * y), -z)
    nf = 1. / (math.sqrt(4 * math.pi * (2 * l + 1)) * 2 ** ((l + 1) / 2.) * math.gamma((l + 3) / 2.))
    nf = nf * (2 * np.pi) ** 1.5 * (-1j) ** l if fourier else nf / sigma ** 3
    return nf * (r / s) ** l * np.exp(-r * r / (2 * s * s)) * ref3d.sph(m, l, np.arctan2(y, x), polar)


def peak(sigma, l, fourier):
    nf = 1. / (math.sqrt(4 * math.pi * (2 * l + 1)) * 2 ** ((l + 1) / 2.) * math.gamma((l + 3) / 2.))
    nf = nf * (2 * np.pi) ** 1.5 if fourier else nf / sigma ** 3
    return nf * (l / math.e) ** (l / 2.) * math.sqrt((2 * l + 1) / (4 * math.pi))


def gaussian(shape, sigma, fourier):
    z, y, x = coords(shape, fourier)
    s = 1. / sigma if fourier else sigma
    g = np.exp(-(x * x + y * y + z * z) / (2 * s * s))
    return g if fourier else g / ((2 * np.pi) ** 1.5 * s ** 3)


def dev(a, b, tol):
    """Worst deviation relative to the size of the whole of b."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return float('inf')
    d = float(np.max(np.abs(a.astype(complex) - b))) if a.size else 0.
    return d / (tol * float(np.max(np.abs(b)))) if d or not np.isfinite(d) else 0.


def roots(seed):
    """The square root and what it does to warnings and to the user's settings."""
    from kymatio.scattering3d.utils import sqrt
    r = np.random.RandomState(seed)
    err, quiet = 0., True
    for i, dt in enumerate((np.float64, np.float32, np.complex64, np.complex128)):
        v = r.randn(5, 4) ** 2
        v[0, 0] = 0.
        if i >= 2:
            v = v * np.exp(2j * np.pi * r.rand(5, 4))
        v = v.astype(dt)
        for how in (dict(all='warn'), dict(all='ignore'), dict(all='raise')):
            old = np.seterr(**how)
            try:
                set_ = np.geterr()
                with warnings.catch_warnings(record=True) as got:
                    warnings.simplefilter('always')
                    w = sqrt(v)
                err = max(err, dev(w, np.sqrt(v.astype(complex)), 1e-6))
                quiet = quiet and not got and np.geterr() == set_ and w.dtype == v.dtype
                if i < 2:
                    with warnings.catch_warnings(record=True) as got:
                        warnings.simplefilter('always')
                        w = sqrt(v - 1)
                    pos = v >= 1
                    quiet = quiet and [g.category for g in got] == [RuntimeWarning] and np.geterr() == set_
                    with np.errstate(all='ignore'):
                        err = max(err, dev(w[pos], np.sqrt((v - 1)[pos]), 1e-6))
                    quiet = quiet and bool(np.isnan(w[~pos]).all())
                    with warnings.catch_warnings():
                        warnings.simplefilter('error')
                        try:
                            sqrt(v - 1)
                            quiet = False
                        except RuntimeWarning:
                            pass
                    quiet = quiet and np.geterr() == set_
            finally:
                np.seterr(**old)
    return err, quiet


def orbit(arg):
    k, x, plan, seed = arg
    from kymatio.scattering3d import filter_bank as fb
    from kymatio.scattering3d.utils import get_3d_angles, double_factorial
    l, sg = k['l'], x['sigma']
    base = dict(run='ok', shape=True, form=0, bank=0, gauss=0, dual=0, angle=0, root=0, quiet=True, dfact=[])
    obs = []
    try:
        base['dfact'] = [[int(double_factorial(i)) % q for q in (46337, 32749)] for i in range(-1, 34)]
        err, base['quiet'] = roots(seed)
        base['root'] = quant(err, 1.)
        form = g = bank = 0.
        sym = [x['n0'], x['n'], x['n']]
        for shape in (x['shape'], sym):
            for fourier in (True, False):
                F = fb.solid_harmonic_3d(*shape, sg, l, fourier=fourier)
                base['shape'] = base['shape'] and F.shape == tuple([2 * l + 1] + shape) and F.dtype == np.complex64
                want = np.stack([harmonic(shape, sg, l, m, fourier) for m in range(-l, l + 1)])
                if np.max(np.abs(want)) > 1e-30:
                    form = max(form, dev(F, want, 1e-5))
                g = max(g, dev(fb.gaussian_3d(*shape, sg, fourier=fourier), gaussian(shape, sg, fourier), 1e-5))
        base['shape'] = base['shape'] and np.array_equal(fb.solid_harmonic_3d(*sym, sg, l), fb.solid_harmonic_3d(*sym, sg, l, True))
        for fourier in (True, False):
            sh, J, L = x['shape'], x['J'], x['L']
            B = fb.solid_harmonic_filter_bank(*sh, J, L, sg, fourier=fourier)
            G = fb.gaussian_filter_bank(*sh, J, sg, fourier=fourier)
            base['shape'] = base['shape'] and len(B) == L + 1 and G.shape == tuple([J + 1] + sh) and all(
                B[i].shape == tuple([J + 1, 2 * i + 1] + sh) for i in range(L + 1))
            for j in range(J + 1):
                bank = max(bank, dev(G[j], gaussian(sh, sg * 2 ** j, fourier), 1e-5))
                for i in range(L + 1):
                    want = np.stack([harmonic(sh, sg * 2 ** j, i, m, fourier) for m in range(-i, i + 1)])
                    # relative to the largest value the filter takes anywhere off the grid
                    bank = max(bank, float(np.max(np.abs(B[i][j] - want))) / (1e-5 * peak(sg * 2 ** j, i, fourier)))
        base['form'], base['gauss'], base['bank'] = quant(form, 1.), quant(g, 1.), quant(bank, 1.)
        # resolved filters: the transform of the filter in space is the filter in frequency
        if l <= 3 and seed % 4 == 0:
            sh = [17, 18, 20]
            A = np.fft.fftn(fb.solid_harmonic_3d(*sh, 1.6, l, fourier=False), axes=(1, 2, 3))
            base['dual'] = quant(dev(A, fb.solid_harmonic_3d(*sh, 1.6, l, fourier=True).astype(complex), 5e-3), 1.)
        F = {f: fb.solid_harmonic_3d(*sym, sg, l, fourier=f).astype(complex) for f in (True, False)}
        grid = np.stack(coords(sym, False))
        P, A = get_3d_angles(grid)
        ref = np.arctan2(np.hypot(grid[1], grid[2]), -grid[0])
        ref[0, 0, 0] = np.pi / 2
        axis = (grid[1] == 0) & (grid[2] == 0)
        base['angle'] = quant(max(float(np.max(np.abs(P - ref))),
                                  float(np.max(np.abs(np.exp(1j * A) - np.exp(1j * np.arctan2(grid[1], grid[2])))[~axis], initial=0))), 1e-5)
        at = lambda T, m, p: T[(m + l,) + tuple(p)]
        z0 = plan['base']
        for w in plan['way']:
            z = w['s']
            e = dict(val=0, azi=0, pol=0, size=0)
            obs.append(e)
            worst = size = 0.
            for f in F:
                top = float(np.max(np.abs(F[f])))
                if not top > 1e-30:
                    continue
                v0, v = at(F[f], z0['m'], z0['pt']), at(F[f], z['m'], z['pt'])
                worst = max(worst, abs(v - (1j) ** z['ph'] * v0) / top)
                size = max(size, abs(v) / top)
            e['val'], e['size'] = quant(worst, 1e-5), quant(size, 1e-5)
            a0, a = A[tuple(z0['pt'])], A[tuple(z['pt'])]
            p0, p = P[tuple(z0['pt'])], P[tuple(z['pt'])]
            if z['pt'][1] or z['pt'][2]:
                e['azi'] = quant(abs(np.exp(1j * a) - np.exp(1j * (z['sa'] * a0 + z['qa'] * np.pi / 2))), 1e-5)
            e['pol'] = quant(abs(p - (np.pi - p0 if z['fp'] else p0)), 1e-5)
    except Exception as ex:
        base['run'] = excname(ex)
        base['note'] = str(ex)[:200]
        base['dfact'] = base['dfact'] or [[0, 0]] * 35
        obs = [dict(val=0, azi=0, pol=0, size=0) for _ in plan['way']]
    return dict(base=base, obs=obs)


def corrupt_density(traces):
    for t in traces:
        res = []

        def c(f, clause):
            u = copy.deepcopy(t)
            f(u)
            res.append((u, clause))
        c(lambda u: u['obs'][2].update(err=1001), 'C22.Density')
        c(lambda u: u['obs'][2]['probe'].__setitem__(0, 1001), 'C22.DensityProbe')
        c(lambda u: u['obs'][0].update(kept=False), 'C22.ArgumentsKept')
        c(lambda u: u['obs'][0]['shape'].append(1), 'C22.DensityShape')
        c(lambda u: u['ops'][-1]['eff'][0].append(dict(p=[0, 0, 0], w=1)), 'C22.Foreign')
        c(lambda u: u['ops'][-1]['probes'][0].update(terms=[dict(w=99, d2=1)]), 'C22.Foreign')
        return res


def corrupt_orbit(traces):
    t = next((t for t in traces if any(w['zero'] for w in t['way']) and t['base']['run'] == 'ok'), None)
    if t is None:
        return []
    i = next(i for i, w in enumerate(t['way']) if w['zero'])
    res = []

    def c(f, clause):
        u = copy.deepcopy(t)
        f(u)
        res.append((u, clause))
    for name, clause in [('form', 'HarmonicFormula'), ('gauss', 'GaussianFormula'), ('bank', 'Banks'), ('dual', 'FourierPair'),
                         ('angle', 'Angles'), ('root', 'SquareRoot')]:
        c(lambda u: u['base'].update({name: 1001}), 'C22.' + clause)
    c(lambda u: u['base'].update(shape=False), 'C22.HarmonicShape')
    c(lambda u: u['base'].update(quiet=False), 'C22.SquareRootWarnings')
    c(lambda u: u['base']['dfact'].__setitem__(7, [1, 1]), 'C22.DoubleFactorial')
    c(lambda u: u['obs'][i].update(val=1001), 'C22.Symmetry')
    c(lambda u: u['obs'][i].update(size=1001), 'C22.Vanishes')
    c(lambda u: u['obs'][i].update(azi=1001), 'C22.Azimuth')
    c(lambda u: u['obs'][i].update(pol=1001), 'C22.Polar')
    c(lambda u: u['way'][i]['s'].update(ph=(u['way'][i]['s']['ph'] + 1) % 4), 'C22.Foreign')
    return res


def run(ctx):
    ctx.mc('MC_Density', MCD % ctx.n(3, 4), must_cover=('Points', 'Swap', 'Frame', 'Roll', 'Turn'), workers=4)
    ctx.mc('MC_Orbit', MCO % ctx.n((4, 5), (6, 7)), must_cover=('Turn', 'Flip', 'Mirror'), workers=4)
    rng = ctx.rng
    dc = [density_case(rng, 24) for _ in range(ctx.n(60, 400))]
    dplans = ctx.generate('Gen_Density', SPEC, dc, extra=['-seed', str(ctx.seed)])
    seeds = [rng.randrange(10 ** 6) for _ in dc]
    dobs = core.pmap(density, list(zip(dc, [p['ops'] for p in dplans], seeds)), procs=6)
    oc = [orbit_case(rng, 20, q) for q in range(ctx.n(60, 500))]
    oplans = ctx.generate('Gen_Orbit', SPEC, [a for a, _ in oc], extra=['-seed', str(ctx.seed)])
    oseeds = [rng.randrange(10 ** 6) for _ in oc]
    oobs = core.pmap(orbit, [(a, b, p, s) for (a, b), p, s in zip(oc, oplans, oseeds)], procs=6)
    dead = [dict(run='Crash')]
    dtr = [dict(cfg=k, ops=p['ops'], obs=(dead * len(p['ops']) if isinstance(o, dict) else o))
           for k, p, o in zip(dc, dplans, dobs)]
    otr = [dict(cfg=k, way=p['way'], base=o['base'] if 'base' in o else dict(run='Crash'), obs=o.get('obs', []))
           for (k, _), p, o in zip(oc, oplans, oobs)]
    dl, ol = [], []
    for k, p, s, o in zip(dc, dplans, seeds, dobs):
        bad = next((i for i, e in enumerate(o) if e['run'] != 'ok' or e['err'] > 1000 or not e['kept']), None) \
            if isinstance(o, list) else 0
        dl.append(dict(case=k, style=s, ops=[w['u'] for w in p['ops']][:(bad + 1 if bad is not None else 3)],
                       seen=o[bad] if bad is not None and isinstance(o, list) else None))
        for w in p['ops']:
            ctx.count(dict(k=k, mols=w['mols'], g=[w['org'], w['step'], w['roll'], w['sig']]), nontrivial=any(w['eff']))
    for (k, x), p, o in zip(oc, oplans, oobs):
        ol.append(dict(case=k, grid=x, base=o.get('base'), way=[w['g'] for w in p['way']]))
        ctx.count(dict(k=k, x=x))
    ctx.notes['worst_density_of_1000'] = max([e['err'] for o in dobs if isinstance(o, list) for e in o] + [0])
    for f in ('form', 'gauss', 'bank', 'dual', 'angle', 'root'):
        ctx.notes['worst_%s_of_1000' % f] = max([o['base'][f] for o in oobs if 'base' in o] + [0])
    ctx.validate('Trace_Density', SPEC, dtr, dl, clauses='C22', selfcheck=corrupt_density(dtr))
    ctx.validate('Trace_Orbit', SPEC, otr, ol, clauses='C22', selfcheck=corrupt_orbit(otr))
    ctx.sample(dl[0])
    ctx.sample(ol[0])
    return ctx.finish('model_checking',
                      'random sessions of the density machine (points added, weighted, moved, exchanged; grid shifted, '
                      'scaled, rolled) and random walks of the symmetry group of the grid on solid harmonics',
                      ['exponential, gamma function and associated Legendre functions in float64',
                       'deviations relative to the largest term or value: 1e-6 densities, 1e-5 filters (single precision)'])
