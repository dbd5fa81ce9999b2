"""C05: 1-D filter banks."""
import math

import numpy as np

from . import core, front, ref1d, p1d
from .core import quant, excname

S = 262144
X = 2 ** 24


def l2(v):
    return math.log2(max(v, 1e-30))


def enc(xi, sg):
    a = abs(xi)
    r = math.sqrt(math.log(2)) * sg / a if a > 1e-12 else 0
    lq = S * math.log2((1 + r) / (1 - r)) if 0 < r < 1 else 30 * S
    return dict(lx=round(S * l2(a)), ls=round(S * l2(sg)), x=round(X * a),
                lod=round(S * l2((1 - a) / max(a, 1e-9))) if a < 1 else 0, lq=round(lq),
                lub=round(S * l2(min(a + 5 * sg, .5))), sgn=1 if xi > 0 else -1)


def first(Q):
    xi = max(1 / (1 + 2 ** (3.0 / Q)), 0.35)
    return xi, ref1d.sigma_of(xi, Q)


def mc_table(QM):
    T = []
    for Q in range(1, QM + 1):
        xi, sg = first(Q)
        T.append(dict(lx=round(S * l2(xi)), ls=round(S * l2(sg)), x=round(X * xi),
                      sx=round(X * sg), steps=[round(X * xi * 2 ** (-(i + 1) / Q)) for i in range(20 * Q)]))
    return T


def facts(f, NP, need, ref_full):
    lv = [front.to_np(a) for a in f['levels']]
    # frontends may hold the real filters as columns and in single precision
    lv = [a[..., 0] if a.ndim == 2 and a.shape[-1] == 1 else a for a in lv]
    single = lv[0].dtype in (np.float32, np.complex64)
    lv = [a.astype(np.float64) if a.dtype == np.float32 else a for a in lv]
    full = lv[0]
    d = dict(enc(f['xi'], f['sigma']) if f['xi'] != 0 else dict(ls=round(S * l2(f['sigma']))))
    ok = full.shape == (NP,) and np.all(np.isfinite(full))
    d.update(j=int(f['j']), nlev=len(lv), need=need, len=[int(a.shape[0]) for a in lv])
    if not ok:
        d.update(zero=10**9, l1=10**9, shape=10**9, lev=[10**9])
        return d
    # rounding error of removing the mean is amplified for filters narrower
    # than the frequency resolution
    a = 1e-14 * ref1d.morlet_cond(NP, f['xi'], f['sigma']) if f['xi'] != 0 else 0
    tol = 1e-6 if single else 1e-7
    d['zero'] = quant(abs(full[0]), (1e-7 if single else 1e-9) + a)
    d['l1'] = quant(abs(np.abs(np.fft.ifft(full)).sum() - 1), 1e-5 if single else 1e-7)
    d['shape'] = quant(core.relerr(full, ref_full), tol + a)
    d['lev'] = [quant(core.relerr(v, ref1d.periodise(ref_full, k)), tol + a) for k, v in enumerate(lv)]
    return d


def observe(arg):
    import warnings
    warnings.simplefilter('ignore')
    cf, plan = arg
    Scattering1D = front.cls('1d', cf.get('fe', 'numpy'))
    TimeFrequencyScattering = front.cls('tf', cf.get('fe', 'numpy'))
    out = []

    def bank_case(kind, psis, J, Q, NP, needs, spin=False, T=None):
        xi, sg = first(Q) if Q else (0, 1)
        c = dict(exc='', kind=kind, J=J, Q=Q or 1, spin=spin, NP=NP, lt=0,
                 h=dict(ls0=round(S * l2(sg)), ex=round(X * sg)), f=[])
        if kind == 'phi':
            c['lt'] = round(S * l2(T))
        for p, need in zip(psis, needs):
            rf = ref1d.gauss_hat(NP, 0.1 / T) if kind == 'phi' else \
                ref1d.morlet_hat(NP, p['xi'], p['sigma'])
            d = facts(p, NP, need, rf)
            if kind == 'phi':
                d['xi0'] = p['xi'] == 0
            c['f'].append(d)
        return c
    try:
        if cf['kind'] == '1d':
            S_ = Scattering1D(out_type='list', **p1d.ctor_args(cf))
            if plan['rejected']:
                return [dict(exc='NotRejected')]
            NP = plan['np']
            out.append(bank_case('psi', S_.psi1_f, cf['J'], cf['Q'][0], NP, [1] * len(S_.psi1_f)))
            n2 = plan['lev2'] + [1] * len(S_.psi2_f)
            out.append(bank_case('psi', S_.psi2_f, cf['J'], cf['Q'][1], NP, n2))
            need = 1 + (plan['ls'] if plan['avg'] == 'local' else 0)
            out.append(bank_case('phi', [S_.phi_f], cf['J'], None, NP, [need],
                                 T=ref1d.resolve_T(cf['J'], cf['Tk'], cf['T'])))
        else:
            kw = dict(J=cf['J'], J_fr=cf['J_fr'], Q=cf['Q'], shape=cf['N'], Q_fr=cf['Q_fr'])
            if cf['F']:
                kw['F'] = cf['F']
            S_ = TimeFrequencyScattering(format='time', out_type='list', **kw)
            phi, psis = S_.filters_fr[0], list(S_.filters_fr[1])
            F = cf['F'] or 2 ** cf['J_fr']
            NP = int(phi['N'])
            out.append(bank_case('phi', [phi], 0, None, NP, [1], T=F))
            out.append(bank_case('phi', [psis[0]], 0, None, NP, [1], T=2 ** cf['J_fr']))
            out.append(bank_case('psi', psis[1:], cf['J_fr'], cf['Q_fr'], NP,
                                 [1] * len(psis), spin=True))
    except AssertionError:
        if cf['kind'] == '1d' and plan['rejected']:
            return []
        return [dict(exc='AssertionError')]
    except Exception as e:
        return [dict(exc=excname(e))]
    return out


def run(ctx):
    tab = ctx.write('table.json', mc_table(ctx.n(16, 32)))
    ctx.mc('MC_FilterBank', 'SPECIFICATION Spec\nCONSTANTS JMax=%d\nINVARIANTS InvPositive InvBandwidth InvCount\n' % ctx.n(10, 14),
           env={'TABLE': tab}, must_cover=('Start', 'Geo', 'Elbow', 'Arith', 'Stop'))
    rng = ctx.rng
    cases = [dict(f, kind='1d') for f in p1d.FIXED]
    for i in range(ctx.n(60, 600)):
        cf = p1d.sample_config(rng, big=(i % 3 == 0))
        if rng.random() < .4:
            cf['Q'] = (rng.choice([1, 2, 3, 4, 5, 7, 8, 10, 12, 16, 20, 24, 32]), rng.choice([1, 1, 2, 3, 5]))
        cases.append(dict(cf, kind='1d', variant=rng.randrange(6)))
    # degenerate banks: bandwidth below the minimum from the start
    for J, Q in [(0, 2), (0, 4), (1, 4), (1, 8), (2, 16), (0, 3), (1, 16)]:
        cases.append(dict(J=J, N=rng.randint(16, 80), Q=(Q, 1), Tk='none', T=1, sk='none', s=1, mo=2, kind='1d'))
    for J_fr in range(1, 6):
        for Q_fr in (1, 2, 3):
            J, Q1 = rng.choice([4, 5, 6]), rng.choice([1, 4, 8])
            F = rng.choice([0, 1, 2, 3, 2.5, 1.75, 2 ** J_fr])
            cases.append(dict(kind='fr', J=J, N=rng.choice([512, 601]), Q=(Q1, 1), J_fr=J_fr,
                              Q_fr=Q_fr, F=F if F <= (J + 1) * Q1 else 0))
    for i, c in enumerate(cases):
        if i % 3 == 2:
            c['fe'] = rng.choice(['torch', 'torch', 'tensorflow', 'jax'])
    idx = [i for i, c in enumerate(cases) if c['kind'] == '1d']
    cfgs = [ref1d.config(**{k: cases[i][k] for k in ('J', 'N', 'Q', 'Tk', 'T', 'sk', 's', 'mo')}) for i in idx]
    pl = ctx.generate('Gen_Scat1D', p1d.GEN, cfgs)
    plans = [None] * len(cases)
    for i, p in zip(idx, pl):
        plans[i] = p
    obs = core.pmap(observe, list(zip(cases, plans)))
    traces, labels = [], []
    blank = dict(kind='psi', J=0, Q=1, spin=False, NP=1, lt=0, h=dict(ls0=0, ex=0), f=[])
    for cf, o, p in zip(cases, obs, plans):
        if isinstance(o, dict):
            o = [dict(exc='Crash')]
        for b, t in enumerate(o):
            traces.append(dict(blank, **t))
            labels.append(dict(case=cf, bank=b))
        ctx.count(cf, nontrivial=bool(o))
    import copy
    sc = []
    good = next(t for t in traces if not t['exc'] and t['kind'] == 'psi' and len(t['f']) > 8 and t['Q'] >= 3)
    for name, fn in (('C05.GeometricStep', lambda u: u['f'].pop(2)),
                     ('C05.BankTooShort', lambda u: u['f'].pop()),
                     ('C05.BankTooLong', lambda u: u['f'].append(dict(u['f'][-1]))),
                     ('C05.ArithmeticStep', lambda u: u['f'][-1].__setitem__('x', u['f'][-1]['x'] + 9000)),
                     ('C05.MaximalSubsampling', lambda u: u['f'][-1].__setitem__('j', u['f'][-1]['j'] + 1)),
                     ('C05.FirstFrequency', lambda u: u['f'][0].update(x=u['f'][0]['x'] + 400, lod=u['f'][0]['lod'] + 400)),
                     ('C05.Periodised', lambda u: u['f'][1]['lev'].append(4000))):
        u = copy.deepcopy(good)
        fn(u)
        sc.append((u, name))
    ctx.validate('Trace_FilterBank', 'SPECIFICATION Spec\n', traces, labels, clauses='C05', selfcheck=sc)
    ctx.sample({'config': cases[3], 'first_filter': traces[9]['f'][:1]})
    return ctx.finish('model_checking', 'seeded random and fixed (J, Q, T, N), spinned frequency banks; '
                      'one trace per bank; non-trivial: accepted configuration',
                      ['fixed-point encoding (2^18 units per octave) of observed frequencies by the driver',
                       'reference spectra in float64'])
