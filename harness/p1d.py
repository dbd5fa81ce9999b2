"""C01-C04: the 1-D scattering transform."""
import numpy as np

from . import core, front, ref1d
from .core import quant, relerr, excname

MC1 = """SPECIFICATION Spec
CONSTANTS JMax=2 LMax1=%d LMax2=2
INVARIANTS InvChain InvKeysUnique InvScales InvRate InvSameLength InvComplete InvCanonical
"""
MCG = """SPECIFICATION Spec
CONSTANTS NMax=%d SupMax=%d
INVARIANTS InvPad InvWin InvNested InvReflect
"""
GEN = """SPECIFICATION Spec
INVARIANT InvDone
"""
TRACE = "SPECIFICATION Spec\n"

QS = [(1, 1), (1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (8, 1), (12, 1), (16, 1),
      (8, 2), (2, 2), (1, 2), (6, 3), (3, 3), (4, 2), (16, 2)]


def sample_config(rng, big=False):
    J = rng.choice([1, 2, 3, 3, 4, 4, 5, 5, 6] + ([7, 8] if big else []))
    Q = rng.choice(QS)
    lo = 2 ** J
    hi = max(600, 2 * lo) if not big else max(3000, 2 * lo)
    N = rng.choice([lo, lo + 1, rng.randint(lo, max(lo + 1, 4 * lo)),
                    rng.randint(lo, hi), rng.randint(lo, hi) | 1,
                    2 ** rng.randint(J, 9)])
    Tk = rng.choice(['none', 'none', 'val', 'val', 'val', 'global', 'zero'])
    T = 1
    if Tk == 'val':
        T = rng.choice([1, 2 ** rng.randint(0, J), rng.randint(1, min(N, 3 * lo)),
                        rng.randint(1, N), N])
        T = min(T, N)
        if rng.random() < .35 and T + .97 <= N:
            T = T + rng.choice([.25, .5, .75, .96])
    sk, s = 'none', 1
    if Tk in ('none', 'val') and rng.random() < .55:
        Tv = ref1d.resolve_T(J, Tk, T)
        sk, s = 'val', 2 ** rng.randint(0, int(np.floor(np.log2(Tv))))
    mo = rng.choice([1, 2, 2, 2])
    return dict(J=J, N=N, Q=Q, Tk=Tk, T=T, sk=sk, s=s, mo=mo)


def edge_config(rng):
    """A length at which one more sample, or one more sample of support, doubles the padded signal."""
    while True:
        cf = sample_config(rng)
        if cf['Tk'] not in ('none', 'val') or cf['J'] > 5:
            continue
        Tv = ref1d.resolve_T(cf['J'], cf['Tk'], cf['T'])
        k = rng.choice([6, 7, 8, 9, 10])
        sup = ref1d.support(2 ** k, .1 / Tv)
        for N in range(2 ** k - 6 * sup - 6, 2 ** k - 6 * sup + 13):
            if N < max(2 ** cf['J'], Tv, 2) or 3 * N - 2 < 2 ** (k + 1):
                continue
            sup = ref1d.support(N, .1 / Tv)
            if 2 ** k - 3 < N + 6 * sup <= 2 ** k + 9:
                cands = [N + d for d in range(-2, 8) if 2 ** k - 6 < N + d + 6 * ref1d.support(N + d, .1 / Tv) <= 2 ** k + 6
                         and N + d >= max(2 ** cf['J'], Tv)]
                if cands:
                    return dict(cf, N=rng.choice(cands))


FIXED = [
    dict(J=1, N=2, Q=(1, 1), Tk='none', T=1, sk='none', s=1, mo=2),
    dict(J=0, N=7, Q=(2, 1), Tk='none', T=1, sk='none', s=1, mo=2),
    dict(J=3, N=8, Q=(1, 2), Tk='none', T=1, sk='val', s=1, mo=2),
    dict(J=5, N=509, Q=(8, 2), Tk='none', T=1, sk='val', s=4, mo=2),
    dict(J=5, N=509, Q=(8, 2), Tk='zero', T=1, sk='none', s=1, mo=2),
    dict(J=5, N=509, Q=(8, 2), Tk='global', T=1, sk='none', s=1, mo=2),
    dict(J=3, N=301, Q=(3, 3), Tk='val', T=200, sk='val', s=8, mo=2),
    dict(J=3, N=301, Q=(16, 1), Tk='val', T=200, sk='none', s=1, mo=2),
    dict(J=6, N=211, Q=(8, 1), Tk='val', T=3, sk='none', s=1, mo=2),
    dict(J=4, N=97, Q=(4, 2), Tk='val', T=11, sk='val', s=2, mo=1),
    # supports which are not integers
    dict(J=3, N=120, Q=(2, 1), Tk='val', T=3.5, sk='none', s=1, mo=2),
    dict(J=4, N=200, Q=(4, 2), Tk='val', T=1.75, sk='val', s=1, mo=2),
    dict(J=2, N=97, Q=(1, 1), Tk='val', T=20.75, sk='val', s=4, mo=2),
    # long signals and many scales
    dict(J=7, N=700, Q=(1, 1), Tk='none', T=1, sk='val', s=16, mo=2),
    dict(J=8, N=900, Q=(2, 1), Tk='val', T=40, sk='none', s=1, mo=2),
    dict(J=9, N=513, Q=(1, 1), Tk='zero', T=1, sk='none', s=1, mo=2),
    dict(J=10, N=1024, Q=(1, 1), Tk='global', T=1, sk='none', s=1, mo=2),
    dict(J=11, N=4096, Q=(1, 1), Tk='none', T=1, sk='none', s=1, mo=2),
    dict(J=12, N=4099, Q=(1, 1), Tk='none', T=1, sk='val', s=2048, mo=2),
    dict(J=13, N=8192, Q=(1, 1), Tk='val', T=300, sk='none', s=1, mo=2),
    dict(J=2, N=70001, Q=(1, 1), Tk='none', T=1, sk='none', s=1, mo=2),
    dict(J=3, N=40000, Q=(2, 1), Tk='val', T=1000, sk='val', s=64, mo=1),
    # many filters
    dict(J=4, N=600, Q=(32, 1), Tk='none', T=1, sk='none', s=1, mo=2),
    dict(J=3, N=401, Q=(24, 5), Tk='val', T=20, sk='val', s=4, mo=2),
    dict(J=4, N=260, Q=(9, 7), Tk='zero', T=1, sk='none', s=1, mo=2),
    dict(J=3, N=90, Q=(130, 1), Tk='none', T=1, sk='none', s=1, mo=1),
]


def ctor_args(cf):
    kw = dict(J=cf['J'], shape=cf['N'], max_order=cf['mo'])
    Q1, Q2 = cf['Q']
    v = cf.get('variant', 0)
    kw['Q'] = (Q1, Q2) if (Q2 != 1 or v % 3 == 0) else (Q1 if v % 3 == 1 else (Q1,))
    if v % 2:
        kw['shape'] = (cf['N'],)
    if cf['Tk'] == 'val':
        kw['T'] = cf['T']
    elif cf['Tk'] == 'zero':
        kw['T'] = 0
    elif cf['Tk'] == 'global':
        kw['T'] = 'global'
    if cf['sk'] == 'val':
        if cf.get('ov'):
            # the older spelling of the same stride
            kw['oversampling'] = int(np.log2(ref1d.resolve_T(cf['J'], cf['Tk'], cf['T']))) - int(np.log2(cf['s'])) + cf.get('beyond', 0)
        if cf.get('ov') != 1:
            kw['stride'] = cf['s']
    return kw


def make_input(cf, seed):
    r = np.random.RandomState(seed)
    N = cf['N']
    t = np.arange(N)
    x = r.randn(N) * r.choice([1., 1., 30., .01])
    kind = seed % 4
    if kind == 1:
        x = x + 3 * np.sin(2 * np.pi * (.02 * t + .45 * t * t / (2 * N)))
    elif kind == 2:
        x = np.cumsum(x) / np.sqrt(N)
    elif kind == 3:
        x = np.zeros(N)
        x[r.randint(0, N, size=max(1, N // 7))] = r.randn(max(1, N // 7))
    return x


def ncos(a, b):
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if na == 0 or nb == 0:
        return 2. if na != nb else 0.
    return float(np.linalg.norm(a / na - b / nb))


def build(cls, cf, out_type):
    """The object, possibly obtained by reassigning attributes."""
    kw = ctor_args(cf)
    if cf.get('reassign'):
        kw['max_order'] = 3 - cf['mo']
        S = cls(out_type='dict' if out_type != 'dict' else 'list', **kw)
        if cf['reassign'] == 2:
            S.meta()
            S.output_size()
        S.max_order = cf['mo']
        S.out_type = out_type
        return S
    return cls(out_type=out_type, **kw)


def observe(arg):
    """Runs the real code on one configuration; returns the observation."""
    cf, plan, seed = arg
    import warnings
    warnings.simplefilter('ignore')
    fe = cf.get('fe', 'numpy')
    batch = tuple(cf.get('batch', ()))
    Scattering1D = front.cls('1d', fe)
    single = fe != 'numpy'
    f32 = bool(cf.get('f32')) or single
    tol, stol = (1e-5, 1e-6) if single else (1e-4 if f32 else 1e-6, 1e-9)
    xs = [make_input(cf, seed + 4 * b) for b in range(int(np.prod(batch, dtype=int)))]
    x = np.stack(xs).reshape(batch + (cf['N'],))
    if f32:
        x = x.astype(np.float32)
        xs = [v.astype(np.float32) for v in xs]
    x0 = x.copy()

    def path_scale(ref, x):
        a = float(np.max(np.abs(x)))
        if single:
            # rounding errors of single precision are relative to the whole signal
            return float(np.max(np.abs(ref))) + a * 1e-2 * (4. * cf['N'] if cf['Tk'] == 'global' else 1) + 1e-30
        return float(np.max(np.abs(ref))) + 1e-5 * a + 1e-290

    def run(S, z):
        t = front.tensor(fe, z, np.float32 if single else None)
        r = front.plain(S(t))
        if not np.array_equal(front.to_np(t), z.astype(t.dtype) if fe == 'numpy' else z.astype(np.float32)):
            raise RuntimeError('input modified')
        return r
    ob = dict(ctor='', list=dict(exc='', rows=[]), arr=dict(exc='', shape=[], same=[]),
              dct=dict(exc='', keys=[], same=[]), meta=dict(exc='', rows=[]),
              size=dict(exc='', total=-1, detail=[]),
              grid=dict(warned=False, pl=-1, pr=-1, stride=[], impulse=[], lev2=[], levphi=0))
    try:
        with warnings.catch_warnings(record=True) as said:
            warnings.simplefilter('always')
            S = build(Scattering1D, cf, 'list')
        ob['grid']['warned'] = any(issubclass(w.category, UserWarning) and any(k in str(w.message).lower() for k in ('border', 'support', 'small')) for w in said)
    except Exception as e:
        ob['ctor'] = excname(e)
        return ob
    if plan['rejected']:
        return ob
    paths = plan['paths']
    rb = [ref1d.coefficients(v, dict(plan, T=ref1d.resolve_T(cf['J'], cf['Tk'], cf['T'])),
                             cf['J'], cf['Q']) for v in xs]
    refs = [np.stack([r[i] for r in rb]).reshape(batch + (-1,)) for i in range(len(paths))]

    # list
    L = None
    try:
        L = run(S, x)
        rows = []
        for i, r in enumerate(L):
            v = np.asarray(r['coef'])
            row = dict(n=[int(a) for a in r['n']], j=[int(a) for a in r['j']],
                       ord=int(r['order']), len=int(v.shape[-1]), nd=v.shape[:-1] == batch,
                       err=10**9, own=False)
            if i < len(refs) and v.shape == refs[i].shape and np.all(np.isfinite(v)):
                row['err'] = max(quant(relerr(a, b, path_scale(b, w)), tol) for a, b, w in
                                 zip(v.reshape(len(xs), -1), refs[i].reshape(len(xs), -1), xs))
                row['own'] = True
                if row['err'] > 1000:
                    cand = [(ncos(v, q), k) for k, q in enumerate(refs)
                            if q.shape == v.shape]
                    row['own'] = min(cand)[0] >= .9 * ncos(v, refs[i])
            rows.append(row)
        ob['list']['rows'] = rows
    except Exception as e:
        ob['list']['exc'] = excname(e)
        L = None

    # array
    try:
        S2 = S if cf.get('variant', 0) % 2 else build(Scattering1D, cf, 'array')
        S2.out_type = 'array'
        A = np.asarray(run(S2, x))
        ob['arr']['shape'] = list(A.shape[len(batch):]) if A.shape[:len(batch)] == batch else [-1] + list(A.shape)
        if L is not None and A.ndim == 2 + len(batch) and A.shape[-2] == len(L):
            ob['arr']['same'] = [quant(relerr(A[..., i, :], L[i]['coef'], path_scale(L[i]['coef'], x0)), stol)
                                 for i in range(len(L))]
    except Exception as e:
        ob['arr']['exc'] = excname(e)
    # dict
    try:
        S3 = S if cf.get('variant', 0) % 2 else build(Scattering1D, cf, 'dict')
        S3.out_type = 'dict'
        D = run(S3, x)
        ob['dct']['keys'] = [[int(a) for a in k] for k in D]
        if L is not None:
            ob['dct']['same'] = [
                quant(relerr(D[tuple(r['n'])], r['coef'], path_scale(r['coef'], x0)), stol)
                if tuple(r['n']) in D else 10**9 for r in L]
    except Exception as e:
        ob['dct']['exc'] = excname(e)
    # metadata
    try:
        M = S.meta()
        b = (ref1d.bank(cf['J'], cf['Q'][0]), ref1d.bank(cf['J'], cf['Q'][1]))
        used = (S.psi1_f, S.psi2_f)
        rows = []

        def freq(val, which, ordr, n):
            if np.isnan(val):
                return -1
            e = max(abs(val - b[ordr][n][which]),
                    abs(val - used[ordr][n][('xi', 'sigma')[which]]))
            return quant(e / b[ordr][n][1], 1e-9)
        for i in range(len(M['key'])):
            n = [(-1 if np.isnan(a) else int(a)) for a in M['n'][i]]
            rows.append(dict(
                order=int(M['order'][i]), key=[int(a) for a in M['key'][i]], n=n,
                j=[(-1 if np.isnan(a) else int(a)) for a in M['j'][i]],
                xi=[freq(M['xi'][i][o], 0, o, n[o]) for o in range(len(M['xi'][i]))],
                sg=[freq(M['sigma'][i][o], 1, o, n[o]) for o in range(len(M['sigma'][i]))]))
        ob['meta']['rows'] = rows
    except Exception as e:
        ob['meta']['exc'] = excname(e)
    try:
        ob['size']['total'] = int(S.output_size())
        ob['size']['detail'] = [int(v) for v in S.output_size(detail=True)]
    except Exception as e:
        ob['size']['exc'] = excname(e)
    # grid
    g = ob['grid']
    g['pl'], g['pr'] = int(S.pad_left), int(S.pad_right)
    g['lev2'] = [len(p['levels']) for p in S.psi2_f]
    g['levphi'] = len(S.phi_f['levels'])
    if plan['avg'] == 'local' and plan['ls'] > 0 and L is not None and cf['N'] >= 20:
        try:
            kw = ctor_args(dict(cf, ov=0))
            kw['stride'] = 1
            S1 = run(Scattering1D(out_type='list', **kw), x)
            step, off = 2 ** plan['ls'], plan['off']
            for a, b_ in zip(L, S1):
                v = np.asarray(a['coef'])
                idx = off + step * np.arange(v.shape[-1])
                ok = idx < np.asarray(b_['coef']).shape[-1]
                w = np.asarray(b_['coef'])[..., idx[ok]]
                sc = float(np.max(np.abs(b_['coef']))) + 1e-3 * float(np.max(np.abs(x0)))
                g['stride'].append(quant(relerr(v[..., ok], w, sc), STRIDE_TOL))
        except Exception as e:
            g['stride'].append(10**9)
    if plan['avg'] != 'global' and L is not None and plan['T'] <= cf['N'] / 8:
        try:
            rr = np.random.RandomState(seed + 1)
            for _ in range(3):
                p = int(rr.randint(cf['N'] // 4, 3 * cf['N'] // 4))
                z = np.zeros(cf['N'])
                z[p] = 1.
                v = run(S, z)
                v = v[()] if isinstance(v, dict) else v[0]['coef'] if isinstance(v, list) else v[0]
                step = 2 ** plan['ls'] if plan['avg'] == 'local' else 1
                pos = plan['off'] + step * int(np.argmax(v)) if plan['avg'] == 'local' else int(np.argmax(v))
                g['impulse'].append(quant(abs(pos - p), max(step / 2, .5) + .01))
        except Exception as e:
            g['impulse'].append(10**9)
    return ob


STRIDE_TOL = 4e-2


def corrupt(traces, plans, clause_map):
    """Corrupted copies of a recorded trace; each must be rejected."""
    import copy
    for t, p in zip(traces, plans):
        o = t['obs']
        if o['ctor'] or o['list']['exc'] or p['rejected'] or len(o['list']['rows']) < 4 \
           or len(o['meta']['rows']) < 4 or o['arr']['exc']:
            continue
        res = []

        def c(f, clause):
            u = copy.deepcopy(t)
            f(u['obs'])
            res.append((u, clause))
        c(lambda u: u['list']['rows'].reverse(), 'C01.ListKeys')
        c(lambda u: u['list']['rows'].pop(), 'C01.PathCount')
        c(lambda u: u['list']['rows'][1]['n'].__setitem__(0, 77), 'C01.ListKeys')
        c(lambda u: u['arr']['same'].__setitem__(0, 5000), 'C01.ArrayEqualsList')
        c(lambda u: u['dct']['keys'].pop(), 'C01.DictKeys')
        c(lambda u: u['meta']['rows'].reverse(), 'C02.MetaRow')
        c(lambda u: u['meta']['rows'][1]['xi'].__setitem__(0, -1), 'C02.MetaFrequency')
        c(lambda u: u['size'].__setitem__('total', 1), 'C02.SizeTotal')
        c(lambda u: u['list']['rows'][0].__setitem__('len', 1000), 'C03.Length')
        c(lambda u: u['grid'].__setitem__('pl', -5), 'C03.Padding')
        if t['cfg']['fits'] != 2:
            c(lambda u: u['grid'].__setitem__('warned', not u['grid']['warned']), 'C03.BorderWarning')
        c(lambda u: u['list']['rows'][-1].__setitem__('err', 1001), 'C04.Value')
        c(lambda u: u.__setitem__('ctor', 'IndexError'), 'C03.Constructs')
        return res
    return []


def evaluate(ctx, cases, module='Trace_Scat1D', clauses=None):
    cfgs = [ref1d.config(**{k: cf[k] for k in ('J', 'N', 'Q', 'Tk', 'T', 'sk', 's', 'mo')})
            for cf in cases]
    plans = ctx.generate('Gen_Scat1D', GEN, cfgs)
    seeds = [ctx.rng.randrange(2**31) for _ in cases]
    obs = core.pmap(observe, list(zip(cases, plans, seeds)))
    traces = []
    for cfg, ob in zip(cfgs, obs):
        if 'dead' in ob:
            ob = dict(ctor='Crash' + ob['dead'])
        traces.append(dict(cfg=cfg, obs=ob))
    labels = [dict(case=cf, input_seed=s, known_case=cf.get('kf', '-')) for cf, s in zip(cases, seeds)]
    for cf, p in zip(cases, plans):
        ctx.count({k: v for k, v in cf.items()}, nontrivial=not p['rejected'] and len(p['paths']) >= 3)
    ctx.validate(module, TRACE, traces, labels, clauses=clauses,
                 selfcheck=corrupt(traces, plans, None))
    for cf, p in list(zip(cases, plans))[:4]:
        ctx.sample({'config': cf, 'paths': len(p['paths']), 'last_path': p['paths'][-1]})
    return plans, obs


def run(ctx):
    pid = ctx.pid
    if pid in ('C01', 'C02', 'C04'):
        ctx.mc('MC_Scat1D', MC1 % ctx.n(2, 3), must_cover=(
            'EmitS0', 'BeginN1', 'EmitS1', 'EmitS2', 'SkipN2', 'NextN1', 'Finish'), workers=6)
    if pid == 'C03':
        ctx.mc('MC_Grid1D', MCG % ctx.n((40, 12), (160, 40)), must_cover=('Halve',), workers=6)
    n = ctx.n(70, 700)
    cases = [dict(f) for f in FIXED] + [sample_config(ctx.rng, big=not ctx.quick and i % 4 == 0) for i in range(n)]
    if pid == 'C03':
        cases += [edge_config(ctx.rng) for _ in range(ctx.n(40, 400))]
    for i, cf in enumerate(cases):
        cf['variant'] = ctx.rng.randrange(6)
        if pid in ('C01', 'C02') and ctx.rng.random() < .4 and cf['sk'] == 'none':
            cf['reassign'] = ctx.rng.choice([1, 2])
        if cf['sk'] == 'val' and ctx.rng.random() < .3:
            cf['ov'] = ctx.rng.choice([1, 1, 2])
            if cf['s'] == 1 and (cf['ov'] == 2 or ctx.rng.random() < .7):
                # more oversampling than there is subsampling
                cf['beyond'] = ctx.rng.choice([0, 1, 1, 2, 7])
        if pid == 'C04' and ctx.rng.random() < .2:
            cf['f32'] = 1
        if i >= len(FIXED) and ctx.rng.random() < .5:
            cf['fe'] = ctx.rng.choice(['torch', 'torch', 'tensorflow', 'jax'])
        if ctx.rng.random() < .5:
            cf['batch'] = ctx.rng.choice([[1], [2], [2, 1], [1, 2], [3]])
    evaluate(ctx, cases, clauses=pid)
    return ctx.finish('model_checking',
                      'seeded random and fixed 1-D configurations (J, N, Q, T, stride, max_order, '
                      'reassigned attributes); non-trivial: accepted and at least three paths',
                      ['float64 reference filters and FFT arithmetic (numpy)',
                       'tolerance 1e-6 relative to the largest value of the path'])
