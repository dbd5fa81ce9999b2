"""C06, C07: joint time-frequency scattering."""
import numpy as np

from . import core, front, ref1d
from .core import quant, relerr, excname
from .p1d import make_input, ncos

MC = """SPECIFICATION Spec
CONSTANTS JMax=1 L1=%d L2=%d LF=%d
INVARIANTS JInvLevels JInvPrefix JInvKeys JInvRows JInvOrder JInvRates JInvStack
"""
GEN = """SPECIFICATION Spec
INVARIANT JInvDone
"""
TRACE = "SPECIFICATION Spec\n"
ACTIONS = ('JZeroth', 'JFirst', 'JFirstSkip', 'JNextN2', 'JSecond', 'JFinish')


def freq_bank(Jf, Qf):
    b = ref1d.bank(Jf, Qf)
    return ([(0., 0.1 / 2 ** Jf, Jf, 0)] +
            [(xi, sg, ref1d.scale(xi, sg), 1) for xi, sg in b] +
            [(-xi, sg, ref1d.scale(xi, sg), -1) for xi, sg in b])


def abstract(cf):
    k = ref1d.config(cf['J'], cf['N'], cf['Q'], cf['Tk'], cf['T'], cf['sk'], cf['s'])
    k['x12'] = [p for p in k['x12'] if k['j1'][p[0]] < k['j2'][p[1]]]
    fb = freq_bank(cf['Jf'], cf['Qf'])
    k.update(Q1=cf['Q'][0], Jf=cf['Jf'], jf=[f[2] for f in fb], sg=[f[3] for f in fb],
             Fk=cf['Fk'], F=int(np.floor(cf['F'])), F8=int(np.ceil(8 * cf['F'])), sfk=cf['sfk'], sf=cf['sf'],
             fmt=cf['fmt'], ot=cf['ot'])
    return k


def fval(cf):
    return cf['F'] if cf['Fk'] == 'val' else 2 ** cf['Jf']


def sample_config(rng, big=False):
    while True:
        J = rng.choice([1, 2, 2, 3, 3, 4, 4, 5] + ([6] if big else []))
        Q = rng.choice([(1, 1), (1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (8, 1), (3, 2), (2, 2), (6, 1)])
        lo = 2 ** J
        N = rng.choice([lo, rng.randint(lo, 3 * lo), rng.randint(lo, 300), rng.randint(lo, 300) | 1,
                        2 ** rng.randint(J, 8)])
        Jf = rng.choice([1, 1, 2, 2, 3, 4])
        Qf = rng.choice([1, 1, 1, 2, 3])
        Tk = rng.choice(['none', 'none', 'val', 'val', 'global', 'zero'])
        T = rng.choice([1, 2 ** rng.randint(0, J), rng.randint(1, N)]) if Tk == 'val' else 1
        T = min(T, N)
        if Tk == 'val' and rng.random() < .3 and T + .75 <= N:
            T += rng.choice([.25, .5, .75])
        sk, s = 'none', 1
        if Tk in ('none', 'val') and rng.random() < .5:
            sk, s = 'val', 2 ** rng.randint(0, int(np.floor(np.log2(ref1d.resolve_T(J, Tk, T)))))
        nin = (J + 1) * Q[0]
        Fk = rng.choice(['none', 'none', 'val', 'val', 'global', 'zero'])
        F = rng.choice([1, 2, rng.randint(1, nin), 2 ** rng.randint(0, Jf)]) if Fk == 'val' else 1
        if Fk == 'val' and rng.random() < .3 and F + .75 <= nin:
            F += rng.choice([.25, .5, .75])
        cf = dict(J=J, N=N, Q=Q, Tk=Tk, T=T, sk=sk, s=s, Jf=Jf, Qf=Qf, Fk=Fk, F=F,
                  sfk='none', sf=1)
        if fval(cf) > nin:
            continue
        if Fk in ('none', 'val') and rng.random() < .5:
            cf['sfk'], cf['sf'] = 'val', 2 ** rng.randint(0, int(np.floor(np.log2(fval(cf)))))
        cf['fmt'] = rng.choice(['time', 'joint', 'joint'])
        cf['ot'] = rng.choice(['array', 'list', 'list', 'dict'])
        cf['np'] = 0
        return cf


B = dict(J=3, N=67, Q=(2, 1), Tk='none', T=1, sk='none', s=1, Jf=2, Qf=1, Fk='none', F=1, sfk='none', sf=1,
         fmt='time', ot='list')
FIXED = [
    dict(B), dict(B, fmt='joint'), dict(B, fmt='joint', ot='array'), dict(B, fmt='joint', ot='dict'),
    dict(B, ot='dict'), dict(B, ot='array'),
    dict(B, Tk='zero'), dict(B, Tk='zero', fmt='joint'), dict(B, Tk='zero', ot='array'),
    dict(B, Tk='global', fmt='joint', ot='list'), dict(B, Tk='global', ot='array'),
    dict(B, Fk='zero', ot='array'), dict(B, Fk='zero', fmt='joint'), dict(B, Fk='zero', fmt='joint', ot='array'),
    dict(B, Fk='global'), dict(B, Fk='global', fmt='joint'),
    dict(B, Fk='global', Tk='global', fmt='joint', ot='dict'), dict(B, Fk='zero', Tk='zero'),
    dict(B, sk='val', s=2, sfk='val', sf=1), dict(B, sk='val', s=1, sfk='val', sf=2, fmt='joint', ot='array'),
    dict(B, Tk='val', T=40, Fk='val', F=7), dict(B, Tk='val', T=3, Fk='val', F=3, fmt='joint'),
    dict(B, J=4, N=150, Q=(8, 1), Jf=3), dict(B, J=4, N=150, Q=(8, 1), Jf=3, fmt='joint', ot='array'),
    # more filters, scales and samples
    dict(B, J=4, N=200, Q=(12, 1), Jf=4, Qf=2, fmt='joint', ot='list'), dict(B, J=6, N=500, Q=(3, 1), Jf=3, ot='dict'),
    dict(B, J=3, N=3000, Q=(2, 1), Jf=2), dict(B, J=8, N=600, Q=(1, 1), Jf=3, fmt='joint', ot='list'),
    dict(B, J=2, N=70, Q=(24, 1), Jf=5, Fk='val', F=40, fmt='joint', ot='array'),
]
PROBES = [
    dict(B, Jf=1, Q=(1, 1), Fk='global', fmt='joint', ot='array', kf='jtfs-stack-global'),
    dict(B, Jf=1, Q=(2, 1), Fk='val', F=4, fmt='joint', ot='array', kf='jtfs-stack-wide'),
]


def ctor_args(cf):
    kw = dict(J=cf['J'], J_fr=cf['Jf'], shape=cf['N'], Q=cf['Q'] if cf['Q'][1] != 1 else cf['Q'][0],
              Q_fr=cf['Qf'], format=cf['fmt'], out_type=cf['ot'])
    if cf['Tk'] != 'none':
        kw['T'] = {'val': cf['T'], 'zero': 0, 'global': 'global'}[cf['Tk']]
    if cf['Fk'] != 'none':
        kw['F'] = {'val': cf['F'], 'zero': 0, 'global': 'global'}[cf['Fk']]
    if cf['sk'] == 'val':
        kw['stride'] = cf['s']
    if cf['sfk'] == 'val':
        kw['stride_fr'] = cf['sf']
    return kw


class FreqFilters:
    def __init__(self, cf, NF):
        self.bank = freq_bank(cf['Jf'], cf['Qf'])
        self.full = {('phif', 0): ref1d.gauss_hat(NF, 0.1 / fval(cf))}
        self.cond = 1.
        for n, (xi, sg, j, spin) in enumerate(self.bank):
            if spin == 0:
                h = ref1d.gauss_hat(NF, sg)
            else:
                h = ref1d.morlet_hat(NF, abs(xi), sg)
                self.cond = max(self.cond, ref1d.morlet_cond(NF, abs(xi), sg))
                if spin < 0:
                    h = h[(-np.arange(NF)) % NF]
            self.full['psif', n] = h
        self.memo = {}

    def get(self, o, n, k):
        if (o, n, k) not in self.memo:
            self.memo[o, n, k] = ref1d.periodise(self.full[o, n], k)
        return self.memo[o, n, k]


def along(v, ops, axis, ft, f, real):
    """Executes ops on v along the given axis (via the Fourier domain)."""
    v = np.moveaxis(v, axis, -1)
    if ops and ops[0]['o'] == 'sum':
        return np.moveaxis(v.sum(-1, keepdims=True), -1, axis)
    if not ops:
        return np.moveaxis(v, -1, axis)
    h = np.fft.fft(v, axis=-1)
    for op in ops:
        o, n, k = op['o'], op['n'], op['k']
        if o in ('phif', 'psif'):
            h = h * f.get(o, n, k)
        elif o == 'phi':
            h = h * ft.get(o, n, k)
        elif o == 'sub':
            if k:
                m = h.shape[-1] >> k
                h = h.reshape(h.shape[:-1] + (1 << k, m)).sum(-2) / (1 << k)
        elif o == 'abs':
            return np.moveaxis(np.abs(np.fft.ifft(h, axis=-1)), -1, axis)
        else:
            raise ValueError(o)
    v = np.fft.ifft(h, axis=-1)
    return np.moveaxis(v.real if real else v, -1, axis)


def reference(x, cf, plan):
    x = np.asarray(x, dtype=np.float64)
    xp = x[ref1d.reflect_index(len(x), plan['pl'], plan['np'])]
    ft = ref1d.Filters(cf['J'], cf['Q'], ref1d.resolve_T(cf['J'], cf['Tk'], cf['T']), plan['np'])
    ff = FreqFilters(cf, plan['nf'])
    xh = np.fft.fft(xp)
    memo = {}

    def chain(ops):
        if ops and ops[-1]['o'] == 'time':
            return np.fft.ifft(ref1d.execute(ops[:-1], xh, ft, memo))
        return ref1d.execute(ops, xh, ft, memo)
    s0 = chain(plan['s0'])
    NF = plan['nf']

    def stack(list_of_ops):
        vs = [chain(o) for o in list_of_ops]
        X = np.zeros((NF, len(vs[0])), dtype=vs[0].dtype)
        X[:len(vs)] = vs
        return X
    s1 = stack(plan['s1'])
    y2 = {}
    cache = {}
    res = []
    scales = []
    for p in plan['coefs']:
        if p['ord'] == 0:
            v = s0[p['w0']:p['w1']]
            res.append(v)
            scales.append(np.abs(s0).max())
            continue
        key = (p['ord'], p['n2'], p['nfr'])
        if key not in cache:
            if p['ord'] == 1:
                X = s1
            else:
                if p['n2'] not in y2:
                    y2[p['n2']] = stack(plan['y2'][p['n2']])
                X = y2[p['n2']]
            U = along(X, p['fr'], 0, ft, ff, False)
            U = along(U, p['ta'], 1, ft, ff, True)
            U = along(U, p['fa'], 0, ft, ff, True)
            cache[key] = U
        U = cache[key]
        v = U[p['row'], p['w0']:p['w1']] if p['row'] >= 0 else U[:p['flen'], p['w0']:p['w1']]
        res.append(v)
        scales.append(np.abs(U).max())
    return res, scales, ff.cond


def observe(arg):
    cf, plan, seed = arg
    import warnings
    warnings.simplefilter('ignore')
    fe = cf.get('fe', 'numpy')
    single = fe != 'numpy'
    batch = tuple(cf.get('batch', ()))
    TimeFrequencyScattering = front.cls('tf', fe)
    xs = [make_input(cf, seed + 4 * b) for b in range(int(np.prod(batch, dtype=int)))]
    for v in xs:
        if not v.any():
            v[len(v) // 2] = 1.
    if single:
        xs = [v.astype(np.float32) for v in xs]
    x = np.stack(xs).reshape(batch + (cf['N'],))
    x0 = x.copy()
    nb = len(batch)
    ob = dict(ctor='', exc='', rows=[], meta=dict(exc='', rows=[]))
    try:
        S = TimeFrequencyScattering(**ctor_args(cf))
    except Exception as e:
        ob['ctor'] = excname(e)
        return ob
    if plan['rejected']:
        return ob
    rb = [reference(v, cf, plan) for v in xs]
    cond = rb[0][2]
    tol = max(1e-5 if single else 1e-6, 1e-13 * cond)
    slack = 1e-2 * (4. * cf['N'] if cf['Tk'] == 'global' else 1) * \
        (4. * (cf['J'] + 1) * cf['Q'][0] if cf['Fk'] == 'global' else 1) if single else 1e-5
    paths = plan['coefs']
    try:
        t = front.tensor(fe, x)
        R = front.plain(S(t))
        if not np.array_equal(front.to_np(t), x0):
            raise RuntimeError('input modified')
        if cf['ot'] == 'array':
            if R.shape[:nb] != batch:
                raise RuntimeError('batch shape')
            items = [dict(key=[], coef=R[(slice(None),) * nb + (i,)]) for i in range(R.shape[nb])]
        elif cf['ot'] == 'dict':
            items = [dict(key=[int(a) for a in k], coef=v) for k, v in R.items()]
        else:
            items = [dict(key=[int(a) for a in r['n']], coef=r['coef'], ord=int(r['order']),
                          nfr=int(r['n_fr'][0]) if 'n_fr' in r else -9,
                          jfr=int(r['j_fr'][0]) if 'j_fr' in r else -9,
                          spin=int(r['spin']) if 'spin' in r else -9,
                          jt=int(r['j'][-1]) if len(r['j']) == 2 else -9) for r in R]
        for i, it in enumerate(items):
            V = np.asarray(it.pop('coef'))
            row = dict(dict(ord=-9, nfr=-9, jfr=-9, spin=-9, jt=-9), **it)
            row['shape'] = list(V.shape[nb:]) if V.shape[:nb] == batch else [-1] + list(V.shape)
            row['err'], row['own'] = 10 ** 9, False
            refs = rb[0][0]
            if i < len(refs) and V.shape == batch + refs[i].shape:
                row['err'], row['own'] = 0, True
                for v, (refs, scales, _), w in zip(V.reshape((-1,) + refs[i].shape), rb, xs):
                    sc = scales[i] + slack * float(np.max(np.abs(w))) + 1e-290
                    # negative spins: aliases of the Gabor are truncated on one side
                    # (up to 1e-5 of the filter's maximum)
                    e = quant(relerr(v, refs[i], sc), tol if paths[i]['spin'] >= 0 else max(tol, 1e-4))
                    row['err'] = max(row['err'], e)
                    if e > 1000:
                        cand = [ncos(v, q) for q in refs if q.shape == v.shape]
                        row['own'] = row['own'] and bool(min(cand) >= .9 * ncos(v, refs[i]))
            ob['rows'].append(row)
    except Exception as e:
        ob['exc'] = excname(e)
    try:
        M = S.meta()
        tb = (ref1d.bank(cf['J'], cf['Q'][0]), ref1d.bank(cf['J'], cf['Q'][1]))
        fb = freq_bank(cf['Jf'], cf['Qf'])

        def num(a):
            return -1 if np.isnan(a) else int(a)
        for i in range(len(M['key'])):
            n1, n2 = M['n'][i]
            isr = not np.isscalar(n1)
            n1l = [int(a) for a in n1] if isr else ([] if np.isnan(float(n1)) else [int(n1)])
            n2i = -1 if np.isnan(float(n2)) else int(n2)
            nfr = num(M['n_fr'][i])
            row = dict(key=[int(a) for a in M['key'][i]], ord=int(M['order'][i]), nfr=nfr, n2=n2i,
                       n1=n1l, j=[num(a) for a in M['j'][i]], jfr=num(M['j_fr'][i]),
                       spin=-9 if np.isnan(M['spin'][i]) else int(M['spin'][i]), xi=[], sg=[])
            for o in range(2):
                n = (n1l[0] if (o == 0 and not isr and n1l) else -1) if o == 0 else n2i
                for w, nm, key in ((0, 'xi', 'xi'), (1, 'sg', 'sigma')):
                    val = M[key][i][o]
                    row[nm].append(-1 if np.isnan(val) else
                                   (10 ** 9 if n < 0 else quant(abs(val - tb[o][n][w]) / tb[o][n][1], 1e-9)))
            for w, nm, key in ((0, 'xifr', 'xi_fr'), (1, 'sgfr', 'sigma_fr')):
                val = M[key][i]
                row[nm] = -1 if np.isnan(val) else (
                    10 ** 9 if nfr < 0 else quant(abs(val - fb[nfr][w]) / fb[nfr][1], 1e-9))
            ob['meta']['rows'].append(row)
    except Exception as e:
        ob['meta']['exc'] = excname(e)
        ob['meta']['rows'] = []
    return ob


def corrupt(traces, plans):
    import copy
    for t, p in zip(traces, plans):
        o = t['obs']
        if o['ctor'] or o['exc'] or p['rejected'] or t['cfg']['ot'] != 'list' or len(o['rows']) < 5:
            continue
        res = []

        def c(f, clause):
            u = copy.deepcopy(t)
            f(u['obs'])
            res.append((u, clause))
        c(lambda u: u['rows'].reverse(), 'C06.Keys')
        c(lambda u: u['rows'].pop(), 'C06.PathCount')
        c(lambda u: u['rows'][-1]['shape'].__setitem__(0, 99), 'C06.Shape')
        c(lambda u: u['rows'][-1].__setitem__('spin', 7), 'C06.FrequencyFilter')
        c(lambda u: u['rows'][-1].__setitem__('ord', 1), 'C06.Order')
        c(lambda u: u['rows'][-1].__setitem__('err', 1001), 'C07.Value')
        c(lambda u: u['meta']['rows'].pop(0), 'C06.MetaRowCount')
        c(lambda u: u['meta']['rows'].reverse(), 'C06.MetaRow')
        c(lambda u: u['meta']['rows'][-1].__setitem__('xifr', 5000), 'C06.MetaFrequency')
        return res
    return []


def run(ctx):
    pid = ctx.pid
    ctx.mc('MC_JTFS', MC % ctx.n((2, 1, 1), (3, 2, 2)), must_cover=ACTIONS, workers=6, timeout=3000)
    n = ctx.n(90, 900)
    cases = [dict(f) for f in FIXED] + [sample_config(ctx.rng, big=not ctx.quick) for _ in range(n)]
    for cf in cases[len(FIXED):]:
        if ctx.rng.random() < .5:
            cf['fe'] = ctx.rng.choice(['torch', 'torch', 'tensorflow', 'jax'])
    for cf in cases:
        if ctx.rng.random() < .4:
            cf['batch'] = ctx.rng.choice([[1], [2], [2, 1], [1, 2], [3]])
    if pid == 'C06':
        cases += [dict(p) for p in PROBES]
    cfgs = [abstract(cf) for cf in cases]
    plans = ctx.generate('Gen_JTFS', GEN_NOINV, cfgs, workers=6)
    keep = [i for i, (cf, p) in enumerate(zip(cases, plans))
            if 'kf' in cf or p['stackable'] or not (cf['fmt'] == 'joint' and cf['ot'] == 'array')]
    cases = [cases[i] for i in keep]
    cfgs = [cfgs[i] for i in keep]
    plans = [plans[i] for i in keep]
    seeds = [ctx.rng.randrange(2 ** 31) for _ in cases]
    obs = core.pmap(observe, list(zip(cases, plans, seeds)))
    traces = [dict(cfg=c, obs=(dict(ctor='Crash' + o['dead']) if 'dead' in o else o))
              for c, o in zip(cfgs, obs)]
    labels = [dict(case=cf, input_seed=s, known_case=cf.get('kf', '-')) for cf, s in zip(cases, seeds)]
    for cf, p in zip(cases, plans):
        ctx.count(cf, nontrivial=not p['rejected'] and len(p['coefs']) >= 4)
    ctx.validate('Trace_JTFS', TRACE, traces, labels, clauses=pid, selfcheck=corrupt(traces, plans), workers=6)
    for cf, p in list(zip(cases, plans))[:3]:
        ctx.sample({'config': cf, 'coefficients': len(p['coefs']), 'last': p['coefs'][-1]})
    return ctx.finish('model_checking',
                      'seeded random and fixed time-frequency configurations (time and frequency averaging, '
                      'strides, formats, output types); non-trivial: accepted and at least four coefficients',
                      ['float64 reference filters and FFT arithmetic (numpy)',
                       'configurations with stride > T, stride_fr > F, or a non-stackable joint array are '
                       'only probed as known findings'])


GEN_NOINV = "SPECIFICATION Spec\n"
