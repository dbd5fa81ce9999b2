"""C15: gradients."""
import copy

import numpy as np

from . import core, front, pfront, p1d, p2d, pjtfs, ref1d, reftape
from .core import quant, excname

MC_TAPE = """SPECIFICATION Spec
INVARIANTS InvComplete InvDone
CONSTANTS LA=%d LB=%d
"""
MC_GRAD = """SPECIFICATION Spec
INVARIANTS InvRuns InvModes
"""
TRACE = SPECONLY = "SPECIFICATION Spec\n"
TAPE = "SPECIFICATION Spec\nINVARIANT InvComplete InvDone\n"
ACTIONS = ('Open', 'Convert', 'Do', 'Close', 'Turn', 'Pop', 'Finish')
SPECIALS = ['zero', 'constant', 'delta', 'sparse', 'half', 'sine', 'step', 'tiny', 'big', 'mixture']
MODES = {'torch': ['eager', 'retained'], 'tensorflow': ['eager', 'function'], 'jax': ['eager', 'jit']}
EPS = 3e-7


def special(name, shape, seed):
    r = np.random.RandomState(seed)
    x = np.zeros(shape)
    if name == 'constant':
        x[...] = r.choice([1., -3., .1])
    elif name == 'delta':
        x[tuple(r.randint(0, s) for s in shape)] = 1.
    elif name == 'sparse':
        for _ in range(3):
            x[tuple(r.randint(0, s) for s in shape)] = r.randn()
    elif name == 'half':
        x[..., shape[-1] // 2:] = r.randn(*shape)[..., shape[-1] // 2:]
    elif name == 'sine':
        x[...] = np.cos(2 * np.pi * np.arange(shape[-1]) * 2 / max(shape[-1], 1))
    elif name == 'step':
        x[..., shape[-1] // 2:] = 1.
    elif name == 'tiny':
        x = r.randn(*shape) * 10. ** -r.choice([12, 18, 20, 22, 25, 30, 38])
    elif name == 'big':
        x = r.randn(*shape) * 1e6
    elif name == 'mixture':
        x = np.stack([np.zeros(shape), r.randn(*shape), np.ones(shape)])
    return x


class Case:
    def __init__(self, kind, cf, plan, tplan, outs, ot, seed):
        self.kind, self.cf, self.plan, self.ot, self.seed = kind, cf, plan, ot, seed
        self.outs = outs
        F = reftape.Filters2(cf, plan) if kind == '2d' else reftape.Filters1(cf, plan)
        self.tape = reftape.Tape(tplan, F, reftape.index_of(kind, cf, plan))
        self.shape = (cf['M'], cf['N']) if kind == '2d' else (cf['N'],)
        paths = plan['coefs'] if kind == 'tf' else plan['paths']
        if kind == 'tf' and cf['fmt'] == 'joint' and ot == 'array':
            # the joint array leaves out the zeroth order, and its frequency axes are whole
            raise ValueError
        self.ords = [p['ord'] if kind == 'tf' else len(p['n']) for p in paths]
        self.keys = [tuple(p['key']) if kind == 'tf' else tuple(p['n']) for p in paths]
        self.mo = 2 if kind == 'tf' else cf['mo']
        self.B = 1 + seed % 2
        x = pfront.inputs(kind, cf, seed, self.B)
        r = np.random.RandomState(seed)
        # every sample alive: a generic point
        x = x + .1 * np.abs(x).max(axis=tuple(range(1, x.ndim)), keepdims=True) * r.randn(*x.shape)
        x = np.where(np.abs(x).max(axis=tuple(range(1, x.ndim)), keepdims=True) > 0, x, r.randn(*x.shape))
        self.x = x.astype(np.float32).astype(np.float64)
        # reference values, cotangents and gradients
        self.w, self.ref, self.tol = None, [], []
        vals = [self.tape.forward(x) for x in self.x]
        top = max(max(np.abs(v[o - 1]).max() for o in outs) for v in vals)
        self.shapes = [vals[0][o - 1].shape for o in outs]
        self.w = []
        for q, o in enumerate(outs):
            s = max(max(np.abs(v[o - 1]).max() for v in vals), 3e-2 * top, 1e-30)
            self.w.append(r.randn(self.B, *self.shapes[q]) / s)
        self.ref = self.gradients(self.x, 0.)
        noise = 0.
        for k in range(2):
            per = self.gradients(self.x, EPS)
            noise = np.maximum(noise, np.abs(per - self.ref).max(axis=tuple(range(2, per.ndim))))
        big = np.abs(self.ref).max(axis=tuple(range(2, self.ref.ndim)))
        self.big = np.maximum(big, 1e-30)
        self.floor = 5e-4 if kind == '2d' else 2e-5     # as for the values (C04, C09)
        self.tol = 12 * noise / self.big + self.floor   # relative, [order][signal]

    def gradients(self, X, eps):
        """[order][signal] gradients of the weighted sum of the coefficients of an order."""
        rng = np.random.RandomState(self.seed + 5)
        res = np.zeros((self.mo + 1, len(X)) + self.shape)
        for b, x in enumerate(X):
            self.tape.forward(x, eps, rng)
            for o in range(self.mo + 1):
                seeds = {self.outs[q]: self.w[q][b] for q in range(len(self.outs)) if self.ords[q] == o}
                res[o, b] = self.tape.backward(seeds).reshape(self.shape) if seeds else 0
        return res

    def build(self, fe):
        kw = pfront.kwargs(self.kind, self.cf)
        kw['out_type'] = self.ot
        return front.cls(self.kind, fe)(**kw)

    def weights(self, B):
        w = self.w
        if B != self.B:
            w = [np.concatenate([v] * B)[:B] for v in w]
        return w

    def order_leaves(self, r):
        """The coefficients in the order of the plan."""
        if isinstance(r, dict):
            d = {tuple(k): v for k, v in r.items()}
            return [d[k] for k in self.keys]
        if isinstance(r, (list, tuple)):
            return [d['coef'] for d in r]
        ax = {'1d': -2, 'tf': -2, '2d': -3}[self.kind]
        if ax == -2:
            return [r[..., i, :] for i in range(r.shape[-2])]
        return [r[..., i, :, :] for i in range(r.shape[-3])]

    def losses(self, r, fe, dt, B):
        leaves = self.order_leaves(r)
        w = self.weights(B)
        if len(leaves) != len(w):
            raise ValueError('number of coefficients')
        tot = [None] * (self.mo + 1)
        for q, v in enumerate(leaves):
            W = w[q].reshape(tuple(v.shape)).astype(dt)
            if fe == 'torch':
                import torch
                t = (torch.from_numpy(W) * v).sum()
            elif fe == 'tensorflow':
                import tensorflow as tf
                t = tf.reduce_sum(tf.constant(W) * v)
            else:
                import jax.numpy as jnp
                t = jnp.sum(jnp.asarray(W) * v)
            o = self.ords[q]
            tot[o] = t if tot[o] is None else tot[o] + t
        return tot

    def run(self, r, S, seed):
        """(gradients [order][signal...], forward leaves under differentiation, plain ones)."""
        fe, dt = r['fe'], np.float64 if r['prec'] == 'f64' else np.float32
        X = self.x if r['x'] == 'generic' else special(r['x'], self.shape, seed)
        if r['x'] != 'generic' and X.ndim == len(self.shape):
            X = X[None]
        X = X.astype(dt)
        B = len(X)
        if fe == 'torch':
            import torch
            if r['prec'] == 'f64':
                S = copy.deepcopy(S).double()
            with torch.no_grad():
                plain = [v.numpy() for v in self.order_leaves(S(torch.from_numpy(X.copy())))]
            x = torch.from_numpy(X.copy()).requires_grad_(True)
            out = S(x)
            L = self.losses(out, fe, dt, B)
            g = []
            for o, t in enumerate(L):
                v = torch.autograd.grad(t, x, retain_graph=True)[0].numpy() if t is not None else np.zeros(X.shape)
                if r['mode'] == 'retained' and t is not None:
                    u = torch.autograd.grad(2 * t, x, retain_graph=True)[0].numpy() / 2
                    v = np.where(np.abs(u - v) <= 1e-4 * np.abs(v).max() + 1e-30, v, np.nan)
                g.append(v)
            fwd = [v.detach().numpy() for v in self.order_leaves(out)]
            if not np.array_equal(x.detach().numpy(), X, equal_nan=True):
                raise ValueError('input changed')
        elif fe == 'tensorflow':
            import tensorflow as tf
            plain = [v.numpy() for v in self.order_leaves(S(tf.constant(X)))]

            def f(x):
                with tf.GradientTape(persistent=True) as tape:
                    tape.watch(x)
                    out = S(x)
                    L = self.losses(out, fe, dt, B)
                return [tape.gradient(t, x) if t is not None else tf.zeros_like(x) for t in L], self.order_leaves(out)
            if r['mode'] == 'function':
                f = tf.function(f)
            g, fwd = f(tf.constant(X))
            g, fwd = [tf.convert_to_tensor(v).numpy() for v in g], [v.numpy() for v in fwd]
        else:
            import jax
            import jax.numpy as jnp
            plain = [np.asarray(v) for v in self.order_leaves(S(jnp.asarray(X)))]

            def loss(x, o):
                out = S(x)
                t = self.losses(out, fe, dt, B)[o]
                return (t if t is not None else jnp.sum(x * 0)), self.order_leaves(out)
            g = []
            for o in range(self.mo + 1):
                fn = jax.grad(lambda x, o=o: loss(x, o), has_aux=True)
                if r['mode'] == 'jit':
                    fn = jax.jit(fn)
                v, fwd = fn(jnp.asarray(X))
                g.append(np.asarray(v))
            fwd = [np.asarray(v) for v in fwd]
        return g, fwd, plain


def observe(arg):
    kind, cf, plan, tplan, outs, ot, fes, seed = arg
    import warnings
    warnings.simplefilter('ignore')
    import torch
    torch.set_num_threads(1)
    C = Case(kind, cf, plan, tplan, outs, ot, seed)
    obs, vague = [], 0
    objs = {}
    rng = np.random.RandomState(seed)
    runs = [dict(fe=f, prec=p, mode=m, x='generic') for f in fes for p in (['f32', 'f64'] if f == 'torch' else ['f32'])
            for m in MODES[f]]
    if 'torch' in fes:
        runs += [dict(fe='torch', prec=p, mode='eager', x=x) for p in ('f32', 'f64') for x in SPECIALS]
    rng.shuffle(runs)
    for r in runs:
        e = dict(run=r, exc='', finite=False, orders=[], above=0, fwd=10 ** 9)
        try:
            if r['fe'] not in objs:
                objs[r['fe']] = C.build(r['fe'])
            g, fwd, plain = C.run(r, objs[r['fe']], seed + 3)
        except Exception as ex:
            e['exc'] = excname(ex)
            e['msg'] = str(ex)[:200]
            obs.append(e)
            continue
        e['finite'] = bool(all(np.all(np.isfinite(v)) for v in g))
        sc = max(max(np.abs(v).max() for v in plain), 1e-30)
        e['fwd'] = quant(max(core.relerr(a, b, sc) for a, b in zip(fwd, plain)), 2e-6) if np.isfinite(sc) else 0
        if r['x'] == 'generic':
            for o in range(C.mo + 1):
                worst = 0
                for b in range(C.B):
                    if C.tol[o][b] > .2:
                        vague += 1
                        continue
                    worst = max(worst, quant(core.relerr(g[o][b], C.ref[o][b], C.big[o][b]), C.tol[o][b]))
                e['orders'].append(worst)
        elif r['x'] == 'zero':
            # only the zeroth order, which is linear, has a gradient
            e['above'] = int(sum(np.count_nonzero(v) for v in g[1:]))
            e['orders'] = [quant(core.relerr(g[0][0], C.ref[0][0], C.big[0][0]), C.floor)] + [0] * C.mo
        else:
            e['orders'] = [0] * (C.mo + 1)
        obs.append(e)
    return dict(obs=obs, vague=vague, tol=float(np.max(C.tol)))


def corrupt(traces):
    res = []
    for t in traces:
        def pos(x, fe='torch'):
            return next((k for k, e in enumerate(t['obs']) if e['run']['x'] == x and e['run']['fe'] == fe), None)
        i, z = pos('generic'), pos('zero')
        if i is None or z is None:
            continue

        def c(f, clause):
            u = copy.deepcopy(t)
            f(u['obs'])
            res.append((u, clause))
        c(lambda u: u[i]['orders'].__setitem__(1, 1001), 'C15.EqualsDerivative')
        c(lambda u: u[z].update(finite=False), 'C15.Finite')
        c(lambda u: u[z].update(above=1), 'C15.Vanishes')
        c(lambda u: u[i].update(fwd=1001), 'C15.Forward')
        c(lambda u: u[i].update(exc='X'), 'C15.Differentiable')
        c(lambda u: u[i]['orders'].pop(), 'C15.Orders')
        c(lambda u: u.pop(), 'C15.AllRuns')
        break
    return res


def sample(ctx, q):
    rng = ctx.rng
    kind = ['1d', 'tf', '2d'][q % 3]
    while True:
        cf = pfront.sample(rng, kind)
        if kind == '2d' and (cf['J'] * cf['L'] > 8 or cf['M'] * cf['N'] > 1200):
            continue
        if kind == 'tf' and (cf['J'] > 3 or cf['N'] > 100 or cf['Jf'] > 2):
            continue
        # every combination of averaging and format comes up
        if kind == 'tf' and (cf['fmt'] != ('time' if q // 3 % 2 else 'joint') or cf['Fk'] not in (('global',), ('zero',), ('none', 'val'))[q // 6 % 3]):
            continue
        if kind == '1d' and cf['N'] > 200:
            continue
        return kind, cf


def prepare(ctx, cases):
    """Transform plans, tape programs."""
    plans = [None] * len(cases)
    for kind, mod, spec, cfgf in (('1d', 'Gen_Scat1D', SPECONLY, lambda cf: ref1d.config(cf['J'], cf['N'], cf['Q'], cf['Tk'], cf['T'], cf['sk'], cf['s'], cf['mo'])),
                                  ('tf', 'Gen_JTFS', SPECONLY, pjtfs.abstract),
                                  ('2d', 'Gen_Scat2D', SPECONLY, lambda cf: {k: cf[k] for k in ('J', 'L', 'M', 'N', 'mo')})):
        ix = [i for i, c in enumerate(cases) if c[0] == kind]
        for i, p in zip(ix, ctx.generate(mod, spec, [cfgf(cases[i][1]) for i in ix], workers=6)):
            plans[i] = p
    keep = [i for i in range(len(cases)) if not plans[i].get('rejected')]
    progs, outs = {}, {}
    for i in keep:
        kind, cf = cases[i]
        progs[i], outs[i] = {'1d': reftape.program1d, 'tf': reftape.programtf, '2d': reftape.program2d}[kind](cf, plans[i])
    tplans = dict(zip(keep, ctx.generate('Gen_Tape', TAPE, [progs[i] for i in keep], workers=6)))
    return [(cases[i][0], cases[i][1], plans[i], tplans[i], outs[i]) for i in keep]


def run(ctx):
    ctx.mc('MC_Tape', MC_TAPE % ctx.n((2, 1), (3, 1)), must_cover=ACTIONS, workers=6, timeout=3000)
    ctx.mc('MC_Grad', MC_GRAD, must_cover=('DoRun',), workers=6)
    n = ctx.n(42, 420)
    cases = [sample(ctx, q) for q in range(n)]
    args, gcases = [], []
    for q, (kind, cf) in enumerate(cases):
        if kind == 'tf':
            cf['stackable'] = False
            ots = ['list', 'dict'] + (['array'] if cf['fmt'] == 'time' and cf['Tk'] != 'zero' else [])
            cf['ot'] = ctx.rng.choice(ots)
        else:
            cf['out'] = ctx.rng.choice(pfront.outs(kind, cf))
    ready = prepare(ctx, cases)
    seeds = [ctx.rng.randrange(2 ** 31 - 100) for _ in ready]
    for q, (kind, cf, plan, tplan, outs) in enumerate(ready):
        ot = cf['ot'] if kind == 'tf' else cf['out']
        fes = [['torch', 'tensorflow', 'jax'], ['torch', 'jax'], ['torch', 'tensorflow']][(q // 3) % 3]
        args.append((kind, cf, plan, tplan, outs, ot, fes, seeds[q]))
        gcases.append(dict(kind=kind, mo=2 if kind == 'tf' else cf['mo'], fes=fes))
    obs = core.pmap(observe, args, procs=8, timeout=650 if ctx.quick else 10000)
    traces, labels = [], []
    worst, vague, tolmax = {}, 0, 0
    for a, g, ob in zip(args, gcases, obs):
        lab = dict(kind=a[0], cf=a[1], out_type=a[5], input_seed=a[7])
        if 'dead' in ob:
            ctx.fail(lab, ['C15.Survives'])
            continue
        vague += ob['vague']
        tolmax = max(tolmax, ob['tol'])
        for e in ob['obs']:
            key = '%s %s' % (e['run']['fe'], e['run']['prec'])
            if e['run']['x'] == 'generic' and e['orders']:
                worst[key] = max(worst.get(key, 0), max(e['orders']))
            ctx.count(dict(k=a[0], cf=a[1], r=e['run'], s=a[7]), nontrivial=True)
        lab['bad'] = [e for e in ob['obs'] if e['exc'] or not e['finite'] or max(e['orders'] + [e['fwd']]) > 1000 or e['above']][:4]
        traces.append(dict(cfg=g, obs=[{k: v for k, v in e.items() if k != 'msg'} for e in ob['obs']]))
        labels.append(lab)
    ctx.notes['worst_error_of_1000'] = worst
    ctx.notes['undetermined_gradients'] = vague
    ctx.notes['largest_relative_tolerance'] = tolmax
    ctx.validate('Trace_Grad', TRACE, traces, labels, clauses='C15', selfcheck=corrupt(traces), workers=6)
    ctx.sample(dict(config=args[0][1], nodes=len(args[0][3]['nodes']), backward=args[0][3]['prog'][:3]))
    return ctx.finish('model_checking',
                      'seeded random configurations of the three transforms; the backward program is generated by TLC from '
                      'the cascade and executed in float64; one product with the Jacobian per order, frontend, precision and mode',
                      ['tolerance: twelve times the effect of single-precision perturbations on the reference gradient',
                       'TensorFlow and JAX are checked at generic points only, as stated'])
