"""C11: every frontend, precision, execution mode and entry point gives one answer."""
import ast

import numpy as np

from . import core, front, p1d, p2d, p3d, pjtfs
from .core import quant, excname

MC = """SPECIFICATION Spec
INVARIANTS InvReference InvCover InvGeneric InvOnce InvStyles InvSignature
"""
GEN = MC
TRACE = "SPECIFICATION Spec\n"
ACTIONS = ('Skip', 'Enter', 'CallEager', 'ToCompiled', 'CallCompiled', 'SkipCompiled', 'Leave', 'Finish')
TOL64, TOL32 = 2e-6, 1e-5


def sample(rng, kind, big=False):
    if kind == '1d':
        while True:
            cf = p1d.sample_config(rng)
            if cf['J'] <= (6 if big else 4) and cf['N'] <= (2000 if big else 300) and cf['Q'][0] <= 8:
                return cf
    if kind == 'tf':
        while True:
            cf = pjtfs.sample_config(rng)
            if cf['J'] <= 3 and cf['Q'][0] <= (8 if big else 3) and cf['N'] <= 150 and cf['Jf'] <= 3:
                return cf
    if kind == '2d':
        while True:
            cf = p2d.sample_config(rng)
            if cf['J'] <= 3 and cf['L'] <= (8 if big else 4):
                return cf
    cf = p3d.sample_config(rng)
    return cf


def kwargs(kind, cf):
    if kind == '1d':
        return p1d.ctor_args(cf)
    if kind == 'tf':
        kw = pjtfs.ctor_args(cf)
        kw.pop('out_type')
        return kw
    if kind == '2d':
        return dict(J=cf['J'], L=cf['L'], shape=(cf['M'], cf['N']), max_order=cf['mo'])
    return dict(J=cf['J'], shape=cf['shape'], L=cf['L'], sigma_0=cf['s0'], max_order=cf['mo'],
                rotation_covariant=cf['rc'], integral_powers=cf['q'])


def keras_kwargs(kind, kw):
    kw = dict(kw)
    kw.pop('shape')
    return kw


def outs(kind, cf):
    if kind == '3d':
        return ['array']
    if kind == '2d':
        return ['array', 'list']
    if cf['Tk'] == 'zero':
        return ['list', 'dict']
    if kind == 'tf' and cf['fmt'] == 'joint' and not cf['stackable']:
        return ['list', 'dict']
    return ['array', 'list', 'dict']


def inputs(kind, cf, seed, B):
    if kind in ('1d', 'tf'):
        x = np.stack([p1d.make_input(cf, seed + b) for b in range(B)])
    elif kind == '2d':
        x = np.stack([p2d.image(cf, seed + b) for b in range(B)])
    else:
        x = np.stack([p3d.volume(cf['shape'], seed + b) for b in range(B)])
    return x.astype(np.float32).astype(np.float64)


def native(fe, v):
    if fe in ('numpy', 'sklearn'):
        return isinstance(v, np.ndarray)
    if fe == 'torch':
        import torch
        return isinstance(v, torch.Tensor)
    if fe in ('tensorflow', 'keras'):
        import tensorflow as tf
        return isinstance(v, tf.Tensor)
    import jax
    return isinstance(v, jax.Array)


def leaves(r):
    """(keys, arrays) of a result, in order."""
    if isinstance(r, dict):
        return [str(k) for k in r], list(r.values())
    if isinstance(r, (list, tuple)):
        ks, vs = [], []
        for d in r:
            ks.append(str([(m, d[m]) for m in sorted(d) if m != 'coef']))
            vs.append(d['coef'])
        return ks, vs
    return ['array'], [r]


def isdefault(name, v, d):
    if name == 'Q' and isinstance(v, tuple):
        return d == 1 and set(v) == {1}
    if name == 'shape':
        return False
    return type(v) in (type(d), int, float) and v == d


def styled(kw, sig, named, style):
    """(positional, named) arguments; those not in kw have their default."""
    kw = dict(kw)
    dflt = {n: ast.literal_eval(d) for n, d in sig + named if d != ''}
    if style == 'short':
        return (), {n: v for n, v in kw.items() if n not in dflt or not isdefault(n, v, dflt[n])}
    full = dict(dflt, **kw)
    if style == 'full':
        return (), full
    pos = [full.pop(n) for n, _ in sig]
    return tuple(pos), full


class Session:
    def __init__(self, kind, cf, x, plan):
        self.kind, self.cf, self.x = kind, cf, x
        self.sig, self.named = plan['sig'], plan['named']
        self.kw = kwargs(kind, cf)
        self.cache = {}

    def build(self, r):
        key = (r['fe'], r['entry'], r['prec'], r['out'] if self.kind != '3d' else '', r['style'])
        if key in self.cache:
            return self.cache[key]
        fe = r['fe']
        kw = dict(self.kw)
        if fe == 'keras':
            kw = keras_kwargs(self.kind, kw)
        elif self.kind != '3d':
            kw['out_type'] = r['out']
        pos = ()
        if fe == 'keras':
            if r['style'] == 'short':
                _, kw = styled(kw, self.sig, self.named, 'short')
        else:
            pos, kw = styled(kw, self.sig, self.named, r['style'])
        if r['entry'] == 'generic':
            import kymatio
            names = dict(front.CLS)
            fname = fe.upper() if (len(self.cache) % 2) else fe
            S = getattr(kymatio, names[self.kind])(*pos, frontend=fname, **kw)
        else:
            S = front.cls(self.kind, fe)(*pos, **kw)
        if fe == 'torch' and r['prec'] == 'f64':
            S = S.double()
        self.cache[key] = S
        return S

    def call(self, r):
        fe, mode = r['fe'], r['mode']
        dt = np.float64 if r['prec'] == 'f64' else np.float32
        x = self.x.astype(dt)
        if fe == 'jax' and r['prec'] == 'f64':
            from jax.experimental import enable_x64
            with enable_x64():
                S = self.build(r)
                return self._call(r, S, x)
        return self._call(r, self.build(r), x)

    def _call(self, r, S, x):
        fe, mode, out = r['fe'], r['mode'], r['out']
        if fe == 'numpy' or fe == 'torch':
            t = front.tensor(fe, x)
            return (S.scattering(t) if mode == 'direct_method' else S(t)), True
        if fe == 'sklearn':
            flat = x.reshape(x.shape[0], -1)
            v = S.fit(flat).transform(flat) if mode == 'transform' else S.predict(flat)
            return v, True
        if fe == 'keras':
            import tensorflow as tf
            if mode == 'functional_model':
                from tensorflow import keras
                inp = keras.Input(shape=x.shape[1:])
                return keras.Model(inp, S(inp))(x), True
            return S(tf.constant(x)), True
        if fe == 'tensorflow':
            import tensorflow as tf
            t = tf.constant(x)
            if mode == 'eager':
                return S(t), True
            shape = list(t.shape)
            if mode == 'function_unknown_batch':
                shape[0] = None
            proto = {}

            @tf.function(input_signature=[tf.TensorSpec(shape, t.dtype)])
            def fn(v):
                res = S(v)
                if isinstance(res, list):
                    proto['keys'] = [{k: d[k] for k in d if k != 'coef'} for d in res]
                    return [d['coef'] for d in res]
                if isinstance(res, dict):
                    proto['dict'] = list(res)
                    return list(res.values())
                return res
            res = fn(t)
            if 'keys' in proto:
                res = [dict(k, coef=v) for k, v in zip(proto['keys'], res)]
            elif 'dict' in proto:
                res = dict(zip(proto['dict'], res))
            return res, True
        import jax
        import jax.numpy as jnp
        t = jnp.asarray(x)
        if mode == 'eager':
            return S(t), True
        proto = {}

        def fn(v):
            res = S(v)
            if isinstance(res, list):
                proto['keys'] = [{k: d[k] for k in d if k != 'coef'} for d in res]
                return [d['coef'] for d in res]
            if isinstance(res, dict):
                proto['dict'] = list(res)
                return list(res.values())
            return res
        res = (jax.jit(fn) if mode == 'jit' else jax.vmap(fn))(t)
        if 'keys' in proto:
            res = [dict(k, coef=v) for k, v in zip(proto['keys'], res)]
        elif 'dict' in proto:
            res = dict(zip(proto['dict'], res))
        return res, True


def scales(kind, cf, x, ref):
    """Per-leaf (per-path for arrays) absolute scale of the permitted error."""
    amp = float(np.abs(x).max())
    g = 1.
    if kind in ('1d', 'tf'):
        g = 1e-2
        if cf['Tk'] == 'global':
            g *= 4. * cf['N']
        if kind == 'tf' and cf['Fk'] == 'global':
            g *= 4 * (cf['J'] + 1) * cf['Q'][0]
    elif kind == '2d':
        g = 1e-2
    return g * amp


def rel(kind, cf, x, v, ref):
    v = np.asarray(v, dtype=np.float64)
    ref = np.asarray(ref, dtype=np.float64)
    if v.shape != ref.shape or not np.isfinite(v).all():
        return float('inf')
    if v.size == 0:
        return 0.
    if kind == '3d':
        # per power: relative to the largest coefficient of that power
        s = np.abs(ref).max(axis=tuple(range(ref.ndim - 1)), keepdims=True) * 5 + 1e-30
        return float((np.abs(v - ref) / s).max())
    slack = scales(kind, cf, x, ref)
    # the reference maximum over the sample axes of each path
    ax = {'1d': 1, 'tf': 1, '2d': 2}[kind]
    ax = tuple(range(ref.ndim - ax, ref.ndim))
    s = np.abs(ref).max(axis=ax, keepdims=True) + slack + 1e-290
    return float((np.abs(v - ref) / s).max())


NAMES = ('J', 'L', 'max_order', 'sigma_0', 'rotation_covariant', 'integral_powers', 'J_fr', 'pre_pad', 'format')


def described(S):
    """The documented attributes every frontend has, as far as numbers go."""
    out = []
    for nm in NAMES:
        v = getattr(S, nm, None)
        if isinstance(v, (tuple, list)):
            v = [float(q) for q in v]
        elif v is not None and not isinstance(v, str):
            v = float(v)
        out.append('%s=%s' % (nm, v))
    return ' '.join(out)


def observe(arg):
    kind, cf, plan, seed, B = arg
    x = inputs(kind, cf, seed, B)
    S = Session(kind, cf, x, plan)
    refs, rows = {}, []
    for r in plan['runs']:
        row = dict(r, exc='', keys=[], shapes=[], params='', native=True, types=[], err=0, note='')
        rows.append(row)
        try:
            res, _ = S.call(r)
            ks, vs = leaves(res)
            row['native'] = bool(all(native(r['fe'], v) for v in vs))
            vs = [front.to_np(v) for v in vs]
            row['types'] = sorted({v.dtype.name for v in vs})
            row['params'] = described(S.build(r))
        except Exception as e:
            row['exc'] = excname(e)
            row['note'] = str(e)[:200]
            continue
        if r['fe'] == 'sklearn' and r['out'] in refs:
            want = refs[r['out']][1]
            flat = [w.reshape(w.shape[0], -1) for w in want]
            if len(vs) == len(flat) and all(a.shape == b.shape for a, b in zip(vs, flat)):
                vs = [a.reshape(w.shape) for a, w in zip(vs, want)]
        row['keys'] = ks
        row['shapes'] = [list(v.shape) for v in vs]
        if any(v.dtype.kind != 'f' for v in vs):
            row['err'] = 10 ** 9
            continue
        if r['out'] not in refs:
            refs[r['out']] = (ks, vs)
            if any(not np.isfinite(v).all() for v in vs):
                row['err'] = 10 ** 9
            continue
        tol = TOL32 if (r['prec'] == 'f32' or kind == '3d') else TOL64
        e = 0.
        rv = refs[r['out']][1]
        if len(rv) != len(vs):
            e = float('inf')
        else:
            for a, b in zip(vs, rv):
                e = max(e, rel(kind, cf, x, a, b))
        row['err'] = quant(e, tol)
    return dict(runs=rows)


def corrupt(traces):
    import copy
    t = traces[0]
    if any(r['exc'] for r in t['obs']['runs']):
        return []
    res = []

    def c(f, clause):
        u = copy.deepcopy(t)
        f(u['obs']['runs'])
        res.append((u, clause))
    c(lambda u: u[-1].update(err=1001), 'C11.Values')
    c(lambda u: u[-1].update(keys=['x']), 'C11.Keys')
    c(lambda u: [r.update(types=['float32']) for r in u], 'C11.Precision')
    c(lambda u: u[-1].update(shapes=[[1]]), 'C11.Shapes')
    c(lambda u: u[-1].update(params='J=99'), 'C11.Attributes')
    c(lambda u: u.pop(), 'C11.Session')
    c(lambda u: u.append(u[0]), 'C11.Session')
    c(lambda u: u[3].update(fe='jax'), 'C11.Session')
    c(lambda u: u[3].update(style='none'), 'C11.Session')
    c(lambda u: u[3].update(exc='TypeError'), 'C11.Runs')
    c(lambda u: u[3].update(native=False), 'C11.NativeArray')
    return res


FIXED = [('tf', dict(pjtfs.B, fmt='joint', Tk='global', Fk='val', F=9, Q=(3, 1), J=2, N=8, Jf=1), 2),
         ('tf', dict(pjtfs.B, fmt='joint', Fk='zero'), 1),
         ('tf', dict(pjtfs.B, Tk='global', Fk='global'), 1),
         ('1d', dict(p1d.FIXED[0], J=3, N=9, Q=(8, 2), Tk='global'), 2),
         ('1d', dict(p1d.FIXED[0], J=3, N=9, Q=(8, 2), Tk='zero'), 2)]


# all optional arguments at their defaults
DEFAULTS = [('1d', dict(p1d.FIXED[0], J=3, N=21), 2),
            ('tf', dict(pjtfs.B, J=2, Jf=1, Q=(1, 1), N=18, Tk='none', Fk='none', fmt='time', Qf=1), 2),
            ('2d', dict(J=1, L=8, M=9, N=6, mo=2), 2),
            ('3d', dict(J=1, L=3, shape=(5, 4, 6), s0=1, mo=2, rc=True, q=(.5, 1., 2.)), 2)]


def settle_tf(ctx, cases):
    """Lets the time-frequency specification decide which cases are accepted and
    which joint arrays can be stacked."""
    tf = [i for i, c in enumerate(cases) if c[0] == 'tf']
    cfgs = [pjtfs.abstract(dict(cases[i][1], ot='array')) for i in tf]
    plans = ctx.generate('Gen_JTFS', pjtfs.GEN_NOINV, cfgs, workers=6)
    drop = set()
    for i, p in zip(tf, plans):
        cases[i][1]['stackable'] = bool(p['stackable'])
        if p['rejected']:
            drop.add(i)
    return [c for i, c in enumerate(cases) if i not in drop]


def run(ctx):
    ctx.mc('MC_Frontends', MC, must_cover=ACTIONS)
    per = dict(zip(('1d', 'tf', '2d', '3d'), ctx.n((12, 8, 8, 8), (80, 50, 50, 40))))
    cases = []
    i = ctx.seed
    for kind in per:
        for _ in range(per[kind]):
            cf = sample(ctx.rng, kind, big=not ctx.quick)
            cases.append((kind, cf, ctx.rng.choice([1, 2, 3])))
    cases = settle_tf(ctx, [(k, dict(cf), B) for k, cf, B in FIXED + DEFAULTS] + cases)
    cfgs = []
    for kind, cf, B in cases:
        i += 1
        ke = kind == '2d' or (kind == '1d' and cf['sk'] == 'none' and cf['Tk'] != 'zero')
        cfgs.append(dict(kind=kind, outs=outs(kind, cf), rot=i % 12, keras=ke))
    plans = ctx.generate('Gen_Frontends', GEN, cfgs)
    seeds = [ctx.rng.randrange(2 ** 31 - 10) for _ in cases]
    args = [(k, cf, pl, s, B) for (k, cf, B), pl, s in zip(cases, plans, seeds)]
    obs = core.pmap(observe, args, procs=8, timeout=740 if ctx.quick else 7000)
    traces = [dict(cfg=g, obs=(dict(runs=[dict(r, exc='Crash' + o['dead'], keys=[], shapes=[], params='', native=True, err=0)
                                          for r in pl['runs']]) if 'dead' in o else o))
              for g, o, pl in zip(cfgs, obs, plans)]
    labels = []
    for (k, cf, B), s, t in zip(cases, seeds, traces):
        bad = [dict(fe=r['fe'], mode=r['mode'], prec=r['prec'], entry=r['entry'], out=r['out'], style=r['style'], params=r['params'], exc=r['exc'], err=r['err'],
                    note=r.get('note')) for r in t['obs']['runs'] if r['exc'] or r['err'] > 1000][:3]
        labels.append(dict(kind=k, case=cf, batch=B, input_seed=s, runs=bad))
    worst, types = {}, {}
    for (k, cf, B), t in zip(cases, traces):
        for r in t['obs']['runs']:
            ctx.count(dict(kind=k, cf=cf, run=[r['fe'], r['entry'], r['prec'], r['mode'], r['out'], r['style']]))
            w = '%s/%s/%s' % (k, r['fe'], r['prec'])
            types.setdefault(w, set()).update(r['types'])
            w = '%s/%s' % (k, r['prec'])
            worst[w] = max(worst.get(w, 0), r['err'])
    ctx.notes['worst_error_of_1000'] = worst
    ctx.notes['types'] = {w: sorted(v) for w, v in sorted(types.items())}
    ctx.notes['runs'] = sum(len(t['obs']['runs']) for t in traces)
    ctx.validate('Trace_Frontends', TRACE, traces, labels, clauses='C11', selfcheck=corrupt(traces))
    for cse in cases[:2]:
        ctx.sample(cse)
    ctx.sample(plans[0]['runs'][:4])
    return ctx.finish('model_checking',
                      'seeded configurations of the four transforms; in each, the calls the session machine prescribes '
                      '(frontend x precision x execution mode x output type x entry point) compared with its first call',
                      ['no GPU and no scikit-cuda here: the torch_skcuda backends are not exercised',
                       'single precision agreement: 1e-5 of the path maximum plus 2e-6 of max|x|'])
