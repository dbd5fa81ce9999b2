"""C12: leading batch dimensions are transparent."""
import numpy as np

from . import core, front, pfront, p1d, pjtfs
from .core import quant, excname

MC = """SPECIFICATION Spec
CONSTANT Steps=%d
INVARIANTS InvIndex InvIds InvLocal
VIEW View
"""
GEN = """SPECIFICATION Spec
INVARIANTS InvIndex InvIds InvLocal
"""
TRACE = "SPECIFICATION Spec\n"
ACTIONS = ('DoFill', 'DoSwap', 'DoPoke', 'DoLayout', 'DoCall')
SHAPES = [[], [1], [2], [3], [1, 1], [2, 3], [3, 1], [1, 2, 2], [2, 1, 1, 2], [7]]
BIG = [[], [1], [33], [4, 5], [2, 3, 4]]
WIDE = [[64], [65], [130], [257], [3, 43]]
LAYOUTS = {'numpy': ['C', 'F', 'reversed', 'strided', 'readonly', 'moved'],
           'sklearn': ['C', 'F', 'reversed', 'strided', 'readonly', 'moved'],
           'torch': ['C', 'offset', 'strided', 'F'], 'tensorflow': ['C'], 'jax': ['C']}
K = 3


def signals(kind, cf, seed, dt):
    x = pfront.inputs(kind, cf, seed, K)
    x = x / (np.abs(x).reshape(K, -1).max(1).reshape((K,) + (1,) * (x.ndim - 1)) + 1e-3)
    x[1] *= 40.
    z = np.zeros_like(x[0])
    huge = x[0] * 1e12 + 3e11 if kind != '3d' else x[0] * 1e5 + 3e4
    bad = x[0].copy()
    bad.flat[x[0].size // 2] = np.nan
    inf = x[0].copy()
    inf.flat[-1] = np.inf
    return np.concatenate([x, z[None], huge[None], bad[None], inf[None]]).astype(dt)


def arrange(fe, x, layout):
    """The same values in another memory layout."""
    if layout == 'F':
        x = np.asfortranarray(x)
    elif layout == 'reversed':
        sl = (slice(None, None, -1),) * x.ndim
        x = x[sl].copy()[sl]
    elif layout == 'strided':
        big = np.full(x.shape[:-1] + (2 * x.shape[-1],), 7., dtype=x.dtype)
        big[..., ::2] = x
        x = big[..., ::2]
    elif layout == 'moved':
        x = np.moveaxis(np.ascontiguousarray(np.moveaxis(x, -1, 0)), 0, -1)
    elif layout == 'offset':
        big = np.full((x.size + 5,), 7., dtype=x.dtype)
        big[5:] = x.ravel()
        if fe == 'torch':
            import torch
            return torch.from_numpy(big)[5:].reshape(x.shape)
        x = big[5:].reshape(x.shape)
    elif layout == 'readonly':
        x = x.copy()
        x.flags.writeable = False
    if fe == 'torch':
        import torch
        return torch.from_numpy(x if all(s >= 0 for s in x.strides) else x.copy())
    if fe in ('tensorflow', 'jax'):
        return front.tensor(fe, x)
    return x


NSIG = {'1d': 1, 'tf': 1, '2d': 2, '3d': 3}


class Runner:
    def __init__(self, kind, cf, fe, f64, out):
        kw = pfront.kwargs(kind, cf)
        if kind != '3d':
            kw['out_type'] = out
        self.S = front.cls(kind, fe)(**kw)
        self.kind, self.fe, self.cf, self.out = kind, fe, cf, out
        if fe == 'torch' and f64:
            self.S = self.S.double()
        self.alone = {}

    def raw(self, t):
        return self.S.predict(t) if self.fe == 'sklearn' else self.S(t)

    def solo(self, i, x):
        if i not in self.alone:
            if self.fe == 'sklearn':
                x = x.reshape(-1)
            ks, vs = pfront.leaves(self.raw(arrange(self.fe, x, 'C')))
            self.alone[i] = (ks, [front.to_np(v) for v in vs])
        return self.alone[i]


def per_cell_error(kind, v, ref, amp):
    v = np.asarray(v, dtype=np.float64)
    ref = np.asarray(ref, dtype=np.float64)
    if v.shape != ref.shape or not np.isfinite(v).all():
        return float('inf')
    if v.size == 0:
        return 0.
    if kind == '3d':
        # powers of the modulus: relative to the largest coefficient of that power
        s = np.abs(ref).max(axis=tuple(range(ref.ndim - 1)), keepdims=True) * 5
    else:
        ax = min(ref.ndim, 2 if kind == '2d' else 1)
        s = np.abs(ref).max(axis=tuple(range(ref.ndim - ax, ref.ndim)), keepdims=True)
        s = s + 1e-2 * max(amp, float(np.abs(ref).max()))
    d = np.abs(v - ref)
    with np.errstate(all='ignore'):
        e = np.where(d == 0, 0., d / s)
    return float(np.nan_to_num(e, nan=1e9, posinf=1e9).max())


def observe(arg):
    kind, cf, fe, f64, plan, seed = arg
    dt = np.float64 if f64 else np.float32
    sig = signals(kind, cf, seed, dt)
    tol = (1e-7 if f64 and fe in ('numpy', 'sklearn') and kind != '3d' else 1e-5)
    runners, obs = {}, []
    for h in plan['hist']:
        e = dict(o=h['o'], exc='', lead=[], err=[], same=True, note='')
        obs.append(e)
        if h['o']['op'] != 'call':
            continue
        out = h['o']['out']
        ncell = len(h['cells'])
        try:
            if out not in runners:
                runners[out] = Runner(kind, cf, fe, f64, out)
            R = runners[out]
            x = np.zeros(tuple(h['shape']) + sig.shape[1:], dtype=dt)
            for cell in h['cells']:
                x[tuple(cell['at'])] = sig[cell['id'] - 1]
            if fe == 'sklearn':
                x = x.reshape(tuple(h['shape']) + (-1,))
            with np.errstate(all='ignore'):
                ks, vs = pfront.leaves(R.raw(arrange(fe, x, h['layout'])))
            vs = [front.to_np(v) for v in vs]
        except Exception as ex:
            e['exc'], e['note'] = excname(ex), str(ex)[:200]
            continue
        nb = len(h['shape'])
        sol = {c['id']: R.solo(c['id'], sig[c['id'] - 1]) for c in h['cells'] if c['id'] <= K + 2}
        leads = {tuple(v.shape[:nb]) for v in vs}
        lead = leads.pop() if len(leads) == 1 else ('mixed',)
        # every leaf keeps as many trailing axes as it has for a lone signal
        any_id = next(iter(sol), None)
        if any_id is not None:
            e['same'] = (ks == sol[any_id][0])
            if [v.ndim - nb for v in vs] != [w.ndim for w in sol[any_id][1]]:
                lead = ('rank',)
        e['lead'] = list(lead) if all(isinstance(s, int) for s in lead) else [-1]
        if e['lead'] != list(h['shape']):
            continue
        for cell in h['cells']:
            i = cell['id']
            if i > K + 2:
                e['err'].append(0)
                continue
            w = 0.
            amp = float(np.abs(sig[i - 1]).max())
            for v, r in zip(vs, sol[i][1]):
                w = max(w, per_cell_error(kind, v[tuple(cell['at'])], r, amp))
            e['err'].append(quant(w, tol))
    return obs


def corrupt(traces):
    import copy
    res = []
    for t in traces:
        calls = [k for k, e in enumerate(t['obs']) if e['o']['op'] == 'call' and not e['exc'] and len(e['err']) >= 1]
        if not calls:
            continue
        k = calls[-1]

        def c(f, clause):
            u = copy.deepcopy(t)
            f(u['obs'])
            res.append((u, clause))
        c(lambda u: u[k].update(lead=u[k]['lead'] + [1]), 'C12.LeadingShape')
        c(lambda u: u[k].update(err=[1001] * len(u[k]['err'])), 'C12.(CellIs|Zero|Huge)')
        c(lambda u: u[k].update(same=False), 'C12.KeysInd')
        c(lambda u: u[k].update(exc='ValueError'), 'C12.Runs')
        c(lambda u: u.pop(), 'C12.Behaviour')
        c(lambda u: u[0].update(o=dict(op='poke', i=99, v=1)), 'C12.Behaviour')
        if len(res) > 10:
            break
    return res


def run(ctx):
    ctx.mc('MC_Batch', MC % ctx.n(3, 4), must_cover=ACTIONS, workers=6, timeout=3000)
    per = dict(zip(('1d', 'tf', '2d', '3d'), ctx.n((20, 12, 12, 12), (90, 60, 60, 50))))
    cases = []
    for kind in per:
        fes = ['numpy', 'torch', 'tensorflow', 'jax', 'sklearn']
        for q in range(per[kind]):
            cf = pfront.sample(ctx.rng, kind)
            cases.append((kind, cf, fes[q % 5]))
    cases += [('tf', dict(pjtfs.B, fmt='joint', Tk='global', J=2, N=8, Jf=1), fe) for fe in front.ALL]
    cases += [('1d', dict(p1d.FIXED[0], J=2, N=11, Tk=t), fe) for fe in ('numpy', 'torch') for t in ('zero', 'global')]
    wide = [(k, cf, fe) for k, cf in (('1d', dict(p1d.FIXED[0], J=2, N=11)),
                                      ('2d', dict(J=1, L=2, M=4, N=5, mo=2)),
                                      ('3d', dict(J=1, L=1, shape=(3, 2, 4), s0=1., mo=2, rc=True, q=(1., 2.))),
                                      ('tf', dict(pjtfs.B, J=2, N=8, Jf=1))) for fe in front.ALL]
    kept = pfront.settle_tf(ctx, cases + wide)
    wide = [id(c[1]) for c in wide]
    cases, cfgs, prec = [], [], []
    for kind, cf, fe in kept:
        o = pfront.outs(kind, cf)
        if fe == 'sklearn':
            if 'array' not in o:
                fe = 'numpy'
            else:
                o = ['array']
        cases.append((kind, cf, fe))
        prec.append(fe in ('numpy', 'sklearn', 'torch') and ctx.rng.random() < .6)
        shapes = BIG if (kind in ('1d', '2d') and ctx.rng.random() < .2) else SHAPES
        if id(cf) in wide:
            shapes = WIDE
        cfgs.append(dict(K=K, shapes=shapes, layouts=LAYOUTS[fe], outs=o, steps=6 if id(cf) in wide else ctx.n(24, 40),
                         contig=fe == 'torch'))
    plans = ctx.generate('Gen_Batch', GEN, cfgs, workers=1, extra=['-seed', str(ctx.seed)])
    seeds = [ctx.rng.randrange(2 ** 31 - 10) for _ in cases]
    args = [(k, cf, fe, p, pl, s) for (k, cf, fe), p, pl, s in zip(cases, prec, plans, seeds)]
    obs = core.pmap(observe, args, procs=7, timeout=740 if ctx.quick else 7000)
    traces = [dict(cfg=g, obs=([dict(o=h['o'], exc='Crash' + o['dead'], lead=[], err=[], same=True)
                                for h in pl['hist']] if isinstance(o, dict) else o))
              for g, o, pl in zip(cfgs, obs, plans)]
    labels = []
    worst, calls = {}, 0
    for (k, cf, fe), p, s, t, pl in zip(cases, prec, seeds, traces, plans):
        bad = [(i, e['exc'], e.get('note', ''), max(e['err'] or [0])) for i, e in enumerate(t['obs'])
               if e['exc'] or max(e['err'] or [0]) > 1000][:3]
        labels.append(dict(kind=k, frontend=fe, double=p, case=cf, input_seed=s, bad_calls=bad))
        for e, h in zip(t['obs'], pl['hist']):
            if e['o']['op'] == 'call':
                calls += 1
                ctx.count(dict(k=k, cf=cf, fe=fe, sh=h['shape'], ids=[q['id'] for q in h['cells']], lay=h['layout']),
                          nontrivial=len(h['cells']) > 1)
                w = '%s/%s' % (k, fe)
                worst[w] = max([worst.get(w, 0)] + e['err'])
    ctx.notes['worst_error_of_1000'] = worst
    ctx.notes['calls'] = calls
    ctx.validate('Trace_Batch', TRACE, traces, labels, clauses='C12', selfcheck=corrupt(traces))
    ctx.sample(labels[0])
    ctx.sample([h['o'] for h in plans[0]['hist']])
    return ctx.finish('model_checking',
                      'random behaviours of the batch machine (leading shapes, swaps, zero/huge/NaN/inf cells, memory '
                      'layouts, output types) replayed on every frontend and transform; each cell of every result '
                      'compared with the transform of its signal alone',
                      ['a lone signal and a batch may differ by FFT rounding: 1e-7 (double NumPy) or 1e-5 of the path maximum',
                       'cells holding NaN or infinity are only required not to affect others'])
