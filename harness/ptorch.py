"""C14: PyTorch modules: buffers, precision, copies and state round-trips."""
import copy
import io
import pickle

import numpy as np

from . import core, pfront
from .core import quant, excname

MC = """SPECIFICATION Spec
INVARIANTS InvType InvRoundTrip
PROPERTIES PropLocal PropCfg PropContent
VIEW View
CONSTANT Steps = %d
"""
GEN = "SPECIFICATION Spec\nINVARIANT InvType\n"
TRACE = "SPECIFICATION Spec\n"
ACTIONS = ('New', 'Move', 'Noop', 'Mode', 'Nest', 'Poke', 'Copy', 'Save', 'Load', 'DoCall', 'Func', 'BadCall', 'Drop')
CLS = {'1d': 'Scattering1D', 'tf': 'TimeFrequencyScattering', '2d': 'Scattering2D', '3d': 'HarmonicScattering3D'}


def ctor(f):
    kw = pfront.kwargs(f['k'], f['cf'])
    if f['k'] != '3d':
        kw['out_type'] = f['ot']
    if f['pp']:
        kw['pre_pad'] = True
    return kw


def flat(r):
    """A result as one vector of arrays, in order."""
    return [np.asarray(v.detach().numpy() if hasattr(v, 'detach') else v) for v in pfront.leaves(r)[1]]


def exponents(f, xs):
    """What doubling every filter multiplies each path by, as a power of two.  3-D: None."""
    import kymatio.numpy as kn
    k, cf = f['k'], f['cf']
    if k == '3d':
        return None
    kw = ctor(f)
    kw['out_type'] = 'list'
    lst = getattr(kn, CLS[k])(**kw)(xs[0])
    if k == '2d':
        return [1 + len(d['theta']) for d in lst]
    loc = 1 if cf['Tk'] in ('none', 'val') else 0
    if k == '1d':
        return [len(d['n']) + loc for d in lst]
    lof = 1 if cf['Fk'] in ('none', 'val') else 0
    res = []
    for d in lst:
        o = d['order']
        if o == 0:
            res.append(loc)
            continue
        # the lowest frequency filter is the low-pass itself, which is not applied twice
        nfr = d['n_fr'][0] if 'n_fr' in d else d['n'][-1]
        # the first order is always built from the time-averaged scalogram
        res.append((3 if o == 1 else 3 + loc) + (lof if nfr > 0 else 0))
    return res


class Oracle:
    """The NumPy transform with every filter doubled ver times, by scaling."""

    def __init__(self, f, xs):
        import kymatio.numpy as kn
        self.f, self.xs = f, xs
        self.S = getattr(kn, CLS[f['k']])(**ctor(f))
        self.exps = exponents(f, xs)
        self.cache = {}

    def __call__(self, x, ver):
        f = self.f
        if x not in self.cache:
            v = self.S(self.xs[x - 1])
            self.keys = list(v) if isinstance(v, dict) else None
            self.cache[x] = flat(v)
        r = self.cache[x]
        if f['k'] == '3d':
            q = np.asarray(f['cf']['q'], dtype=float)
            o = np.array([1 + (i > f['cf']['J']) for i in range(r[0].shape[-3])], dtype=float)
            return [r[0] * 2.0 ** (ver * o[:, None, None] * q)]
        if f['ot'] == 'array':
            exps = self.exps
            if f['k'] == 'tf' and f['cf']['fmt'] == 'joint':
                exps = exps[1:]     # the zeroth order has no frequency axis and is left out
            tail = {'1d': 1, '2d': 2}.get(f['k']) or (2 if f['cf']['fmt'] == 'joint' else 1)
            return [r[0] * 2.0 ** (ver * np.array(exps, dtype=float)).reshape((-1,) + (1,) * tail)]
        if f['ot'] == 'dict' and f['k'] == '1d':
            return [a * 2.0 ** (ver * (len(key) + self.exps[0])) for a, key in zip(r, self.keys)]
        return [a * 2.0 ** (ver * e) for a, e in zip(r, self.exps)] if len(r) == len(self.exps) else []


def session(arg):
    f_list, plan, seed = arg
    import torch
    import kymatio.torch as kt
    torch.set_num_threads(1)
    xs, oracles, base, keys0 = {}, {}, {}, {}
    nf = len(f_list)
    for i, f in enumerate(f_list):
        x = pfront.inputs(f['k'], f['cf'], seed + 17 * i, 2)
        x = [x[0], x[1][None]]                # without and with a batch dimension
        if f['pp']:
            S = getattr(kt, CLS[f['k']])(**ctor(f))
            rng = np.random.RandomState(seed)
            M, N = f['padded']
            x = [rng.randn(M, N).astype('float32').astype('float64'), rng.randn(2, M, N).astype('float32').astype('float64')]
        xs[i + 1] = x
        oracles[i + 1] = Oracle(f, x)
        S = getattr(kt, CLS[f['k']])(**ctor(f))
        base[i + 1] = {k: v.clone() for k, v in S.state_dict().items()}
        keys0[i + 1] = list(S.state_dict())
    DT = {'f32': torch.float32, 'f64': torch.float64}

    def build(i):
        f = f_list[i - 1]
        return getattr(kt, CLS[f['k']])(**ctor(f))

    inner, outer, cfg, prec = {}, {}, {}, {}
    files = {}
    refs = {}

    def double_all(M, how):
        if how == 'inplace':
            with torch.no_grad():
                for b in M.buffers():
                    b.mul_(2)
        elif how == 'assign':
            for name, b in list(M.named_buffers()):
                setattr(M, name, b * 2)
        else:
            M.load_state_dict({k: v * 2 for k, v in M.state_dict().items()})

    def fresh(key):
        t = (key['cfg'], key['prec'], key['ver'])
        if t not in refs:
            S = build(key['cfg'])
            if key['prec'] == 'f64':
                S = S.double()
            for _ in range(key['ver']):
                double_all(S, 'inplace')
            refs[t] = S
        S = refs[t]
        if key['x'] not in S.__dict__.setdefault('_kv', {}):
            S._kv[key['x']] = flat(S(torch.from_numpy(xs[key['cfg']][key['x'] - 1]).to(DT[key['prec']])))
        return S._kv[key['x']]

    def snapshot():
        res = []
        for s in range(1, plan['slots'] + 1):
            if s not in inner:
                res.append(dict(cfg=0, prec='f32', ver=0, train='on', npar=0, keys=True, nbuf=True))
                continue
            M, i = inner[s], cfg[s]
            sd = M.state_dict()
            dts = {v.dtype for v in M.buffers()}
            p = {torch.float32: 'f32', torch.float64: 'f64'}.get(dts.pop(), '?') if len(dts) == 1 else '?'
            ver = -1
            ks = list(sd) == keys0[i]
            if ks:
                for v in range(0, 7):
                    if all(torch.equal(sd[k].double(), base[i][k].double() * 2 ** v) for k in sd):
                        ver = v
                        break
            bufs = dict(M.named_buffers())
            nbuf = (len(bufs) == f_list[i - 1]['nbuf'] and not any(b.requires_grad for b in bufs.values()))
            O = outer[s]
            res.append(dict(cfg=i, prec=p, ver=ver, train=('on' if M.training else 'off') if M.training == O.training else 'mixed',
                            npar=len(list(O.parameters())), keys=bool(ks), nbuf=bool(nbuf)))
        return res

    def compare(key, r, mult=0):
        leaves = flat(r)
        dt = {'torch.float32': 'f32', 'torch.float64': 'f64'}
        vals = pfront.leaves(r)[1]
        dts = {dt.get(str(v.dtype), str(v.dtype)) for v in vals}
        ref = fresh(key)
        ana = oracles[key['cfg']](key['x'], key['ver'])
        if len(ref) != len(leaves) or len(ana) != len(leaves):
            return dict(err=10 ** 9, ana=10 ** 9, dt='|'.join(sorted(dts)))
        scale = max(max(np.abs(a).max() for a in ref), 1e-30)
        tol = 1e-6 if key['prec'] == 'f32' else 1e-13
        err = max(core.relerr(a, b, scale) for a, b in zip(leaves, ref))
        an = max(core.relerr(a, b, max(np.abs(b).max(), 1e-3 * scale)) for a, b in zip(leaves, ana))
        return dict(err=quant(err, tol), ana=quant(an, 2e-4), dt='|'.join(sorted(dts)))

    obs = []
    for h in plan['hist']:
        o, key = h['o'], h['key']
        e = dict(o=o, exc='', key=key, err=0, ana=0, dt='', slots=[])
        op = o['op']
        try:
            if op == 'new':
                s = o['s']
                inner[s] = outer[s] = build(o['cfg'])
                cfg[s], prec[s] = o['cfg'], 'f32'
            elif op == 'to':
                s, O = o['s'], outer[o['s']]
                if o['how'] == 'method':
                    R = O.double() if o['prec'] == 'f64' else O.float()
                elif o['how'] == 'to':
                    R = O.to(DT[o['prec']])
                else:
                    R = O.to(torch.zeros(1, dtype=DT[o['prec']]))
                prec[s] = o['prec']
                if R is not O:
                    raise RuntimeError('conversion does not return the module')
            elif op == 'noop':
                O = outer[o['s']]
                if o['how'] == 'cpu':
                    O.cpu()
                    O.to('cpu')
                elif o['how'] == 'reqgrad':
                    O.requires_grad_(True)
                elif o['how'] == 'zerograd':
                    O.zero_grad()
                else:
                    O.apply(lambda m: None)
                    repr(O)
            elif op == 'train':
                outer[o['s']].train(o['on'])
            elif op == 'nest':
                # a new parent is in training mode; give it the child's
                P = torch.nn.Sequential(inner[o['s']])
                P.training = inner[o['s']].training
                outer[o['s']] = P
            elif op == 'poke':
                M = inner[o['s']]
                double_all(M, o['how'])
            elif op == 'copy':
                s, t = o['s'], o['to']
                if o['how'] == 'deepcopy':
                    R = copy.deepcopy(outer[s])
                elif o['how'] == 'pickle':
                    R = pickle.loads(pickle.dumps(outer[s]))
                else:
                    b = io.BytesIO()
                    torch.save(outer[s], b)
                    b.seek(0)
                    R = torch.load(b, weights_only=False)
                nested = inner[s] is not outer[s]
                outer[t], cfg[t], prec[t] = R, cfg[s], prec[s]
                inner[t] = R[0] if nested else R
            elif op == 'save':
                b = io.BytesIO()
                torch.save(outer[o['s']] if o['what'] == 'object' else outer[o['s']].state_dict(), b)
                s = o['s']
                files[o['f']] = (o['what'], b.getvalue(), cfg[s], prec[s], inner[s] is not outer[s])
            elif op == 'load':
                what, raw, ci, pr, nested = files[o['f']]
                s = o['s']
                R = torch.load(io.BytesIO(raw), weights_only=(what == 'state'))
                if what == 'object':
                    outer[s], cfg[s], prec[s] = R, ci, pr
                    inner[s] = R[0] if nested else R
                else:
                    outer[s].load_state_dict(R, assign=bool(o['assign']))
                    if o['assign']:
                        prec[s] = pr
            elif op == 'drop':
                del inner[o['s']], outer[o['s']]
            elif op == 'functional':
                s = o['s']
                bufs = {k: v * 2 for k, v in outer[s].named_buffers()}
                x = torch.from_numpy(xs[cfg[s]][o['x'] - 1]).to(DT[prec[s]])
                e.update(compare(key, torch.func.functional_call(outer[s], bufs, (x,))))
            elif op == 'call':
                s = o['s']
                x = torch.from_numpy(xs[cfg[s]][o['x'] - 1]).to(DT[prec[s]])
                fn = {'call': lambda v: outer[s](v), 'forward': lambda v: inner[s].forward(v),
                      'scattering': lambda v: inner[s].scattering(v)}[o['via']]
                if o['mode'] == 'nograd':
                    with torch.no_grad():
                        r = fn(x)
                elif o['mode'] == 'inference':
                    with torch.inference_mode():
                        r = fn(x)
                elif o['mode'] == 'grad':
                    x = x.requires_grad_(True)
                    r = fn(x)
                    sum(v.sum() for v in pfront.leaves(r)[1]).backward()
                elif o['mode'] == 'twice':
                    fn(x * 2)
                    r = fn(x)
                else:
                    r = fn(x)
                e.update(compare(key, r))
            elif op == 'badcall':
                s, w = o['s'], o['why']
                v = torch.from_numpy(xs[cfg[s]][0])
                good = v.to(DT[prec[s]])
                x = {'mixed': lambda: v.to(DT['f64' if prec[s] == 'f32' else 'f32']), 'half': lambda: v.half(),
                     'int': lambda: v.to(torch.int64), 'bool': lambda: v > 0, 'complex': lambda: good.to(torch.complex64 if prec[s] == 'f32' else torch.complex128),
                     'numpy': lambda: good.numpy(), 'list': lambda: good.tolist(), 'none': lambda: None,
                     'scalar': lambda: good.flatten()[0], 'short': lambda: good[..., :-1].contiguous()}[w]()
                fn = {'call': outer[s], 'forward': inner[s].forward, 'scattering': inner[s].scattering}[o['via']]
                fn(x)
        except Exception as ex:     # judged by the trace specification
            e['exc'] = excname(ex)
            e['msg'] = str(ex)[:200]
        e['slots'] = snapshot()
        obs.append(e)
        if e['exc'] and h['outcome'] != 'raises':
            break           # the rest of the history is not meaningful
    return obs


def corrupt(traces):
    res = []
    for t in traces:
        i = next((k for k, e in enumerate(t['obs']) if e['o']['op'] == 'call' and not e['exc']), None)
        b = next((k for k, e in enumerate(t['obs']) if e['o']['op'] == 'badcall'), None)
        if i is None or b is None:
            continue
        live = next(k for k, s in enumerate(t['obs'][i]['slots']) if s['cfg'])

        def c(f, clause):
            u = copy.deepcopy(t)
            f(u['obs'])
            res.append((u, clause))
        c(lambda u: u[i].update(err=1001), 'C14.EqualsFresh')
        c(lambda u: u[i].update(ana=1001), 'C14.UsesCurrent')
        c(lambda u: u[i].update(dt='f16'), 'C14.OutputPrecision')
        c(lambda u: u[i].update(exc='X'), 'C14.CallSucceeds')
        c(lambda u: u[b].update(exc=''), 'C14.Rejects')
        c(lambda u: u[i]['slots'][live].update(prec='?'), 'C14.BufferPrecision')
        c(lambda u: u[i]['slots'][live].update(ver=-1), 'C14.BufferContents')
        c(lambda u: u[i]['slots'][live].update(npar=1), 'C14.NoParameters')
        c(lambda u: u[i]['slots'][live].update(keys=False), 'C14.StateKeys')
        c(lambda u: u[i]['slots'][live].update(train='mixed'), 'C14.TrainingFlag')
        c(lambda u: u[i]['slots'][live].update(nbuf=False), 'C14.FiltersAreBuffers')
        c(lambda u: u.pop(), 'C14.Behaviour')
        break
    return res


def nbuf(f):
    """Number of filters of a configuration, counted on the NumPy object."""
    import kymatio.numpy as kn
    S = getattr(kn, CLS[f['k']])(**ctor(f))
    if f['pp']:
        f['padded'] = tuple(((n + 2 ** f['cf']['J']) // 2 ** f['cf']['J'] + 1) * 2 ** f['cf']['J'] for n in (f['cf']['M'], f['cf']['N']))
    if f['k'] == '3d':
        return len(S.filters) + 1
    if f['k'] == '2d':
        return len(S.phi['levels']) + sum(len(p['levels']) for p in S.psi)
    n = len(S.phi_f['levels']) + sum(len(p['levels']) for p in S.psi1_f) + sum(len(p['levels']) for p in S.psi2_f)
    if f['k'] == 'tf':
        n += len(S.filters_fr[0]['levels']) + sum(len(p['levels']) for p in S.filters_fr[1])
    return n


def make_case(ctx, q):
    rng = ctx.rng
    fs = []
    for i in range(2):
        kind = ['1d', 'tf', '2d', '3d', '2d'][(q + i * (1 + q // 5)) % 5]
        cf = pfront.sample(rng, kind)
        fs.append(dict(k=kind, cf=cf, pp=kind == '2d' and rng.random() < .5))
    return fs


def run(ctx):
    ctx.mc('MC_TorchModule', MC % ctx.n(5, 7), must_cover=ACTIONS, workers=6, timeout=3000)
    n = ctx.n(140, 1000)
    raw = [make_case(ctx, q) for q in range(n)]
    settled = {id(c[1]) for c in pfront.settle_tf(ctx, [(f['k'], f['cf'], 'torch') for fs in raw for f in fs])}
    full, gcases = [], []
    for fs in raw:
        fs = [f for f in fs if id(f['cf']) in settled]
        if not fs:
            continue
        for f in fs:
            f['ot'] = ctx.rng.choice(pfront.outs(f['k'], f['cf']))
            f['nbuf'] = nbuf(f)
        full.append(fs)
        gcases.append(dict(cfgs=[dict(kind=f['k']) for f in fs], slots=3, files=2, steps=ctx.n(36, 80)))
    plans = ctx.generate('Gen_TorchModule', GEN, gcases, workers=1, extra=['-seed', str(ctx.seed)])
    for p in plans:
        p['slots'] = 3
    seeds = [ctx.rng.randrange(2 ** 31 - 100) for _ in full]
    obs = core.pmap(session, list(zip(full, plans, seeds)), procs=8, timeout=700 if ctx.quick else 7000)
    traces, labels, worst, wa, ops = [], [], 0, 0, {}
    for i, ob in enumerate(obs):
        lab = dict(cfgs=[(f['k'], f['ot'], f['pp'], f['cf']) for f in full[i]], input_seed=seeds[i])
        if isinstance(ob, dict):
            ctx.fail(lab, ['C14.Survives'])
            continue
        for k, (e, h) in enumerate(zip(ob, plans[i]['hist'])):
            ops[e['o']['op']] = ops.get(e['o']['op'], 0) + 1
            if h['outcome'] == 'result' and not e['exc']:
                worst, wa = max(worst, e['err']), max(wa, e['ana'])
            ctx.count(dict(i=i, s=ctx.seed, k=k), nontrivial=e['o']['op'] not in ('new', 'drop', 'noop'))
        lab['last'] = [{q: v for q, v in e.items() if q != 'slots'} for e in ob if e['err'] > 1000 or e['ana'] > 1000 or (e['exc'] and e['o']['op'] != 'badcall') or (not e['exc'] and e['o']['op'] == 'badcall')][:3]
        lab['ops'] = [h['o'] for h in plans[i]['hist']][:len(ob)]
        traces.append(dict(cfg=gcases[i], obs=[{q: v for q, v in e.items() if q != 'msg'} for e in ob]))
        labels.append(lab)
    ctx.notes['operations'] = ops
    ctx.notes['worst_error_of_1000'] = worst
    ctx.notes['worst_scaled_error_of_1000'] = wa
    ctx.validate('Trace_TorchModule', TRACE, traces, labels, clauses='C14', selfcheck=corrupt(traces))
    ctx.sample([h['o'] for h in plans[0]['hist']])
    return ctx.finish('model_checking',
                      'random behaviours of the module machine (three modules, two files, two configurations of any transform) '
                      'replayed on real modules; after every operation all buffers, flags, keys and parameters are compared '
                      'with the machine, and results with a new module in the same state and with scaled NumPy results',
                      ['only the CPU is available: device moves are to the CPU',
                       'buffers are doubled, so that every content is exact in both precisions'])
