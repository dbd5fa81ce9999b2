"""C13: results depend only on configuration and input, not on call history."""
import copy
import hashlib
import os
import pickle
import random

import numpy as np

from . import core, front, pfront, p1d, pjtfs
from .core import quant, excname

MC = """SPECIFICATION Spec
CONSTANT Steps=%d
INVARIANTS InvSlots InvResults
PROPERTIES PropLocal PropFail
VIEW View
"""
GEN = "SPECIFICATION Spec\nINVARIANTS InvSlots InvResults\n"
TRACE = "SPECIFICATION Spec\n"
ACTIONS = ('New', 'NewBad', 'Copy', 'DoCall', 'BadCall', 'Query', 'Order', 'Out', 'EditInput', 'EditResult', 'Apply', 'Drop')
TOL = 1e-6
COPY = {'deep': copy.deepcopy, 'shallow': copy.copy, 'pickle': lambda S: pickle.loads(pickle.dumps(S))}


# -- running a function in a process that has only imported the library -----------
def forked(fn, *args):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = pickle.dumps(('ok', fn(*args)))
            except BaseException as e:
                import traceback
                data = pickle.dumps(('exc', excname(e), traceback.format_exc()))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return ('exc', 'Dead', 'the process died')
    return pickle.loads(data)


def construct(f, mo=None, ot=None):
    kw = pfront.kwargs(f['k'], f['cf'])
    if f['k'] != 'tf':
        kw['max_order'] = f['mo'] if mo is None else mo
    if f['k'] != '3d':
        kw['out_type'] = f['ot'] if ot is None else ot
    return front.cls(f['k'], f['fe'])(**kw)


def content(f, seed, x, v):
    """Content of input x in version v for a configuration.  Inputs differ in
    their batch axes and, on NumPy, in their precision."""
    B = [(2,), (1,), (1, 2), (2, 1), (), (3,)][(x + seed % 7 * (x - 1)) % 6 if x > 1 else 0]
    if f['fe'] == 'sklearn':
        B = (1 + x % 2,)
    a = pfront.inputs(f['k'], f['cf'], (seed + 7919 * x + 104729 * v) % (2 ** 31 - 10), int(np.prod(B)))
    other = {np.float64: np.float32, np.float32: np.float64}[f['dt']]
    return a.reshape(B + a.shape[1:]).astype(other if f['fe'] == 'numpy' and x > 1 and seed % 3 else f['dt'])


def as_input(f, a):
    if f['fe'] == 'sklearn':
        a = a.reshape(a.shape[0], -1)
    return front.tensor(f['fe'] if f['fe'] != 'sklearn' else 'numpy', a)


def invoke(f, S, t):
    return S.predict(t) if f['fe'] == 'sklearn' else S(t)


def query(f, S, what):
    if f['k'] in ('2d', '3d'):
        return ''
    if what == 'meta':
        m = S.meta()
        return canon(m)
    return canon([S.output_size(), S.output_size(detail=True)]) if f['k'] == '1d' else canon(S.output_size()) \
        if hasattr(S, 'output_size') and f['k'] == '1d' else ''


def canon(m):
    if isinstance(m, dict):
        return '{' + ', '.join('%r: %s' % (k, canon(m[k])) for k in sorted(m, key=str)) + '}'
    if isinstance(m, (list, tuple)):
        return '[' + ', '.join(canon(v) for v in m) + ']'
    if isinstance(m, np.ndarray):
        return repr(np.round(m.astype(float), 9).tolist()) if m.dtype != object else repr(m.tolist())
    if isinstance(m, float):
        return '%.9g' % m
    return repr(m)


def reference(f, key, seed):
    if key['x'] == 0:
        S = construct(f, key['mo'], key['ot'])
        return (query(f, S, 'meta'), query(f, S, 'size'))
    S = construct(f, key['mo'], key['ot'])
    ks, vs = pfront.leaves(invoke(f, S, as_input(f, content(f, seed, key['x'], key['v']))))
    return (ks, [front.to_np(v) for v in vs])


def distance(res, ref):
    ks, vs = res
    if ks != ref[0] or len(vs) != len(ref[1]):
        return float('inf')
    e = 0.
    for v, r in zip(vs, ref[1]):
        e = max(e, core.relerr(v, r) if v.shape == r.shape else float('inf'))
    return e


# -- fingerprints ----------------------------------------------------------------
def digest(a):
    a = np.ascontiguousarray(front.to_np(a))
    return hashlib.sha1(a.tobytes() + repr((a.shape, a.dtype.str)).encode()).hexdigest()


def digest_result(res):
    ks, vs = pfront.leaves(res)
    return ks, [digest(v) for v in vs]


def arrays(v):
    if isinstance(v, dict):
        for k in sorted(v, key=str):
            yield from arrays(v[k])
    elif isinstance(v, (list, tuple)):
        for w in v:
            yield from arrays(w)
    elif hasattr(v, 'shape') and hasattr(v, 'dtype'):
        yield v


def filters_print(f, S):
    names = {'1d': ('phi_f', 'psi1_f', 'psi2_f'), 'tf': ('phi_f', 'psi1_f', 'psi2_f', 'filters_fr'),
             '2d': ('phi', 'psi'), '3d': ('filters', 'gaussian_filters')}[f['k']]
    h = hashlib.sha1()
    for nm in names:
        for a in arrays(getattr(S, nm, ())):
            a = np.ascontiguousarray(front.to_np(a))
            h.update(a.astype(complex).tobytes())
    if f['fe'] == 'torch':
        for k, b in sorted(S.state_dict().items()):
            h.update(k.encode() + np.ascontiguousarray(front.to_np(b)).tobytes())
    return h.hexdigest()


PARAMS = ('J', 'shape', 'T', 'Q', 'average', 'log2_stride', 'stride', 'L', 'sigma_0', 'integral_powers',
          'rotation_covariant', 'pre_pad', 'oversampling', 'J_fr', 'Q_fr', 'F', 'log2_F', 'log2_T', 'format',
          'average_fr', 'log2_stride_fr', 'ind_start', 'ind_end', 'pad_left', 'pad_right', 'N', 'M', 'O')


def params_print(S):
    import warnings
    out = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for p in PARAMS:
            try:
                v = getattr(S, p)
            except Exception as e:
                v = excname(e)
            if callable(v):
                continue
            out.append((p, canon(v)))
    return repr(out)


class World:
    """The user's global settings."""

    def __init__(self):
        self.now = 1
        self.snap = self.observe()

    def set(self, w):
        import torch
        if w == 1:
            np.seterr(divide='warn', over='warn', under='ignore', invalid='warn')
            np.set_printoptions(precision=8)
            torch.set_grad_enabled(True)
        elif w == 2:
            np.seterr(all='ignore')
            np.set_printoptions(precision=3)
            np.random.seed(5)
            random.seed(5)
            torch.manual_seed(5)
            torch.set_grad_enabled(True)
        else:
            np.seterr(divide='warn', over='ignore', under='warn', invalid='ignore')
            np.random.seed(11)
            torch.set_grad_enabled(False)
        self.now = w
        self.snap = self.observe()

    def observe(self):
        import sys
        import torch
        s = [sorted(np.geterr().items()), hashlib.sha1(repr(np.random.get_state()).encode()).hexdigest(),
             hashlib.sha1(np.random.get_state()[1].tobytes()).hexdigest(),
             hashlib.sha1(repr(random.getstate()).encode()).hexdigest(),
             hashlib.sha1(torch.get_rng_state().numpy().tobytes()).hexdigest(),
             torch.is_grad_enabled(), str(torch.get_default_dtype()), np.get_printoptions()['precision'],
             os.getcwd(), np.geterrcall() is None]
        if 'jax' in sys.modules:
            s.append(bool(sys.modules['jax'].config.jax_enable_x64))
        return repr(s)

    def current(self):
        return self.now if self.observe() == self.snap else 0


def bad_construct(f, why):
    kw = pfront.kwargs(f['k'], f['cf'])
    if why == 'shape':
        kw['shape'] = 'abc'
    elif why == 'order':
        kw['backend'] = 'bogus'
    elif f['k'] in ('1d', 'tf'):
        kw['T'] = f['cf']['N'] * 10
    elif f['k'] == '2d':
        kw['J'] = 20
    else:
        kw['backend'] = front
    front.cls(f['k'], f['fe'])(**kw)


def bad_call(f, S, t, why):
    if why == 'length':
        t = t[..., :-1]
        if f['fe'] == 'torch':
            t = t.contiguous()
    elif why == 'none':
        t = None
    elif why == 'scalar':
        t = front.tensor(f['fe'] if f['fe'] != 'sklearn' else 'numpy', np.array(1., dtype=f['dt']))
    else:
        t = 'not an array'
    return invoke(f, S, t)


def history(case, plan, seed):
    cfgs, nslots, ninputs, refs = case['cfgs'], case['slots'], case['inputs'], case['refs']
    world = World()
    slot = [None] * nslots          # (cfg, object)
    prints = [None] * nslots
    pprints = [None] * nslots
    ver = [1] * ninputs
    inputs, inhash = {}, {}         # (cfg, x) -> tensor
    results, rhash = [], []
    obs = []

    def get_input(fi, x):
        if (fi, x) not in inputs:
            f = cfgs[fi - 1]
            inputs[fi, x] = as_input(f, content(f, seed, x, ver[x - 1]))
            inhash[fi, x] = digest(inputs[fi, x])
        return inputs[fi, x]

    for h in plan['hist']:
        o = h['o']
        op = o['op']
        e = dict(o=o, exc='', key=dict(cfg=0, mo=0, ot='', x=0, v=0), err=0, note='')
        obs.append(e)
        try:
            if op == 'new':
                S = construct(cfgs[o['cfg'] - 1])
                slot[o['s'] - 1] = (o['cfg'], S)
                prints[o['s'] - 1] = filters_print(cfgs[o['cfg'] - 1], S)
                pprints[o['s'] - 1] = params_print(S)
            elif op == 'newbad':
                bad_construct(cfgs[o['cfg'] - 1], o['why'])
            elif op == 'copy':
                fi, S = slot[o['s'] - 1]
                slot[o['to'] - 1] = (fi, COPY[o['how']](S))
                prints[o['to'] - 1] = prints[o['s'] - 1]
                pprints[o['to'] - 1] = pprints[o['s'] - 1]
            elif op == 'drop':
                slot[o['s'] - 1] = None
            elif op == 'order':
                slot[o['s'] - 1][1].max_order = o['to']
            elif op == 'out':
                slot[o['s'] - 1][1].out_type = o['to']
            elif op == 'world':
                world.set(o['to'])
            elif op == 'editin':
                x = o['x']
                ver[x - 1] += 1
                for (fi, xx) in list(inputs):
                    if xx != x:
                        continue
                    f = cfgs[fi - 1]
                    new = as_input(f, content(f, seed, x, ver[x - 1]))
                    if f['fe'] in ('tensorflow', 'jax'):
                        inputs[fi, x] = new
                    else:
                        inputs[fi, x][...] = new
                    inhash[fi, x] = digest(inputs[fi, x])
            elif op == 'editres':
                r = results[o['r'] - 1]
                for v in pfront.leaves(r)[1]:
                    v[...] = 123.
                if isinstance(r, list):
                    for d in r:
                        d.clear()
                elif isinstance(r, dict):
                    r.clear()
                results[o['r'] - 1] = None
            elif op == 'attrs':
                fi, S = slot[o['s'] - 1]
                params_print(S)
                str(S), repr(S)
                for nm in dir(type(S)):
                    if not nm.startswith('_'):
                        try:
                            getattr(S, nm)
                        except Exception:
                            pass
                if not all(hasattr(S, p) for p in ('J',)):
                    raise AttributeError('J')
            elif op in ('meta', 'size'):
                fi, S = slot[o['s'] - 1]
                e['key'] = h['key']
                got = query(cfgs[fi - 1], S, op)
                m = S.meta() if cfgs[fi - 1]['k'] in ('1d', 'tf') else {}
                for v in m.values():        # the caller owns what meta() returned
                    if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype != object:
                        v[...] = 7
                    elif isinstance(v, list):
                        v.clear()
                ref = refs[repr(sorted(h['key'].items()))]
                if ref[0] != 'ok':
                    raise RuntimeError('reference raised ' + ref[1])
                e['err'] = 0 if got == ref[1][0 if op == 'meta' else 1] else 10 ** 9
            elif op == 'badcall':
                fi, S = slot[o['s'] - 1]
                bad_call(cfgs[fi - 1], S, get_input(fi, 1), o['why'])
            elif op == 'call':
                fi, S = slot[o['s'] - 1]
                f = cfgs[fi - 1]
                res = invoke(f, S, get_input(fi, o['x']))
                e['key'] = h['key']
                ref = refs[repr(sorted(h['key'].items()))]
                if ref[0] == 'ok':
                    ks, vs = pfront.leaves(res)
                    e['err'] = quant(distance((ks, [front.to_np(v) for v in vs]), ref[1]), TOL)
                else:
                    e['err'] = 10 ** 9
                results.append(res)
                rhash.append(digest_result(res))
        except Exception as ex:
            e['exc'], e['note'] = excname(ex), str(ex)[:160]
        # everything that must not have changed
        par = []
        fok = True
        for q in range(nslots):
            if slot[q] is None:
                par.append(dict(cfg=0, mo=0, ot=''))
                continue
            fi, S = slot[q]
            f = cfgs[fi - 1]
            par.append(dict(cfg=fi, mo=int(getattr(S, 'max_order', 2)) if f['k'] != 'tf' else 2,
                            ot=str(getattr(S, 'out_type', 'array')) if f['k'] != '3d' else 'array'))
            fok = fok and filters_print(f, S) == prints[q] and params_print(S) == pprints[q]
        e['params'] = par
        e['filters'] = bool(fok)
        e['inputs'] = all(digest(inputs[k]) == inhash[k] for k in inputs)
        e['kept'] = all(r is None or digest_result(r) == d for r, d in zip(results, rhash))
        e['world'] = world.current()
    return obs


LOADED = []


def load(fes):
    import importlib
    import warnings
    warnings.simplefilter('ignore')
    import torch  # noqa: F401
    for fe in fes:
        importlib.import_module('kymatio.' + fe)
        if fe == 'jax':
            importlib.import_module('jax')


def observe(arg):
    case, plan, seed = arg
    load(sorted({f['fe'] for f in case['cfgs']}))
    keys = {}
    for h in plan['hist']:
        if h['outcome'] in ('result', 'query'):
            keys[repr(sorted(h['key'].items()))] = h['key']
    refs = {}
    for r, key in keys.items():
        refs[r] = forked(reference, case['cfgs'][key['cfg'] - 1], key, seed)
    case = dict(case, refs=refs)
    res = forked(history, case, plan, seed)
    if res[0] != 'ok':
        if res[1] == 'Dead':
            return {'dead': 'Dead'}
        raise RuntimeError(res[2])
    return res[1]


def corrupt(traces):
    res = []
    for t in traces:
        i = next((k for k, e in enumerate(t['obs']) if e['o']['op'] == 'call' and not e['exc']), None)
        if i is None:
            continue

        def c(f, clause):
            u = copy.deepcopy(t)
            f(u['obs'])
            res.append((u, clause))
        c(lambda u: u[i].update(err=1001), 'C13.Result')
        c(lambda u: u[i].update(exc='X'), 'C13.CallSucceeds')
        c(lambda u: u[i].update(kept=False), 'C13.Earlier')
        c(lambda u: u[i].update(inputs=False), 'C13.Inputs')
        c(lambda u: u[i].update(filters=False), 'C13.Filters')
        c(lambda u: u[i].update(world=0), 'C13.Global')
        c(lambda u: u[i]['params'][0].update(mo=7), 'C13.ParametersOfObjects')
        c(lambda u: u[i]['key'].update(v=9), 'C13.Key')
        c(lambda u: u.pop(), 'C13.Behaviour')
        break
    return res


def make_case(ctx, q):
    rng = ctx.rng
    mixes = [('numpy',), ('torch',), ('numpy', 'torch'), ('numpy', 'sklearn'), ('numpy', 'tensorflow'), ('numpy', 'jax'),
             ('torch', 'tensorflow', 'jax')]
    fes = mixes[q % len(mixes)]
    cfgs = []
    for i in range(3):
        kind = rng.choice(['1d', '1d', '1d', 'tf', '2d', '3d']) if i else ['1d', 'tf', '2d', '3d', '1d'][(q + q // 7) % 5]
        cf = pfront.sample(rng, kind)
        if kind == '1d' and cfgs and cfgs[0]['k'] == '1d' and rng.random() < .5:
            # same lengths and scales, different wavelets: shared state would be confused
            cf = dict(cfgs[0]['cf'], Q=rng.choice([(1, 1), (2, 1), (3, 1)]), mo=rng.choice([1, 2]))
        cfgs.append(dict(k=kind, cf=cf, fe=fes[i % len(fes)]))
    return cfgs


def run(ctx):
    ctx.mc('MC_History', MC % ctx.n(6, 9), must_cover=ACTIONS, workers=6, timeout=3000)
    n = ctx.n(56, 400)
    cases = []
    for q in range(n):
        raw = make_case(ctx, q)
        cases.append(raw)
    # let the time-frequency specification settle acceptance
    flat = [(f['k'], f['cf'], f['fe']) for raw in cases for f in raw]
    settled = {id(c[1]) for c in pfront.settle_tf(ctx, flat)}
    gcases, full = [], []
    for raw in cases:
        raw = [f for f in raw if id(f['cf']) in settled]
        if not raw:
            continue
        for f in raw:
            kinds = {'3d': ['array'], '2d': ['array', 'list']}.get(f['k'], ['array', 'list', 'dict'])
            ok = pfront.outs(f['k'], f['cf'])
            if f['fe'] == 'sklearn' and 'array' not in ok:
                f['fe'] = 'numpy'
            f['ot'] = ctx.rng.choice(ok)
            if f['fe'] == 'sklearn':
                f['ot'] = 'array'
            f['mo'] = 2 if f['k'] == 'tf' else ctx.rng.choice([1, 2])
            f['dt'] = np.float64 if f['fe'] in ('numpy', 'sklearn') and ctx.rng.random() < .7 else np.float32
            f['g'] = dict(kind=f['k'] if f['fe'] != 'sklearn' else 'sk' + f['k'],
                          t0=bool(f['k'] in ('1d', 'tf') and f['cf']['Tk'] == 'zero'),
                          stack=bool(not (f['k'] == 'tf' and f['cf']['fmt'] == 'joint') or f['cf']['stackable']),
                          mo=f['mo'], ot=f['ot'], free=f['k'] != 'tf',
                          writable=f['fe'] in ('numpy', 'sklearn', 'torch'))
            f['g']['kind'] = f['k']
            f['g']['sk'] = f['fe'] == 'sklearn'
            f['g']['copies'] = True
        g = dict(cfgs=[f['g'] for f in raw], slots=3, inputs=2, steps=ctx.n(30, 60))
        gcases.append(g)
        full.append(dict(cfgs=raw, slots=3, inputs=2))
    plans = ctx.generate('Gen_History', GEN, gcases, workers=1, extra=['-seed', str(ctx.seed)])
    seeds = [ctx.rng.randrange(2 ** 31 - 10) for _ in full]
    obs = core.pmap(observe, list(zip(full, plans, seeds)), procs=8, timeout=740 if ctx.quick else 7000)
    dead = [i for i, o in enumerate(obs) if isinstance(o, dict)]
    for i in dead:
        ctx.fail(dict(case=full[i], input_seed=seeds[i]), ['C13.Survives'])
    keep = [i for i in range(len(obs)) if i not in dead]
    traces = [dict(cfg=gcases[i], obs=obs[i]) for i in keep]
    labels, worst, ops = [], 0, {}
    for i in keep:
        bad = []
        for k, (e, h) in enumerate(zip(obs[i], plans[i]['hist'])):
            ops[e['o']['op']] = ops.get(e['o']['op'], 0) + 1
            if h['outcome'] in ('result', 'query'):
                worst = max(worst, e['err'])
            if e['err'] > 1000 or (e['exc'] != '') != (h['outcome'] == 'raises') or not (
                    e['filters'] and e['inputs'] and e['kept'] and e['world']):
                bad.append((k, {q: e[q] for q in e if q not in ('params', 'key')}))
            ctx.count(dict(i=i, s=ctx.seed, k=k), nontrivial=e['o']['op'] in ('call', 'meta', 'size'))
        labels.append(dict(cfgs=[(f['k'], f['fe'], f['ot'], f['mo'], f['cf']) for f in full[i]['cfgs']],
                           input_seed=seeds[i], bad=bad[:3], ops=[h['o'] for h in plans[i]['hist']][:(bad[0][0] + 1 if bad else 3)]))
    ctx.notes['operations'] = ops
    ctx.notes['worst_error_of_1000'] = worst
    ctx.validate('Trace_History', TRACE, traces, labels, clauses='C13', selfcheck=corrupt(traces))
    ctx.sample([h['o'] for h in plans[0]['hist']])
    return ctx.finish('model_checking',
                      'random behaviours of the history machine (up to three objects, two inputs, edits of inputs and '
                      'results, failing constructions and calls, copies, metadata queries, global settings) replayed in one '
                      'process; every result compared with a fresh object in a fresh process',
                      ['filters are observed through the documented filter attributes and, in PyTorch, the state_dict',
                       'comparison tolerance 1e-6 of the largest coefficient (observed: bitwise equal)'])
