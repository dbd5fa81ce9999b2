"""C16: what is accepted and what is refused, with which kind of exception."""
import importlib
import itertools
import warnings

import numpy as np

from . import core, front, pfront
from .core import excname

MC = """SPECIFICATION Spec
INVARIANTS InvNoResult InvAccepts InvAgree InvKinds
"""
GEN = TRACE = "SPECIFICATION Spec\n"
ACTIONS = ('Construct', 'RefuseArgs', 'Call', 'RefuseCall')


# -- argument values ------------------------------------------------------
def V(t, v=0, s='', items=()):
    return dict(t=t, v=v, s=s, items=list(items))


NONE = V('none')


def I(n):
    return V('int', 1000 * n)


def NP(n):
    return V('npint', 1000 * n)


def F(x):
    return V('float', int(round(1000 * x)))


def S(s):
    return V('str', s=s)


def T(*a):
    return V('tuple', items=a)


def L(*a):
    return V('list', items=a)


def arg(x):
    t = x['t']
    if t == 'none':
        return None
    if t == 'int':
        return x['v'] // 1000
    if t == 'npint':
        return np.int64(x['v'] // 1000)
    if t == 'float':
        return x['v'] / 1000
    if t == 'str':
        return x['s']
    return tuple(x['items']) if t == 'tuple' else list(x['items'])


# -- attempts -------------------------------------------------------------
INPUTS = ['good', 'batch', 'none', 'list', 'str', 'float', 'scalar', 'short', 'long', 'long1', 'one', 'foreign', 'int', 'bool', 'complex', 'empty']
SIZES = ['tall', 'tall1', 'low1', 'big', 'big1']


def base(rng, kind, Q=None):
    k = dict(kind=kind, J=1, dims=[1], shape=NONE, Q=I(1), T=NONE, stride=NONE, ov=I(0), mo=2, ot='array', Jf=1, Qf=I(1),
             F=NONE, sf=NONE, fmt='time', L=1, pp=False, method='integral', backend='default', entry='class', set='', inp='good')
    dom = dict(backend=['default', 'own', 'other', 'unknown', 'ownobj', 'otherobj'],
               entry=['class', 'generic', 'upper', 'unknown', 'absent'],
               mo=[1, 2])
    if kind in ('1d', 'tf'):
        J = k['J'] = rng.choice([1, 2, 2, 3])
        N = rng.choice([2 ** J, 2 ** J + 1, rng.randint(2 ** J, 40), rng.randint(2 ** J, 40)])
        k.update(dims=[N], shape=I(N), Q=Q or rng.choice([I(1), I(2), T(3), T(2, 1), T(1, 2)] + [T(1, 4)] * (J < 3)))
        Tv = rng.choice([None, None, 1, N, rng.randint(1, N), 0, 'global'])
        k['T'] = NONE if Tv is None else S(Tv) if Tv == 'global' else I(Tv)
        if Tv not in (0, 'global'):
            top = int(np.floor(np.log2(2 ** J if Tv is None else Tv)))
            k['stride'] = rng.choice([NONE, I(2 ** rng.randint(0, top))])
        if Tv == 0:
            k['ot'] = 'list'
        dom.update(
            shape=[I(N), NP(N), T(N), T(N, N), T(N, 1), T(), L(N), F(N), NONE, S('N')],
            Q=[I(1), I(3), T(2), T(2, 1), T(1, 2), I(0), I(-1), F(1.5), F(.5), T(), T(0), T(0, 1), T(1, 0), T(2, 1, 1), T(0, 1, 1), L(1), L(0), L(2, 1)],
            T=[NONE, I(0), S('global'), I(1), I(N), NP(N), F(N), F(N - .5) if N > 1 else I(1), F(1.5), I(N + 1), F(N + .5), F(N + .001),
               I(10 * N), F(.5), F(.999), F(.001), I(-1), F(-.5), S('local'), S('Global')],
            stride=[NONE, I(1), I(2), NP(2), I(4), I(2 ** J), I(3), I(6), I(0), I(-1), I(-2), F(1), F(2), F(2.5), F(.5), S('2'), T(2)],
            ot=['array', 'list', 'dict', 'tensor', '', 'Array'], set=['', 'array', 'list', 'dict', 'tuple', 'matrix'],
            inp=INPUTS)
        if kind == '1d':
            dom['ov'] = [I(0), I(1), I(2), I(9), I(-1), F(.5), F(1), F(-.5), F(0)]
        else:
            dom.pop('mo')
            Jf = k['Jf'] = rng.choice([1, 2])
            Nf = (J + 1) * (k['Q']['items'][0] if k['Q']['t'] == 'tuple' else k['Q']['v'] // 1000)
            k['fmt'] = rng.choice(['time', 'joint']) if k['ot'] == 'list' else 'time'
            dom.update(
                Qf=[I(1), I(2), T(2), T(1, 1), T(), L(1), F(1.5), I(0), I(-1), T(0), F(.5)],
                F=[NONE, I(0), S('global'), I(1), I(Nf), F(Nf), F(1.5), I(Nf + 1), F(Nf + .5), F(.5), I(-1), S('all')],
                sf=[NONE, I(1), I(2), NP(1), I(2 ** Jf), I(3), I(0), I(-4), F(1), F(2.5), S('1')],
                fmt=['time', 'joint', 'TIME', '', 'frequency'])
    elif kind == '2d':
        J = k['J'] = rng.choice([1, 1, 2, 3])
        M, N = [rng.choice([2 ** J, 2 ** J + 1, rng.randint(2 ** J, 3 * 2 ** J)]) for _ in 'ab']
        k.update(dims=[M, N], shape=T(M, N), L=rng.choice([1, 2]), pp=rng.random() < .3)
        dom.update(J=[1, 2, 3, 4, 5], shape=[T(M, N), L(M, N), T(M), T(M, N, 1), I(M), NONE],
                   ot=['array', 'list', 'dict', '', 'tensor'], set=['', 'array', 'list', 'dict', 'foo'],
                   inp=INPUTS + SIZES + ['fewdims', 'swapped', 'otherpad'])
    else:
        dims = [rng.randint(2, 5) for _ in 'abc']
        k.update(J=rng.choice([0, 1]), dims=dims, shape=T(*dims), L=rng.choice([0, 1]))
        dom.update(shape=[T(*dims), L(*dims), T(*dims[:2]), T(*dims, 1), I(4)], method=['integral', 'local', 'standard'],
                   inp=INPUTS + SIZES + ['fewdims', 'swapped'])
    if len(k['dims']) > 1 and k['dims'] == k['dims'][::-1] and 'swapped' in dom['inp']:
        dom['inp'].remove('swapped')
    return k, {f: v for f, v in dom.items()}


def fes(k):
    out = ['numpy', 'torch', 'tensorflow', 'jax', 'sklearn']
    plain = (k['backend'] == 'default' and k['entry'] != 'unknown' and k['ot'] == 'array' and not k['set'] and k['inp'] == 'batch')
    if k['kind'] == '1d' and plain and k['stride'] == NONE and k['shape'] == I(k['dims'][0]):
        out.append('keras')
    if k['kind'] == '2d' and plain and not k['pp'] and k['shape'] == T(*k['dims']):
        out.append('keras')
    return out


def backend(kind, fe, how):
    d = {'1d': '1d', 'tf': '1d', '2d': '2d', '3d': '3d'}[kind]
    own = 'numpy' if fe == 'sklearn' else fe
    other = 'torch' if own != 'torch' else 'numpy'
    if how in ('own', 'other'):
        return own if how == 'own' else other
    if how == 'unknown':
        return own + '_unknown'
    n = own if how == 'ownobj' else other
    return importlib.import_module('kymatio.scattering%s.backend.%s_backend' % (d, n)).backend


def build(k, fe):
    kind = k['kind']
    if kind == '1d':
        kw = dict(J=k['J'], shape=arg(k['shape']), Q=arg(k['Q']), T=arg(k['T']), stride=arg(k['stride']), max_order=k['mo'],
                  oversampling=arg(k['ov']), out_type=k['ot'])
        if fe == 'keras':
            for f in ('shape', 'stride', 'out_type'):
                kw.pop(f)
    elif kind == 'tf':
        kw = dict(J=k['J'], J_fr=k['Jf'], shape=arg(k['shape']), Q=arg(k['Q']), T=arg(k['T']), stride=arg(k['stride']),
                  Q_fr=arg(k['Qf']), F=arg(k['F']), stride_fr=arg(k['sf']), out_type=k['ot'], format=k['fmt'])
    elif kind == '2d':
        kw = dict(J=k['J'], shape=arg(k['shape']), L=k['L'], max_order=k['mo'], pre_pad=k['pp'], out_type=k['ot'])
        if fe == 'keras':
            for f in ('shape', 'out_type'):
                kw.pop(f)
    else:
        kw = dict(J=k['J'], shape=arg(k['shape']), L=k['L'], max_order=k['mo'], method=k['method'])
    if k['backend'] != 'default':
        kw['backend'] = backend(kind, fe, k['backend'])
    if k['entry'] == 'class':
        return front.cls(kind, fe)(**kw)
    import kymatio
    if k['entry'] == 'absent' and fe == 'numpy':
        return getattr(kymatio, front.CLS[kind])(**kw)
    name = {'generic': fe, 'absent': fe, 'upper': fe.upper(), 'unknown': 'matlab'}[k['entry']]
    return getattr(kymatio, front.CLS[kind])(frontend=name, **kw)


def padded(k):
    s = 2 ** k['J']
    return [((n + s) // s + 1) * s for n in k['dims']]


def make(k, fe, seed):
    rng = np.random.RandomState(seed)
    dims = padded(k) if k['pp'] else list(k['dims'])
    c = k['inp']
    if c == 'short':
        dims[-1] -= 1
    elif c == 'long':
        dims[-1] *= 2
    elif c == 'long1':
        dims[-1] += 1
    elif c == 'one':
        dims[-1] = 1
    elif c in ('tall', 'tall1', 'low1'):
        dims[0] = dims[0] * 2 if c == 'tall' else dims[0] + (1 if c == 'tall1' else -1)
    elif c in ('big', 'big1'):
        dims = [2 * n if c == 'big' else n + 1 for n in dims]
    elif c == 'fewdims':
        dims = dims[1:]
    elif c == 'swapped':
        dims = dims[::-1]
    elif c == 'otherpad':
        dims = k['dims'] if k['pp'] else padded(k)
    elif c == 'scalar':
        dims = []
    elif c == 'batch':
        dims = [2] + dims
    elif c == 'empty':
        dims = [0] + dims
    x = np.asarray(rng.standard_normal(dims), dtype=np.float32)
    if c in ('int', 'bool', 'complex'):
        x = (3 * x).astype(dict(int='int32', bool='bool', complex='complex64')[c])
    if c == 'none':
        return None
    if c == 'list':
        return x.tolist()
    if c == 'str':
        return 'signal'
    if c == 'float':
        return 1.5
    if c == 'foreign':
        return x if fe == 'torch' else front.tensor('torch', x)
    if fe == 'sklearn':
        n = 1 if c == 'batch' else 0
        return x.reshape(x.shape[:n] + (-1,)) if x.ndim else x
    return front.tensor(fe if fe != 'keras' else 'tensorflow', x)


def mro(e):
    return [c.__name__ for c in type(e).__mro__]


def attempt(a):
    k, fe, seed = a
    warnings.simplefilter('ignore')
    o = dict(stage='construct', mro=[], res=True, msg='')
    try:
        Sc = build(k, fe)
    except Exception as e:      # judged by the trace specification
        o.update(mro=mro(e), msg=excname(e) + ': ' + str(e)[:150])
        return o
    o['stage'] = 'call'
    try:
        if k['set']:
            Sc.out_type = k['set']
        x = make(k, fe, seed)
        if fe == 'sklearn':
            r = Sc.transform(x)
        elif fe == 'keras' or seed % 2:
            r = Sc(x)
        else:
            r = Sc.scattering(x)
    except Exception as e:
        o.update(mro=mro(e), msg=excname(e) + ': ' + str(e)[:150])
        return o
    o['stage'] = 'result'
    vs = [front.to_np(v) for v in pfront.leaves(r)[1]]
    o['res'] = len(vs) > 0 and all(np.all(np.isfinite(v)) and (v.size > 0 or k['inp'] == 'empty') for v in vs)
    if k['inp'] == 'empty':
        o['res'] = o['res'] and all(v.ndim > 1 and v.shape[0] == 0 and all(v.shape[1:]) for v in vs)
    if k['inp'] == 'batch':
        o['res'] = o['res'] and all(v.shape[0] == 2 for v in vs)
    return o


def session(a):
    k, seed = a
    return {f: attempt((k, f, seed)) for f in fes(k)}


# Strides above the averaging scale (see known-findings.json): the cases as found.
PROBES = [
    ('stride-above-T-1', '1d', dict(J=4, dims=[67], shape=I(67), Q=I(1), T=I(1), stride=I(2))),
    ('stride-above-T-2', '1d', dict(J=1, dims=[67], shape=I(67), Q=I(1), T=NONE, stride=I(4))),
    ('stride-fr-above-F', 'tf', dict(J=3, Jf=3, dims=[67], shape=I(67), Q=I(1), T=NONE, F=I(1), sf=I(2))),
]


def corrupt(traces, plans):
    import copy
    res = []
    acc = next((t for t, d in zip(traces, plans) if d['d'] == 'accept' and t['obs']['stage'] == 'result'), None)
    rej = next((t for t, d in zip(traces, plans) if d['d'] == 'reject' and 'any' not in d['kinds'] and t['obs']['stage'] == 'call'), None)
    ear = next((t for t, d in zip(traces, plans) if d['d'] == 'reject' and 'any' not in d['kinds'] and t['obs']['stage'] == 'construct'), None)

    def c(t, clause, **kw):
        if t is not None:
            u = copy.deepcopy(t)
            u['obs'].update(kw)
            res.append((u, clause))
    c(acc, 'C16.Accepts', stage='call', mro=['ValueError'])
    c(acc, 'C16.Accepts', stage='construct', mro=['ValueError'])
    c(acc, 'C16.Result', res=False)
    c(rej, 'C16.Rejects', stage='result')
    c(ear, 'C16.Rejects', stage='result')
    c(rej, 'C16.Kind', mro=['IndexError'])
    c(ear, 'C16.Kind', mro=['IndexError'])
    return res


def run(ctx):
    ctx.mc('MC_Validate', MC, must_cover=ACTIONS, workers=6)
    rng = ctx.rng
    cases = []
    for kind in ('1d', 'tf', '2d', '3d'):
        # every value of every argument on its own, over a valid base
        for _ in range(ctx.n(1, 12)):
            k, dom = base(rng, kind)
            for f in dom:
                for j in range(len(dom[f])):
                    k2, dom2 = (k, dom) if ctx.quick else base(rng, kind)
                    if f not in dom2 or j >= len(dom2[f]):
                        continue
                    cases.append(dict(base=dict(k2, inp='batch') if rng.random() < .3 else k2, dom=dom2, over=[[f, j + 1]]))
        if kind == '2d':
            # every input, padded by the caller or not
            k, dom = base(rng, kind)
            cases += [dict(base=dict(k, pp=not cases[-1]['base']['pp']), dom=dom, over=[['inp', j + 1]]) for j in range(len(dom['inp']))]
            # image sizes around the largest scale, independently on both axes
            for J in (1, 2, 3):
                sizes = [2 ** J - 1, 2 ** J, 2 ** J + 1, 2 ** J + rng.randint(2, 2 ** J + 1), 2 ** (J + 1)]
                for M in sizes:
                    for N in sizes:
                        k, dom = base(rng, kind)
                        k.update(J=J, dims=[M, N], shape=T(M, N), inp=rng.choice(['good', 'batch']), pp=False)
                        cases.append(dict(base=k, dom=dom, over=[]))
        if kind == 'tf':
            # the largest frequency support for each kind of quality factor
            for Q in [I(1), I(3), T(2), T(2, 1), T(1, 2), T(3, 2)]:
                k, dom = base(rng, kind, Q)
                k.update(inp=rng.choice(['good', 'batch']))
                for j, F_ in enumerate(dom['F']):
                    if F_['t'] in ('int', 'float') and (F_['v'] > 2000):
                        cases.append(dict(base=k, dom=dom, over=[['F', j + 1]]))
        # pairs of arguments that exclude each other
        k, dom = base(rng, kind)

        def pair(fields, *values):
            pos = [[j + 1 for j, v in enumerate(dom[f]) if v in vs] for f, vs in zip(fields, values)]
            for js in itertools.product(*pos):
                b = dict(k, inp=rng.choice(['good', 'batch']))
                if not {'T', 'stride'} & set(fields):
                    b.update(T=NONE, stride=NONE)
                if not {'F', 'sf'} & set(fields):
                    b.update(F=NONE, sf=NONE)
                cases.append(dict(base=b, dom=dom, over=[[f, j] for f, j in zip(fields, js)]))
        avg = [NONE, I(0), S('global'), I(1)]
        if kind in ('1d', 'tf'):
            pair(['T', 'stride'], avg, [NONE, I(1)])
            pair(['T', 'ot', 'set'], avg[:3], ['array', 'list', 'dict'], ['', 'array', 'dict'])
        if kind == '1d':
            pair(['T', 'ov', 'stride'], avg[:3], [I(0), I(1), I(2)], [NONE, I(1), I(2)])
        if kind == 'tf':
            pair(['F', 'sf'], avg, [NONE, I(1)])
            pair(['F', 'fmt', 'ot', 'set'], avg[:3], ['time', 'joint'], ['array', 'list'], ['', 'array', 'dict'])
        # combinations
        for _ in range(ctx.n(110, 2500)):
            k, dom = base(rng, kind)
            fs = rng.sample(sorted(dom), rng.choice([0, 2, 2, 3, 4]))
            cases.append(dict(base=dict(k, inp=rng.choice(['good', 'batch'])), dom=dom, over=[[f, 0] for f in fs]))
    plans = ctx.generate('Gen_Validate', GEN, cases, workers=1, extra=['-seed', str(ctx.seed)], timeout=3000)
    ks = [p['k'] for p in plans]
    seeds = [rng.randrange(2 ** 31 - 10) for _ in ks]
    obs = core.pmap(session, list(zip(ks, seeds)), procs=8, timeout=ctx.n(600, 12000))
    traces, labels, ds, tally, reasons = [], [], [], {}, {}
    for p, s, ob in zip(plans, seeds, obs):
        if 'dead' in ob:
            ctx.fail(dict(attempt=p['k'], seed=s), ['C16.Survives'])
            continue
        for f, o in ob.items():
            d = p['fes'][f]
            tally[d['d'] + '/' + o['stage']] = tally.get(d['d'] + '/' + o['stage'], 0) + 1
            if len(d['why']) == 1:
                reasons[d['why'][0]] = reasons.get(d['why'][0], 0) + 1
            ctx.count(dict(k=p['k'], f=f), nontrivial=d['d'] != 'open')
            traces.append(dict(k=p['k'], fe=f, obs={q: v for q, v in o.items() if q != 'msg'}))
            labels.append(dict(attempt=p['k'], frontend=f, seed=s, expected=d, stage=o['stage'], msg=o['msg']))
            ds.append(d)
    ctx.notes['decisions'] = tally
    ctx.notes['single_reasons'] = reasons
    ctx.validate('Trace_Validate', TRACE, traces, labels, clauses='C16', selfcheck=corrupt(traces, ds), timeout=3000)
    for name, kind, ch in PROBES:
        k, _ = base(rng, kind)
        k.update(T=NONE, stride=NONE, ot='list' if kind == 'tf' else 'array', fmt='time')
        k.update(ch)
        o = attempt((k, 'numpy', 0))
        if o['stage'] != 'result':
            ctx.fail(dict(attempt=k, frontend='numpy', msg=o['msg'], known_case=name), ['C16.Accepts'])
    ctx.sample(dict(attempt=ks[0], decision=plans[0]['fes']['numpy']))
    return ctx.finish('model_checking',
                      'every boundary value of every argument and input class over valid bases, and random combinations, tried '
                      'on every frontend; the machine says for each whether it is refused and with which kinds of exception',
                      ['strides above the averaging scale, arrays of other frameworks and joint arrays are left open',
                       'second-order Q above first-order Q only where the constructor\'s own aliasing check can pass'])
