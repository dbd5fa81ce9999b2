"""C18: Keras layers and scikit-learn transformers in the hands of their hosts."""
import copy
import json
import os
import pickle
import shutil
import tempfile

import numpy as np

from . import core, front

MC = """SPECIFICATION Spec
CONSTANT Depth = %d
INVARIANTS InvValid InvBuilt
PROPERTY ActOthers
"""
GEN = TRACE = "SPECIFICATION Spec\n"


def Q(v):
    return (v // 100, v % 100) if v >= 100 else v


def opt(v):
    return None if v == -1 else 'global' if v == -2 else v


def kwargs(kind, p, host):
    """Constructor arguments; keras layers take no shape."""
    if kind == '1d':
        kw = dict(J=p['J'], Q=Q(p['Q']), T=opt(p['T']), max_order=p['mo'], oversampling=p['ov'])
        if host != 'keras':
            kw.update(shape=p['N'], stride=opt(p['stride']))
    elif kind == 'tf':
        kw = dict(J=p['J'], J_fr=p['Jf'], shape=p['N'], Q=Q(p['Q']), T=opt(p['T']), Q_fr=p['Qf'], F=opt(p['F']), format='time')
    elif kind == '2d':
        kw = dict(J=p['J'], L=p['L'], max_order=p['mo'], pre_pad=bool(p['pp']))
        if host != 'keras':
            kw['shape'] = (p['M'], p['N'])
    else:
        kw = dict(J=p['J'], shape=(p['M'], p['N'], p['O']), L=p['L'], max_order=p['mo'], rotation_covariant=bool(p['rc']))
    return kw


ARG = {'mo': 'max_order', 'ov': 'oversampling', 'Jf': 'J_fr', 'Qf': 'Q_fr', 'N': 'shape', 'pp': 'pre_pad', 'rc': 'rotation_covariant'}


def arg(kind, field, val):
    name = ARG.get(field, field)
    if field == 'Q':
        return name, Q(val)
    if field in ('pp', 'rc'):
        return name, bool(val)
    if field in ('T', 'F', 'stride'):
        return name, opt(val)
    return name, val


def padto(m, J):
    return ((m + 2 ** J) // 2 ** J + 1) * 2 ** J


def dims(kind, p):
    if kind in ('1d', 'tf'):
        return (p['N'],)
    if kind == '2d':
        return (padto(p['M'], p['J']), padto(p['N'], p['J'])) if p['pp'] else (p['M'], p['N'])
    return (p['M'], p['N'], p['O'])


def plain(host, kind, p, x, cache):
    """The plain transform of signals x, of shape (n,) + dims."""
    fe = 'tensorflow' if host == 'keras' else 'numpy'
    key = (fe, kind, json.dumps(p, sort_keys=True))
    if key not in cache:
        cache[key] = front.cls(kind, fe)(**kwargs(kind, p, 'plain'))
    return front.to_np(cache[key](front.tensor(fe, x)))


def unknown(s):
    return [-1 if n is None else int(n) for n in s]


def model(layer, shape):
    import keras
    i = keras.layers.Input(shape=shape)
    return keras.Model(i, layer(i))


def use_keras(layer, u, x, seed):
    """Returns (output, inferred shape)."""
    import keras
    import tensorflow as tf
    form = u['form']
    if form == 'eager':
        r = layer(tf.constant(x))
    elif form == 'call':
        r = layer(x)
    elif form == 'function':
        f = tf.function(lambda v: layer(v), input_signature=[tf.TensorSpec([None] + list(x.shape[1:]), tf.float32)])
        r = f(tf.constant(x))
    else:
        if form == 'model':
            m = model(layer, x.shape[1:])
        else:
            m = keras.Sequential([keras.layers.Input(shape=x.shape[1:]), layer])
        r = m.predict(x, verbose=0) if seed % 3 == 0 else m(x)
        return front.to_np(r), unknown(m.output_shape)
    return front.to_np(r), unknown(r.shape)


def use_sklearn(S, u, x):
    from sklearn.pipeline import Pipeline
    from sklearn.preprocessing import FunctionTransformer
    form = u['form']
    if form == 'pipeline':
        return Pipeline([('s', S), ('f', FunctionTransformer())]).fit(x).transform(x)
    if form == 'pipeline_fit':
        return Pipeline([('f', FunctionTransformer()), ('s', S)]).fit_transform(x, np.zeros(len(x)))
    if form == 'fit_transform':
        return S.fit_transform(x, np.zeros(len(x)))
    return getattr(S, form)(x)


def step(objs, u, seed, cache):
    """Performs u, returns the fields of its observation; appends new objects."""
    o, i = u['o'], u['obj'] - 1
    if o == 'new':
        objs.append((front.cls(u['kind'], u['host'])(**kwargs(u['kind'], u['par'], u['host'])), u['host'], u['kind']))
        return {}
    S, host, kind = objs[i]
    p = u['par']
    rng = np.random.RandomState(seed)
    if o == 'call':
        d = dims(kind, p)
        b = tuple(u['batch'])
        x = rng.standard_normal(b + (u['n'],) + d).astype(np.float32 if host == 'keras' else np.float64)
        flat = x.reshape((-1,) + d)
        ref = plain(host, kind, p, flat, cache)
        if host == 'keras':
            r, sym = use_keras(S, u, x.reshape(b + d), seed)
        else:
            r, sym = use_sklearn(S, u, x.reshape(b + (-1,))), []
        want = ref.reshape(b + ref.shape[1:] if host == 'keras' else b + (-1,))
        r = np.asarray(r)
        return dict(shape=[int(n) for n in r.shape], sym=sym, cs=[int(n) for n in ref.shape[1:]],
                    dev=core.quant(core.relerr(r, want), 1e-3) if r.shape == want.shape else 10 ** 9)
    if o == 'shape':
        d = dims(kind, p)
        ref = plain(host, kind, p, np.zeros((1,) + d, dtype=np.float32), cache)
        s = S.compute_output_shape(tuple(None if n < 0 else n for n in u['batch']) + d)
        s = s.as_list() if hasattr(s, 'as_list') else s
        return dict(shape=unknown(s), cs=[int(n) for n in ref.shape[1:]])
    if o == 'resize':
        d = list(dims(kind, p))
        d[-1] += 1
        S(np.zeros([2] + d, dtype=np.float32))
        return {}
    if o == 'config':
        cfg = S.get_config()
        want = kwargs(kind, p, 'keras')
        objs.append((type(S).from_config(cfg), host, kind))
        return dict(json=bool(json.loads(json.dumps(cfg)) is not None and
                              all(k in cfg and np.array_equal(np.asarray(cfg[k], dtype=object), np.asarray(v, dtype=object)) for k, v in want.items())))
    if o in ('clonemodel', 'save'):
        import keras
        m = model(S, dims(kind, p))
        if o == 'clonemodel':
            m2 = keras.models.clone_model(m)
        else:
            d = tempfile.mkdtemp(prefix='kyverif_host_')
            try:
                f = os.path.join(d, 'm.keras')
                m.save(f)
                m2 = keras.models.load_model(f, custom_objects={type(S).__name__: type(S)})
            finally:
                shutil.rmtree(d, ignore_errors=True)
        objs.append((m2.layers[-1], host, kind))
        return {}
    if o == 'clone':
        from sklearn.base import clone
        T = clone(S)
        objs.append((T, host, kind))
        return dict(json=T is not S and repr(sorted(T.get_params().items(), key=str)) == repr(sorted(S.get_params().items(), key=str)))
    if o == 'copy':
        objs.append((copy.deepcopy(S), host, kind))
        return {}
    if o == 'pickle':
        objs.append((pickle.loads(pickle.dumps(S)), host, kind))
        return {}
    if o == 'setbad':
        S.set_params(wavelength=1)
        return {}
    if o == 'set':
        name, val = arg(kind, u['field'], u['val'])
        if u['form'] == 'alone':
            same = S.set_params(**{name: val}) is S
        else:
            from sklearn.pipeline import Pipeline
            Pipeline([('s', S), ('p', 'passthrough')]).set_params(**{'s__' + name: val})
            same = True
        return dict(json=bool(same and S.get_params()[name] in (val, (val,))))
    raise core.HarnessError(o)


def session(a):
    ops, seed = a
    import tensorflow as tf
    tf.get_logger().setLevel('ERROR')
    objs, out, cache = [], [], {}
    for k, u in enumerate(ops):
        e = dict(stage='ok', mro=[], shape=[], sym=[], cs=[], dev=0, json=True, msg='')
        try:
            e.update(step(objs, u, seed + k, cache))
        except core.HarnessError:
            raise
        except Exception as x:      # judged by the trace specification
            e.update(stage='raise', mro=[c.__name__ for c in type(x).__mro__], msg=core.excname(x) + ': ' + str(x)[:200])
        out.append(e)
        if e['stage'] != 'ok' and u['o'] not in ('set', 'setbad', 'resize'):
            break
    return out


# -- cases ----------------------------------------------------------------
def par(rng, host):
    kind = rng.choice(['1d', '2d']) if host == 'keras' else rng.choice(['1d', '1d', '2d', '2d', '3d', 'tf'])
    if kind == '1d':
        T = rng.choice([-1, -1, -2, 4, 5, 8, 32])
        ov = 0 if T == -2 else rng.choice([0, 0, 1, 2])
        st = -1 if host == 'keras' or T == -2 or ov else rng.choice([-1, -1, 1])
        p = dict(J=rng.choice([2, 3]), Q=rng.choice([1, 2, 3, 201, 301]), T=T, stride=st, mo=rng.choice([1, 2]), ov=ov, N=rng.choice([32, 33, 40, 64]))
    elif kind == 'tf':
        p = dict(J=rng.choice([2, 3]), Jf=rng.choice([1, 2]), Q=rng.choice([1, 2]), T=rng.choice([-1, -1, 4, 16]), Qf=rng.choice([1, 1, 2]),
                 F=rng.choice([-1, -1, 1, 2]), N=rng.choice([32, 33]))
    elif kind == '2d':
        J = rng.choice([1, 2])
        p = dict(J=J, M=rng.randint(4, 11), N=rng.randint(4, 11), L=rng.choice([1, 2, 3]), mo=rng.choice([1, 2]), pp=rng.choice([0, 0, 1]))
    else:
        p = dict(J=rng.choice([0, 1]), M=rng.randint(2, 5), N=rng.randint(2, 5), O=rng.randint(2, 5), L=rng.choice([0, 1, 2]),
                 mo=rng.choice([1, 2]), rc=rng.choice([0, 1]))
    return dict(host=host, kind=kind, par=p)


def corrupt(traces):
    res, seen = [], set()
    for t in traces:
        for i, (u, e) in enumerate(zip(t['ops'], t['obs'])):
            host = next((v['host'] for v in t['ops'] if v['o'] == 'new'), '')
            key = (u['o'], host)
            if key in seen or sum(v['o'] == 'new' for v in t['ops'][:i + 1]) > 1:
                continue
            seen.add(key)

            def c(clause, **kw):
                w = copy.deepcopy(t)
                w['obs'][i].update(kw)
                res.append((w, clause))
            if e['stage'] != 'ok':
                c('C18.Accepts.' + u['o'], stage='ok')
                if u['o'] != 'resize':
                    c('C18.Kind.' + u['o'], mro=['AttributeError'])
                else:
                    seen.discard(key)
                    seen.add(key)
                continue
            c('C18.Runs', stage='raise')
            if u['o'] == 'call':
                c('C18.Shape', shape=e['shape'] + [1])
                c('C18.Value', dev=5000)
                if host == 'keras':
                    c('C18.Symbolic', sym=[v if v < 0 else v + 1 for v in e['sym']])
            if u['o'] == 'shape':
                c('C18.Declared', shape=e['shape'][:-1] + [e['shape'][-1] + 1])
            if u['o'] in ('config', 'clone', 'set'):
                c('C18.Config', json=False)
    return res


def run(ctx):
    ctx.mc('MC_Host', MC % ctx.n(4, 5), must_cover=('New', 'Use', 'Not'), workers=6, timeout=3000)
    rng = ctx.rng
    cases = []
    for i in range(ctx.n(700, 6000)):
        host = rng.choice(['keras', 'sklearn'])
        cases.append(dict(steps=rng.randint(4, ctx.n(9, 14)), news=[par(rng, host if j == 0 else rng.choice(['keras', 'sklearn'])) for j in range(3)]))
    plans = ctx.generate('Gen_Host', GEN, cases, workers=1, extra=['-seed', str(ctx.seed)], timeout=3000)
    seeds = [rng.randrange(2 ** 30) for _ in plans]
    obs = core.pmap(session, [(p['ops'], s) for p, s in zip(plans, seeds)], procs=8, timeout=ctx.n(700, 12000))
    traces, labels, tally = [], [], {}
    for p, s, o in zip(plans, seeds, obs):
        if isinstance(o, dict):
            ctx.fail(dict(ops=p['ops'], seed=s), ['C18.Survives'])
            continue
        for u, e in zip(p['ops'], o):
            key = '%s %s %s' % (u['o'], u['form'], e['stage'])
            tally[key] = tally.get(key, 0) + 1
        ctx.count(dict(ops=p['ops']))
        n = len(o)
        traces.append(dict(ops=p['ops'][:n], obs=[{k: v for k, v in e.items() if k != 'msg'} for e in o]))
        labels.append(dict(ops=p['ops'][:n], seed=s, stages=[e['stage'] + ' ' + e['msg'] for e in o], obs=o))
    ctx.notes['operations'] = dict(sorted(tally.items()))
    ctx.validate('Trace_Host', TRACE, traces, labels, clauses='C18', selfcheck=corrupt(traces), timeout=3000, workers=4)
    ctx.sample(dict(ops=plans[0]['ops']))
    return ctx.finish('model_checking',
                      'histories of host operations on layers and transformers drawn by the machine and replayed; every result compared '
                      'with the plain transform for the arguments which the machine predicts, and with the predicted shapes',
                      ['the plain TensorFlow and NumPy transforms are judged by C01-C12'])
