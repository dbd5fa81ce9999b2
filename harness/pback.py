"""C17: the primitives of every backend against their algebra on exact arrays."""
import copy
import importlib

import numpy as np

from . import core, front

MC = """SPECIFICATION Spec
CONSTANT Depth = %d
INVARIANTS InvForm InvInverse InvDecimate InvConvolve InvParseval InvPad InvSwap InvMenu
"""
GEN = TRACE = "SPECIFICATION Spec\n"
FWS = ('numpy', 'torch', 'tensorflow', 'jax')


def backend(d, fw):
    return importlib.import_module('kymatio.scattering%dd.backend.%s_backend' % (d, fw)).backend


# -- arrays ---------------------------------------------------------------
def pack(fw, kind, shape, re, im, dtype):
    """The array as framework fw holds it."""
    re = np.asarray(re, dtype=dtype).reshape(shape)
    if kind == 'complex':
        im = np.asarray(im, dtype=dtype).reshape(shape)
        if fw == 'torch':
            return front.tensor('torch', np.stack([re, im], axis=-1))
        z = (re + 1j * im).astype(np.complex64 if dtype == np.float32 else np.complex128)
        return front.tensor(fw, z)
    if fw == 'torch' and kind != 'signal':
        re = re[..., None]
    return front.tensor(fw, re)


def dtype_of(x):
    return np.float64 if ('64' in str(x.dtype) and 'complex64' not in str(x.dtype)) or '128' in str(x.dtype) else np.float32


def second(fw, f, dtype, real_last=True):
    """A filter or second array.  TensorFlow takes its filters as NumPy arrays."""
    kind = 'complex' if f['im'] else 'real'
    return pack('numpy' if fw == 'tensorflow' else fw, kind, f['shape'], f['re'], f['im'], dtype)


def strided(x):
    """A tensor with the same entries, but not contiguous."""
    import torch
    y = torch.empty(x.shape[:-1] + (2 * x.shape[-1],), dtype=x.dtype)[..., ::2]
    y.copy_(x)
    return y


COMPLEX_OUT = {'rfft', 'cfft', 'ifft', 'sub', 'cdgmm'}


def snap(x):
    return np.array(front.to_np(x), copy=True)


def apply(B, d, fw, x, u, cplx, seed):
    """Returns (the result, the arguments with snapshots taken before)."""
    o, p, s = u['o'], u['p'], u['s']
    args = [(x, snap(x))]
    if s == 'strided' and fw == 'torch':
        x = strided(x)
    if o == 'pad':
        return B.pad(x, p[0], p[1], mode=s) if s != 'reflect' or seed % 2 else B.pad(x, p[0], p[1]), args
    if o == 'pad2':
        n = 1 if False else 0
        return B.Pad(list(p), [x.shape[-2 - n], x.shape[-1 - n]])(x), args
    if o == 'unpad':
        return B.unpad(x, p[0], p[1]), args
    if o == 'unpad2':
        return B.unpad(x), args
    if o in ('rfft', 'cfft', 'ifft', 'irfft'):
        return getattr(B, o)(x), args
    if o == 'sub':
        return B.subsample_fourier(x, p[0]), args
    if o == 'cdgmm':
        dt = dtype_of(x)
        f = second(fw, u['f'], dt)
        if s == 'dtype':
            if fw == 'torch':
                f = f.double() if dt == np.float32 else f.float()
            else:
                f = front.tensor('numpy' if fw == 'tensorflow' else fw, np.asarray(u['f']['re']).reshape(u['f']['shape']).astype(np.int32))
        args.append((f, snap(f)))
        g = B.cdgmm3d if d == 3 and seed % 2 and s != 'dtype' else B.cdgmm
        return g(x, f), args
    if o == 'modulus':
        return B.modulus(x), args
    if o == 'rot':
        if u['f']['re']:
            y = pack(fw, 'complex', u['f']['shape'], u['f']['re'], u['f']['im'], dtype_of(x))
            args.append((y, snap(y)))
            return B.modulus_rotation(y, x), args
        return B.modulus_rotation(x, None), args
    if o == 'average':
        return B.average_global(x), args
    if o == 'padfreq':
        return B.pad_frequency(x, p[0]), args
    if o == 'swap':
        return B.swap_time_frequency(x), args
    if o == 'unpadfreq':
        return B.unpad_frequency(x, p[0], p[1]), args
    if o == 'split':
        r = B.split_frequency_axis(x)
        n = x.shape[-2 - cplx]
        assert len(r) == n
        return r[p[0]], args
    if o == 'stack':
        xs = [x * (i + 1) for i in range(p[0])]
        return (B.stack(xs) if d == 2 else B.stack(xs, p[1] - 1)), args
    if o == 'stack3':
        return B.stack([x * (i + 1) for i in range(p[0] * (p[1] + 1))], p[1]), args
    if o == 'integrals':
        return B.compute_integrals(x, [q if q else .5 for q in p]), args
    if o == 'reshape_in':
        return B.reshape_input(x, tuple(int(n) for n in x.shape[-p[0]:])), args
    if o == 'reshape_out':
        return B.reshape_output(x, tuple(p[1:]), p[0]), args
    raise core.HarnessError(o)


def milli(v):
    v = np.asarray(v, dtype=np.float64).ravel() * 1000
    return [int(q) for q in np.clip(np.where(np.isfinite(v), np.round(v), 2e9), -2e9, 2e9)]


def observe(fw, r, u):
    v = front.to_np(r)
    o = dict(stage='ok', mro=[], shape=[int(n) for n in v.shape], cplx=False, re=[], im=[], sq=[], same=True)
    if fw == 'torch':
        wants = u['o'] in COMPLEX_OUT or u['o'] in ('padfreq', 'swap')
        if wants and v.ndim and v.shape[-1] == 2:
            o['cplx'] = True
            re, im = v[..., 0], v[..., 1]
        else:
            re, im = v, None
    else:
        o['cplx'] = bool(np.iscomplexobj(v))
        re, im = (v.real, v.imag) if o['cplx'] else (v, None)
    o['re'] = milli(re)
    if im is not None:
        o['im'] = milli(im)
    if u['o'] in ('modulus', 'rot') and im is None:
        o['sq'] = milli(np.asarray(re, dtype=np.float64) ** 2)
    return o


def chain(a):
    d, fw, x, ops, prec, seed = a
    B = backend(d, fw)
    dtype = np.float64 if prec == 64 and fw != 'jax' else np.float32
    cur = pack(fw, x['kind'], x['shape'], x['re'], x['im'], dtype)
    out = []
    for u in ops:
        try:
            r, args = apply(B, d, fw, cur, u, 1 if fw == 'torch' else 0, seed)
        except core.HarnessError:
            raise
        except Exception as e:      # judged by the trace specification
            out.append(dict(stage='raise', mro=[c.__name__ for c in type(e).__mro__], shape=[], cplx=False, re=[], im=[], sq=[],
                            same=True, msg=str(e)[:100]))
            break
        o = observe(fw, r, u)
        o['same'] = bool(all(np.array_equal(snap(v), s) for v, s in args))
        out.append(o)
        cur = r
        if fw == 'torch' and not cur.is_contiguous():
            cur = cur.contiguous()
        # The arguments of the next operation must not be shared with those of this one.
        cur = cur.clone() if fw == 'torch' else cur.copy() if fw == 'numpy' else cur
    return out


def session(a):
    return {fw: chain((a[0], fw) + a[1:]) for fw in FWS}


# -- cases ----------------------------------------------------------------
def start(rng, d, mis):
    L = [1, 2, 3, 4, 4, 6, 8, 12]
    kinds = {1: ['signal', 'signal', 'real', 'complex', 'complex'], 2: ['signal', 'real', 'complex', 'complex'],
             3: ['real', 'complex', 'complex', 'signal']}[d]
    kind = rng.choice(kinds)
    if d == 1:
        nb = rng.choice([2, 2, 1, 3]) if kind == 'signal' else rng.choice([1, 2, 3, 3])
        sh = [rng.choice([1, 2, 3]) for _ in range(nb)] + [rng.choice(L + [5, 7, 9] if kind == 'signal' else L)]
        if len(sh) == 4:
            sh[0], sh[1] = rng.choice([1, 2]), 1
            sh[2] = rng.randint(1, 5)
    elif d == 2:
        sh = [rng.choice([1, 2, 3]) for _ in range(rng.choice([1, 1, 2]))] + [rng.choice([1, 2, 3, 4, 6, 8]), rng.choice([2, 3, 4, 6])]
        if kind == 'signal':
            sh = sh[:1] + [rng.randint(2, 6), rng.randint(2, 6)]
    else:
        if kind == 'signal':
            sh = [rng.choice([1, 2, 3]), rng.randint(1, 3)]
        else:
            sh = [rng.choice([1, 2])] + [rng.choice([1, 2, 3, 4]) for _ in 'abc']
    n = int(np.prod(sh))
    vals = [0, 1, 4, 9, 16, 25] if d == 3 and kind == 'real' and rng.random() < .4 else list(range(-6, 7))
    x = dict(kind=kind, shape=sh, re=[rng.choice(vals) for _ in range(n)], den=1, err=0,
             im=[rng.randint(-6, 6) for _ in range(n)] if kind == 'complex' else [])
    return dict(d=d, a=x, steps=rng.choice([0, 0, 1, 2]) if mis else rng.choice([1, 2, 3, 4, 6]),
                pool=[rng.randint(-4, 4) for _ in range(31)], mis=mis)


def corrupt(traces):
    res, seen = [], set()
    for t in traces:
        for i, (u, o) in enumerate(zip(t['ops'], t['obs'])):
            last = i == len(t['obs']) - 1
            if o['stage'] != 'ok':
                if last and ('r', u['o']) not in seen and u['o'] != 'modulus':
                    seen.add(('r', u['o']))
                    w = copy.deepcopy(t)
                    w['obs'][i].update(stage='ok')
                    res.append((w, 'C17.Accepts.' + u['o']))
                    if u['o'] != 'sub':
                        w = copy.deepcopy(t)
                        w['obs'][i].update(mro=['IndexError'])
                        res.append((w, 'C17.Kind.' + u['o']))
                continue
            if ('v', u['o']) in seen or not o['re'] or max(map(abs, o['re'])) < 1000:
                continue
            seen.add(('v', u['o']))
            j = int(np.argmax(np.abs(o['re'])))

            def c(clause, **kw):
                w = copy.deepcopy(t)
                w['obs'][i].update(kw)
                res.append((w, 'C17.%s.%s' % (clause, u['o'])))
            f = 'sq' if o['sq'] else 're'
            c('Value', **{f: [v + (max(400, abs(v) // 5) if k == j else 0) for k, v in enumerate(o[f])]})
            c('Shape', shape=o['shape'] + [1])
            c('Unmodified', same=False)
            c('Refuses', stage='raise')
    return res


def run(ctx):
    ctx.mc('MC_Backend', MC % ctx.n(1, 2), must_cover=('Do', 'Mis'), workers=6, timeout=3000)
    rng = ctx.rng
    cases = [start(rng, rng.choice([1, 1, 2, 3]), i % 3 == 0) for i in range(ctx.n(900, 12000))]
    plans = ctx.generate('Gen_Backend', GEN, cases, workers=1, extra=['-seed', str(ctx.seed)], timeout=6000)
    items, keep = [], []
    for c, p in zip(cases, plans):
        if p['ops']:
            keep.append((c, p))
            items.append((c['d'], c['a'], p['ops'], rng.choice([32, 64]), rng.randrange(1000)))
    obs = core.pmap(session, items, procs=8, timeout=ctx.n(600, 6000))
    traces, labels, tally = [], [], {}
    for (c, p), it, ob in zip(keep, items, obs):
        if 'dead' in ob:
            ctx.fail(dict(case=c, ops=p['ops']), ['C17.Survives'])
            continue
        for fw, o in ob.items():
            for u in p['ops']:
                tally['%dd %s' % (c['d'], u['o'])] = tally.get('%dd %s' % (c['d'], u['o']), 0) + 1
            ctx.count(dict(c=c['a'], ops=p['ops'], fw=fw), nontrivial=len(c['a']['re']) > 1)
            # Operations after a refusal were never tried.
            ops = p['ops'][:len(o)]
            traces.append(dict(d=c['d'], fw=fw, a=c['a'], ops=ops, obs=[{k: v for k, v in q.items() if k != 'msg'} for q in o]))
            labels.append(dict(d=c['d'], framework=fw, array=c['a'], ops=[dict(o=u['o'], p=u['p'], s=u['s']) for u in ops], precision=it[3],
                               stages=[q['stage'] + ' ' + q.get('msg', '') for q in o]))
    ctx.notes['operations'] = dict(sorted(tally.items()))
    ctx.validate('Trace_Backend', TRACE, traces, labels, clauses='C17', selfcheck=corrupt(traces), timeout=6000, workers=6)
    ctx.sample(dict(array=keep[0][0]['a'], ops=keep[0][1]['ops']))
    return ctx.finish('model_checking',
                      'chains of primitives drawn by the machine on arrays of small integers, replayed on the backends of NumPy, '
                      'PyTorch, TensorFlow and JAX in 1-D, 2-D and 3-D and compared exactly after every step; and misuses',
                      ['padding modes are reflect and constant, in lower case', 'transforms of lengths dividing 24'])
