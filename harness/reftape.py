"""Runs the forward and backward programs of the tape machine (spec/Tape.tla) in
float64.  Arrays are two-dimensional: rows are axis 2, columns axis 1."""
import numpy as np

from . import ref1d, ref2d, pjtfs


def blk(src, ops, stack=0, out=False):
    return dict(src=src if isinstance(src, list) else [src], stack=stack, ops=ops, out=out)


def op(o, w='', n=0, k=0, x=1, r=(0, 0)):
    return dict(o=o, w=w, n=n, k=k, x=x, r=list(r))


def convert(ops, axis, after=None, rows=(0, 1)):
    """Operations of the transform specifications as tape operations."""
    res = []
    for a in ops:
        o, n, k = a['o'], a['n'], a['k']
        if o in ('phi', 'psi', 'psi1', 'psi2', 'phif', 'psif'):
            res.append(op('mul', o, n, k, axis))
        elif o == 'sub':
            if k:
                res.append(op('sub', '', 0, k, axis))
        elif o == 'abs':
            res.append(op('mod', x=0))
        elif o == 'real':
            res.append(op('re', x=0))
        elif o == 'time':
            pass
        elif o == 'sum':
            res.append(op('sum', x=axis))
        elif o == 'win':
            res.append(op('win', '', n, k, 0, rows))
        elif o == 'unpad':
            res.append(after)
        else:
            raise ValueError(o)
    return res


class Trie:
    """Chains cut at their moduli, so that common beginnings become shared blocks."""

    def __init__(self):
        self.blocks, self.memo = [], {}

    def add(self, ops, out):
        src, part, key = 0, [], ()
        for a in ops:
            part.append(a)
            if a['o'] == 'mod' and a is not ops[-1]:
                key = key + tuple((q['o'], q['w'], q['n'], q['k'], q['x']) for q in part)
                if key not in self.memo:
                    self.blocks.append(blk(src, part))
                    self.memo[key] = len(self.blocks)
                src, part = self.memo[key], []
        self.blocks.append(blk(src, part, 0, out))
        return len(self.blocks)


def program1d(cf, plan):
    t = Trie()
    outs = [t.add(convert(p['ops'], 1), True) for p in plan['paths']]
    return dict(l1=cf['N'], l2=1, p1=plan['np'], p2=1, blocks=t.blocks), outs


def program2d(cf, plan):
    t = Trie()
    win = op('win', '', 1, plan['ow'] + 1, 0, (1, plan['oh'] + 1))
    outs = [t.add(convert(p['ops'], 3, win), True) for p in plan['paths']]
    return dict(l1=cf['N'], l2=cf['M'], p1=plan['np'], p2=plan['mp'], blocks=t.blocks), outs


def programtf(cf, plan):
    t = Trie()
    NF = plan['nf']
    stacks, fam, outs = {}, {}, []
    for p in plan['coefs']:
        if p['ord'] == 0:
            outs.append(t.add(convert(plan['s0'], 1) + [op('win', '', p['w0'], p['w1'], 0, (0, 1))], True))
            continue
        b = p['n2'] if p['ord'] == 2 else -1
        if b not in stacks:
            chains = plan['s1'] if b < 0 else plan['y2'][b]
            src = [t.add(convert(q, 1), False) for q in chains]
            t.blocks.append(blk(src, [], NF))
            stacks[b] = len(t.blocks)
        key = (p['ord'], p['n2'], p['nfr'])
        if key not in fam:
            ops = convert(p['fr'], 2)
            ta, fa = convert(p['ta'], 1), convert(p['fa'], 2)
            for u in (ta, fa):
                ops += u + ([op('re', x=0)] if u and u[0]['o'] == 'mul' else [])
            t.blocks.append(blk(stacks[b], ops))
            fam[key] = len(t.blocks)
        rows = (p['row'], p['row'] + 1) if p['row'] >= 0 else (0, p['flen'])
        t.blocks.append(blk(fam[key], [op('win', '', p['w0'], p['w1'], 0, rows)], 0, True))
        outs.append(len(t.blocks))
    return dict(l1=cf['N'], l2=1, p1=plan['np'], p2=1, blocks=t.blocks), outs


class Filters1:
    def __init__(self, cf, plan):
        self.t = ref1d.Filters(cf['J'], cf['Q'], ref1d.resolve_T(cf['J'], cf['Tk'], cf['T']), plan['np'])
        self.f = pjtfs.FreqFilters(cf, plan['nf']) if 'nf' in plan else None

    def get(self, nd):
        h = (self.f if nd['w'] in ('phif', 'psif') else self.t).get(nd['w'], nd['n'], nd['k'])
        return h[None, :] if nd['x'] == 1 else h[:, None]


class Filters2:
    def __init__(self, cf, plan):
        self.f = ref2d.Filters(plan['mp'], plan['np'], cf['J'], cf['L'])

    def get(self, nd):
        return self.f.get(nd['w'], nd['n'], nd['k'])


AX = {1: (1,), 2: (0,), 3: (0, 1)}


class Tape:
    def __init__(self, tplan, filters, index):
        self.nodes, self.prog, self.heads = tplan['nodes'], tplan['prog'], tplan['heads']
        self.filters, self.index = filters, index      # index: (rows, cols) of the padding

    def forward(self, x, eps=0., rng=None):
        x = np.asarray(x, dtype=np.float64)
        V = [x.reshape(self.nodes[0]['l2'], self.nodes[0]['l1'])]
        for nd in self.nodes[1:]:
            o, k = nd['o'], nd['k']
            v = V[nd['a'][0] - 1]
            ax = AX.get(nd['x'])
            if o == 'pad':
                v = v[np.ix_(*self.index)]
            elif o == 'stack':
                u = np.zeros((nd['l2'], nd['l1']), dtype=v.dtype)
                for q, a in enumerate(nd['a']):
                    u[q] = V[a - 1][0]
                v = u
            elif o == 'fft':
                v = np.fft.fftn(v, axes=ax)
            elif o == 'ifft':
                v = np.fft.ifftn(v, axes=ax)
            elif o == 'mul':
                v = v * self.filters.get(nd)
            elif o == 'sub':
                for a in ax:
                    w = np.moveaxis(v, a, -1)
                    m = w.shape[-1] >> k
                    w = w.reshape(w.shape[:-1] + (1 << k, m)).sum(-2) / (1 << k)
                    v = np.moveaxis(w, -1, a)
            elif o == 'mod':
                v = np.abs(v)
            elif o == 're':
                v = v.real
            elif o == 'sum':
                v = v.sum(axis=ax, keepdims=True)
            elif o == 'win':
                v = v[nd['r'][0]:nd['r'][1], nd['n']:k]
            else:
                raise ValueError(o)
            if eps and o in ('fft', 'ifft', 'mul', 'sub'):
                s = eps * np.abs(v).max()
                v = v + s * (rng.randn(*v.shape) + 1j * rng.randn(*v.shape))
            if nd['f'] == 'R' and np.iscomplexobj(v):
                raise ValueError('type of node %r' % nd)
            V.append(v)
        self.V = V
        return [V[h - 1] for h in self.heads]

    def backward(self, seeds):
        """seeds: {block: gradient of its result}."""
        V = self.V
        G = [None] * len(V)

        def add(i, g):
            if self.nodes[i - 1]['f'] == 'R':
                g = np.real(g)
            G[i - 1] = g if G[i - 1] is None else G[i - 1] + g
        for blkno, g in seeds.items():
            add(self.heads[blkno - 1], g)
        for ins in self.prog:
            i, o, to = ins['v'], ins['o'], ins['to']
            g, nd = G[i - 1], self.nodes[i - 1]
            if g is None:
                continue
            v = V[to[0] - 1]
            ax, k = AX.get(nd['x']), nd['k']
            if o == 'fold':
                r = np.zeros(v.shape)
                np.add.at(r, np.ix_(*self.index), g)
                add(to[0], r)
            elif o == 'split':
                for q, a in enumerate(to):
                    add(a, g[q:q + 1])
            elif o == 'ffth':
                n = np.prod([v.shape[a] for a in ax])
                add(to[0], np.fft.ifftn(g, axes=ax) * n)
            elif o == 'iffth':
                n = np.prod([v.shape[a] for a in ax])
                add(to[0], np.fft.fftn(g, axes=ax) / n)
            elif o == 'mulh':
                add(to[0], g * np.conj(self.filters.get(nd)))
            elif o == 'tile':
                for a in ax:
                    g = np.concatenate([g] * (1 << k), axis=a) / (1 << k)
                add(to[0], g)
            elif o == 'phase':
                m = np.abs(v)
                add(to[0], g * np.where(m > 0, v, 0) / np.where(m > 0, m, 1))
            elif o == 'embed':
                add(to[0], g)
            elif o == 'spread':
                add(to[0], np.broadcast_to(g, v.shape))
            elif o == 'place':
                r = np.zeros(v.shape, dtype=g.dtype)
                r[nd['r'][0]:nd['r'][1], nd['n']:k] = g
                add(to[0], r)
            else:
                raise ValueError(o)
        return G[0] if G[0] is not None else np.zeros(V[0].shape)


def index_of(kind, cf, plan):
    if kind == '2d':
        def idx(n, a, b):
            return ref1d.reflect_index(n, a, n + a + b)
        return idx(cf['M'], plan['pt'], plan['pb']), idx(cf['N'], plan['pl'], plan['pr'])
    return np.zeros(1, dtype=int), ref1d.reflect_index(cf['N'], plan['pl'], plan['np'])
