"""Independent float64 reference for the 1-D transforms.

Filters are written from their definition (sums over aliases, explicit
periodisation); coefficients are obtained by executing the operation chains
that TLC emits.  Nothing here imports kymatio.
"""
import math

import numpy as np

LN2 = math.log(2.0)


def sigma_of(xi, Q):
    return xi * math.tanh(LN2 / (2 * Q)) / math.sqrt(LN2)


def bank(J, Q):
    """[(xi, sigma)] : constant-Q then constant-bandwidth filters."""
    xi = max(1 / (1 + 2 ** (3.0 / Q)), 0.35)
    sg = sigma_of(xi, Q)
    smin = 0.1 / 2 ** J
    r = 2 ** (1.0 / Q)
    res = []
    if sg <= smin:
        xi = sg
    else:
        res.append((xi, sg))
        while sg > smin * r:
            xi, sg = xi / r, sg / r
            res.append((xi, sg))
    for q in range(1, Q):
        res.append((xi * (1 - q / Q), smin))
    return res


def scale(xi, sg, alpha=5.0):
    ub = min(abs(xi) + alpha * sg, 0.5)
    return int(math.floor(-math.log2(ub))) - 1


def nalias(sg):
    return min(int(math.ceil(math.sqrt(2 * sg * sg * 7 * math.log(10)) + 1)), 5)


def gauss_hat(N, sg):
    """Fourier transform of the l1-normalised Gaussian of bandwidth sg."""
    P = nalias(sg)
    w = np.arange(N) / N
    if P == 1:
        w = np.where(w < 0.5, w, w - 1)
        g = np.exp(-w ** 2 / (2 * sg ** 2))
    else:
        g = sum(np.exp(-(w + p) ** 2 / (2 * sg ** 2)) for p in range(1 - P, P))
    return g / np.abs(np.fft.ifft(g)).sum()


def morlet_hat(N, xi, sg):
    P = nalias(sg)
    w = np.arange(N) / N
    if P == 1:
        low = np.exp(-np.where(w < 0.5, w, w - 1) ** 2 / (2 * sg ** 2))
    else:
        low = sum(np.exp(-(w + p) ** 2 / (2 * sg ** 2)) for p in range(1 - P, P))
    gab = sum(np.exp(-(w + p - xi) ** 2 / (2 * sg ** 2)) for p in range(1 - P, P))
    m = gab - gab[0] / low[0] * low
    return m / np.abs(np.fft.ifft(m)).sum()


def morlet_cond(N, xi, sg):
    """Amplification of rounding errors when the mean is removed: large when the
    bandwidth is far below the frequency resolution 1/N."""
    P = nalias(sg)
    w = np.arange(N) / N
    low = sum(np.exp(-(w + p) ** 2 / (2 * sg ** 2)) for p in range(1 - P, P)) if P > 1 else \
        np.exp(-np.where(w < 0.5, w, w - 1) ** 2 / (2 * sg ** 2))
    gab = sum(np.exp(-(w + p - xi) ** 2 / (2 * sg ** 2)) for p in range(1 - P, P))
    m = gab - gab[0] / low[0] * low
    return float(np.max(np.abs(gab)) / max(np.max(np.abs(m)), 1e-300))


def periodise(h, k):
    """Spectrum after decimation of the impulse response (2**k * decimation)."""
    n = len(h) >> k
    r = np.zeros(n, dtype=h.dtype)
    for i in range(1 << k):
        r = r + h[i * n:(i + 1) * n]
    return r


def support(N, sg, crit=1e-3):
    h = np.abs(np.fft.ifft(gauss_hat(N, sg)))
    half = N // 2
    tail = np.cumsum(h[:half][::-1])[::-1]
    ok = np.nonzero(tail <= crit)[0]
    return int(ok[0]) + 1 if len(ok) else half


def fits(N, sg, crit=1e-3):
    """Whether the filter decays within the signal: 1, 0, or 2 if too close to call."""
    half = N // 2
    if half == 0:
        return 0
    m = float(np.abs(np.fft.ifft(gauss_hat(N, sg)))[half - 1])
    return 2 if abs(m - crit) < 1e-9 else int(m <= crit)


def reflect_index(N, PL, NP):
    if N == 1:
        return np.zeros(NP, dtype=int)
    u = (np.arange(NP) - PL) % (2 * (N - 1))
    return np.where(u < N, u, 2 * (N - 1) - u)


def resolve_T(J, Tk, T):
    return T if Tk == 'val' else 2 ** J


def config(J, N, Q, Tk='none', T=1, sk='none', s=1, mo=2):
    """Abstract configuration handed to TLC."""
    Q1, Q2 = Q
    b1, b2 = bank(J, Q1), bank(J, Q2)
    Tv = resolve_T(J, Tk, T)
    x12 = [[a, b] for a, p in enumerate(b1) for b, q in enumerate(b2)
           if not p[0] > q[0]]
    return dict(J=J, N=N, Tk=Tk, T=int(math.floor(T)), sk=sk, s=s, mo=mo,
                j1=[scale(*p) for p in b1], j2=[scale(*p) for p in b2], x12=x12,
                sup=support(N, 0.1 / Tv), fits=fits(N, 0.1 / Tv))


class Filters:
    def __init__(self, J, Q, Tv, NP):
        self.b1, self.b2 = bank(J, Q[0]), bank(J, Q[1])
        self.NP = NP
        self.full = {('phi', 0): gauss_hat(NP, 0.1 / Tv)}
        for i, p in enumerate(self.b1):
            self.full['psi1', i] = morlet_hat(NP, *p)
        for i, p in enumerate(self.b2):
            self.full['psi2', i] = morlet_hat(NP, *p)
        self.memo = {}

    def get(self, o, n, k):
        if (o, n, k) not in self.memo:
            self.memo[o, n, k] = periodise(self.full[o, n], k)
        return self.memo[o, n, k]


def execute(ops, x_hat, filters, memo):
    """Runs a chain of operations on the spectrum of the padded signal."""
    key = ()
    v = x_hat
    for op in ops:
        o, n, k = op['o'], op['n'], op['k']
        key = key + ((o, n, k),)
        if key in memo:
            v = memo[key]
            continue
        if o in ('phi', 'psi1', 'psi2'):
            v = v * filters.get(o, n, k)
        elif o == 'sub':
            v = v if k == 0 else periodise(v, k) / (1 << k)
        elif o == 'abs':
            v = np.fft.fft(np.abs(np.fft.ifft(v)))
        elif o == 'real':
            v = np.fft.ifft(v).real
        elif o == 'sum':
            v = v.sum(keepdims=True)
        elif o == 'win':
            v = v[n:k]
        else:
            raise ValueError(o)
        memo[key] = v
    return v


def coefficients(x, plan, J, Q):
    x = np.asarray(x, dtype=np.float64)
    xp = x[reflect_index(len(x), plan['pl'], plan['np'])]
    f = Filters(J, Q, plan['T'], plan['np'])
    return evaluate(xp, plan['paths'], f)


def evaluate(xp, paths, f):
    memo = {}
    xh = np.fft.fft(xp)
    return [execute(p['ops'], xh, f, memo) for p in paths]
