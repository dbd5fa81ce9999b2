"""Independent float64 reference for the 2-D transform."""
import numpy as np


def gabor(M, N, sigma, theta, xi, slant):
    """Periodised Gabor on an M x N torus, centred at (0, 0)."""
    c, s = np.cos(theta), np.sin(theta)
    g = np.zeros((M, N), dtype=complex)
    for a in range(-2, 3):
        for b in range(-2, 3):
            u = (np.arange(M) + a * M)[:, None]
            v = (np.arange(N) + b * N)[None, :]
            along = c * u + s * v          # coordinate along the wave vector
            across = -s * u + c * v
            g += np.exp(-(along ** 2 + slant ** 2 * across ** 2) / (2 * sigma ** 2)
                        + 1j * xi * along)
    return g / (2 * np.pi * sigma ** 2 / slant)


def morlet_hat(M, N, j, t, L):
    theta = (int(L - L / 2 - 1) - t) * np.pi / L
    sig, xi, sl = .8 * 2 ** j, .75 * np.pi / 2 ** j, 4. / L
    w = gabor(M, N, sig, theta, xi, sl)
    e = gabor(M, N, sig, theta, 0., sl)
    return np.real(np.fft.fft2(w - w.sum() / e.sum() * e))


def low_hat(M, N, J):
    return np.real(np.fft.fft2(gabor(M, N, .8 * 2 ** (J - 1), 0., 0., 1.)))


def keep(n, r):
    """Indices kept at resolution r: |frequency| below the new Nyquist (the
    Nyquist bin itself is represented by its negative copy)."""
    m = n >> r
    return np.concatenate([np.arange(m // 2), np.arange(n - (m - m // 2), n)])


def band_limit(h, r):
    if r == 0:
        return h
    return h[np.ix_(keep(h.shape[0], r), keep(h.shape[1], r))]


def periodise(h, k):
    if k == 0:
        return h
    m, n = h.shape[0] >> k, h.shape[1] >> k
    return h.reshape(1 << k, m, 1 << k, n).sum((0, 2))


class Filters:
    def __init__(self, M, N, J, L):
        self.full = {('phi', 0): low_hat(M, N, J)}
        for n in range(J * L):
            self.full['psi', n] = morlet_hat(M, N, n // L, n % L, L)
        self.memo = {}

    def get(self, o, n, r):
        if (o, n, r) not in self.memo:
            self.memo[o, n, r] = band_limit(self.full[o, n], r)
        return self.memo[o, n, r]


def reflect(x, pt, pb, pl, pr):
    def idx(n, a, b):
        if n == 1:
            return np.zeros(n + a + b, dtype=int)
        u = (np.arange(n + a + b) - a) % (2 * (n - 1))
        return np.where(u < n, u, 2 * (n - 1) - u)
    return x[np.ix_(idx(x.shape[0], pt, pb), idx(x.shape[1], pl, pr))]


def execute(ops, xh, f, memo):
    v = xh
    key = ()
    for op in ops:
        o, n, k = op['o'], op['n'], op['k']
        key = key + ((o, n, k),)
        if key in memo:
            v = memo[key]
            continue
        if o in ('phi', 'psi'):
            v = v * f.get(o, n, k)
        elif o == 'sub':
            v = periodise(v, k) / 4. ** k
        elif o == 'abs':
            v = np.fft.fft2(np.abs(np.fft.ifft2(v)))
        elif o == 'real':
            v = np.fft.ifft2(v).real
        elif o == 'unpad':
            v = v[1:-1, 1:-1]
        else:
            raise ValueError(o)
        memo[key] = v
    return v


def coefficients(x, plan, J, L, filters=None):
    x = np.asarray(x, dtype=np.float64)
    xp = reflect(x, plan['pt'], plan['pb'], plan['pl'], plan['pr'])
    f = filters or Filters(plan['mp'], plan['np'], J, L)
    memo = {}
    xh = np.fft.fft2(xp)
    return [execute(p['ops'], xh, f, memo) for p in plan['paths']], xp, f
