"""Independent float64 reference for 3-D solid harmonic scattering."""
import math

import numpy as np
from scipy.special import lpmv


def sph(m, l, azimuth, polar):
    am = abs(m)
    y = math.sqrt((2 * l + 1) / (4 * math.pi) * math.factorial(l - am) / math.factorial(l + am)) \
        * lpmv(am, l, np.cos(polar)) * np.exp(1j * am * azimuth)
    return y if m >= 0 else (-1) ** am * np.conj(y)


def dfact(i):
    r = 1
    while i > 1:
        r *= i
        i -= 2
    return r


def harmonic_hat(shape, sigma, l, m):
    """Fourier transform of r^l exp(-r^2/2 sigma^2) Y_lm, l1-type normalised."""
    w = [2 * np.pi * np.fft.fftfreq(n) for n in shape]
    w0, w1, w2 = np.meshgrid(*w, indexing='ij')
    r2 = w0 ** 2 + w1 ** 2 + w2 ** 2
    g = np.exp(-.5 * sigma ** 2 * r2)
    if l == 0:
        return g.astype(complex)
    r = np.sqrt(r2)
    # polar angle measured from the negative first axis
    polar = np.arctan2(np.sqrt(w1 ** 2 + w2 ** 2), -w0)
    azi = np.arctan2(w1, w2)
    if l % 2 == 0:
        nf = 1. / (2 * np.pi * math.sqrt(l + .5) * dfact(l + 1))
    else:
        nf = 1. / (2 ** ((l + 3) / 2.) * math.sqrt(np.pi * (2 * l + 1)) * math.factorial((l + 1) // 2))
    return (2 * np.pi) ** 1.5 * (-1j) ** l * nf * (sigma * r) ** l * g * sph(m, l, azi, polar)


class Reference:
    def __init__(self, x, shape, sigma0):
        self.x = np.asarray(x, dtype=np.float64)
        self.xh = np.fft.fftn(self.x)
        self.shape, self.sigma0 = shape, sigma0
        self.fm = {}
        self.um = {}

    def filt(self, l, m, j):
        if (l, m, j) not in self.fm:
            self.fm[l, m, j] = harmonic_hat(self.shape, self.sigma0 * 2. ** j, l, m)
        return self.fm[l, m, j]

    def modulus(self, vh, l, ms, j):
        s = 0.
        for m in ms:
            s = s + np.abs(np.fft.ifftn(vh * self.filt(l, m, j))) ** 2
        return np.sqrt(s)

    def cell(self, d):
        """Modulus whose powers are integrated."""
        vh = self.xh
        key = (d['l'],)
        for j, ms in zip(d['j'], d['m']):
            key = key + (j, tuple(ms))
            if key not in self.um:
                self.um[key] = self.modulus(vh, d['l'], ms, j)
            u = self.um[key]
            if (key, 'h') not in self.um:
                self.um[key, 'h'] = np.fft.fftn(u)
            vh = self.um[key, 'h']
        return u
