"""Integral definitions of the synchrotron and Breit-Wheeler rates (SI, CODATA-2014), with scipy."""
import warnings
import numpy as np
from scipy import integrate, special
warnings.filterwarnings("ignore")
AL, ME, C, HB = 0.0072973525664, 9.10938356e-31, 299792458.0, 1.054571800e-34


def _inner(y):  # int_y^inf K_{5/3}
    if y > 700:
        return 0.0
    if y > 1:
        b = integrate.quad(lambda t: special.kv(1 / 3, y + t), 0, np.inf, epsabs=0, epsrel=1e-10, limit=200)[0]
    else:
        b = np.pi / np.sqrt(3) - integrate.quad(lambda u: special.kv(1 / 3, u ** 1.5) * 1.5 * u ** .5, 0, y ** (2 / 3), epsrel=1e-11)[0]
    return 2 * special.kv(2 / 3, y) - b


def KK(chi, fr=1.0):
    """int_0^{fr chi} of the synchrotron photon spectrum; the rate is alpha m c^2 / (hbar gamma) times this at fr = 1"""
    def f(t):
        x = t ** 3
        if x <= 0 or x >= 1:
            return 0.0
        y = 2 * x / (3 * chi * (1 - x))
        return (_inner(y) + 1.5 * chi * x * y * special.kv(2 / 3, y)) * 3 * t * t
    ts, T = min(1, (10 * chi) ** (1 / 3)), fr ** (1 / 3)
    pts = sorted({p for p in (0, ts / 4, ts / 2, ts, 0.999) if p < T}) + [T]
    return sum(integrate.quad(f, a, b, epsrel=1e-8, limit=400)[0] for a, b in zip(pts, pts[1:])) / (np.pi * np.sqrt(3))


def TT(chi, fr=1.0):
    """int_0^{fr chi} of the pair spectrum (fr <= 1/2, or 1); the rate is alpha m c^2 / hbar * m c^2 / (energy chi) times this at fr = 1"""
    def inn(x):
        return integrate.quad(lambda s: np.sqrt(x + s) * special.kv(1 / 3, 2 / 3 * (x + s) ** 1.5), 0, np.inf, epsabs=0, epsrel=1e-10, limit=300)[0]

    def f(e):
        if e <= 0 or e >= 1:
            return 0.0
        z = 2 / 3 / (chi * e * (1 - e))
        if z > 690:
            return 0.0
        x32 = 1.5 * z
        return (inn(x32 ** (2 / 3)) - (2 - chi * x32) * special.kv(2 / 3, z)) * chi
    hi = min(fr, .5)
    pts = sorted({p for p in (0, hi / 50, hi / 8, hi / 2, hi)})
    s = sum(integrate.quad(f, a, b, epsabs=0, epsrel=1e-8, limit=400)[0] for a, b in zip(pts, pts[1:]))
    return s / (np.pi * np.sqrt(3)) * (2 if fr == 1 else 1)


def units(units_, lam):
    """-> (alpha m c^2/hbar in the library's rate unit, m c^2 in its energy unit)"""
    a = AL * ME * C * C / HB
    return (a, ME * C * C) if units_ == "SI" else (a * lam / (2 * np.pi * C), 1.0)
