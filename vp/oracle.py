"""Closed-form reference for the statistical error models (no scipy)."""
import math
import numpy as np


def f2_quantile(p, m):
    """Quantile of the F distribution with (2, m) degrees of freedom."""
    return (m / 2.0) * ((1 - p) ** (-2.0 / m) - 1)


def chi2_2_quantile(p):
    return -2 * math.log(1 - p)


def noise_axes(ev, n, p=0.95, z=None):
    ev = np.asarray(ev, float)
    if z is None:
        z = f2_quantile(p, n - 2)
    err = z * np.sqrt(4 * ev * ev[2] / (n - 2))
    return np.array([abs(ev[0] - err[0]), abs(ev[1] - err[1]), ev[2] + err[2]])


def sampling_axes(ev, n, p=0.95, z=None):
    ev = np.asarray(ev, float)
    if z is None:
        z = f2_quantile(p, n - 2)
    err = z * ev * math.sqrt(2.0 / (n - 1))
    return np.array([abs(ev[0] - err[0]), abs(ev[1] - err[1]), ev[2] + err[2]])


def francq_axes(ev, n, p=0.95):
    ev = np.asarray(ev, float)
    h = ev * math.sqrt(2 * f2_quantile(p, n - 2) / (n - 2))
    return np.array([abs(ev[0] - h[0]), abs(ev[1] - h[1]), ev[2] + h[2]])


def babamoradi_axes(ev, n, p=0.95):
    ev = np.asarray(ev, float)
    return ev * 2 * f2_quantile(p, n - 2) / (n - 2) * (n ** 2 - 1) / n


def regression_axes(s, n, p=0.95):
    s = np.asarray(s, float)
    sig = chi2_2_quantile(p)
    return np.array([math.sqrt(n) * s[0] / (sig * s[2]), math.sqrt(n) * s[1] / (sig * s[2]),
                     (sig * s[2] / n) ** 2])


def angular(h, degrees=True):
    a = [math.atan2(math.sqrt(h[2]), math.sqrt(h[i])) for i in (0, 1)]
    return [math.degrees(x) for x in a] if degrees else a
