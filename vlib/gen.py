"""workload generators: lens systems and source positions, including the corners unit tests do not visit"""
import numpy as np
from . import oracle as O

SPECIAL_S = [1.0, 0.5, 2.0, 0.7, 1.5, 0.9, 1.1]
SPECIAL_PSI = [0.0, np.pi / 2, np.pi, -np.pi / 2, 3 * np.pi / 2, 2 * np.pi, -np.pi, 5.0]


def binary(rng, smin=0.2, smax=5.0, qmin=1e-6, qmax=1.0, corners=True):
    u = rng.uniform()
    s = 10 ** rng.uniform(np.log10(smin), np.log10(smax))
    q = 10 ** rng.uniform(np.log10(qmin), np.log10(qmax))
    if corners:
        if u < 0.12:
            s = float(rng.choice(SPECIAL_S))
        elif u < 0.2:
            q = 1.0
        elif u < 0.35:
            q = 1.0 / q
    return float(s), float(q)


def triple(rng, smin=0.3, smax=3.0, qmin=1e-5, corners=True):
    s, q = binary(rng, smin, smax, qmin, 1.0, corners)
    q3 = 10 ** rng.uniform(-5, 0.3)
    r3 = 10 ** rng.uniform(-0.7, 0.5)
    psi = rng.uniform(-2 * np.pi, 4 * np.pi)
    if corners:
        u = rng.uniform()
        if u < 0.25:
            psi = float(rng.choice(SPECIAL_PSI))
        if rng.uniform() < 0.1:
            q3 = q
    return s, q, float(q3), float(r3), float(psi)


def system(rng, n, **kw):
    return () if n == 1 else (binary(rng, **kw) if n == 2 else triple(rng, **kw))


def tidy(n, p, dmin=0.05):
    """lenses must be separate objects"""
    m, z = O.lenses(n, *p)
    d = np.abs(z[:, None] - z[None, :]) + np.eye(n) * 10
    return d.min() > dmin


def caustic(rng, n, p, k):
    m, zl = O.lenses(n, *p)
    zc, wc = O.caustic_points(m, zl, 64)
    wc = wc.ravel()
    wc = wc[np.isfinite(wc)]
    return wc[rng.integers(0, len(wc), k)]


def sources(rng, n, p, N, far=True):
    """mixture of source positions in the public frame; returns complex array of length N"""
    m, zl = O.lenses(n, *p)
    out = []
    caus = caustic(rng, n, p, N) if n > 1 else np.zeros(N, complex)
    for i in range(N):
        u = rng.uniform()
        g = rng.normal() + 1j * rng.normal()
        if u < 0.25:
            w = rng.uniform(-2, 2) + 1j * rng.uniform(-2, 2)
        elif u < 0.45:
            w = 10 ** rng.uniform(-3, 0) * g
        elif u < 0.75:
            w = caus[i] + 10 ** rng.uniform(-4, -0.3) * g
        elif u < 0.83:
            w = rng.uniform(-2, 2) + 0j
        elif u < 0.88:
            w = 1j * rng.uniform(-2, 2)
        elif u < 0.93:
            w = zl[rng.integers(0, n)] + 10 ** rng.uniform(-3, 0) * g
        elif far:
            w = 10 ** rng.uniform(0.5, 3) * g
        else:
            w = 3 * g
        out.append(w)
    return np.array(out, complex)


def c2l(w):
    w = np.atleast_1d(w)
    return [[float(x.real), float(x.imag)] for x in w]


def l2c(l):
    a = np.asarray(l, float).reshape(-1, 2)
    return a[:, 0] + 1j * a[:, 1]


def triple_ok(rng, mmin=1e-2, dmin=0.25, **kw):
    """three well separated lenses, every mass fraction at least mmin"""
    while True:
        p = triple(rng, **kw)
        lo = np.log10(mmin) + 0.05
        u = 10 ** rng.uniform(lo, 0, 3)
        if rng.uniform() < 0.15:
            u[1] = u[0]
        if rng.uniform() < 0.1:
            u[2] = u[1]
        p = (p[0], float(u[1] / u[0]), float(u[2] / u[0]), p[3], p[4])
        if (u / u.sum()).min() >= mmin and tidy(3, p, dmin):
            return p
