"""Reference answers that share no code with microjax.

lenses(...)        masses and positions (centre-of-mass frame of the first two lenses, as documented)
solve_images(...)  complex-polynomial image finder built by numpy polynomial products + 2-D Newton polishing
VBBL / VBM         VBBinaryLensing and VBMicrolensing (independent C++ codes)
"""
import math
import numpy as np


# ---------------------------------------------------------------- geometry
def x_cm(s, q):
    return 0.5 * s * (1.0 - q) / (1.0 + q)


def lenses(n, s=None, q=None, q3=None, r3=None, psi=None, frame="cm"):
    """(masses, positions).  frame 'mid': mid-point frame, 'cm': public centre-of-mass frame"""
    if n == 1:
        return np.array([1.0]), np.array([0j])
    a = 0.5 * s
    if n == 2:
        m = np.array([1.0, q]) / (1.0 + q)
        z = np.array([-a, a], complex)
    else:
        m = np.array([1.0, q, q3]) / (1.0 + q + q3)
        z = np.array([-a, a, r3 * np.exp(1j * psi)], complex)
    if frame == "cm":
        z = z + x_cm(s, q)
    return m, z


def low_params(n, s=None, q=None, q3=None, r3=None, psi=None):
    """keyword arguments of the documented mid-point-frame routines"""
    if n == 1:
        return {}
    if n == 2:
        return dict(a=0.5 * s, e1=q / (1.0 + q))
    t = 1.0 + q + q3
    return dict(a=0.5 * s, e1=q / t, e2=1.0 / t, r3=r3, psi=psi)


def pub_params(n, s=None, q=None, q3=None, r3=None, psi=None):
    if n == 1:
        return {}
    if n == 2:
        return dict(s=s, q=q)
    return dict(s=s, q=q, q3=q3, r3=r3, psi=psi)


def lens_map(z, m, zl):
    z = np.asarray(z, complex)
    w = z.copy()
    for mk, zk in zip(m, zl):
        w = w - mk / np.conj(z - zk)
    return w


def det_jac(z, m, zl):
    z = np.asarray(z, complex)
    f = np.zeros_like(z)
    for mk, zk in zip(m, zl):
        f = f + mk / (z - zk) ** 2
    return 1.0 - np.abs(f) ** 2


def kappa_f(z, m, zl):
    z = np.asarray(z, complex)
    f = np.zeros_like(z)
    for mk, zk in zip(m, zl):
        f = f + mk / (z - zk) ** 2
    return f


# ---------------------------------------------------------------- point source
def _poly(w, m, zl):
    n = len(m)
    one = np.array([1.0 + 0j])
    Q = one
    for zk in zl:
        Q = np.polymul(Q, [1.0, -zk])
    S = np.array([0j])
    for k in range(n):
        t = one
        for j in range(n):
            if j != k:
                t = np.polymul(t, [1.0, -zl[j]])
        S = np.polyadd(S, m[k] * t)
    P = np.polyadd(np.conj(w) * Q, S)
    Ps = [np.polysub(P, np.conj(zk) * Q) for zk in zl]
    full = np.array([1.0, -w])
    for p in Ps:
        full = np.polymul(full, p)
    for k in range(n):
        t = m[k] * Q
        for j in range(n):
            if j != k:
                t = np.polymul(t, Ps[j])
        full = np.polysub(full, t)
    return full


def solve_images(w, m, zl, tol=1e-9):
    """all images of the point w: (positions, clear).  clear=False when the count is not admissible,
    two images are nearly merged, or a rejected root is nearly a solution (verdict would be ambiguous)."""
    n = len(m)
    c = np.mean(zl)
    roots = np.roots(_poly(w - c, m, zl - c)) + c
    sols, resid0 = [], []
    for z in roots:
        r = abs(complex(lens_map(z, m, zl)) - w)
        resid0.append(r)
        zz = z
        ok = False
        for it in range(60):
            F = complex(lens_map(zz, m, zl)) - w
            if not np.isfinite(F):
                break
            if abs(F) < 1e-14:
                ok = True
                break
            # w(z) = z - g(conj z);  dF = dz + conj(f) dzbar with f = sum m/(z-zk)^2
            f = np.conj(complex(kappa_f(zz, m, zl)))
            D = 1 - abs(f) ** 2
            if D == 0:
                break
            dz = -(F - f * np.conj(F)) / D
            if it == 0:
                step0 = abs(dz)
            if abs(dz) > 0.5:
                dz *= 0.5 / abs(dz)
            zz = zz + dz
            if abs(dz) < 1e-15 * (1 + abs(zz)):
                ok = abs(complex(lens_map(zz, m, zl)) - w) < tol
                break
        if not ok:
            ok = abs(complex(lens_map(zz, m, zl)) - w) < tol
        if ok:
            sols.append(zz)
    uniq = []
    for z in sols:
        if all(abs(z - u) > 1e-7 * (1 + abs(z)) for u in uniq):
            uniq.append(z)
    uniq = np.array(uniq, complex)
    cnt = len(uniq)
    good = cnt in (range(n + 1, 5 * n - 4, 2) if n > 1 else (2,))
    if good:
        # parity theorem: (#positive) - (#negative) = 1 - n
        d = det_jac(uniq, m, zl)
        good = (np.sum(d > 0) - np.sum(d < 0)) == 1 - n and np.min(np.abs(d)) > 1e-12
    return uniq, bool(good)


def mag_ps(w, m, zl):
    z, ok = solve_images(w, m, zl)
    if not len(z):
        return float("nan"), False
    return float(np.sum(1.0 / np.abs(det_jac(z, m, zl)))), ok


# ---------------------------------------------------------------- external codes
_V = {}


def vbbl(tol=1e-5):
    k = ("b", tol)
    if k not in _V:
        import VBBinaryLensing
        v = VBBinaryLensing.VBBinaryLensing()
        v.Tol = tol
        v.RelTol = tol
        _V[k] = v
    return _V[k]


def vbm(tol=1e-4):
    k = ("m", tol)
    if k not in _V:
        import VBMicrolensing
        v = VBMicrolensing.VBMicrolensing()
        v.Tol = tol
        v.RelTol = tol
        _V[k] = v
    return _V[k]


def mag0_binary(s, q, w):
    v = vbbl()
    return np.array([v.BinaryMag0(float(s), float(q), float(x.real), float(x.imag)) for x in np.atleast_1d(w)])


def set_triple(v, s, q, q3, r3, psi):
    m, z = lenses(3, s, q, q3, r3, psi)
    flat = []
    for k in range(3):
        flat += [float(z[k].real), float(z[k].imag), float(m[k])]
    v.SetLensGeometry(flat)


def mag0_triple(s, q, q3, r3, psi, w):
    v = vbm()
    set_triple(v, s, q, q3, r3, psi)
    return np.array([v.MultiMag0(float(x.real), float(x.imag)) for x in np.atleast_1d(w)])


def mag_uniform(n, p, w, rho, tol=1e-5):
    """uniform finite-source reference; p = (s,q) or (s,q,q3,r3,psi)"""
    if n == 2:
        v = vbbl(tol)
        s, q = p[:2]
        return np.array([v.BinaryMag2(float(s), float(q), float(x.real), float(x.imag), float(rho)) for x in np.atleast_1d(w)])
    v = vbm(max(tol, 1e-4))
    set_triple(v, *p)
    return np.array([v.MultiMag(float(x.real), float(x.imag), float(rho)) for x in np.atleast_1d(w)])


def mag_ld(n, p, w, rho, u1, nodes=30, tol=1e-5):
    """linear limb darkening from uniform-disc magnifications by integration over annuli:
       A = [ (1-u1) M(rho) + u1 * int_0^{pi/2} sin^3(t) M(rho sin t) dt ... ] / (1-u1/3)"""
    x, wx = np.polynomial.legendre.leggauss(nodes)
    t = 0.25 * np.pi * (x + 1)
    wt = 0.25 * np.pi * wx
    st = np.sin(t)
    out = (1.0 - u1) * mag_uniform(n, p, w, rho, tol)
    acc = 0.0
    for k in range(nodes):
        acc = acc + wt[k] * st[k] ** 3 * mag_uniform(n, p, w, rho * st[k], tol)
    return (out + u1 * acc) / (1.0 - u1 / 3.0)


def disc_average(fmag, w, rho, u1=0.0, nr=16, nth=32):
    """average of a smooth point-source magnification over the (limb-darkened) disc"""
    x, wx = np.polynomial.legendre.leggauss(nr)
    t = 0.25 * np.pi * (x + 1)
    wt = 0.25 * np.pi * wx
    th = 2 * np.pi * (np.arange(nth) + 0.5) / nth
    num = den = 0.0
    for k in range(nr):
        r = np.sin(t[k])
        prof = (1.0 - u1 * (1.0 - np.cos(t[k])))
        wgt = wt[k] * np.cos(t[k]) * r * prof
        num = num + wgt * np.mean(fmag(w + rho * r * np.exp(1j * th)))
        den = den + wgt
    return num / den


# ---------------------------------------------------------------- single lens, extended source
def single_extended(u, rho, prof, n=400):
    """A(u) for a single lens and the normalised radial profile prof(x), direct double quadrature"""
    x, wx = np.polynomial.legendre.leggauss(n)
    t = .5 * (x + 1) * np.pi

    def seg(a, b):
        if b <= a:
            return 0.0
        r = a + (b - a) * .5 * (1 - np.cos(t))
        wr = wx * .5 * np.pi * (b - a) * .5 * np.sin(t)
        ph = np.pi * (t / np.pi) ** 3
        wp = wx * .5 * np.pi * 3 * (t / np.pi) ** 2
        R, P = np.meshgrid(r, ph, indexing="ij")
        d2 = (u - R) ** 2 + 4 * u * R * np.sin(P / 2) ** 2
        d = np.sqrt(d2)
        A = (d2 + 2) / (d * np.sqrt(d2 + 4))
        ring = (A * wp).sum(1) / np.pi
        return (2 * r * prof(r / rho) * ring * wr).sum() / rho ** 2
    m = min(u, rho)
    return seg(0.0, m) + seg(m, rho)


# ---------------------------------------------------------------- caustics
def caustic_points(m, zl, nphi=720):
    """dense sampling of the caustics (independent polynomial): list of (critical points, caustic points)"""
    n = len(m)
    Q2 = np.array([1.0 + 0j])
    for zk in zl:
        Q2 = np.polymul(Q2, np.polymul([1.0, -zk], [1.0, -zk]))
    S = np.array([0j])
    for k in range(n):
        t = np.array([m[k] + 0j])
        for j in range(n):
            if j != k:
                t = np.polymul(t, np.polymul([1.0, -zl[j]], [1.0, -zl[j]]))
        S = np.polyadd(S, t)
    zs = []
    for ph in np.linspace(-np.pi, np.pi, nphi, endpoint=False):
        zs.append(np.roots(np.polysub(np.exp(1j * ph) * Q2, S)))
    z = np.array(zs)
    return z, lens_map(z, m, zl)
