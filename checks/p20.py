"""Logarithmic Hankel transforms (FFTLog)."""
import numpy as np
from vlib import setup_repo

ID = "P20"
RULE = ("test functions x^p exp(-(x/c)^2/2), x^p exp(-x/c), and sums of them on log grids of 256..4096 points (even and odd lengths), orders 0..5 and half-integer, biases for which biased function and transform vanish at the grid ends, all four transforms "
        "(Bessel, first and second derivative, squared) and the cylindrical Hankel transform; extrapolation 0..n/2, padding 0..n, windows 0.1..0.9; both implementations; non-trivial = (implementation, transform, order, bias, options)")
ASSUMPTIONS = ["direct quadrature of the transform in ln x with scipy Bessel functions (converged to 1e-10 of the peak)", "comparison on the inner outputs, where neither aliasing nor truncation reaches 1e-7 of the peak"]


def cases(tier, rng):
    f = {"quick": 1, "thorough": 30}[tier]
    out = []
    for i in range(32 * f):
        out.append(dict(k="pair", kind=["fftlog", "fftlog_dj", "fftlog_ddj", "fftlog_jsqr", "hankel"][i % 5], seed=int(rng.integers(1 << 31))))
    for i in range(24 * f):
        out.append(dict(k="parity", seed=int(rng.integers(1 << 31))))
    for i in range(16 * f):
        out.append(dict(k="laws", seed=int(rng.integers(1 << 31))))
    for i in range(12 * f):
        out.append(dict(k="inverse", seed=int(rng.integers(1 << 31))))
    return out


def libs():
    import jax.numpy as jnp
    try:
        J = setup_repo.get("microjax.fastlens.fftlog_jax:fftlog"), setup_repo.get("microjax.fastlens.fftlog_jax:hankel")
        yield "jax", J, jnp.asarray
    except Exception as e:
        if type(e).__name__ != "RepoMissing":
            raise
    try:
        N = setup_repo.get("microjax.fastlens.fftlog:fftlog"), setup_repo.get("microjax.fastlens.fftlog:hankel")
        yield "numpy", N, np.asarray
    except Exception as e:
        if type(e).__name__ != "RepoMissing":
            raise


def fun(rng):
    """random decaying function: callable"""
    terms = [(float(rng.uniform(.5, 2)), float(rng.uniform(3, 4.5)), float(10 ** rng.uniform(-.3, .3)), int(rng.integers(2))) for _ in range(rng.integers(1, 3))]
    return lambda x: sum(a * (x / c) ** p * (np.exp(-(x / c) ** 2 / 2) if g else np.exp(-2 * x / c)) for a, p, c, g in terms)


def quad(f, kern, y):
    s = np.linspace(np.log(1e-14), np.log(200.0), 40001)
    x = np.exp(s)
    w = f(x) * (s[1] - s[0])
    keep = w != 0
    return np.array([np.sum(w[keep] * kern(x[keep] * t)) for t in y])


def kernel(kind, n):
    from scipy.special import spherical_jn as sj, jv
    if kind == "fftlog":
        return lambda z: sj(n, z)
    if kind == "fftlog_dj":
        return lambda z: sj(n, z, derivative=True)
    if kind == "fftlog_ddj":
        def k(z):
            return np.where(z > 1e-3, -2 / z * sj(n, z, derivative=True) - (1 - n * (n + 1) / z ** 2) * sj(n, z), {0: -1 / 3 + z ** 2 / 10, 1: -z / 5, 2: 2 / 15 - 2 * z ** 2 / 35}.get(n, n * (n - 1) * np.power(z, n - 2.0) / np.prod(np.arange(1.0, 2 * n + 2, 2))))
        return k
    if kind == "fftlog_jsqr":
        return lambda z: sj(n, z) ** 2
    return lambda z: jv(n, z)


def setup(rng, odd=False):
    n = int(rng.choice([1024, 2048, 4096])) + (1 if odd else 0)
    x = np.logspace(-6, 6, n)
    return x


def run(lib, conv, kind, x, fx, nu, n, **opt):
    F, H = lib
    if kind == "hankel":
        y, Fy = H(conv(x), conv(fx), nu, **opt).hankel(n)
    else:
        y, Fy = getattr(F(conv(x), conv(fx), nu, **opt), kind)(n)
    return np.asarray(y), np.asarray(Fy)


def bias(rng, kind, n):
    """bias for which the biased function and the biased transform both vanish at the ends of the grid"""
    k = {"fftlog": n, "fftlog_dj": n - 1 if n else 1, "fftlog_ddj": {0: 0, 1: 1}.get(n, n - 2), "fftlog_jsqr": 2 * n, "hankel": n - .5}[kind]
    hi = .75 if kind == "fftlog_jsqr" else 1.7
    return float(rng.uniform(min(max(1.2 - k, -1.0), hi - .05), hi))        # the squared kernel's transform only falls as y^-2


def k_pair(ctx, kind, seed):
    rng = np.random.default_rng(seed)
    n = int(rng.integers(1 if kind == "fftlog_jsqr" else 0, 6))
    f = fun(rng)
    x = setup(rng, bool(rng.integers(2)))
    y0 = 10 ** rng.uniform(-1.5, 1.3, 24)
    y0.sort()
    nu = bias(rng, kind, n)
    opt = dict(N_pad=int(rng.choice([0, 100, 333])), c_window_width=float(rng.choice([.25, .1, .5])))
    ref = None
    for name, lib, conv in libs():
        y, Fy = run(lib, conv, kind, x, f(x), nu, n, **opt)
        sel = [int(np.argmin(np.abs(np.log(y) - np.log(t)))) for t in y0]
        if ref is None:
            ref = quad(f, kernel(kind, n), y[sel])
        ctx.ran(name, kind, n, nu, seed)
        ctx.close("transform %s" % kind, Fy[sel], ref, rtol=1e-6, atol=1e-5 * np.max(np.abs(ref)), lib=name, n=n, nu=nu, opt=str(opt), nx=len(x))
        xs = x[:-1] if (len(x) % 2 and not opt["N_pad"]) else x
        want = (n + 1.0 if kind != "hankel" else n + .5) / xs[::-1]
        ctx.close("abscissae of %s" % kind, y, want, rtol=1e-9, lib=name, nx=len(x), opt=str(opt))
        ctx.check(Fy.shape == y.shape, "one value per abscissa", lib=name)
    ctx.sample(kind=kind, n=n, nu=nu, nx=len(x), y=y0[3])


def k_parity(ctx, seed):
    rng = np.random.default_rng(seed)
    L = list(libs())
    if len(L) < 2:
        ctx.skip("only one implementation present")
        return
    n0 = int(rng.choice([64, 65, 200, 257, 512, 1000]))
    x = np.logspace(rng.uniform(-5, -2), rng.uniform(1, 3), n0)
    f = fun(rng)
    fx = f(x) + 1e-300
    for kind in ("fftlog", "fftlog_dj", "fftlog_ddj", "fftlog_jsqr", "hankel"):
        n = float(rng.choice([0, 1, 2, 3, 7])) if rng.integers(2) else float(rng.integers(0, 5)) + .5
        if kind == "fftlog_jsqr":
            n = int(n)
        nu = bias(rng, kind, int(n))
        opt = dict(N_pad=int(rng.choice([0, 10, n0 // 2])), c_window_width=float(rng.uniform(.05, .95)), N_extrap_low=int(rng.choice([0, 1, 17, n0 // 2])), N_extrap_high=int(rng.choice([0, 0, 3])))
        if opt["N_extrap_high"] and not fx[-1] > 1e-200:
            opt["N_extrap_high"] = 0
        a, b = [run(lib, conv, kind, x, fx, nu, n, **opt) for _, lib, conv in L]
        ctx.ran("parity", kind, n, nu, seed)
        ctx.close("abscissae of the two implementations", a[0], b[0], rtol=1e-10, kind=kind, opt=str(opt), n0=n0)
        sc = np.abs(b[1]) * b[0] ** nu          # the transform is accurate relative to the biased peak
        ctx.close("values of the two implementations", a[1] * a[0] ** nu, b[1] * b[0] ** nu, rtol=1e-9, atol=1e-9 * sc.max(), kind=kind, n=n, nu=nu, opt=str(opt), n0=n0)


def k_laws(ctx, seed):
    """linearity and scaling"""
    rng = np.random.default_rng(seed)
    f, g = fun(rng), fun(rng)
    x = setup(rng)
    a, b, lam = float(rng.normal()), float(rng.normal()), float(10 ** rng.uniform(-1, 1))
    for kind in ("fftlog", "fftlog_dj", "fftlog_jsqr", "hankel"):
        n = int(rng.integers(0, 5))
        nu = bias(rng, kind, n)
        for name, lib, conv in libs():
            y, A = run(lib, conv, kind, x, f(x), nu, n)
            _, B = run(lib, conv, kind, x, g(x), nu, n)
            _, C = run(lib, conv, kind, x, a * f(x) + b * g(x), nu, n)
            ctx.ran("laws", name, kind, n, seed)
            w = y ** nu
            ctx.close("linearity", C * w, (a * A + b * B) * w, atol=1e-11 * np.max(np.abs(np.array([a * A, b * B])) * w), lib=name, kind=kind)
            yl, S = run(lib, conv, kind, lam * x, f(x), nu, n)
            ctx.close("scaled abscissae", yl, y / lam, rtol=1e-10, lib=name, kind=kind)
            ctx.close("scaling", S * w, A * w, atol=1e-9 * np.max(np.abs(A) * w), lib=name, kind=kind)


def k_inverse(ctx, seed):
    """h = int y H(y) J_n(xy) dy with H = int x h(x) J_n(xy) dx"""
    rng = np.random.default_rng(seed)
    n = int(rng.integers(0, 4))
    p = n + 2 * int(rng.integers(0, 2))
    h = lambda x: x ** p * np.exp(-x ** 2 / 2)
    x = np.logspace(-6, 6, 2048)
    nu = float(rng.uniform(1.2, 1.7))
    for name, lib, conv in libs():
        y, H = run(lib, conv, "hankel", x, x ** 2 * h(x), nu, n, N_pad=512)
        H2 = H
        x2, h2 = run(lib, conv, "hankel", y, y ** 2 * H2, nu, n, N_pad=512)
        sel = (x2 > .02) & (x2 < 8)
        ctx.ran("inverse", name, n, p, nu)
        r = h(x2[sel])
        ctx.close("transforming twice returns the function", h2[sel], r, atol=1e-4 * r.max(), lib=name, n=n, p=p, nu=nu)
        if p == n:
            s = (y > .02) & (y < 8)
            ctx.close("Gaussian self-transform", H[s], y[s] ** n * np.exp(-y[s] ** 2 / 2), atol=1e-6, lib=name, n=n)
