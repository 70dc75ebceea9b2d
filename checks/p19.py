"""Fourier-based single-lens finite-source magnification."""
import numpy as np
from vlib import oracle as O, gen, setup_repo

ID = "P19"
RULE = ("radii 1e-4..3 (and 1e-6..1e-4 for the classes that have a small-source branch, both sides of the switch), impact parameters 0, inside, at, next to and outside the limb, far (up to 300), negative; "
        "uniform, linear limb-darkened (coefficients 0..1) and square-root / parabolic profiles; JAX and reference implementations; larger and shifted transform grids; non-trivial = (class, radius, u) judged")
ASSUMPTIONS = ["direct two-dimensional quadrature of the point-source magnification over the disc, relative accuracy 1e-6",
               "documented precision of the method: 0.3 per cent, relaxed to 0.8 per cent within two per cent of the limb"]


def cases(tier, rng):
    f = {"quick": 1, "thorough": 30}[tier]
    out = []
    for i in range(24 * f):
        rho = float(10 ** rng.uniform(-4, .5)) if i % 6 else float(rng.choice([1e-4, 1.01e-4, 1e-3, .1, 1.0, 3.0]))
        out.append(dict(k="jaxmag", rho=rho, a1=float(rng.choice([0.0, .3, .6, 1.0])) if i % 2 else float(rng.uniform()), seed=int(rng.integers(1 << 31)), small=0))
    for i in range(10 * f):
        rho = float(10 ** rng.uniform(-6, -4)) if i % 5 else 9.9e-5
        out.append(dict(k="jaxmag", rho=rho, a1=float(rng.uniform()), seed=int(rng.integers(1 << 31)), small=1))
    for i in range(24 * f):
        rho = float(10 ** rng.uniform(-4, .5)) if i % 3 else float(10 ** rng.uniform(-6, -4))
        out.append(dict(k="parity", rho=rho, a1=float(rng.uniform()), seed=int(rng.integers(1 << 31))))
    for i in range(8 * f):
        out.append(dict(k="shape", rho=float(10 ** rng.uniform(-3.5, 0)), a1=float(rng.uniform()), seed=int(rng.integers(1 << 31))))
    return out


def us(rng, rho):
    u = np.concatenate([rho * np.array([0.0, 1e-3, .3, .7, .9, .97, .99, 1.0, 1.01, 1.03, 1.1, 1.5, 3.0, 9.9, 10.1]), rho * rng.uniform(0, 2.5, 5), 10 ** rng.uniform(-3, 1.5, 4), [99.0, 101.0, 300.0]])
    u[rng.integers(1, len(u), 3)] *= -1
    return u


PROF = {"disk": lambda a: (lambda x: np.ones_like(x)), "lin": lambda a: (lambda x: (1 - a * (1 - np.sqrt(np.maximum(1 - x * x, 0)))) / (1 - a / 3)),
        "sqrt": lambda a: (lambda x: 1.5 * np.sqrt(np.maximum(1 - x * x, 0))), "par": lambda a: (lambda x: 2.0 * (1 - x * x))}
_M = {}


def models(a1, lib):
    """(name, profile, function(u, rho), has a small-source branch)"""
    import jax.numpy as jnp
    key = (lib, a1)
    if key in _M:
        return _M[key]
    out = []
    if lib == "jax":
        import microjax.fastlens.mag_fft_jax as M
        md, ml, d, l1, s1, s2 = M.mag_disk(), M.mag_limb(), M.magnification_disk(), M.mag_limb1(a1=a1), M.magnification_limb1(), M.magnification_limb2()
        wrap = lambda f: (lambda u, rho: np.asarray(f(jnp.array(u), rho)))
        out += [("mag_disk", "disk", wrap(lambda u, r: md.A(u, r)), False), ("mag_limb", "lin", wrap(lambda u, r: ml.A(u, r, a1)), False),
                ("magnification_disk", "disk", wrap(d.A), True), ("mag_limb1", "lin", wrap(l1.A), True), ("magnification_limb1", "sqrt", wrap(s1.A), True), ("magnification_limb2", "par", wrap(s2.A), True)]
    else:
        import microjax.fastlens.mag_fft as M
        d, s1, s2 = M.magnification_disk(), M.magnification_limb(1), M.magnification_limb(2)
        wrap = lambda f: (lambda u, rho: np.asarray(f(np.array(u), rho)))
        out += [("magnification_disk", "disk", wrap(d.A), True), ("magnification_limb1", "sqrt", wrap(s1.A), True), ("magnification_limb2", "par", wrap(s2.A), True)]
    _M.clear()
    _M[key] = out
    return out


def k_jaxmag(ctx, rho, a1, seed, small):
    u = us(np.random.default_rng(seed), rho)
    refs = {}
    for name, prof, f, sm in models(a1, "jax"):
        if small and not sm:
            continue
        if prof not in refs:
            refs[prof] = np.array([O.single_extended(abs(x), rho, PROF[prof](a1)) for x in u])
        judge(ctx, name, f(u, rho), refs[prof], u, rho, a1)
    ctx.sample(rho=rho, a1=a1, u=u[3], ref=refs["disk"][3])


def judge(ctx, name, got, ref, u, rho, a1):
    ctx.check(got.shape == u.shape, "one value per impact parameter", name=name)
    x = np.abs(u) / rho
    lim = np.where(np.abs(x - 1) < .021, 1e-2, np.where(np.abs(x - 1) < .12, 5e-3, 3e-3))
    e = np.abs(got / ref - 1)
    for i in range(len(u)):
        ctx.ran(name, rho, float(u[i]), a1)
        ctx.put("e_" + name, [float(x[i]), float(rho), float(e[i])])
    i = int(np.argmax(np.where(np.isfinite(e), e / lim, 99)))
    ctx.check(e[i] <= lim[i], "fast single-lens magnification differs from the direct integral", name=name, u=u[i], rho=rho, a1=a1, got=got[i], ref=ref[i], err=e[i])
    ctx.check(np.all(got >= 1 - 1e-4), "magnification below one", name=name, rho=rho)


def k_parity(ctx, rho, a1, seed):
    u = us(np.random.default_rng(seed), rho)
    J = {n: f for n, _, f, _ in models(a1, "jax")}
    try:
        N = models(a1, "np")
    except ImportError:
        ctx.skip("reference implementation not importable")
        return
    for name, prof, f, _ in N:
        a, b = J[name](u, rho), f(u, rho)
        ctx.ran("parity", name, rho, seed)
        x = np.abs(u) / rho          # the small-source branches build their tables on different grids
        ctx.close("JAX and reference implementation (%s)" % name, a, b, atol=np.abs(b) * (2e-6 if rho >= 1e-4 else np.where(np.abs(x - 1) < .12, 6e-3, 3e-3)), rho=rho)
        # the numpy classes against the integral as well
        if rho >= 1e-4:
            ref = np.array([O.single_extended(abs(x), rho, PROF[prof](a1)) for x in u])
            judge(ctx, "numpy " + name, b, ref, u, rho, a1)


def k_shape(ctx, rho, a1, seed):
    """batching, sign, order, compilation"""
    import jax, jax.numpy as jnp
    rng = np.random.default_rng(seed)
    u = us(rng, rho)
    for name, prof, f, _ in models(a1, "jax"):
        v = f(u, rho)
        ctx.ran("shape", name, rho, seed)
        ctx.close("sign of the impact parameter (%s)" % name, f(-u, rho), v, rtol=1e-12)
        pm = rng.permutation(len(u))
        ctx.close("order of the impact parameters (%s)" % name, f(u[pm], rho), v[pm], rtol=1e-12)
        ctx.close("one at a time (%s)" % name, np.array([f(x, rho)[0] for x in u[:6]]), v[:6], rtol=1e-12)
    import microjax.fastlens.mag_fft_jax as M
    m = M.mag_limb()
    ctx.close("compiled", np.asarray(jax.jit(lambda u, r, a: m.A(u, r, a))(jnp.array(u), rho, a1)), np.asarray(m.A(jnp.array(u), rho, a1)), rtol=1e-7)
    ctx.close("coefficient zero is the uniform disc", np.asarray(m.A(jnp.array(u), rho, 0.0)), np.asarray(M.mag_disk().A(jnp.array(u), rho)), rtol=1e-6)
    big = M.mag_disk(N_fft=2048)
    ctx.close("finer transform grid", np.asarray(big.A(jnp.array(u), rho)), np.array([O.single_extended(abs(x), rho, PROF["disk"](0)) for x in u]), rtol=1e-2)


def finalize(agg):
    for name in sorted(agg.series):
        a = np.array(agg.series[name])
        e = a[:, 2]
        agg.extra[name] = dict(n=len(e), median=float(np.median(e)), q99=float(np.quantile(e, .99)), max=float(e.max()))
        if not np.median(e) <= 3e-4:
            agg.fail("median error of the fast magnification exceeds 3e-4", name=name, got=float(np.median(e)))
