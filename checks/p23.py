"""Weighted linear flux fit."""
import numpy as np

ID = "P23"
RULE = ("3..2000 data points; magnifications smooth, peaked, nearly constant (relative spread down to 1e-6), negative predictors; fluxes over 8 decades; no errors, scalar errors, per-point errors, errors with zeros; "
        "interpreted, compiled, vectorised; non-trivial = data set")
ASSUMPTIONS = ["weighted least squares by QR in extended precision; tolerance proportional to the condition of the normal equations", "zero error means weight one (documented)"]


def cases(tier, rng):
    f = {"quick": 1, "thorough": 40}[tier]
    out = []
    for k, n in (("fit", 120), ("laws", 60), ("coverage", 8)):
        for i in range(n * f):
            out.append(dict(k=k, seed=int(rng.integers(1 << 31))))
    return out


def data(rng):
    n = int(rng.choice([3, 4, 10, 50, 500, 2000]))
    k = int(rng.integers(4))
    x = 1 + rng.exponential(size=n)
    if k == 1:
        x = 1 + 10 ** rng.uniform(-6, -1) * rng.uniform(size=n)
    if k == 2:
        x = rng.normal(size=n) * 10 ** rng.uniform(-3, 3)
    if k == 3:
        x = np.ones(n)
        x[rng.integers(n)] = 10 ** rng.uniform(.5, 3)
    s = 10 ** rng.uniform(-4, 4)
    y = s * (rng.normal() * x + rng.normal() + rng.normal(size=n) * rng.choice([.01, 1.0]))
    m = int(rng.integers(5))
    err = [None, float(s * rng.uniform(.1, 3)), s * rng.uniform(.1, 3, n), s * 10 ** rng.uniform(-1, 1, n), np.where(rng.uniform(size=n) < .3, 0.0, s * rng.uniform(.5, 2, n))][m]
    return x, y, err, m


def ref(x, y, err):
    L = np.longdouble
    e = np.broadcast_to(np.asarray(0.0 if err is None else err), x.shape)
    w = np.where(e > 0, 1 / np.where(e > 0, e, 1) ** 2, 1.0).astype(L)
    x, y = x.astype(L), y.astype(L)
    W = w.sum()
    xm, ym = (w * x).sum() / W, (w * y).sum() / W
    Sxx = (w * (x - xm) ** 2).sum()
    b = (w * (x - xm) * (y - ym)).sum() / Sxx
    a = ym - b * xm
    chi2 = (w * (y - a - b * x) ** 2).sum()
    be = 1 / np.sqrt(Sxx)
    ae = np.sqrt(1 / W + xm ** 2 / Sxx)
    cond = float((w * x * x).sum() / Sxx)
    return [float(v) for v in (b, be, a, ae, chi2)], cond, float((w * y * y).sum()), w.astype(float)


def k_fit(ctx, seed):
    import jax, jax.numpy as jnp, microjax.likelihood as lk
    rng = np.random.default_rng(seed)
    x, y, err, m = data(rng)
    R, cond, yy, w = ref(x, y, err)
    if cond > 1e11:
        ctx.skip("design degenerate to rounding")
        return
    args = (jnp.array(x), jnp.array(y)) + (() if err is None else (jnp.array(err) if m > 1 else err,))
    sx = np.sqrt(np.sum(w * x * x))
    scale = [np.sqrt(yy) / sx * np.sqrt(cond), R[1], np.sqrt(yy / w.sum()) * np.sqrt(cond), R[3], R[4] + yy * 1e-3]
    for how, f in (("interpreted", lk.linear_chi2), ("compiled", jax.jit(lk.linear_chi2))):
        out = [float(v) for v in f(*args)]
        ctx.ran(how, seed)
        ctx.check(len(out) == 5, "five numbers")
        for name, g, r, s in zip(("slope", "slope error", "intercept", "intercept error", "chi-square"), out, R, scale):
            eps = 1e-13 * (1 + cond)
            ctx.close("%s (%s)" % (name, how), g, r, atol=s * (eps if name != "chi-square" else eps * (1 + eps * cond * 10)) + 1e-300, rtol=1e-10, cond=cond, errs=m, n=len(x))
    # optimality: no perturbed flux pair does better
    b, be, a, ae, chi2 = out
    for _ in range(20):
        db, da = rng.normal() * R[1], rng.normal() * R[3]
        c = float(np.sum(w * (y - (a + da) - (b + db) * x) ** 2))
        ctx.check(c >= chi2 * (1 - 1e-9) - 1e-13 * (1 + cond) * yy, "another pair of fluxes has a smaller chi-square", got=chi2, other=c, kappa=cond)
    if len(ctx.samples) < 2:
        ctx.sample(n=len(x), errs=m, b=b, a=a, chi2=chi2)


def k_laws(ctx, seed):
    import jax, jax.numpy as jnp, microjax.likelihood as lk
    rng = np.random.default_rng(seed)
    x, y, err, m = data(rng)
    R, cond, yy, w = ref(x, y, err)
    if cond > 1e7:
        ctx.skip("design degenerate to rounding")
        return
    f = lambda x, y, e: np.array([float(v) for v in (lk.linear_chi2(jnp.array(x), jnp.array(y)) if e is None else lk.linear_chi2(jnp.array(x), jnp.array(y), jnp.array(e)))])
    v = f(x, y, err)
    sc = np.array([np.sqrt(yy / np.sum(w * x * x) * cond), R[1], np.sqrt(yy / w.sum() * cond), R[3], R[4] + 1e-3 * yy])
    lim = sc * 1e-12 * (1 + cond) + 1e-300
    c = float(10 ** rng.uniform(-2, 2))
    ctx.ran("laws", seed)
    p = rng.permutation(len(x))
    ctx.close("order of the data", f(x[p], y[p], err if np.ndim(err) == 0 else err[p]) if err is not None else f(x[p], y[p], None), v, atol=lim, rtol=1e-9)
    ctx.close("flux scaling", f(x, c * y, err), v * np.array([c, 1, c, 1, c * c]), atol=lim * np.array([c, 1, c, 1, c * c]), rtol=1e-9)
    if err is not None and np.all(np.asarray(err) > 0):
        ctx.close("error scaling", f(x, y, c * np.asarray(err)), v * np.array([1, c, 1, c, 1 / c ** 2]), atol=lim * np.array([1, c, 1, c, c ** -2]), rtol=1e-9)
    if err is not None and np.ndim(err) == 0:
        ctx.close("scalar error equals equal errors", f(x, y, np.full(len(x), err)), v, atol=lim, rtol=1e-9)
    ctx.close("exact data are fitted exactly", f(x, 2.5 * x - 1.5, err)[[0, 2]], [2.5, -1.5], atol=1e-13 * cond * (1 + np.abs(x).max()) * 10, rtol=1e-9)
    vm = jax.vmap(lambda yy: jnp.stack(lk.linear_chi2(jnp.array(x), yy) if err is None else lk.linear_chi2(jnp.array(x), yy, jnp.array(err))))(jnp.stack([jnp.array(y), 2 * jnp.array(y)]))
    ctx.close("vectorised over data sets", np.asarray(vm[0]), v, atol=lim, rtol=1e-9)


def k_coverage(ctx, seed):
    """the reported uncertainties are the scatter of the estimates"""
    import jax, jax.numpy as jnp, microjax.likelihood as lk
    rng = np.random.default_rng(seed)
    n = 60
    x = 1 + rng.exponential(size=n)
    e = rng.uniform(.2, 3, n)
    Y = 3 * x - 1 + rng.normal(size=(6000, n)) * e
    o = [np.asarray(v) for v in jax.vmap(lambda y: lk.linear_chi2(jnp.array(x), y, jnp.array(e)))(jnp.array(Y))]
    ctx.ran("coverage", seed, n=6000)
    ctx.close("scatter of the slope", np.std(o[0]) / o[1][0], 1.0, atol=.06)
    ctx.close("scatter of the intercept", np.std(o[2]) / o[3][0], 1.0, atol=.06)
    ctx.close("mean chi-square is the number of degrees of freedom", o[4].mean(), n - 2, atol=1.0)
