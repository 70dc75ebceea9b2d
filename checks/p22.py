"""Marginalised likelihood."""
import numpy as np
from vlib import setup_repo

ID = "P22"
RULE = ("2..400 data points; magnification curves smooth, spiked, constant, all ones, huge; variances over 8 decades, equal and mixed; prior widths 1e-6..1e9; correlated covariances (exponential, random SPD), prior means and correlated priors; "
        "interpreted, compiled, vectorised; gradients; non-trivial = (data set, function)")
ASSUMPTIONS = ["the marginal density of the data under the linear Gaussian model is evaluated from the dense n x n marginal covariance with extended precision (numpy longdouble Cholesky)",
               "conditioning: the closed form subtracts the explained from the total chi-square, so the tolerance scales with the total chi-square"]


def cases(tier, rng):
    f = {"quick": 1, "thorough": 40}[tier]
    out = []
    for k, n in (("diag", 60), ("general", 60), ("invariance", 30), ("grad", 16), ("limits", 16)):
        for i in range(n * f):
            out.append(dict(k=k, seed=int(rng.integers(1 << 31))))
    return out


def chol(A):
    A = A.astype(np.longdouble).copy()
    n = len(A)
    for j in range(n):
        d = A[j, j] - A[j, :j] @ A[j, :j]
        A[j, j] = np.sqrt(d)
        if j + 1 < n:
            A[j + 1:, j] = (A[j + 1:, j] - A[j + 1:, :j] @ A[j, :j]) / A[j, j]
    return np.tril(A)


def marginal(flux, M, C, mu, L):
    """0.5*(r^T S^-1 r + log|S|), S = C + M L M^T, extended precision"""
    C, M, L = C.astype(np.longdouble), M.astype(np.longdouble), L.astype(np.longdouble)
    S = C + M @ L @ M.T
    # whiten by C first: S = Lc (I + V L V^T) Lc^T keeps the condition number down
    Lc = chol(C)
    V = fwd(Lc, M)
    r = fwd(Lc, flux.astype(np.longdouble) - M @ mu.astype(np.longdouble))
    Ll = chol(L)
    W = V @ Ll
    K = np.eye(2, dtype=np.longdouble) + W.T @ W
    Lk = chol(K)
    # min_x |r - W x|^2 + |x|^2 by orthogonalisation: no cancellation, whatever the prior widths
    B = np.vstack([W, np.eye(2, dtype=np.longdouble)])
    e = np.concatenate([r, np.zeros(2, dtype=np.longdouble)])
    Q = gs(B)
    for _ in range(2):
        e = e - Q @ (Q.T @ e)
    quad = e @ e
    logdet = 2 * np.sum(np.log(np.diag(Lc))) + 2 * np.sum(np.log(np.diag(Lk)))
    return float(.5 * (quad + logdet)), float(r @ r), float(np.sum(np.abs(np.log(np.diag(Lc)))))


def gs(V):
    q = []
    for v in V.T:
        w = v.copy()
        for _ in range(2):
            for u in q:
                w = w - u * (u @ w)
        n = np.sqrt(w @ w)
        q.append(w / n)
    return np.array(q).T


def fwd(L, B):
    B = B.astype(np.longdouble).copy()
    for i in range(len(L)):
        B[i] = (B[i] - L[i, :i] @ B[:i]) / L[i, i]
    return B


def data(rng, nmax=200):
    n = int(rng.choice([2, 3, 5, 20, nmax]))
    kind = int(rng.integers(5))
    t = np.sort(rng.uniform(-2, 2, n))
    u = np.sqrt(10 ** rng.uniform(-3, 0) + t ** 2)
    A = (u ** 2 + 2) / (u * np.sqrt(u ** 2 + 4))
    if kind == 1:
        A = A.copy()
        A[rng.integers(n)] = 10 ** rng.uniform(1, 3)
    if kind == 2:
        A = np.full(n, float(rng.uniform(1, 5)))
    if kind == 3:
        A = np.ones(n) + 10 ** rng.uniform(-12, -2) * rng.uniform(size=n)
    M = np.stack([A, np.ones(n)], 1)
    fs, fb = rng.normal(size=2) * 10 ** rng.uniform(-2, 3)
    s2 = 10 ** rng.uniform(-6, 4) * (np.ones(n) if rng.integers(2) else 10 ** rng.uniform(-2, 2, n))
    flux = fs * A + fb + rng.normal(size=n) * np.sqrt(s2) * rng.choice([1, 1, 30])
    return flux, M, s2


def tol(q, ld, flux, M, mu=None):
    return 1e-9 + 2e-12 * ld + 2e-12 * q


def k_diag(ctx, seed):
    import jax, jax.numpy as jnp, microjax.likelihood as lk
    rng = np.random.default_rng(seed)
    flux, M, s2 = data(rng)
    a, b = 10 ** rng.uniform(-6, 9, 2)
    ref, q, ld = marginal(flux, M, np.diag(s2), np.zeros(2), np.diag([a, b]))
    J = [jnp.array(v) for v in (flux, M, s2)]
    # the determinant of the 2x2 posterior precision cancels when the columns are nearly parallel
    w = M.T @ (M / s2[:, None]) + np.diag([1 / a, 1 / b])
    cond = w[0, 0] * w[1, 1] / max(np.linalg.det(w.astype(float)), 1e-300)
    ctx.ran("diag", seed)
    if not (0 < cond < 1e9):
        ctx.skip("design numerically degenerate for the prior (condition > 1e9)")
        return
    got = float(lk.nll_ulens(*J, a, b))
    lim = (1e-9 + 1e-12 * ld + 1e-13 * q) * (1 + cond * 1e-2) + 1e-15 * cond * q
    ctx.close("negative log-likelihood (diagonal)", got, ref, atol=lim, rtol=1e-10, n=len(flux), prior=[a, b], cond=cond, q=q)
    ctx.close("compiled value", float(jax.jit(lk.nll_ulens)(*J, a, b)), ref, atol=lim, rtol=1e-10, n=len(flux))
    g = float(lk.nll_ulens_general(J[0], J[1], jnp.diag(J[2]), jnp.zeros(2), jnp.diag(jnp.array([a, b]))))
    ctx.close("general function on a diagonal problem", g, ref, atol=lim, rtol=1e-9, n=len(flux), cond=cond)
    if len(ctx.samples) < 2:
        ctx.sample(n=len(flux), prior=[a, b], nll=ref)


def k_general(ctx, seed):
    import jax, jax.numpy as jnp, microjax.likelihood as lk
    rng = np.random.default_rng(seed)
    flux, M, s2 = data(rng, 80)
    n = len(flux)
    s = np.sqrt(s2)
    if rng.integers(2):
        t = np.sort(rng.uniform(-1, 1, n))
        R = np.exp(-np.abs(t[:, None] - t) / 10 ** rng.uniform(-1.5, 0)) * rng.uniform(0, .9)
        R[np.diag_indices(n)] = 1
    else:
        B = rng.normal(size=(n, n))
        R = B @ B.T / n + np.eye(n) * .3
    C = R * s[:, None] * s
    mu = rng.normal(size=2) * 10 ** rng.uniform(-2, 2)
    a, b = 10 ** rng.uniform(-3, 5, 2)
    r = rng.uniform(-.95, .95)
    L = np.array([[a, r * np.sqrt(a * b)], [r * np.sqrt(a * b), b]])
    ref, q, ld = marginal(flux, M, C, mu, L)
    Mw = M / s[:, None]
    w = M.T @ np.linalg.solve(C, M) + np.linalg.inv(L)
    cond = np.linalg.cond(w) if np.all(np.isfinite(w)) else np.inf
    sc = w / np.sqrt(np.outer(np.diag(w), np.diag(w)))
    cond = np.linalg.cond(sc)
    if cond > 1e9:
        ctx.skip("design numerically degenerate for the prior (condition > 1e9)")
        return
    ctx.ran("general", seed)
    kc = np.linalg.cond(R) * (s.max() / s.min())
    lim = (1e-9 + 1e-12 * ld + 1e-13 * q) * (1 + cond * 1e-2) + (cond + kc) * 1e-14 * (q + 1)
    for how, f in (("interpreted", lk.nll_ulens_general), ("compiled", jax.jit(lk.nll_ulens_general))):
        ctx.close("negative log-likelihood (general, %s)" % how, float(f(*[jnp.array(v) for v in (flux, M, C, mu, L)])), ref, atol=lim, rtol=1e-9, n=n, cond=cond, kc=kc)


def k_invariance(ctx, seed):
    import jax, jax.numpy as jnp, microjax.likelihood as lk
    rng = np.random.default_rng(seed)
    flux, M, s2 = data(rng)
    a, b = 10 ** rng.uniform(-1, 5, 2)
    f = lambda *v: float(lk.nll_ulens(*[jnp.array(x) for x in v]))
    v0 = f(flux, M, s2, a, b)
    q = float(np.sum(flux ** 2 / s2))
    w = M.T @ (M / s2[:, None]) + np.diag([1 / a, 1 / b])
    cond = w[0, 0] * w[1, 1] / max(np.linalg.det(w), 1e-300)
    if not (0 < cond < 1e8):
        ctx.skip("design numerically degenerate for the prior (condition > 1e9)")
        return
    lim = dict(rtol=1e-10, atol=1e-9 + 1e-14 * (cond + 10) * q + 1e-9)
    p = rng.permutation(len(flux))
    ctx.ran("invariance", seed)
    ctx.close("order of the data", f(flux[p], M[p], s2[p], a, b), v0, **lim)
    ctx.close("exchanging the two flux components", f(flux, M[:, ::-1].copy(), s2, b, a), v0, **lim)
    c = float(10 ** rng.uniform(-3, 3))
    ctx.close("change of flux unit", f(c * flux, M, c * c * s2, c * c * a, c * c * b), v0 + len(flux) * np.log(c), **lim)
    ctx.close("sign of the fluxes", f(-flux, M, s2, a, b), v0, **lim)
    # data split in two halves processed as one covariance block
    k = 3
    vm = np.asarray(jax.vmap(lk.nll_ulens, in_axes=(0, None, None, None, None))(jnp.stack([jnp.array(flux) * (i + 1) for i in range(k)]), jnp.array(M), jnp.array(s2), a, b))
    ctx.close("vectorised over data sets", vm, np.array([f(flux * (i + 1), M, s2, a, b) for i in range(k)]), rtol=1e-9, atol=9 * lim["atol"])
    m0, L = rng.normal(size=2), np.diag([a, b])
    g = lambda fl, mu: float(lk.nll_ulens_general(jnp.array(fl), jnp.array(M), jnp.array(np.diag(s2)), jnp.array(mu), jnp.array(L)))
    ctx.close("prior mean only shifts the data", g(flux + M @ m0, m0), g(flux, 0 * m0), rtol=1e-8, atol=lim["atol"] * 10 + 1e-12 * float(np.sum((M @ m0) ** 2 / s2)))


def k_grad(ctx, seed):
    import jax, jax.numpy as jnp, microjax.likelihood as lk
    rng = np.random.default_rng(seed)
    flux, M, s2 = data(rng)
    a, b = 10 ** rng.uniform(-1, 5, 2)
    d = M.copy()
    dA = rng.normal(size=len(flux))

    def F(e):
        return marginal(flux, M + e * np.stack([dA, 0 * dA], 1), np.diag(s2), np.zeros(2), np.diag([a, b]))[0]
    def G(e):
        return lk.nll_ulens(jnp.array(flux), jnp.array(M) + e * jnp.stack([jnp.array(dA), jnp.zeros(len(flux))], 1), jnp.array(s2), a, b)
    h = 1e-4
    D = lambda h: (F(h) - F(-h)) / (2 * h)
    d1, d2 = D(h), D(h / 2)
    ref = (4 * d2 - d1) / 3
    err = abs(d2 - d1)
    q = float(np.sum(flux ** 2 / s2))
    if err > 1e-3 * abs(ref) + 1e-6:
        ctx.skip("difference quotient not converged")
        return
    w = M.T @ (M / s2[:, None]) + np.diag([1 / a, 1 / b])
    cond = w[0, 0] * w[1, 1] / max(np.linalg.det(w), 1e-300)
    if not (0 < cond < 1e6):
        ctx.skip("design numerically degenerate for the prior (condition > 1e9)")
        return
    ctx.ran("grad", seed)
    lim = 10 * err + 1e-8 * abs(ref) + 1e-5 + 1e-12 * q * cond
    ctx.close("derivative along a change of the magnification curve (reverse)", float(jax.grad(G)(0.0)), ref, atol=lim)
    ctx.close("derivative along a change of the magnification curve (forward)", float(jax.jvp(G, (0.0,), (1.0,))[1]), ref, atol=lim)


def k_limits(ctx, seed):
    """no blending data degenerate designs stay finite"""
    import jax, jax.numpy as jnp, microjax.likelihood as lk
    rng = np.random.default_rng(seed)
    n = int(rng.choice([1, 2, 5, 50]))
    flux = rng.normal(size=n) * 10
    s2 = 10 ** rng.uniform(-2, 2, n)
    a, b = 10 ** rng.uniform(-2, 3, 2)
    for A in (np.ones(n), np.zeros(n), np.full(n, 3.0)):
        M = np.stack([A, np.ones(n)], 1)
        ref, q, ld = marginal(flux, M, np.diag(s2), np.zeros(2), np.diag([a, b])) if A.any() else marginal(flux, M[:, ::-1], np.diag(s2), np.zeros(2), np.diag([b, a]))
        ctx.ran("limits", n, float(A[0]), seed)
        v = float(lk.nll_ulens(jnp.array(flux), jnp.array(M), jnp.array(s2), a, b))
        ctx.close("degenerate magnification curve", v, ref, rtol=1e-8, atol=1e-7 + 1e-9 * q, n=n, A=float(A[0]))
        g = float(lk.nll_ulens_general(jnp.array(flux), jnp.array(M), jnp.diag(jnp.array(s2)), jnp.zeros(2), jnp.diag(jnp.array([a, b]))))
        ctx.close("degenerate magnification curve (general)", g, ref, rtol=1e-8, atol=1e-7 + 1e-9 * q, n=n, A=float(A[0]))
