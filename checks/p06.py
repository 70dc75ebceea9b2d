"""Polynomial root finder: every root with its multiplicity, whatever the coefficients, the batch shape or the initial guess."""
import numpy as np
from vlib import setup_repo

ID = "P06"
RULE = ("batches of polynomials of degree 1-10 with prescribed roots (generic, widely spread, all small, real, conjugate pairs, equal modulus, double, triple, nearly double, pairs 1e-7..1e-3 apart on or across the real axis, zero root), "
        "times constants of size 1e-10..1e10 and arbitrary phase, plus random coefficient vectors; batch shapes (n+1,), (N,n+1), (M,K,n+1); default, perturbed, "
        "permuted, random and exact initial guesses; non-trivial = one polynomial, keyed by its coefficients")
ASSUMPTIONS = ["scope: leading coefficient not zero and Cauchy bound of the roots below 1e7 (100 iterations from the Cauchy circle)"]
KINDS = ["gauss", "wide", "real", "conj", "circle", "double", "triple", "cluster", "zero", "coef", "realcoef", "pair", "split", "small"]


def cases(tier, rng):
    k = {"quick": 3, "thorough": 40}[tier]
    out = []
    for n in range(1, 11):
        for kind in KINDS:
            if n < 3 and kind in ("double", "triple", "cluster", "pair", "split"):
                continue
            for j in range(k):
                out.append(dict(k="roots", n=n, kind=kind, N=60, seed=int(rng.integers(1 << 31)), g="d%d" % n))
        out.append(dict(k="shapes", n=n, seed=int(rng.integers(1 << 31)), g="d%d" % n))
        for j in range(k):
            out.append(dict(k="init", n=n, seed=int(rng.integers(1 << 31)), g="d%d" % n))
    return out


def draw(rng, kind, n):
    """(roots or None, coefficients)"""
    g = lambda: rng.normal(size=n) + 1j * rng.normal(size=n)
    if kind == "coef":
        return None, np.concatenate([[np.exp(1j * rng.uniform(0, 6.3)) * 10 ** rng.uniform(-1, 1)], g()])
    if kind == "realcoef":
        return None, np.concatenate([[rng.choice([-1, 1]) * 10 ** rng.uniform(-1, 1)], rng.normal(size=n)]) + 0j
    if kind == "wide":
        e = 2.0 if n <= 4 else (1.0 if n <= 6 else 0.5)
        r = 10 ** rng.uniform(-e, e, n) * np.exp(2j * np.pi * rng.uniform(size=n))
    elif kind == "real":
        r = rng.normal(size=n) + 0j
    elif kind == "conj":
        h = n // 2
        a = rng.normal(size=h) + 1j * rng.normal(size=h)
        r = np.concatenate([a, a.conj(), rng.normal(size=n - 2 * h) + 0j])
    elif kind == "pair":
        # real coefficients, two roots barely off the real axis or barely apart on it
        h = (n - 2) // 2
        a = rng.normal(size=h) + 1j * rng.normal(size=h)
        d = 10 ** rng.uniform(-7.3, -3) * rng.choice([1, 1j])
        x = rng.normal()
        r = np.concatenate([[x + d, x - d], a, a.conj(), rng.normal(size=n - 2 - 2 * h) + 0j])
    elif kind == "small":
        r = g() * 10 ** rng.uniform(-4, -1)
    elif kind == "circle":
        r = 10 ** rng.uniform(-.5, .5) * np.exp(2j * np.pi * (np.arange(n) + rng.uniform()) / n) + (rng.normal() + 1j * rng.normal()) * .1
    else:
        r = g()
        if kind == "double":
            r[1] = r[0]
        if kind == "triple":
            r[1] = r[2] = r[0]
        if kind == "cluster":
            r[1] = r[0] + 10 ** rng.uniform(-7, -2) * np.exp(1j * rng.uniform(0, 6.3))
        if kind == "split":
            r[1] = r[0] + 10 ** rng.uniform(-7.3, -3) * np.exp(1j * rng.uniform(0, 6.3))
        if kind == "zero":
            r[0] = 0
    sc = 10 ** rng.uniform(-10, 10)
    ph = rng.choice([-1, 1]) if kind in ("real", "conj", "pair") else np.exp(1j * rng.uniform(0, 6.3))
    c = np.poly(r) * sc * ph
    if kind in ("real", "conj", "pair"):
        c = c.real + 0j
    return r, c


def judge(ctx, c, z, kind, where):
    n = len(c) - 1
    ok = bool(np.all(np.isfinite(z)))
    be = ce = np.inf
    if ok:
        scale = np.polyval(np.abs(c), np.abs(z)) + np.max(np.abs(c)) * 1e-30
        res = np.abs(np.polyval(c, z))
        # a root at zero has a purely relative residual; accept an absolutely tiny one
        be = np.max(np.where(np.abs(z) < 1e-9, res / np.max(np.abs(c)) * 1e-3, res / scale))
        rec = np.poly(z)
        env = np.abs(np.poly(-np.abs(z)))
        ce = np.max(np.abs(rec - c / c[0]) / (env + 1e-3 * env.max() * 1e-6 + 1e-12))
    lim = {"double": 1e-4, "triple": 3e-2, "cluster": 1e-4, "pair": 1e-4, "split": 1e-4}.get(kind, 1e-6)
    ctx.ran(kind, n, complex(c[-1]), complex(c[0]))
    ctx.ev("polynomials_degree_%d" % n)
    ctx.top("coefficient reconstruction error %s" % kind, ce)
    ctx.check(ok and be < 1e-9 and ce < lim, "the roots returned are not the roots of the polynomial (with multiplicity)", kind=kind, where=where,
              coeffs=c, roots=z, backward=be, reconstruction=ce)


def exact_roots(c):
    """roots of this very coefficient vector, in extended precision, with the size of the unavoidable rounding error of each (None: not resolvable)"""
    cl = c.astype(np.clongdouble)
    z = np.roots(c).astype(np.clongdouble)
    if len(z) != len(c) - 1:
        return None
    dc = np.polyder(cl)
    with np.errstate(all="ignore"):
        for _ in range(40):
            f, fp = np.polyval(cl, z), np.polyval(dc, z)
            d = z[:, None] - z[None, :]
            np.fill_diagonal(d, 1)
            s = (1 / d).sum(1) - 1
            u = np.where(f == 0, 0, f / (fp - f * s))
            z = z - u
            if not np.all(np.isfinite(z)):
                return None
            if np.all(np.abs(u) <= 1e-17 * np.abs(z)):
                break
        b = 2.3e-16 * np.polyval(np.abs(c), np.abs(z).astype(float)) / np.abs(np.polyval(dc, z)).astype(float)
    gap = np.abs(z[:, None] - z[None, :]).astype(float)
    np.fill_diagonal(gap, np.inf)
    if not np.all(100 * b < gap.min(1) if len(z) > 1 else b < 1):
        return None
    return z, b


def forward(ctx, c, z, kind, where):
    """every root to the accuracy its conditioning allows, one to one"""
    e = exact_roots(c)
    if e is None:
        ctx.ev("roots_not_resolvable_in_double_precision")
        return
    t, b = e
    D = np.abs(z[:, None] - t[None, :]).astype(float)
    j = D.argmin(1)
    err = D.min(1)
    lim = 30 * b[j] + 2e-11
    ctx.ev("roots_compared_with_extended_precision", len(z))
    ctx.top("forward error in units of the conditioning (%s)" % kind, np.max(err / (b[j] + 1e-12)))
    ctx.check(np.all(np.isfinite(z)) and len(set(j.tolist())) == len(t) and np.all(err <= lim), "a root is not as accurate as its conditioning allows", kind=kind, where=where, coeffs=c, got=z,
              exact=t.astype(complex), error=float(np.nanmax(err)))


def k_roots(ctx, n, kind, N, seed):
    import jax.numpy as jnp
    f = setup_repo.get("microjax.poly_solver:poly_roots")
    rng = np.random.default_rng(seed)
    RC = []
    while len(RC) < N:
        r, c = draw(rng, kind, n)
        if 1 + np.max(np.abs(c[1:] / c[0])) < 1e7:
            RC.append((r, c))
    C = np.array([c for _, c in RC])
    Z = np.asarray(f(jnp.array(C)))
    ctx.check(Z.shape == (N, n), "one row of roots per polynomial", shape=Z.shape)
    for (r, c), z in zip(RC, Z):
        judge(ctx, c, z, kind, "default start")
        forward(ctx, c, z, kind, "default start")
        if r is not None and kind in ("gauss", "conj") and n <= 6:
            gap = min([abs(r[i] - r[j]) for i in range(n) for j in range(i)] or [1])
            if gap > .05:
                D = np.abs(z[:, None] - r[None, :])
                ctx.check(len(set(D.argmin(1).tolist())) == n and D.min(1).max() < 1e-6, "prescribed roots are recovered", roots=r, got=z)
    if kind in ("real", "conj", "realcoef", "pair"):
        zr = np.asarray(f(jnp.array(C.real)))
        for (r, c), z in zip(RC, zr):
            judge(ctx, c.real + 0j, z, kind, "real coefficient array")
    ctx.sample(kind=kind, coeffs=C[0], roots=Z[0])


def match(a, b):
    from scipy.optimize import linear_sum_assignment
    D = np.abs(a[:, None] - b[None, :])
    i, j = linear_sum_assignment(D)
    return D[i, j].max()


def k_shapes(ctx, n, seed):
    import jax, jax.numpy as jnp
    f = setup_repo.get("microjax.poly_solver:poly_roots")
    rng = np.random.default_rng(seed)
    C = np.array([draw(rng, "gauss", n)[1] for _ in range(12)])
    base = np.asarray(f(jnp.array(C)))
    one = np.asarray(f(jnp.array(C[0])))
    three = np.asarray(f(jnp.array(C.reshape(3, 4, n + 1))))
    vm = np.asarray(jax.vmap(f)(jnp.array(C)))
    ctx.ran("shapes", n, n=12)
    ctx.check(one.shape == (n,) and three.shape == (3, 4, n), "shape of the roots follows the batch shape", one=one.shape, three=three.shape)
    ctx.check(match(one, base[0]) < 1e-7, "one polynomial equals the same row of a batch")
    for i in range(12):
        ctx.check(match(three.reshape(12, n)[i], base[i]) < 1e-7, "2-D batch equals 1-D batch", i=i)
        ctx.check(match(vm[i], base[i]) < 1e-7, "vmap equals batch", i=i)


def k_init(ctx, n, seed):
    import jax.numpy as jnp
    f = setup_repo.get("microjax.poly_solver:poly_roots")
    rng = np.random.default_rng(seed)
    N = 40
    RC = []
    while len(RC) < N:
        r, c = draw(rng, ["gauss", "conj", "coef"][len(RC) % 3], n)
        if 1 + np.max(np.abs(c[1:] / c[0])) < 1e7:
            RC.append((r, c))
    C = np.array([c for _, c in RC])
    tr = np.array([np.roots(c) for c in C])
    off = 1e-3 * (rng.normal(size=tr.shape) + 1j * rng.normal(size=tr.shape))
    for name, z0 in (("near", tr + off), ("permuted", rng.permuted(tr, axis=1) + off), ("exact", tr),
                     ("random", rng.normal(size=tr.shape) + 1j * rng.normal(size=tr.shape))):
        Z = np.asarray(f(jnp.array(C), custom_init=True, roots_init=jnp.array(z0)))
        for (r, c), z in zip(RC, Z):
            judge(ctx, c, z, "init", "start: " + name)
        if name == "near" and n > 1:
            # each guess next to a root converges to that root: row order is kept
            gap = np.array([min(abs(t[i] - t[j]) for i in range(n) for j in range(i)) for t in tr])
            for i in np.where(gap > 0.2)[0]:
                ctx.check(np.abs(Z[i] - tr[i]).max() < 1e-6, "a root guessed closely keeps its place", coeffs=C[i], guess=z0[i], got=Z[i])
