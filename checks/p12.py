"""Which points of a light curve are refined: exactly-once accounting over budgets, chunk sizes, lengths and orders."""
import numpy as np
from vlib import oracle as O, gen, fs

ID = "P12"
RULE = ("light curves of 1..61 points mixing caustic crossings, close approaches and far points, in time order and shuffled; budgets 0, 1, a few, exactly the number of refused points, N, more than N; "
        "chunk sizes 1, 3, 7, N, more than N; uniform and limb-darkened, two and three lenses, both engines; finite-source grids deliberately coarse so that the two admissible values of a point are far apart; "
        "non-trivial = point whose two admissible values differ, keyed by (system, source, schedule)")
ASSUMPTIONS = ["the finite-source value of a single point is what the same public engine returns for it alone (accuracy is the business of P09-P11, P14, P15)"]
GRID = dict(r_resolution=30, th_resolution=30, Nlimb=60, bins_r=10, bins_th=24)
# (points, budget, chunk, u1); budget 'R' = number of refused points
PLAN = [(24, 0, 5, 0.0), (24, 1, 5, 0.0), (24, 3, 7, 0.0), (24, "R", 7, 0.0), (24, "R-1", 1, 0.0), (24, 24, 7, 0.0), (24, 100, 100, 0.0), (24, 24, 24, 0.0),
        (61, 9, 4, 0.0), (61, 61, 10, 0.5), (61, 5, 3, 0.5), (1, 1, 1, 0.0), (1, 500, 100, 0.0), (7, 2, 100, 0.5), (2, 1, 1, 0.0)]
TPLAN = [(10, 0, 3, 0.0), (10, 4, 3, 0.0), (10, 10, 4, 0.0), (10, 50, 50, 0.5)]


def curve(rng, n, p, rho, N):
    far = int(N * .5)
    w = np.concatenate([fs.sources(rng, n, p, rho, N - far), rng.uniform(-3, 3, far) + 1j * rng.uniform(-3, 3, far)])
    return w[rng.permutation(N)]


def cases(tier, rng):
    k = {"quick": (6, 3, 6), "thorough": (150, 60, 100)}[tier]
    out = []
    for j, (N, b, c, u1) in enumerate(PLAN):
        for i in range(k[0]):
            p = gen.binary(rng, 0.3, 3.0, 1e-4)
            rho = float(10 ** rng.uniform(-2.3, -.7))
            out.append(dict(k="binary", p=list(p), rho=rho, w=gen.c2l(curve(rng, 2, p, rho, N)), budget=b, chunk=c, u1=u1, perm=[int(x) for x in rng.permutation(N)], g="b%d" % j))
    for j, (N, b, c, u1) in enumerate(TPLAN):
        for i in range(k[1]):
            p = gen.triple_ok(rng)
            rho = float(10 ** rng.uniform(-2.0, -.7))
            out.append(dict(k="triple", p=list(p), rho=rho, w=gen.c2l(curve(rng, 3, p, rho, N)), budget=b, chunk=c, u1=u1, g="t%d" % j))
    for i in range(k[2]):
        p = gen.binary(rng, 0.3, 3.0, 1e-4)
        rho = float(10 ** rng.uniform(-2.0, -.7))
        out.append(dict(k="contour", p=list(p), rho=rho, w=gen.c2l(curve(rng, 2, p, rho, 20)), perm=[int(x) for x in rng.permutation(20)], u1=0.5 if i % 3 == 0 else 0.0, g="c%d" % (i % 3 == 0)))
    return out


def singles(n, p, w, rho, u1):
    """what the public routine returns for each point alone (multipole value if it accepts the point, finite-source value otherwise)"""
    return np.array([fs.engine(n, p, x, rho, (GRID["r_resolution"], GRID["th_resolution"]), GRID["Nlimb"], u1, 1, bins_r=GRID["bins_r"], bins_th=GRID["bins_th"])[0] for x in w])


# Batches of different length compile to differently rounded code and, with grids this coarse, a last-bit difference
# moves a histogram edge: the same finite-source value was seen to move by up to 1.5 per cent.  A value is therefore
# attributed to the nearer of its two admissible values, and only where these are further apart than FAR.
FAR, NOISE, SAME = 5e-2, 3e-2, 1e-8


def k_binary(ctx, p, rho, w, budget, chunk, u1, perm):
    import jax.numpy as jnp
    from microjax.inverse_ray.lightcurve import mag_binary
    w = gen.l2c(w)
    N = len(w)
    run = lambda x, b, c: np.asarray(mag_binary(jnp.array(x), rho, u1=u1, MAX_FULL_CALLS=b, chunk_size=c, **GRID, s=p[0], q=p[1]))
    multi = run(w, 0, 8)
    whole = run(w, N, 8)
    single = singles(2, p, w, rho, u1)
    refused = ~(np.abs(whole - multi) <= SAME * np.abs(multi))     # same batch, so accepted points are reproduced to the last digits
    accounting(ctx, p, rho, w, single, whole, multi, whole, "alone", 1, u1)
    R = np.nonzero(refused)[0]
    ctx.ev("points_refused", len(R))
    ctx.ev("points_accepted", N - len(R))
    b = {"R": max(len(R), 1), "R-1": max(len(R) - 1, 1)}.get(budget, budget)
    got = run(w, b, chunk)
    ctx.check(got.shape == w.shape, "one value per point", shape=got.shape)
    want = multi.copy()
    want[R[:b]] = whole[R[:b]]
    accounting(ctx, p, rho, w, got, want, multi, whole, b, chunk, u1)
    # order: the same points in another order
    pm = np.array(perm)
    g2 = run(w[pm], b, chunk)
    want2 = multi[pm].copy()
    R2 = np.nonzero(refused[pm])[0][:b]
    want2[R2] = whole[pm][R2]
    accounting(ctx, p, rho, w[pm], g2, want2, multi[pm], whole[pm], b, chunk, u1)
    ctx.sample(p=p, rho=rho, N=N, refused=len(R), budget=b, chunk=chunk, u1=u1)


def accounting(ctx, p, rho, w, got, want, multi, full, b, chunk, u1):
    """got: observed; want: the value each point must have, one of multi / full"""
    for i in range(len(w)):
        d = lambda x: abs(got[i] - x) / max(abs(x), 1.0)
        distinct = abs(full[i] - multi[i]) > FAR * abs(full[i])
        kind = None
        if not min(d(full[i]), d(multi[i])) <= NOISE:
            kind = "has a value that belongs to no admissible computation of that point"
        elif distinct and not d(want[i]) <= NOISE:
            kind = "was refined though it must not be (accepted, or beyond the budget)" if want[i] == multi[i] else "was refused within the budget but not refined"
        if distinct:
            ctx.ran(tuple(p), rho, complex(w[i]), b, chunk, u1, i)
        if kind:
            ctx.fail("a light-curve point " + kind, index=i, N=len(w), budget=b, chunk=chunk, u1=u1, p=p, rho=rho, w=w[i], got=got[i], multi=multi[i], full=full[i])
            return
    ctx.ev("values_accounted_for", len(w))


def k_triple(ctx, p, rho, w, budget, chunk, u1):
    import jax.numpy as jnp
    from microjax.inverse_ray.lightcurve import mag_triple
    w = gen.l2c(w)
    run = lambda b, c: np.asarray(mag_triple(jnp.array(w), rho, u1=u1, MAX_FULL_CALLS=b, chunk_size=c, **GRID, **O.pub_params(3, *p)))
    multi = run(0, 5)
    single = singles(3, p, w, rho, u1)
    got = run(budget, chunk)
    want = multi.copy()
    want[:budget] = single[:budget]
    # the engine documents that, for three lenses, the leading points are refined whatever their position
    accounting(ctx, p, rho, w, got, want, multi, single, budget, chunk, u1)


def k_contour(ctx, p, rho, w, perm, u1):
    w = gen.l2c(w)
    pm = np.array(perm)
    u = u1 if u1 else None
    whole = fs.contour(2, p, w, rho, u, npts=60, npts_ld=20)
    for i in range(len(w)):
        ctx.ran("contour", tuple(p), rho, complex(w[i]))
    ctx.close("contour light curve in another order", fs.contour(2, p, w[pm], rho, u, npts=60, npts_ld=20), whole[pm], rtol=1e-6)
    one = np.array([fs.contour(2, p, w[i:i + 1], rho, u, npts=60, npts_ld=20)[0] for i in range(len(w))])
    ctx.close("contour light curve point by point", one, whole, rtol=1e-6)
    rep = fs.contour(2, p, np.concatenate([w, w[::-1]]), rho, u, npts=60, npts_ld=20)
    ctx.close("contour light curve with every point twice", rep, np.concatenate([whole, whole[::-1]]), rtol=1e-6)
