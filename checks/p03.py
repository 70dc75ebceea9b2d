"""Physical symmetries and limits of the point-source magnification (metamorphic monitor)."""
import numpy as np
from vlib import oracle as O, gen

ID = "P03"
RULE = ("random 2- and 3-lens systems (mass fractions >= 1e-2 for three lenses, well separated), 24 sources each; each case compares the code with itself under a "
        "transformation that cannot change the physics: reflection, relabelling of any lens pair, full turns of the azimuth, sign of the radius, "
        "vanishing third mass, vanishing second mass; non-trivial = the two runs use different parameters and the source is not within 1e-2 of a caustic")
ASSUMPTIONS = ["positions closer than 1e-2 to a caustic are excluded (root-acceptance tolerance)"]
NS = 24


def pick(rng, n, p, N):
    m, zl = O.lenses(n, *p)
    zc, wc = O.caustic_points(m, zl, 300)
    wc = wc.ravel()
    out = []
    while len(out) < N:
        for w in gen.sources(rng, n, p, N, far=False):
            if np.nanmin(np.abs(wc - w)) > 1e-2 and len(out) < N:
                out.append(w)
    return np.array(out)


def draw(rng, n):
    while True:
        if n == 2:
            p = gen.binary(rng, 0.3, 3.0, 3e-3)
        else:
            p = gen.triple_ok(rng)
        if gen.tidy(n, p, 0.25):
            return p


def cases(tier, rng):
    k = {"quick": 150, "thorough": 2500}[tier]
    out = []
    for name, n in (("mirror", 2), ("mirror", 3), ("swap", 2), ("relabel", 3), ("turn", 3), ("vanish3", 3), ("vanish2", 2)):
        for _ in range(k):
            p = draw(rng, n)
            c = dict(k=name, n=n, p=list(p), w=gen.c2l(pick(rng, n, p, NS)))
            if name == "turn":
                c["t"] = int(rng.integers(-2, 3)) or 1
            if name == "relabel":
                c["perm"] = [int(x) for x in rng.permutation(3)]
            out.append(c)
    return out


def A(n, p, w):
    import jax.numpy as jnp
    from microjax.point_source import mag_point_source
    return np.asarray(mag_point_source(jnp.array(w), nlenses=n, **O.pub_params(n, *p)))


def cmp(ctx, what, a, b, n, p, w, **d):
    ctx.ran(what, n, tuple(p), complex(w[0]), n=len(w))
    ok = np.all(np.isfinite(a)) and np.all(np.isfinite(b))
    e = np.abs(a / b - 1) if ok else np.full(len(a), np.inf)
    ctx.put(what.replace(" ", "_"), *[[float(x)] for x in e])
    tol = 1e-3
    if not ctx.check(np.all(e <= tol), "magnification changes under " + what, n=n, p=p, worst=float(np.max(e)), w=w[int(np.argmax(e))],
                     a=a[int(np.argmax(e))], b=b[int(np.argmax(e))], **d):
        return
    ctx.top(what, e.max())


def k_mirror(ctx, n, p, w):
    w = gen.l2c(w)
    pm = list(p)
    if n == 3:
        pm[4] = -pm[4]
    cmp(ctx, "reflection about the lens axis", A(n, p, w), A(n, pm, np.conj(w)), n, p, w)


def k_swap(ctx, n, p, w):
    w = gen.l2c(w)
    cmp(ctx, "exchange of the two lenses", A(2, p, w), A(2, (p[0], 1 / p[1]), -w), n, p, w)


def relabelled(p, perm):
    """describe the same three masses with another pair as first and second lens; returns (p', map of sources)"""
    m, z = O.lenses(3, *p)
    i, j, k = perm
    s = abs(z[j] - z[i])
    rot = (z[j] - z[i]) / s
    mid = 0.5 * (z[i] + z[j])
    t = (z[k] - mid) / rot
    q = m[j] / m[i]
    p2 = (float(s), float(q), float(m[k] / m[i]), float(abs(t)), float(np.angle(t)))
    cm = mid - O.x_cm(s, q) * rot
    return p2, (lambda w: (w - cm) / rot)


def k_relabel(ctx, n, p, w, perm):
    w = gen.l2c(w)
    p2, f = relabelled(p, perm)
    cmp(ctx, "relabelling of the three lenses", A(3, p, w), A(3, p2, f(w)), n, p, w, perm=perm, p2=p2)


def k_turn(ctx, n, p, w, t):
    w = gen.l2c(w)
    p2 = list(p)
    p2[4] += 2 * np.pi * t
    cmp(ctx, "full turns of the third-lens azimuth", A(3, p, w), A(3, p2, w), n, p, w)
    p3 = list(p)
    p3[3], p3[4] = -p3[3], p3[4] + np.pi
    cmp(ctx, "half turn with opposite radius", A(3, p, w), A(3, p3, w), n, p, w)


def k_vanish3(ctx, n, p, w):
    w = gen.l2c(w)
    p2 = list(p)
    p2[2] = 1e-12
    a, b = A(3, p2, w), A(2, p[:2], w)
    # the light deflected by a vanishing mass matters only next to its position
    m, zl = O.lenses(3, *p2)
    keep = np.abs(w - O.lens_map(zl[2], m[:2], zl[:2])) > 0.05
    if keep.any():
        cmp(ctx, "vanishing third mass", a[keep], b[keep], n, p, w[keep])


def k_vanish2(ctx, n, p, w):
    w = gen.l2c(w)
    s = p[0]
    a = A(2, (s, 1e-12), w)
    b = A(1, (), w)
    m, zl = O.lenses(2, s, 1e-12)
    keep = (np.abs(w - O.lens_map(zl[1], m[:1], zl[:1])) > 0.05) & (np.abs(w) > 0.02)
    if keep.any():
        cmp(ctx, "vanishing second mass", a[keep], b[keep], n, p, w[keep])


def finalize(agg):
    for k, v in agg.series.items():
        e = np.array(v)[:, 0]
        q = float(np.quantile(e, 0.99))
        agg.extra[k] = dict(n=len(e), q99=q, max=float(e.max()))
        lim = 1e-5
        if q > lim:
            agg.fail("99%% quantile of the symmetry defect: %s" % k, q99=q, limit=lim)
