"""Point-source magnification against two independent solvers."""
import numpy as np
from vlib import oracle as O, gen
from checks.p01 import near_caustic

ID = "P02"
RULE = ("as P01 (1-3 lenses, corners, sources near caustics/lenses/axes/far) in the public frame; strict tier = mass fractions >=1e-4 (2) "
        "or >=1e-2 (3) ; wide tier = mass fractions down to 1e-5 judged by quantiles; non-trivial = unambiguous reference value")
ASSUMPTIONS = ["reference: own polynomial solver, cross-read against VBBinaryLensing/VBMicrolensing on the same points",
               "points closer to a caustic than 2e-5 (two lenses) or 5e-3 (three lenses) are only counted: the documented root-acceptance tolerance (1e-6 / 1e-3) makes the image count there a matter of tolerance"]
NS = 40


def cases(tier, rng):
    k = {"quick": (20, 260, 260, 130, 130), "thorough": (200, 4000, 4000, 2500, 2500)}[tier]
    out = []
    for _ in range(k[0]):
        out.append(dict(k="strict", n=1, p=[], w=gen.c2l(gen.sources(rng, 1, (), NS))))
    for _ in range(k[1]):
        p = gen.binary(rng, qmin=1e-4)
        out.append(dict(k="strict", n=2, p=list(p), w=gen.c2l(gen.sources(rng, 2, p, NS))))
    for _ in range(k[2]):
        p = gen.triple_ok(rng)
        if True:
            out.append(dict(k="strict", n=3, p=list(p), w=gen.c2l(gen.sources(rng, 3, p, NS))))
    for _ in range(k[3]):
        p = gen.binary(rng, qmin=3e-6)
        out.append(dict(k="wide", n=2, p=list(p), w=gen.c2l(gen.sources(rng, 2, p, NS))))
    for _ in range(k[4]):
        p = gen.triple(rng)
        p = (p[0], float(10 ** rng.uniform(-3.9, 1)), float(10 ** rng.uniform(-3.9, 0.3)), p[3], p[4])
        if gen.tidy(3, p, 0.15):
            out.append(dict(k="wide", n=3, p=list(p), w=gen.c2l(gen.sources(rng, 3, p, NS))))
    return out


def value(n, p, w):
    import jax.numpy as jnp
    from microjax.point_source import mag_point_source
    got = np.asarray(mag_point_source(jnp.array(w), nlenses=n, **O.pub_params(n, *p)))
    return got


def ext(n, p, w):
    if n == 2:
        return O.mag0_binary(p[0], p[1], w)[0]
    if n == 3:
        return O.mag0_triple(*p, w)[0]
    u = abs(w)
    return (u * u + 2) / (u * np.sqrt(u * u + 4))


def k_strict(ctx, n, p, w):
    w = gen.l2c(w)
    m, zl = O.lenses(n, *p)
    got = value(n, p, w)
    ctx.check(got.shape == w.shape and not np.iscomplexobj(got), "magnification has the shape of the input and is real", shape=got.shape)
    for i, wi in enumerate(w):
        if n == 1 and abs(wi) < 1e-8:
            continue
        A, ok = O.mag_ps(wi, m, zl)
        if not ok:
            ctx.ev("ambiguous_oracle")
            continue
        ctx.ran(n, tuple(p), complex(wi))
        e = abs(got[i] / A - 1)
        tol = 1e-6 + 1e-8 * A ** 2 if n < 3 else 1e-5 + 1e-7 * A ** 2
        tol = min(tol, 1e-3)
        if e <= tol:
            ctx.top("relative error n=%d" % n, e)
            ctx.check(got[i] >= 1 - 1e-9, "total magnification is at least one", got=got[i], w=wi, p=p)
            continue
        if e <= 1e-3:
            ctx.ev("loose_but_below_1e-3")
            continue
        if n > 1 and near_caustic(wi, m, zl, 2e-5 if n == 2 else 5e-3):
            ctx.ev("ambiguous_near_caustic")
            continue
        B = ext(n, p, wi)
        if abs(B / A - 1) > 1e-6:
            ctx.ev("references_disagree")
            continue
        ctx.fail("point-source magnification is wrong", n=n, p=p, w=wi, got=got[i], ref=A, other_code=B)
    far = np.abs(w) > 30
    for i in np.where(far)[0]:
        ctx.check(abs(got[i] - 1) < 1e-2, "magnification tends to one far from the lenses", w=w[i], got=got[i], p=p)
    ctx.sample(n=n, p=p, w=w[:2], got=got[:2])


def k_wide(ctx, n, p, w):
    w = gen.l2c(w)
    m, zl = O.lenses(n, *p)
    got = value(n, p, w)
    zc, wc = O.caustic_points(m, zl, 400)
    for i, wi in enumerate(w):
        A, ok = O.mag_ps(wi, m, zl)
        if not ok:
            ctx.ev("ambiguous_oracle")
            continue
        d = np.nanmin(np.abs(wc - wi))
        if d < (1e-3 if n == 2 else 2e-2):
            continue
        ctx.ran("wide", n, tuple(p), complex(wi))
        ctx.put("wide%d" % n, [abs(got[i] / A - 1) if np.isfinite(got[i]) else 9.0])


def finalize(agg):
    for n, lim in ((2, (1e-7, 1e-4, 0.3)), (3, (1e-5, 5e-3, 0.6))):
        e = np.array(agg.series.get("wide%d" % n, [[0.0]]))[:, 0]
        if len(e) < 500:
            continue
        q = np.quantile(e, [0.9, 0.99])
        agg.extra["wide%d_quantiles_90_99_max" % n] = [q[0], q[1], e.max()]
        if q[0] > lim[0] or q[1] > lim[1]:
            agg.fail("error quantiles of the point-source magnification over small mass ratios", n=n, q90=q[0], q99=q[1], limits=lim)
    e = agg.events
    amb = e.get("ambiguous_near_caustic", 0)
    agg.extra["ambiguous_near_caustic"] = amb
    if amb > 0.05 * max(agg.evals, 1):
        agg.fail("too many disagreements near caustics", ambiguous=amb, total=agg.evals)
    if e.get("loose_but_below_1e-3", 0) > 0.01 * max(agg.evals, 1):
        agg.fail("too many point-source magnifications miss the tight tolerance", n=e["loose_but_below_1e-3"], total=agg.evals)
    if e.get("references_disagree", 0) > 0.01 * agg.evals:
        agg.fail("own solver and the external code disagree too often to judge", n=e["references_disagree"])


def k_pinned(ctx, n, p, w):
    """recorded findings: one source, judged by the external code"""
    w = gen.l2c(w)
    ctx.ran("pinned", tuple(p), complex(w[0]))
    ctx.close("point-source magnification (recorded input)", value(n, p, w), np.array([ext(n, p, x) for x in w]).ravel(), rtol=1e-2)
