"""Quadrupole/hexadecapole expansion against the true limb-darkened disc average of the point-source magnification."""
import numpy as np
from vlib import oracle as O, gen, setup_repo

ID = "P08"
RULE = ("1-3 lens systems with corners, sources at distance d from the caustics, radius rho = f*d with f in {0.02..0.25}, limb darkening 0..1 incl. the ends, "
        "batches of different sources; reference = quadrature of the point-source magnification of another code over the disc; non-trivial = f*d > 1e-4")
ASSUMPTIONS = ["point-source values of VBBinaryLensing / VBMicrolensing / the analytic single lens over the disc"]
NS = 10


def cases(tier, rng):
    k = {"quick": (10, 60, 40), "thorough": (100, 1500, 900)}[tier]
    out = []
    for n, K in ((1, k[0]), (2, k[1]), (3, k[2])):
        for _ in range(K):
            p = () if n == 1 else (gen.binary(rng, 0.3, 4.0, 1e-3) if n == 2 else gen.triple_ok(rng))
            m, zl = O.lenses(n, *p)
            wc = np.zeros(1) if n == 1 else O.caustic_points(m, zl, 400)[1].ravel()
            w, d = [], []
            while len(w) < NS:
                for x in gen.sources(rng, n, p, NS, far=False):
                    dd = float(np.nanmin(np.abs(wc - x)))
                    if dd > 0.02 and len(w) < NS:
                        w.append(x)
                        d.append(dd)
            u1 = float(rng.choice([0.0, 1.0, rng.uniform()]))
            f = float(rng.choice([0.02, 0.05, 0.1, 0.2, 0.25]))
            out.append(dict(k="disc", n=n, p=list(p), w=gen.c2l(w), d=d, f=f, u1=u1))
    return out


def point(n, p):
    if n == 1:
        return lambda w: (abs(w) ** 2 + 2) / (abs(w) * np.sqrt(abs(w) ** 2 + 4))
    return (lambda w: O.mag0_binary(p[0], p[1], w)) if n == 2 else (lambda w: O.mag0_triple(*p, w))


def k_disc(ctx, n, p, w, d, f, u1):
    import jax.numpy as jnp
    img = setup_repo.get("microjax.point_source:_images_point_source")
    hexa = setup_repo.get("microjax.multipole:mag_hexadecapole")
    w = gen.l2c(w)
    lp = O.low_params(n, *p)
    ws = jnp.array(w - (0.0 if n == 1 else O.x_cm(*p[:2])))
    z, mask = img(ws, nlenses=n, **lp)
    fm = point(n, p)
    A0 = np.atleast_1d(fm(w))
    for i in range(NS):
        for shrink in (1.0, 0.25, 0.0625):
            bad = one(ctx, n, p, w, i, f * d[i] * shrink, f * shrink, u1, fm, A0, hexa, z, mask, lp)
            if bad is None:
                break
            ctx.ev("repeated_with_a_smaller_disc")      # a series that converges slowly is judged again where it converges
        ctx.check(bad is None, "multipole correction is not the disc average to fourth order", **(bad or {}))
    ctx.sample(n=n, p=p, w=w[0], f=f, u1=u1)


def one(ctx, n, p, w, i, rho, f, u1, fm, A0, hexa, z, mask, lp):
    if rho > 0:
        R = [O.disc_average(fm, w[i], rho * h, u1, nr=10, nth=20) - A0[i] for h in (1.0, 0.5, 0.25)]
        # fourth-order series through the two smaller discs; how well it predicts the largest one tells how fast the series converges
        M = np.array([[0.25, 0.0625], [0.0625, 0.00390625]])
        c2, c4 = np.linalg.solve(M, R[1:])
        e6 = abs(R[0] - c2 - c4)
        rel = 1e-8 if n < 3 else 2e-6
        if e6 > 0.2 * abs(R[0]) + rel * A0[i] * 100:
            ctx.ev("series_not_converging_at_this_radius")
            return None
        mu0 = float(np.asarray(hexa(z, mask, 0.0, u1=u1, nlenses=n, **lp)[0])[i])
        if abs(mu0 / A0[i] - 1) > (1e-6 if n < 3 else 1e-4):
            # the point-source part itself is judged by P02
            ctx.ev("point_value_not_certain")
            return None
        errs, bad = [], None
        for h, want in ((0.5, R[1]), (0.25, R[2])):
            mu, res = hexa(z, mask, rho * h, u1=u1, nlenses=n, **lp)
            mu, res = np.asarray(mu), np.asarray(res)
            ctx.check(mu.shape == w.shape and res.shape == w.shape, "expansion has the shape of the sources")
            ctx.ran(n, tuple(p), complex(w[i]), f * h, u1)
            got = mu[i] - mu0
            tol = 3.0 * h ** 6 * e6 + rel * A0[i]
            ctx.put("hex%d" % n, [f * h, (got - want) / A0[i], want / A0[i], tol / A0[i]])
            errs.append(abs(got - want))
            if not abs(got - want) <= tol:
                bad = bad or dict(n=n, p=p, w=w[i], rho=rho * h, u1=u1, got=got, want=want, tol=tol, A=A0[i])
            ctx.check(res[i] >= abs(got) - 1e-6 * A0[i] and np.isfinite(res[i]), "error diagnostic is smaller than the correction itself", res=res[i], corr=got)
        if bad and errs[1] < errs[0] / 30 + rel * A0[i] and errs[0] < 0.05 * abs(R[1]) + rel * A0[i]:
            ctx.ev("remainder_is_sixth_order")     # what is left shrinks like rho^6: beyond the order of the expansion
            bad = None
        return bad


def finalize(agg):
    for n in (1, 2, 3):
        a = np.array(agg.series.get("hex%d" % n, []))
        if len(a) < 50:
            continue
        agg.extra["n%d: judged, median |correction|/A, median |error|/A, worst error/tolerance" % n] = [
            len(a), float(np.median(np.abs(a[:, 2]))), float(np.median(np.abs(a[:, 1]))), float(np.max(np.abs(a[:, 1]) / a[:, 3]))]
        # how sharply the verdict can tell a wrong fourth-order term: fraction of discs whose correction exceeds 100 tolerances
        agg.extra["n%d sharp fraction" % n] = float(np.mean(np.abs(a[:, 2]) > 100 * a[:, 3]))
    rep = agg.events.get("repeated_with_a_smaller_disc", 0)
    if rep > 0.02 * max(agg.evals, 1):
        agg.fail("too many corrections had to be judged on a smaller disc", repeated=rep, total=agg.evals)
    if agg.events.get("point_value_not_certain", 0) > 0.03 * max(agg.evals, 1):
        agg.fail("too many point-source values are uncertain", n=agg.events["point_value_not_certain"])
