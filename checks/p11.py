"""Triple-lens finite-source magnification in both engines."""
import numpy as np
from vlib import oracle as O, gen, fs

ID = "P11"
RULE = ("well separated triples (mass fractions >= 0.01, distances >= 0.25, any azimuth incl. several turns) and systems with a light third body, radii 8e-3..0.4, sources on and "
        "around caustics, on lenses, on the axes, at the centre; ray shooting (400x400, uniform and u1=0.6) and contour engine (default sampling, uniform and u1=0.6); "
        "non-trivial = source judged against the reference, keyed by (engine, system, radius, source)")
ASSUMPTIONS = ["VBMicrolensing (tolerance 1e-4) is the reference", "ray shooting: a pointwise verdict needs the deviation to persist at 2000x2000 cells with 4000 limb points",
               "contour engine: verdict on quantiles and on the fraction of deviating points, because its stitching heuristic loses 0.3% of the stress points (known finding)"]
NS = 8


def system(rng):
    if rng.uniform() < .7:
        return gen.triple_ok(rng, 0.01, 0.25)
    while True:
        p = (*gen.binary(rng, .5, 2.5, 1e-3), float(10 ** rng.uniform(-3, 0)), float(rng.uniform(.4, 2)), float(rng.uniform(-6, 9)))
        if gen.tidy(3, p, 0.2):
            return p


def cases(tier, rng):
    k = {"quick": (64, 24, 96, 24), "thorough": (3000, 800, 4000, 1000)}[tier]
    out = []
    for name, m in (("icrs", k[0]), ("icrs_ld", k[1]), ("contour", k[2]), ("contour_ld", k[3])):
        for i in range(m):
            p = gen.triple_ok(rng, 0.01, 0.25) if name.startswith("contour") else system(rng)
            p = tuple(map(float, p))
            rho = float(10 ** rng.uniform(-2.1 if name[-2:] != "ld" else -2, -.4))
            out.append(dict(k=name.split("_")[0], p=list(p), rho=rho, w=gen.c2l(fs.sources(rng, 3, p, rho, NS)), u1=0.6 if name[-2:] == "ld" else 0.0,
                            g="%s%d" % (name, i % {"icrs": 6, "icrs_ld": 4, "contour": 4, "contour_ld": 2}[name])))
    return out


def rows(ctx, name, p, rho, w, got, ref):
    e = np.abs(got / ref - 1)
    for i in range(len(w)):
        ctx.ran(name, tuple(p), rho, complex(w[i]))
        ctx.put(name, [rho, float(e[i]) if np.isfinite(e[i]) else 1e9, float(ref[i]), float(np.nan_to_num(got[i] / ref[i] - 1, nan=1e9))])
    return e


def k_icrs(ctx, p, rho, w, u1):
    w = gen.l2c(w)
    got = fs.engine(3, p, w, rho, 400, u1=u1)
    ref = fs.reference(3, p, w, rho, u1)
    ctx.check(got.shape == w.shape, "one value per source")
    e = rows(ctx, "icrs_ld" if u1 else "icrs", p, rho, w, got, ref)
    for i in range(len(w)):
        if not e[i] <= 1e-2:
            ctx.ev("coarse_deviation_above_1e-2")
            fs.arbitrate(ctx, 3, p, w[i], rho, u1, 5e-3, "", "triple-lens finite-source magnification is wrong and does not converge to the true value", coarse=float(got[i]))
    ctx.sample(p=p, rho=rho, w=w[0], u1=u1, got=got[0], ref=ref[0])


def k_contour(ctx, p, rho, w, u1):
    import jax.numpy as jnp
    from microjax.caustics.lightcurve import magnifications
    w = gen.l2c(w)
    kw = dict(limb_darkening=True, u1=u1) if u1 else {}
    got = np.asarray(magnifications(jnp.array(w), rho, nlenses=3, **kw, **O.pub_params(3, *p)))
    ref = fs.reference(3, p, w, rho, u1)
    ctx.check(got.shape == w.shape, "one value per source")
    rows(ctx, "contour_ld" if u1 else "contour", p, rho, w, got, ref)


def k_strict(ctx, p, rho, w):
    """one pinned source, contour engine with default sampling"""
    import jax.numpy as jnp
    from microjax.caustics.lightcurve import magnifications
    w = gen.l2c(w)
    got = np.asarray(magnifications(jnp.array(w), rho, nlenses=3, **O.pub_params(3, *p)))
    ctx.ran("strict", tuple(p), rho)
    ctx.close("contour magnification", got, fs.reference(3, p, w, rho), rtol=1e-2)


LIM = {"icrs": (2.5e-4, 7e-4, 3e-3, 0.01), "icrs_ld": (4e-4, 1.5e-3, 6e-3, 0.02), "contour": (4e-4, 6e-4, 2e-2, 0.015), "contour_ld": (6e-4, 1.5e-3, 5e-2, 0.03)}


def finalize(agg):
    for name, lim in LIM.items():
        a = np.array(agg.series.get(name, []))
        if len(a) < 100:
            continue
        q = np.quantile(a[:, 1], [.5, .9, .99, 1])
        frac = float(np.mean(a[:, 1] > 1e-2))
        agg.extra[name + ": n, median, 90%, 99%, max, mean signed (trimmed), fraction off by more than 1%"] = [len(a)] + [float(x) for x in q] + [float(np.mean(np.clip(a[:, 3], -3e-3, 3e-3))), frac]
        for x, l, nm in zip(q, lim[:3], ("median", "90%", "99%")):
            if not x <= l and (nm != "99%" or len(a) > 400):
                agg.fail("%s error of the triple-lens magnification exceeds %g (%s)" % (nm, l, name), got=float(x))
        if frac > lim[3]:
            agg.fail("too many triple-lens magnifications off by more than 1%% (%s)" % name, fraction=frac)
