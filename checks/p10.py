"""Binary-lens ray shooting, linearly limb-darkened disc."""
import numpy as np
from vlib import oracle as O, gen, fs

ID = "P10"
RULE = ("binaries s 0.3..4 (unit separation, equal masses, q 1e-4..1e4), radii 4e-3..0.5, sources on and around caustics, on lenses, on the axes, at the centre, "
        "limb-darkening coefficients 0.05, 0.3, 0.6, 1.0; plus smoothing widths, odd resolutions and the limit of vanishing coefficient; "
        "non-trivial = source judged against the reference, keyed by (system, radius, source, coefficient)")
ASSUMPTIONS = ["reference: radial quadrature of VBBinaryLensing uniform-disc values (16 nodes, 40 when arbitrating)",
               "a pointwise verdict needs the deviation to persist at 2000x2000 cells with 4000 limb points"]
NS = 12
OPTS = [dict(u1=0.05), dict(u1=0.3), dict(u1=0.6), dict(u1=1.0), dict(u1=0.5, delta_c=0.05), dict(u1=0.7, res=[301, 700]), dict(u1=0.4, margin_r=0.5, margin_th=0.5)]


def cases(tier, rng):
    k = {"quick": (16, 5, 4), "thorough": (900, 200, 100)}[tier]
    out = []
    for o in range(len(OPTS)):
        for i in range(k[0] if o < 4 else k[1]):
            p = gen.binary(rng, 0.3, 4.0, 1e-4)
            rho = float(10 ** rng.uniform(-2.4, -.3))
            out.append(dict(k="point", p=list(p), rho=rho, w=gen.c2l(fs.sources(rng, 2, p, rho, NS)), o=o, g="o%d%s" % (o, i % 2 if o < 4 else "")))
    for i in range(k[2]):
        p = gen.binary(rng, 0.3, 4.0, 1e-3)
        rho = float(10 ** rng.uniform(-2, -.3))
        out.append(dict(k="limit", p=list(p), rho=rho, w=gen.c2l(fs.sources(rng, 2, p, rho, NS)), g="lim"))
    return out


def k_point(ctx, p, rho, w, o):
    w = gen.l2c(w)
    opt = OPTS[o]
    got = fs.engine(2, p, w, rho, **opt)
    ref = fs.reference(2, p, w, rho, opt["u1"])
    ctx.check(got.shape == w.shape, "one value per source")
    e = np.abs(got / ref - 1)
    for i in range(len(w)):
        ctx.ran(tuple(p), rho, complex(w[i]), o)
        ctx.put("o%d" % o, [rho, float(e[i]) if np.isfinite(e[i]) else 1e9, float(ref[i]), float(got[i] / ref[i] - 1)])
        if not e[i] <= 7e-3:
            ctx.ev("coarse_deviation_above_7e-3")
            ctx.put("coarse", dict(p=p, rho=rho, w=w[i], got=float(got[i]), ref=float(ref[i]), opt=o))
            fs.arbitrate(ctx, 2, p, w[i], rho, opt["u1"], 3e-3, "", "limb-darkened magnification is wrong and does not converge to the true value", coarse=float(got[i]), opt=o)
    ctx.sample(p=p, rho=rho, w=w[0], u1=opt["u1"], got=got[0], ref=ref[0])


def k_limit(ctx, p, rho, w):
    w = gen.l2c(w)
    a = fs.engine(2, p, w, rho, u1=1e-9)
    b = fs.engine(2, p, w, rho, u1=0.0)
    for i in range(len(w)):
        ctx.ran(tuple(p), rho, complex(w[i]), "limit")
        ctx.put("limit", [rho, float(abs(a[i] / b[i] - 1)), float(b[i]), float(a[i] / b[i] - 1)])
        if not abs(a[i] / b[i] - 1) <= 1e-2:
            fs.arbitrate(ctx, 2, p, w[i], rho, 1e-9, 3e-3, "", "magnification does not tend to the uniform one as the coefficient vanishes")


def finalize(agg):
    agg.extra["coarse deviations (all arbitrated at higher resolution)"] = agg.series.get("coarse", [])[:12]
    for name in ["o%d" % i for i in range(len(OPTS))] + ["limit"]:
        a = np.array(agg.series.get(name, []))
        if len(a) < 30:
            continue
        q = np.quantile(a[:, 1], [.5, .9, .99, 1])
        agg.extra[name + ": n, median, 90%, 99%, max, mean signed (trimmed)"] = [len(a)] + [float(x) for x in q] + [float(np.mean(np.clip(a[:, 3], -3e-3, 3e-3)))]
        big = len(a) > 150
        for x, l, nm in zip(q, (4e-4, 2e-3, 1e-2) if big else (5e-4, 4e-3, 9), ("median", "90%", "99%")):
            if not x <= l:
                agg.fail("%s error of the limb-darkened magnification exceeds %g (%s)" % (nm, l, name), got=float(x))
        if big and abs(np.mean(np.clip(a[:, 3], -3e-3, 3e-3))) > 7e-4:
            agg.fail("limb-darkened magnification is biased", got=float(np.mean(np.clip(a[:, 3], -3e-3, 3e-3))))
