"""Contour light curve of a linearly limb-darkened disc (multipole and contour branch), one and two lenses."""
import numpy as np
from vlib import oracle as O, gen, fs

ID = "P15"
RULE = ("binaries s 0.3..4 (unit separation, equal masses, q 1e-4..1e4), radii 0.01..0.5, coefficients 0.05, 0.3, 0.6, 1.0, sources on and around caustics, on lenses, on the axes and in the field "
        "(so both branches of the light curve are taken), default sampling and 60 or 200 quadrature nodes; coefficient zero against the uniform routine; single lens; "
        "non-trivial = source judged against the reference, keyed by (system, radius, source, coefficient)")
ASSUMPTIONS = ["reference: radial quadrature of VBBinaryLensing uniform-disc values (16 nodes, 40 when arbitrating)",
               "a deviation is arbitrated with 300, 400, 600 and 1000 limb points; more than two sources wrong for all of them are a violation"]
NS = 10
OPTS = [dict(u1=0.05), dict(u1=0.3), dict(u1=0.6), dict(u1=1.0), dict(u1=0.5, npts_ld=60), dict(u1=0.8, npts_ld=200)]


def cases(tier, rng):
    k = {"quick": (30, 8, 24, 10), "thorough": (1600, 300, 800, 150)}[tier]
    out = []
    for o in range(len(OPTS)):
        for i in range(k[0] if o < 4 else k[1]):
            p = gen.binary(rng, 0.3, 4.0, 1e-4)
            rho = float(10 ** rng.uniform(-2, -.3))
            w = fs.sources(rng, 2, p, rho, NS)
            w[-2:] += rng.uniform(3, 8) * rho * np.exp(2j * np.pi * rng.uniform(size=2))   # multipole branch
            out.append(dict(k="binary", p=list(p), rho=rho, w=gen.c2l(w), o=o, g="o%d%s" % (max(o, 3), i % 6 if o < 4 else "")))
    for i in range(k[2]):
        p = gen.binary(rng, 0.3, 4.0, 1e-3)
        rho = float(10 ** rng.uniform(-2, -.3))
        out.append(dict(k="zero", p=list(p), rho=rho, w=gen.c2l(fs.sources(rng, 2, p, rho, NS)), g="zero%d" % (i % 2)))
    for i in range(k[3]):
        rho = float(10 ** rng.uniform(-2, 0))
        u = rho * np.concatenate([[0.0, .5, .9, 1.1, 1.9, 2.1], rng.uniform(0, .95, 2), rng.uniform(1.05, 30, 3)])
        out.append(dict(k="single", rho=rho, w=gen.c2l(u * np.exp(1j * rng.uniform(0, 6.3))), u1=float(rng.uniform(0, 1)), g="single"))
    return out


def k_binary(ctx, p, rho, w, o):
    w = gen.l2c(w)
    u1 = OPTS[o]["u1"]
    got = fs.contour(2, p, w, rho, **OPTS[o])
    ref = fs.reference(2, p, w, rho, u1)
    ctx.check(got.shape == w.shape and not np.iscomplexobj(got), "one real value per source")
    # which branch was taken, seen from outside: the multipole branch does not look at the limb sampling
    branch = np.abs(fs.contour(2, p, w, rho, u1, npts=16, npts_ld=4) - got) <= 1e-10 * np.abs(got)
    ctx.ev("multipole_branch", branch.sum())
    ctx.ev("contour_branch", (~branch).sum())
    e = np.abs(got / ref - 1)
    for i in range(len(w)):
        ctx.ran(tuple(p), rho, complex(w[i]), o)
        ctx.put("multipole" if branch[i] else "contour", [rho, float(e[i]) if np.isfinite(e[i]) else 1e9, float(ref[i]), float(np.nan_to_num(got[i] / ref[i] - 1, nan=1e9))])
        if not e[i] <= (1.5e-3 if branch[i] else 5e-3):
            ctx.ev("coarse_deviation")
            ctx.put("coarse", dict(p=p, rho=rho, w=w[i], got=float(got[i]), ref=float(ref[i]), opt=o))
            fs.arbitrate_contour(ctx, 2, p, w[i], rho, u1, 1.5e-3 if branch[i] else 4e-3, "limb-darkened contour light curve is wrong for every limb sampling", coarse=float(got[i]), multipole=bool(branch[i]))
    ctx.sample(p=p, rho=rho, w=w[0], u1=u1, got=got[0], ref=ref[0])


def k_zero(ctx, p, rho, w):
    w = gen.l2c(w)
    a = fs.contour(2, p, w, rho, u1=0.0)
    b = fs.contour(2, p, w, rho)
    for i in range(len(w)):
        ctx.ran(tuple(p), rho, complex(w[i]), "zero")
        ctx.put("zero", [rho, float(min(abs(a[i] / b[i] - 1), 1e9)), float(b[i]), float(a[i] / b[i] - 1)])
        if not abs(a[i] / b[i] - 1) <= 6e-3:
            ctx.ev("zero_coefficient_deviation")
            fs.arbitrate_contour(ctx, 2, p, w[i], rho, 0.0, 3e-3, "coefficient zero is not the uniform disc for every limb sampling")


def k_single(ctx, rho, w, u1):
    w = gen.l2c(w)
    got = fs.contour(1, (), w, rho, u1)
    ref = np.array([O.single_extended(abs(x), rho, lambda r: (1 - u1 * (1 - np.sqrt(np.clip(1 - r * r, 0, None)))) / (1 - u1 / 3)) for x in w])
    for x in w:
        ctx.ran("single", rho, complex(x), u1)
    ctx.close("single-lens limb-darkened contour magnification", got, ref, rtol=4e-3)


def finalize(agg):
    fs.judge_persistent(agg, agg.evals)
    agg.extra["deviations at the sampling in use (all arbitrated)"] = agg.series.get("coarse", [])[:12]
    for name, lim in dict(contour=(7e-4, 1.5e-3, 6e-3), multipole=(1e-4, 4e-4, 1e-3), zero=(1e-3, 1.5e-3, 9)).items():
        a = np.array(agg.series.get(name, []))
        if len(a) < 100:
            continue
        q = np.quantile(a[:, 1], [.5, .9, .99, 1])
        agg.extra[name + ": n, median, 90%, 99%, max, mean signed (trimmed)"] = [len(a)] + [float(x) for x in q] + [float(np.mean(np.clip(a[:, 3], -3e-3, 3e-3)))]
        for x, l, nm in zip(q, lim, ("median", "90%", "99%")):
            if not x <= l:
                agg.fail("%s error of the limb-darkened contour light curve exceeds %g (%s)" % (nm, l, name), got=float(x))
