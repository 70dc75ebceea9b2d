"""Contour integration, uniform disc, one and two lenses."""
import numpy as np
from vlib import oracle as O, gen, fs

ID = "P14"
RULE = ("binaries s 0.3..4 (unit separation, equal masses, q 1e-4..1e4), radii 3e-3..0.5 (and 1e-4..3e-3, judged by quantiles), sources on and around caustics, on lenses, on the axes, at the centre, default limb sampling and 150/300/500 points; "
        "single lens with radii 1e-3..1 at all impact parameters incl. zero; non-trivial = source judged against the reference, keyed by (system, radius, source, sampling)")
ASSUMPTIONS = ["VBBinaryLensing (tolerance 1e-5); direct quadrature for the single lens",
               "a deviation is arbitrated with 300, 400, 600 and 1000 limb points; more than two sources wrong for all of them are a violation; what the default sampling misses is bounded by quantiles"]
NS = 10
NPTS = [None, 150, 300, 500]


def cases(tier, rng):
    k = {"quick": (190, 16, 12), "thorough": (8000, 600, 200)}[tier]
    out = []
    for o in range(len(NPTS)):
        for i in range(k[0] if o == 0 else k[1]):
            p = gen.binary(rng, 0.3, 4.0, 1e-4)
            rho = float(10 ** rng.uniform(-2.5, -.3))
            out.append(dict(k="binary", p=list(p), rho=rho, w=gen.c2l(fs.sources(rng, 2, p, rho, NS)), o=o, **({"g": "o%d" % o} if o else {})))
    for i in range(k[2]):
        p = gen.binary(rng, 0.3, 4.0, 1e-3)
        rho = float(10 ** rng.uniform(-4, -2.5))
        out.append(dict(k="tiny", p=list(p), rho=rho, w=gen.c2l(fs.sources(rng, 2, p, rho, NS))))
    for i in range(k[2]):
        rho = float(10 ** rng.uniform(-3, 0))
        u = rho * np.concatenate([[0.0, .5, .97, 1.03, 1.9, 2.1], rng.uniform(0, 3, 4), rng.uniform(3, 30, 2)])
        u = u[np.abs(u / rho - 1) > 5e-3]
        out.append(dict(k="single", rho=rho, w=gen.c2l(u * np.exp(1j * rng.uniform(0, 6.3)))))
    return out


def k_binary(ctx, p, rho, w, o):
    w = gen.l2c(w)
    got = fs.contour(2, p, w, rho, npts=NPTS[o])
    ref = fs.reference(2, p, w, rho)
    ctx.check(got.shape == w.shape and not np.iscomplexobj(got), "one real value per source")
    e = np.abs(got / ref - 1)
    for i in range(len(w)):
        ctx.ran(tuple(p), rho, complex(w[i]), o)
        ctx.put("n%s" % NPTS[o], [rho, float(e[i]) if np.isfinite(e[i]) else 1e9, float(ref[i]), float(np.nan_to_num(got[i] / ref[i] - 1, nan=1e9))])
        if not e[i] <= 4e-3:
            ctx.ev("coarse_deviation_above_4e-3")
            ctx.put("coarse", dict(p=p, rho=rho, w=w[i], got=float(got[i]), ref=float(ref[i]), npts=NPTS[o]))
            fs.arbitrate_contour(ctx, 2, p, w[i], rho, None, 3e-3, "contour magnification is wrong for every limb sampling", coarse=float(got[i]), npts=NPTS[o])
    ctx.sample(p=p, rho=rho, w=w[0], got=got[0], ref=ref[0])


def k_tiny(ctx, p, rho, w):
    """sources far smaller than the caustic: judged by quantiles (rings and cusps lose digits)"""
    w = gen.l2c(w)
    got = fs.contour(2, p, w, rho)
    ref = fs.reference(2, p, w, rho)
    for i in range(len(w)):
        ctx.ran(tuple(p), rho, complex(w[i]), "tiny")
    ctx.put("tiny", *[float(x) if np.isfinite(x) else 9.0 for x in np.abs(got / ref - 1)])


def k_single(ctx, rho, w):
    w = gen.l2c(w)
    got = fs.contour(1, (), w, rho)
    ref = np.array([O.single_extended(abs(x), rho, lambda r: np.ones_like(r)) for x in w])
    for x in w:
        ctx.ran("single", rho, complex(x))
    ctx.close("single-lens contour magnification", got, ref, rtol=2e-3)


def k_pinned(ctx, p, rho, w, n=2):
    """recorded findings: default sampling"""
    w = gen.l2c(w)
    ref = fs.reference(2, p, w, rho) if n == 2 else np.array([O.single_extended(abs(x), rho, lambda r: np.ones_like(r)) for x in w])
    ctx.ran("pinned", tuple(p), rho)
    ctx.close("contour magnification (recorded input)", fs.contour(n, p, w, rho), ref, rtol=2e-2)


def finalize(agg):
    fs.judge_persistent(agg, agg.evals)
    agg.extra["deviations at the sampling in use (all arbitrated)"] = agg.series.get("coarse", [])[:12]
    e = np.array(agg.series.get("tiny", []))
    if len(e) >= 60:
        q = np.quantile(e, [.5, .9, .97])
        agg.extra["radii 1e-4..3e-3: relative error (median, 90, 97 per cent)"] = [len(e)] + [float(x) for x in q]
        if q[0] > 1e-3 or q[1] > 6e-3 or q[2] > 8e-2:
            agg.fail("contour magnification of a tiny source deviates from the reference", n=len(e), median=q[0], q90=q[1], q97=q[2])
    for name, a in sorted(agg.series.items()):
        if name in ("coarse", "persistent", "tiny") or len(a) < 100:
            continue
        a = np.array(a)
        q = np.quantile(a[:, 1], [.5, .9, .99, 1])
        frac = float(np.mean(a[:, 1] > 1e-2))
        agg.extra[name + ": n, median, 90%, 99%, max, mean signed (trimmed), fraction off by more than 1%"] = [len(a)] + [float(x) for x in q] + [float(np.mean(np.clip(a[:, 3], -3e-3, 3e-3))), frac]
        lim = (5e-4, 7e-4, 6e-3) if name == "nNone" else (7e-4, 1.2e-3, 9)
        for x, l, nm in zip(q, lim, ("median", "90%", "99%")):
            if not x <= l:
                agg.fail("%s error of the contour magnification exceeds %g (%s)" % (nm, l, name), got=float(x))
        if frac > (0.012 if name == "nNone" else 0.025):
            agg.fail("too many contour magnifications off by more than 1%% (%s)" % name, fraction=frac)
