"""Finite-source engines against each other, against their own mirror images and against their limits."""
import numpy as np
from vlib import oracle as O, gen, fs
from checks.p03 import relabelled

ID = "P18"
RULE = ("pairs of executions that must agree: ray shooting / contour on the same source (two and three lenses, uniform and limb-darkened), reflection and relabelling of the lenses in both engines, "
        "a second or third lens of vanishing mass, a source of vanishing radius (integrated by the low-level routine), a radius rescaled together with nothing else; sources on and around caustics, lenses, axes; "
        "non-trivial = pair of runs with different parameters, keyed by (relation, system, radius, source)")
ASSUMPTIONS = ["a pair that disagrees is resolved by an independent code at higher sampling: only a persistent error of one side is a violation",
               "limits: sources further than 30 radii from the caustic"]
NS = 8


def cases(tier, rng):
    f = {"quick": 1, "thorough": 40}[tier]
    out = []

    def add(k, n, K, g, lo=-2.2, hi=-.5, qmin=1e-3, cost=1.0, **kw):
        for i in range(K * f):
            p = gen.binary(rng, 0.3, 3.0, qmin) if n == 2 else gen.triple_ok(rng)
            rho = float(10 ** rng.uniform(lo, hi))
            out.append(dict(k=k, n=n, p=list(p), rho=rho, w=gen.c2l(fs.sources(rng, n, p, rho, NS)), g=g, cost=cost, **kw))
    add("engines", 2, 24, "a", u1=0.0)
    add("engines", 2, 10, "b", lo=-2.0, u1=0.5)
    add("engines", 3, 5, "c", lo=-2.0, u1=0.0, cost=3.0)
    add("mirror", 2, 14, "a", engine="con", u1=0.0)
    add("mirror", 2, 14, "d", engine="ray", u1=0.0)
    add("mirror", 2, 8, "b", engine="ray", u1=0.5)
    add("mirror", 3, 6, "e", engine="ray", u1=0.0, cost=3.0)
    add("swap", 2, 14, "a", engine="con", u1=0.0)
    add("swap", 2, 14, "d", engine="ray", u1=0.0)
    add("swap", 2, 8, "b", engine="ray", u1=0.5)
    for i in range(6 * f):
        p = gen.triple_ok(rng)
        rho = float(10 ** rng.uniform(-2, -.7))
        out.append(dict(k="relabel", n=3, p=list(p), rho=rho, w=gen.c2l(fs.sources(rng, 3, p, rho, NS)), perm=[int(x) for x in rng.permutation(3)], engine="ray", g="e", cost=3.0))
    add("vanish", 2, 8, "f", engine="ray")
    add("vanish", 2, 8, "f", engine="con")
    add("vanish3", 3, 5, "c", lo=-2, engine="con", cost=3.0)
    add("vanish3", 3, 5, "e", lo=-2, engine="ray", cost=3.0)
    add("point", 2, 8, "h", lo=-2.5, hi=-1.7)
    add("point", 3, 5, "i", lo=-2.5, hi=-1.9, cost=2.0)
    return out


def run(engine, n, p, w, rho, u1=0.0):
    if engine == "con":
        return fs.contour(n, p, w, rho, u1 or None)
    return fs.engine(n, p, w, rho, u1=u1)


def agree(ctx, what, name, A, B, lim=6e-3):
    """A, B = (engine, n, p, w, rho, u1, values)"""
    a, b = A[-1], B[-1]
    for i in range(len(a)):
        ctx.ran(what, name, tuple(A[2]), A[4], complex(A[3][i]))
        e = abs(a[i] / b[i] - 1) if np.isfinite(a[i]) and np.isfinite(b[i]) else 9.0
        ctx.put(name, [float(e)])
        if e <= lim:
            continue
        ctx.ev("pairs_arbitrated")
        for S in (A, B):
            engine, n, p, w, rho, u1, v = S
            ref = float(fs.reference(n, p, [w[i]], rho, u1, fine=True)[0])
            if abs(v[i] / ref - 1) <= lim / 2:
                continue
            if engine == "con":
                fs.arbitrate_contour(ctx, n, p, w[i], rho, u1 or None, 4e-3 if n < 3 else 8e-3, what + ": the contour engine is wrong", coarse=float(v[i]))
            else:
                fs.arbitrate(ctx, n, p, w[i], rho, u1, 4e-3 if n < 3 else 8e-3, "", what + ": the ray-shooting engine is wrong", coarse=float(v[i]))


def k_engines(ctx, n, p, rho, w, u1):
    w = gen.l2c(w)
    A = ("ray", n, p, w, rho, u1, run("ray", n, p, w, rho, u1))
    B = ("con", n, p, w, rho, u1, run("con", n, p, w, rho, u1))
    agree(ctx, "the two engines disagree", "engines_n%d_%g" % (n, u1), A, B)
    ctx.sample(n=n, p=p, rho=rho, w=w[0], u1=u1, ray=A[-1][0], contour=B[-1][0])


def k_mirror(ctx, n, p, rho, w, engine, u1):
    w = gen.l2c(w)
    p2 = list(p)
    if n == 3:
        p2[4] = -p2[4]
    agree(ctx, "reflection changes the magnification", "mirror_%s%d_%g" % (engine, n, u1), (engine, n, p, w, rho, u1, run(engine, n, p, w, rho, u1)),
          (engine, n, p2, w.conj(), rho, u1, run(engine, n, p2, w.conj(), rho, u1)))


def k_swap(ctx, n, p, rho, w, engine, u1):
    w = gen.l2c(w)
    p2 = [p[0], 1 / p[1]]
    agree(ctx, "exchange of the lenses changes the magnification", "swap_%s_%g" % (engine, u1), (engine, n, p, w, rho, u1, run(engine, n, p, w, rho, u1)),
          (engine, n, p2, -w, rho, u1, run(engine, n, p2, -w, rho, u1)))


def k_relabel(ctx, n, p, rho, w, perm, engine):
    w = gen.l2c(w)
    p2, f = relabelled(p, perm)
    agree(ctx, "relabelling of three lenses changes the magnification", "relabel_" + engine, (engine, n, p, w, rho, 0.0, run(engine, n, p, w, rho)),
          (engine, n, p2, f(w), rho, 0.0, run(engine, n, p2, f(w), rho)))


def k_vanish(ctx, n, p, rho, w, engine):
    p = [p[0], 1e-10]
    w = gen.l2c(w)
    w = np.where(np.arange(len(w)) % 2 == 0, w, w * rho / np.abs(w + 1e-12) * 1.7)
    w = np.where(np.abs(np.abs(w) / rho - 1) < 2e-2, w * 1.1, w)
    m, zl = O.lenses(2, *p)
    w = w[np.abs(w - (p[0] - 1 / p[0])) > 0.02 + rho]      # away from the planet's own caustic
    if not len(w):
        return
    w = np.concatenate([w, np.full(NS - len(w), w[0])])    # keep one shape, one compilation
    ref = np.array([O.single_extended(abs(x), rho, lambda r: np.ones_like(r)) for x in w])
    got = run(engine, 2, p, w, rho)
    for x in w:
        ctx.ran("vanish", engine, tuple(p), rho, complex(x))
    e = np.abs(got / ref - 1)
    i = int(np.argmax(np.nan_to_num(e, nan=9)))
    ctx.put("vanish_" + engine, *[[float(x)] for x in e])
    if not e[i] <= 4e-3:
        (fs.arbitrate_contour(ctx, 2, p, w[i], rho, None, 4e-3, "a companion of vanishing mass changes the contour magnification") if engine == "con" else
         fs.arbitrate(ctx, 2, p, w[i], rho, 0.0, 4e-3, "", "a companion of vanishing mass changes the magnification", single=ref[i]))


def k_vanish3(ctx, n, p, rho, w, engine):
    p3 = [p[0], p[1], 1e-9, p[3], p[4]]
    w = gen.l2c(w)
    m, zl = O.lenses(3, *p3)
    keep = np.abs(w - O.lens_map(zl[2], m[:2], zl[:2])) > 0.03 + rho
    got = run(engine, 3, p3, w, rho)
    ref = fs.reference(2, p[:2], w, rho, fine=True)
    for i in np.nonzero(keep)[0]:
        ctx.ran("vanish3", engine, tuple(p), rho, complex(w[i]))
        e = abs(got[i] / ref[i] - 1)
        ctx.put("vanish3_" + engine, [float(np.nan_to_num(e, nan=9))])
        if not e <= 8e-3:
            errs = [e]
            # three coincident-in-effect codes: judge against the binary reference at finer sampling
            for k in (1, 2):
                g = fs.contour(3, p3, w[i], rho, npts=(300, 500)[k - 1])[0] if engine == "con" else fs.engine(3, p3, w[i], rho, 1000 * k, 2000 * k)[0]
                errs.append(float(abs(g / ref[i] - 1)))
            ctx.ev("pairs_arbitrated")
            if not min(errs) <= 8e-3:
                ctx.put("persistent", dict(n=3, p=p3, w=w[i], rho=rho, u1=0.0, got=float(got[i]), ref=float(ref[i]), errors=errs, what="a third lens of vanishing mass changes the magnification (%s)" % engine, case=ctx.case))


def k_point(ctx, n, p, rho, w):
    """the integrating routine itself (no multipole shortcut) on a nearly point-like source"""
    import jax, jax.numpy as jnp
    from microjax.inverse_ray.extended_source import mag_uniform
    from microjax.point_source import mag_point_source
    m, zl = O.lenses(n, *p)
    _, wc = O.caustic_points(m, zl, 400)
    rng = np.random.default_rng(int(1e9 * rho))
    w = [x for x in gen.sources(rng, n, p, 60, far=False) if np.nanmin(np.abs(wc - x)) > max(20 * rho, 1e-2) and np.abs(x - zl).min() > 20 * rho][:NS]
    if len(w) < NS:
        return
    w = np.array(w)
    kw = O.pub_params(n, *p)

    def low(w, res, nl):
        if (n, res) not in _F:
            names = list(kw)
            _F[n, res] = jax.jit(lambda w, rho, th: jax.lax.map(lambda x: mag_uniform(x, rho, nlenses=n, r_resolution=res, th_resolution=res, Nlimb=nl, margin_r=1.0, margin_th=1.0, **dict(zip(names, th))), w))
        return np.asarray(_F[n, res](jnp.array(w), rho, jnp.array(p)))
    got = low(w, 500, 500)
    ref = np.asarray(mag_point_source(jnp.array(w), nlenses=n, **kw))
    for x in w:
        ctx.ran("point", n, tuple(p), rho, complex(x))
    e = np.abs(got / ref - 1)
    ctx.put("point_n%d" % n, *[[float(x)] for x in e])
    if not e.max() <= 1.5e-2:
        ctx.ev("pairs_arbitrated")
        fine = low(w, 1500, 1500)
        e2 = np.minimum(e, np.abs(fine / ref - 1))
        i = int(np.argmax(np.nan_to_num(e2, nan=9)))
        ctx.check(e2[i] <= 1e-2, "the magnification of a small source is not the point-source one", n=n, p=p, rho=rho, w=w[i], coarse=got[i], fine=fine[i], point=ref[i])


_F = {}
# 90 per cent limits per relation, at least twice what the repaired tree shows
LIM = {"engines_n2_0": (6e-4, 1.5e-3), "engines_n2_0.5": (9e-4, 2e-3), "engines_n3_0": (8e-4, 3e-3), "mirror_con2_0": (1e-6, 5e-4), "mirror_ray2_0": (1e-4, 1e-3), "mirror_ray2_0.5": (1e-4, 2e-3),
       "mirror_ray3_0": (1e-4, 1.5e-3), "relabel_ray": (5e-4, 2e-3), "swap_con_0": (1e-4, 5e-4), "swap_ray_0": (1e-4, 1e-3), "swap_ray_0.5": (3e-4, 2e-3),
       "vanish3_con": (6e-4, 2e-3), "vanish3_ray": (4e-4, 2e-3), "vanish_con": (8e-4, 2e-3), "vanish_ray": (4e-4, 2e-3), "point_n2": (1e-3, 6e-3), "point_n3": (1e-3, 6e-3)}


def finalize(agg):
    tot = 0
    for name in sorted(agg.series):
        if name in ("persistent", "sliver"):
            continue
        e = np.array(agg.series[name])[:, 0]
        tot += len(e)
        q50, q90, q99 = np.quantile(e, [.5, .9, .99])
        agg.extra[name] = dict(n=len(e), median=float(q50), q90=float(q90), q99=float(q99), max=float(e.max()))
        if name in LIM and len(e) >= 20:
            for x, l, t in ((q50, LIM[name][0], "median"), (q90, LIM[name][1], "90%")):
                if not x <= l:
                    agg.fail("%s disagreement exceeds %g (%s)" % (t, l, name), got=float(x), n=len(e))
    fs.judge_persistent(agg, tot)
