"""Image positions: completeness, soundness, parity, lens map and Jacobian."""
import numpy as np
from vlib import oracle as O, gen, setup_repo

ID = "P01"
RULE = ("random + corner lens systems (1-3 lenses; equal masses, mass ratio above one, unit separation, every quadrant and "
        "multiples of pi for the third-lens azimuth) with sources in the field, on axes, near lenses, near caustics and far away; "
        "non-trivial = the independent solver gives an unambiguous image set for that source, keyed by (system, source)")
ASSUMPTIONS = ["the independent polynomial solver (numpy polynomial products + Newton polishing on the lens equation) is right when its "
               "image count, parity sum and residuals are mutually consistent; other points are counted as ambiguous, not judged",
               "strict verdicts only for mass fractions >= 1e-4 (two lenses) / 1e-2 (three lenses) and sources farther from a caustic than the documented root-acceptance tolerance"]
NS = 40


def cases(tier, rng):
    k = {"quick": (40, 260, 260, 120), "thorough": (400, 4000, 4000, 2000)}[tier]
    out = []
    for n, N in ((1, k[0]), (2, k[1]), (3, k[2])):
        for _ in range(N):
            kw = {} if n == 1 else (dict(qmin=1e-4) if n == 2 else {})
            p = gen.system(rng, n, **kw)
            if n == 3:
                p = gen.triple_ok(rng)
            if n == 2 and not gen.tidy(n, p, 0.05):
                continue
            out.append(dict(k="images", n=n, p=list(p), w=gen.c2l(gen.sources(rng, n, p, NS))))
    for _ in range(k[3]):
        n = int(rng.integers(1, 4))
        p = gen.system(rng, n)
        z = 10 ** rng.uniform(-2, 2) * (rng.normal(size=12) + 1j * rng.normal(size=12))
        out.append(dict(k="map", n=n, p=list(p), z=gen.c2l(z)))
    return out


def near_caustic(w, m, zl, R):
    z, ok = O.solve_images(w, m, zl)
    if not ok:
        return True
    for f in (1.0, 0.5):
        for th in np.arange(8) * np.pi / 4:
            z2, ok2 = O.solve_images(w + f * R * np.exp(1j * th), m, zl)
            if not ok2 or len(z2) != len(z):
                return True
    zc, wc = O.caustic_points(m, zl, 400)
    return np.nanmin(np.abs(wc - w)) < R


def k_images(ctx, n, p, w):
    import jax.numpy as jnp
    f = setup_repo.get("microjax.point_source:_images_point_source")
    w = gen.l2c(w)
    m, zl = O.lenses(n, *p, frame="mid")
    xc = 0.0 if n == 1 else O.x_cm(*p[:2])
    ws = w - xc
    z, mask = f(jnp.array(ws), nlenses=n, **O.low_params(n, *p))
    z, mask = np.asarray(z), np.asarray(mask)
    nroot = {1: 2, 2: 5, 3: 10}[n]
    ctx.check(z.shape == (nroot, len(w)) and mask.shape == z.shape, "image array has one row per root and one column per source",
              shape=z.shape)
    for i, wi in enumerate(ws):
        ref, ok = O.solve_images(wi, m, zl)
        if n == 1 and abs(wi) < 1e-9:
            continue
        if not ok:
            ctx.ev("ambiguous_oracle")
            continue
        got = z[mask[:, i], i]
        ctx.ran(n, tuple(p), complex(wi))
        ctx.ev("images_%dlens_count%d" % (n, len(ref)))
        res = np.abs(O.lens_map(got, m, zl) - wi)
        tolr = 1.0001e-6 if n == 2 else (1.0001e-3 if n == 3 else 1e-9 * (1 + abs(wi)))
        full = min(m) >= (1e-3 if n == 2 else 0.03) and abs(wi) < 4 or n == 1
        good = bool(np.all(np.isfinite(got))) and bool(np.all(res <= tolr)) and len(got) > 0
        why = "an accepted root does not satisfy the lens equation within the documented tolerance"
        if good:
            D = np.abs(got[:, None] - ref[None, :])
            perm, dist = D.argmin(1), D.min(1)
            dj = np.abs(O.det_jac(ref, m, zl))
            dl = np.abs(ref[:, None] - zl[None, :]).min(1)
            lim = np.maximum(1e-6 if n < 3 else 3e-5, np.minimum(0.2 * dl[perm], 10 * tolr / np.maximum(dj[perm], 1e-6)))
            good = len(set(perm.tolist())) == len(got) and bool(np.all(dist <= lim))
            why = "two accepted roots are the same image, or one is not an image"
            ctx.top("image displacement n=%d" % n, dist.max())
        if good:
            missing = [j for j in range(len(ref)) if j not in set(perm.tolist())]
            lost = float(np.sum(1.0 / dj[missing])) if missing else 0.0
            if missing:
                ctx.ev("faint_images_dropped")
                ctx.top("magnification of dropped faint images", lost)
            good = not missing if full else lost <= 1e-4
            why = "images are missing"
        if good and full:
            d1 = np.asarray(O.det_jac(got, m, zl))
            par = int((d1 > 0).sum() - (d1 < 0).sum())
            good = par == 1 - n
            why = "parity sum"
        if good:
            continue
        R = 2e-5 if n == 2 else 5e-3
        if n > 1 and near_caustic(wi, m, zl, R):
            ctx.ev("ambiguous_near_caustic")
            continue
        ctx.fail("returned images are not exactly the solutions of the lens equation (%s)" % why, n=n, p=p, w_mid=wi, got=got, ref=ref, residual=res)
    ctx.sample(n=n, p=p, source=ws[0], images=z[mask[:, 0], 0])


def k_map(ctx, n, p, z):
    import jax, jax.numpy as jnp
    from microjax.point_source import lens_eq, lens_eq_det_jac
    z = gen.l2c(z)
    m, zl = O.lenses(n, *p, frame="mid")
    lp = O.low_params(n, *p)
    got = np.asarray(lens_eq(jnp.array(z), nlenses=n, **lp))
    ref = O.lens_map(z, m, zl)
    scale = 1 + np.abs(z) + sum(mk / np.abs(z - zk) for mk, zk in zip(m, zl))
    ctx.ran("map", n, tuple(p), complex(z[0]))
    ctx.close("lens mapping", np.abs(got - ref) / scale, 0.0, atol=1e-12, n=n, p=p)
    dj = np.asarray(lens_eq_det_jac(jnp.array(z), nlenses=n, **lp))
    sc2 = 1 + sum(mk / np.abs(z - zk) ** 2 for mk, zk in zip(m, zl)) ** 2
    ctx.close("Jacobian determinant", np.abs(dj - O.det_jac(z, m, zl)) / sc2, 0.0, atol=1e-12, n=n, p=p)
    # the determinant is the determinant of the derivative of the mapping actually implemented
    def real_map(xy):
        w = lens_eq(xy[0] + 1j * xy[1], nlenses=n, **lp)
        return jnp.array([w.real, w.imag])
    J = np.asarray(jax.jacfwd(real_map)(jnp.array([z[0].real, z[0].imag])))
    ctx.close("Jacobian determinant is that of the lens mapping", np.linalg.det(J) / sc2[0], dj[0] / sc2[0], atol=1e-11)
    # shapes: scalar and 2-D inputs
    g2 = np.asarray(lens_eq(jnp.array(z).reshape(3, 4), nlenses=n, **lp))
    ctx.close("lens mapping of a 2-D array", g2, got.reshape(3, 4), atol=0)
    g0 = np.asarray(lens_eq(complex(z[0]), nlenses=n, **lp))
    ctx.close("lens mapping of a scalar", g0, got[0], rtol=1e-13, atol=1e-13)


def finalize(agg):
    e = agg.events
    tot = sum(v for k, v in e.items() if k.startswith("images_"))
    amb = e.get("ambiguous_near_caustic", 0)
    agg.extra["ambiguous_near_caustic_fraction"] = amb / max(tot, 1)
    if tot and amb > 0.06 * tot:
        agg.fail("too many sources whose image set disagrees with the reference (even counting only those near a caustic)", ambiguous=amb, total=tot)
