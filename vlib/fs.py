"""finite-source workload and lazy arbitration shared by the monitors of the ray-shooting engine"""
import numpy as np
from . import oracle as O, gen


def sources(rng, n, p, rho, N, sym=True):
    w = gen.caustic(rng, n, p, N)
    m, zl = O.lenses(n, *p)
    o = []
    for i in range(N):
        g = rng.normal() + 1j * rng.normal()
        u = rng.uniform()
        if u < .45:
            x = w[i] + rho * rng.uniform(0, 2) * g
        elif u < .62:
            x = w[i] + 10 ** rng.uniform(-3, 0) * g
        elif u < .75:
            x = rng.uniform(-1, 1) + 1j * rng.uniform(-1, 1)
        elif u < .87:
            x = zl[rng.integers(0, n)] + rho * g
        elif u < .95 or not sym:
            x = rng.uniform(-1, 1) + 0j
        elif u < .98:
            x = 0.1 * g.real * 1j
        else:
            x = 0j
        o.append(x)
    return np.array(o, complex)


def engine(n, p, w, rho, res=500, nlimb=500, u1=0.0, chunk=None, **kw):
    """public light-curve routine with every refused point refined"""
    import jax.numpy as jnp
    from microjax.inverse_ray.lightcurve import mag_binary, mag_triple
    f = mag_binary if n == 2 else mag_triple
    w = np.atleast_1d(w)
    r, t = res if isinstance(res, (tuple, list)) else (res, res)
    return np.asarray(f(jnp.array(w), float(rho), r_resolution=int(r), th_resolution=int(t), Nlimb=int(nlimb), u1=float(u1),
                        MAX_FULL_CALLS=len(w), chunk_size=int(chunk or len(w)), **kw, **O.pub_params(n, *p)))


def reference(n, p, w, rho, u1=0.0, fine=False):
    if u1 == 0:
        return O.mag_uniform(n, p, w, rho, 1e-5 if not fine else 1e-6)
    return O.mag_ld(n, p, w, rho, u1, nodes=16 if not fine else 40, tol=1e-5)


def arbitrate(ctx, n, p, w, rho, u1, lim, series, what, **detail):
    """one source whose coarse value is off: only a deviation that persists with a finer grid and a denser limb is a violation"""
    if ctx.enough(what):
        ctx.ev("deviations_not_arbitrated_after_three_violations")
        return False
    ref = float(reference(n, p, [w], rho, u1, fine=True)[0])
    errs = []
    for res, nl in ((1000, 2000), (2000, 4000)):
        got = float(engine(n, p, [w], rho, res, nl, u1)[0])
        errs.append(abs(got / ref - 1))
        ctx.ev("arbitrated_at_%d" % res)
        if errs[-1] <= lim:
            return True
    gap = limb_gap(n, p, w, rho)
    if gap < 5e-3:
        # the limb crosses a piece of caustic (near a cusp or a change of topology) thinner than the spacing of its samples:
        # a recorded limit of the region construction (see the pinned finding of P09)
        ctx.ev("excluded_limb_crosses_sliver_of_caustic")
        ctx.put("sliver", dict(n=n, p=p, w=w, rho=rho, u1=u1, got=got, ref=ref, gap=gap))
        return True
    return ctx.check(False, what, n=n, p=p, w=w, rho=rho, u1=u1, got=got, ref=ref, errors=errs, **detail)


def contour(n, p, w, rho, u1=None, npts=None, npts_ld=None, **extra):
    """public contour light curve"""
    import jax.numpy as jnp
    from microjax.caustics.lightcurve import magnifications
    kw = dict(extra)
    if u1 is not None:
        kw.update(limb_darkening=True, u1=float(u1))
    if npts:
        kw["npts_limb"] = int(npts)
    if npts_ld:
        kw["npts_ld"] = int(npts_ld)
    return np.asarray(magnifications(jnp.array(np.atleast_1d(w)), float(rho), nlenses=n, **kw, **O.pub_params(n, *p)))


def arbitrate_contour(ctx, n, p, w, rho, u1, lim, what, **detail):
    """only a deviation that persists for every limb sampling is a violation"""
    if len(ctx.series.get("persistent", [])) >= 30:
        ctx.ev("deviations_not_arbitrated_after_thirty_persistent")
        return False
    ref = float(reference(n, p, [w], rho, u1 or 0.0, fine=True)[0])
    errs = []
    for npts in (300, 400, 600, 1000):
        got = float(contour(n, p, w, rho, u1, npts)[0])
        errs.append(abs(got / ref - 1))
        ctx.ev("arbitrated_with_%d_limb_points" % npts)
        if errs[-1] <= lim:
            return True
    # judged by finalize(): the stitching heuristic is known to fail for about one stress source in 8000 whatever the sampling
    ctx.put("persistent", dict(n=n, p=p, w=w, rho=rho, u1=u1, got=got, ref=ref, errors=errs, what=what, case=ctx.case, **detail))
    return False


def judge_persistent(agg, total):
    rows = agg.series.get("persistent", [])
    agg.extra["sources wrong for every limb sampling (at most %d tolerated)" % max(2, int(5e-4 * total))] = rows[:5]
    if len(rows) > max(2, int(5e-4 * total)):
        for r in rows[:6]:
            agg.fail(r["what"], **{k: v for k, v in r.items() if k != "what"})


def limb_gap(n, p, w, rho, nphi=6000):
    """smallest angle, seen from the source centre, between two crossings of the limb with the caustic (independent geometry)"""
    m, zl = O.lenses(n, *p)
    z, wc = O.caustic_points(m, zl, nphi)
    ang = []
    prev = None
    for k in range(len(wc) + 1):
        c = wc[k % len(wc)]
        zz = z[k % len(wc)]
        if prev is not None:
            # follow each branch to its nearest successor
            for a, za in zip(*prev):
                j = int(np.argmin(np.abs(zz - za)))
                b = c[j]
                da, db = abs(a - w) - rho, abs(b - w) - rho
                if da * db < 0 and abs(a - b) < 0.2:
                    x = a + (b - a) * da / (da - db)
                    ang.append(np.angle(x - w))
        prev = (c, zz)
    ang = np.sort(ang)
    if len(ang) < 2:
        return 7.0
    return float(np.min(np.diff(np.concatenate([ang, ang[:1] + 2 * np.pi]))))
