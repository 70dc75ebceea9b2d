"""Critical curves and caustics."""
import numpy as np
from vlib import oracle as O, gen

ID = "P04"
RULE = ("random + corner 1/2/3-lens systems in all topologies (close, resonant, wide, unit separation; any azimuth), several sampling densities; every returned "
        "critical point is judged pointwise and against a dense independent sampling; non-trivial = distinct system")
ASSUMPTIONS = ["independent critical-curve polynomial assembled with numpy polynomial products"]


def cases(tier, rng):
    k = {"quick": 220, "thorough": 4000}[tier]
    out = [dict(k="single", npts=int(x)) for x in (2, 7, 100, 333)]
    for i in range(k):
        n = 2 if i % 2 else 3
        p = gen.binary(rng, 0.2, 5, 1e-5) if n == 2 else gen.triple(rng)
        if n == 3:
            p = (p[0], max(p[1], 1e-3), max(p[2], 1e-3), p[3], p[4])
        if not gen.tidy(n, p, 0.1):
            continue
        out.append(dict(k="curves", n=n, p=list(p), npts=[41, 200, 500][i % 3]))
    return out


def k_single(ctx, npts):
    from microjax.point_source import critical_and_caustic_curves
    zc, wc = critical_and_caustic_curves(npts=npts, nlenses=1)
    zc, wc = np.asarray(zc), np.asarray(wc)
    ctx.ran("single", npts)
    ctx.close("single-lens critical curve is the unit circle", np.abs(zc), 1.0, atol=1e-14)
    ctx.close("single-lens caustic is the origin", np.abs(wc), 0.0, atol=1e-14)
    ctx.check(zc.size == npts and wc.size == npts, "npts samples", sizes=[zc.size, wc.size])
    ph = np.sort(np.mod(np.angle(zc), 2 * np.pi))
    ctx.check(npts < 3 or np.max(np.diff(ph)) < 2 * 2 * np.pi / (npts - 1), "the whole circle is sampled")


def k_curves(ctx, n, p, npts):
    from microjax.point_source import critical_and_caustic_curves
    pub = O.pub_params(n, *p)
    zc, wc = critical_and_caustic_curves(npts=npts, nlenses=n, **pub)
    zc, wc = np.asarray(zc), np.asarray(wc)
    nb = {2: 4, 3: 6}[n]
    m, zl = O.lenses(n, *p)
    ctx.ran(n, tuple(p), npts)
    if not ctx.check(zc.shape == (nb, npts) and wc.shape == zc.shape, "one row per branch, npts columns", shape=zc.shape):
        return
    ctx.ev("critical_points", zc.size)
    # 1. on the critical curve: |sum m/(z-zk)^2| = 1 ; error measured as a displacement
    f = O.kappa_f(zc, m, zl)
    fp = np.zeros_like(zc)
    for mk, zk in zip(m, zl):
        fp = fp - 2 * mk / (zc - zk) ** 3
    disp = np.abs(np.abs(f) - 1) / np.maximum(np.abs(fp), 1e-3)
    ctx.check(np.all(np.isfinite(zc)), "finite critical curve", n=n, p=p)
    ctx.close("critical points lie on the critical curve", disp, 0.0, atol=1e-6, n=n, p=p)
    # 2. caustic = lens mapping of the critical curve, both in the centre-of-mass frame
    back = O.lens_map(zc, m, zl)
    ctx.close("caustic is the image of the critical curve", wc, back, atol=1e-7, n=n, p=p)
    # 3. complete: per phase the root set equals the reference root set
    zr, wr = O.caustic_points(m, zl, 360)
    # every reference point is near a returned point: bound by the local sampling step
    got = zc.ravel()
    ref = zr.ravel()
    D = np.abs(ref[:, None] - got[None, :])
    step = 2 * np.pi / (npts - 1)
    fpr = np.zeros_like(ref)
    for mk, zk in zip(m, zl):
        fpr = fpr - 2 * mk / (ref - zk) ** 3
    # a phase step moves the root by step/|f'| (square-root law near branch points)
    bound = np.minimum(1.0, np.maximum(step / np.maximum(np.abs(fpr), 1e-9) * 2.0, 0)) + 2 * np.sqrt(step) * (np.abs(fpr) < 0.7) + 1e-6
    ctx.check(np.all(D.min(1) <= bound), "every part of the critical curve is sampled", n=n, p=p, npts=npts,
              worst=float(np.max(D.min(1) - bound)), at=ref[int(np.argmax(D.min(1) - bound))])
    # 4. exact set equality at the sampled phases: the rows together hold all roots of each phase
    phase = -np.angle(f)  # some phase convention; recover per column
    col = []
    for c in range(npts):
        ph = np.angle(f[:, c])
        col.append(np.max(np.abs(np.exp(1j * ph) - np.exp(1j * ph[0]))))
    ctx.close("all branches of one column share one phase", np.array(col), 0.0, atol=1e-4, n=n, p=p)
    for c in range(0, npts, max(1, npts // 12)):
        rr = np.roots(crit_poly(m, zl, np.exp(1j * np.angle(f[0, c]))))
        d = np.abs(zc[:, c][:, None] - rr[None, :])
        fpl = np.abs(fp[:, c])
        amp = np.minimum(1e-5 + 1e-7 / np.maximum(fpl, 1e-6), 1e-2)
        ctx.check(np.all(d.min(1) < amp) and len(set(d.argmin(1).tolist())) >= nb - (2 if np.min(fpl) < 0.1 else 0),
                  "one column holds every critical point of its phase", n=n, p=p, c=c, worst=float(d.min(1).max()), fp=float(fpl.min()))
    # phases cover the full circle
    ph = np.sort(np.mod(np.angle(f[0]), 2 * np.pi))
    gap = np.max(np.append(np.diff(ph), ph[0] + 2 * np.pi - ph[-1]))
    ctx.check(gap < 2.2 * step, "phases cover the full circle", gap=float(gap), step=step)
    # 5. rows are continuous curves: following each row never jumps while a nearer continuation is left unused
    jump = np.abs(zc[:, 1:] - zc[:, :-1])
    nearest = np.min(np.abs(zc[:, 1:].T[:, None, :] - zc[:, :-1].T[:, :, None]), axis=2).T
    sep = np.array([np.min(np.abs(zc[:, c][:, None] - zc[:, c][None, :]) + 1e9 * np.eye(nb)) for c in range(npts)])
    clear = (sep[1:] > 8 * np.max(jump, 0).clip(0, None)) | (sep[1:] > 8 * np.max(nearest, 0))
    ctx.close("rows are contiguous where the branches are well apart", (jump - nearest)[:, clear], 0.0, atol=1e-9, n=n, p=p)
    ctx.ev("clear_columns", clear.sum())
    # magnification diverges across: |det J| ~ 0 there according to the public determinant
    from microjax.point_source import lens_eq_det_jac
    dj = np.asarray(lens_eq_det_jac(zc - O.x_cm(*p[:2]), nlenses=n, **O.low_params(n, *p)))
    ctx.close("Jacobian determinant vanishes on the returned curve", np.abs(dj) / (1 + np.abs(fp)), 0.0, atol=3e-6, n=n, p=p)
    ctx.sample(n=n, p=p, npts=npts, first=zc[:, 0])


def crit_poly(m, zl, e):
    n = len(m)
    Q = np.array([1.0 + 0j])
    for zk in zl:
        Q = np.polymul(Q, np.polymul([1.0, -zk], [1.0, -zk]))
    S = np.array([0j])
    for k in range(n):
        t = np.array([m[k] + 0j])
        for j in range(n):
            if j != k:
                t = np.polymul(t, np.polymul([1.0, -zl[j]], [1.0, -zl[j]]))
        S = np.polyadd(S, t)
    return np.polysub(e * Q, S)
