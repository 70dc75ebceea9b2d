"""Derivatives of finite-source light curves: existence, finiteness, both modes, agreement with slopes of independent codes."""
import numpy as np
from vlib import oracle as O, gen, fs, setup_repo

ID = "P16"
RULE = ("ray-shooting light curves (binary uniform, binary limb-darkened, triple) and contour light curves (binary uniform), radii 5e-3..0.3, sources on and around caustics, lenses and axes; every partial derivative "
        "(source coordinates, radius, separation, mass ratio, third lens) in forward mode against central differences of VBBinaryLensing / VBMicrolensing at two step sizes; reverse mode against forward mode; "
        "value under differentiation against plain value; non-trivial = (source, parameter) pair whose differences are self-consistent")
ASSUMPTIONS = ["differences of the reference count only when steps h and h/2 agree within 3e-3 of the magnification per step unit",
               "errors are expressed per characteristic step (radius, separation x radius, half the mass ratio), relative to the larger of the true change and a tenth of the magnification",
               "the engine smooths the source limb over a hundredth of a radius when differentiating: the derivatives are approximate by design and are judged by quantiles"]
NAMES = {2: ["x", "y", "rho", "s", "q"], 3: ["x", "y", "rho", "s", "q", "q3", "r3", "psi"]}
KINDS = {"ray": (2, 0.0, 10, 6), "raylim": (2, 0.5, 10, 4), "ray3": (3, 0.0, 6, 2), "con": (2, 0.0, 10, 6)}


def cases(tier, rng):
    f = {"quick": 1, "thorough": 25}[tier]
    out = []
    for kind, (n, u1, N, K) in KINDS.items():
        for i in range(K * f):
            p = gen.binary(rng, 0.4, 3.0, 1e-3) if n == 2 else gen.triple_ok(rng)
            rho = float(10 ** rng.uniform(-2.3, -.5)) if kind != "con" else float(10 ** rng.uniform(-2, -.7))
            out.append(dict(k="grad", kind=kind, p=list(p), rho=rho, w=gen.c2l(fs.sources(rng, n, p, rho, N)), g=kind, cost=3 if n == 3 else 1))
    for kind in ("ray", "raylim", "ray3", "con"):
        n, u1, N, K = KINDS[kind]
        for i in range(f if kind == 'ray3' else 2 * f):
            p = gen.binary(rng, 0.4, 3.0, 1e-2) if n == 2 else gen.triple_ok(rng)
            rho = float(10 ** rng.uniform(-2, -.7))
            w = fs.sources(rng, n, p, rho, 4)
            if kind == "con":
                m, zl = O.lenses(2, *p)
                _, wc = O.caustic_points(m, zl, 300)
                w = [x for x in gen.sources(rng, 2, p, 100, far=False) if np.nanmin(np.abs(wc - x)) > 3 * rho and np.abs(x - zl).min() > 2 * rho][:4]
            out.append(dict(k="reverse", kind=kind, p=list(p), rho=rho, w=gen.c2l(w), g="rev_" + kind, cost=3))
    for i in range(6 * f):
        p = gen.binary(rng, 0.4, 3.0, 1e-3)
        rho = float(10 ** rng.uniform(-2, -.7))
        out.append(dict(k="limb", p=list(p), rho=rho, u1=float(rng.uniform(0, 1)), w=gen.c2l(fs.sources(rng, 2, p, rho, 6)), g="limb", cost=2))
    return out


# (median, 90 per cent) limits of the gradient error; measured on the repaired tree, then at least doubled
LIM = {("ray", "all"): (0.05, 0.45), ("ray", "smooth"): (0.01, None), ("raylim", "all"): (0.07, 0.4), ("raylim", "smooth"): (0.03, None), ("ray3", "all"): (0.05, 0.5),
       ("con", "smooth"): (1e-3, None), ("con", "crossing"): (0.35, None)}
VLIM = {"ray": 1.5e-2, "raylim": 6e-2, "ray3": 1.5e-2, "con": 0.05}
_F = {}


def curve(kind, N, res=300, cheap=False):
    key = (kind, N, cheap)
    if key in _F:
        return _F[key]
    import jax, jax.numpy as jnp
    from microjax.inverse_ray.lightcurve import mag_binary, mag_triple
    from microjax.caustics.lightcurve import magnifications
    n, u1 = KINDS[kind][:2]

    def f(th, w):
        kw = dict(zip(NAMES[n][3:], [th[i] for i in range(3, len(NAMES[n]))]))
        ww = w + th[0] + 1j * th[1]
        if kind == "con":
            return magnifications(ww, th[2], nlenses=n, npts_limb=300, **kw)
        r = 150 if cheap else 200 if n == 3 else res
        return (mag_binary if n == 2 else mag_triple)(ww, th[2], u1=u1, MAX_FULL_CALLS=N, chunk_size=N, r_resolution=r, th_resolution=r, Nlimb=200 if cheap else 500, **kw)
    P = len(NAMES[n])
    fwd = jax.jit(lambda th, w: jax.lax.map(lambda e: jax.jvp(lambda t: f(t, w), (th,), (e,)), jnp.eye(P)))
    rev = jax.jit(lambda th, w: jax.value_and_grad(lambda t: jnp.sum(f(t, w)))(th))
    _F[key] = (jax.jit(f), fwd, rev)
    return _F[key]


def step(j, n, p, rho):
    return rho if j < 3 else (p[0] * rho if j == 3 else 0.5 * p[1] if j == 4 else 0.5 * p[2] if j == 5 else rho * p[3] if j == 6 else rho)


def k_grad(ctx, kind, p, rho, w):
    import jax.numpy as jnp
    n, u1 = KINDS[kind][:2]
    w = gen.l2c(w)
    th = np.array([0.0, 0.0, rho] + list(p))
    F, D, _ = curve(kind, len(w))
    vj, g = (np.asarray(a) for a in D(jnp.array(th), jnp.array(w)))
    # the contour engine compiles slowly: its value is compared only with the reference
    val = np.asarray(F(jnp.array(th), jnp.array(w))) if kind != "con" else np.broadcast_to(fs.reference(n, p, w, rho, u1, fine=True), vj.shape)[0]
    ctx.check(np.isfinite(g).all(), "a derivative of a finite-source magnification is not finite", kind=kind, p=p, rho=rho, w=w[np.argmax(~np.isfinite(g).all(axis=0))], g=g[:, np.argmax(~np.isfinite(g).all(axis=0))])
    ctx.put("v_" + kind, *[float(x) for x in np.abs(vj / val - 1).max(axis=0)])
    m, zl = O.lenses(n, *p)
    _, wc = O.caustic_points(m, zl, 400)
    for i in range(len(w)):
        d = np.nanmin(np.abs(wc - w[i])) / rho
        for j in sorted({2, *np.random.default_rng(int(abs(w[i]) * 1e9)).choice(len(th), 3, replace=False)}) if n == 3 or u1 else range(len(th)):
            h0 = (2e-2 if n == 2 else 5e-2) * step(j, n, p, rho)
            S = []
            for h in (h0, h0 / 2):
                vv = []
                for sg in (1, -1):
                    a = th.copy()
                    a[j] += sg * h
                    vv.append(fs.reference(n, tuple(a[3:]), [w[i] + a[0] + 1j * a[1]], a[2], u1, fine=n == 2)[0])
                S.append((vv[0] - vv[1]) / (2 * h))
            st = step(j, n, p, rho)
            if not abs(S[0] - S[1]) * st <= 3e-3 * val[i]:
                ctx.ev("differences_not_self_consistent")
                continue
            e = abs(g[j, i] - S[1]) * st / max(abs(S[1]) * st, 0.1 * val[i])
            ctx.ran(kind, tuple(p), rho, complex(w[i]), j)
            ctx.put("slope_%s_%s" % (kind, NAMES[n][j]), [float(np.nan_to_num(g[j, i] * st / val[i], nan=1e9)), float(S[1] * st / val[i])])
            ctx.put("g_%s_%s" % (kind, NAMES[n][j]), [float(e) if np.isfinite(e) else 1e9, float(d)])
    ctx.sample(kind=kind, p=p, rho=rho, w=w[0], gradient=g[:, 0], value=val[0])


def k_reverse(ctx, kind, p, rho, w):
    import jax.numpy as jnp
    w = gen.l2c(w)
    th = jnp.array([0.0, 0.0, rho] + list(p))
    F, D, R = curve(kind, len(w), cheap=True)
    v, r = R(th, jnp.array(w))
    r = np.asarray(r)
    ctx.ran("reverse", kind, tuple(p), rho, complex(w[0]))
    ctx.check(np.isfinite(r).all(), "a reverse-mode derivative of a finite-source light curve is not finite", kind=kind, p=p, rho=rho, got=r)
    if kind == "con":
        # compiling the forward mode as well takes too long: sources off the caustic, slope of the reference
        for j in range(len(th)):
            h = 1e-2 * step(j, 2, p, rho)
            vv = []
            for sg in (1, -1):
                a = np.array(th)
                a[j] += sg * h
                vv.append(fs.reference(2, tuple(a[3:]), w + a[0] + 1j * a[1], a[2], 0.0, fine=True).sum())
            ctx.close("reverse-mode derivative of a contour light curve", r[j] * h / 1e-2, (vv[0] - vv[1]) / 2e-2, rtol=2e-2, atol=2e-2, j=j, p=p, rho=rho)
        return
    vj, g = (np.asarray(a) for a in D(th, jnp.array(w)))
    f = g.sum(axis=1)
    # symmetric configurations have tied distances, where the two modes may take different one-sided derivatives
    ctx.close("reverse-mode derivative against forward-mode derivative", r, f, rtol=1e-5, atol=3e-2 * float(np.abs(f).max()), kind=kind, p=p, rho=rho)
    ctx.close("value returned with the reverse-mode derivative", float(v), float(vj[0].sum()), rtol=1e-6)


def k_limb(ctx, p, rho, u1, w):
    """derivative with respect to the limb-darkening coefficient"""
    import jax, jax.numpy as jnp
    from microjax.inverse_ray.extended_source import mag_limb_dark
    w = gen.l2c(w)
    if "limb" not in _F:
        f = lambda u, w, rho, s, q: jax.lax.map(lambda x: mag_limb_dark(x, rho, nlenses=2, u1=u, r_resolution=300, th_resolution=300, s=s, q=q), w)
        _F["limb"] = jax.jit(lambda u, *a: jax.jvp(lambda v: f(v, *a), (u,), (jnp.ones_like(u),)))
    val, g = (np.asarray(x) for x in _F["limb"](jnp.array(u1), jnp.array(w), rho, *p))
    # the magnification is a ratio of linear functions of u1: two exact values give the exact slope
    A, B = O.mag_ld(2, p, w, rho, 0.0), O.mag_ld(2, p, w, rho, 1.0)
    slope = (2.0 / 3.0) * (B - A) / (1 - u1 / 3) ** 2
    for i in range(len(w)):
        ctx.ran("limb", tuple(p), rho, complex(w[i]), n=1)
        e = abs(g[i] - slope[i]) / val[i]
        ctx.put("u1", float(e) if np.isfinite(e) else 9.0)
        ctx.check(np.isfinite(g[i]), "a derivative with respect to limb darkening is not finite", p=p, rho=rho, w=w[i], u1=u1)


def finalize(agg):
    e = np.array(agg.series.get("u1", [])).reshape(-1)
    if len(e):
        agg.extra["derivative with respect to limb darkening: error relative to the magnification"] = dict(n=len(e), median=float(np.median(e)), max=float(e.max()))
        if np.median(e) > 2.5e-2 or np.sum(e > .1) > max(1, .1 * len(e)):
            agg.fail("derivatives with respect to limb darkening do not match the slope of the true magnification", n=len(e), median=float(np.median(e)), max=float(e.max()))
    for name in sorted(agg.series):
        if name.startswith("slope_"):
            a = np.array(agg.series[name])
            a = a[np.abs(a[:, 1]) > 0.02]
            if len(a) >= 6:
                # a factor common to all slopes of one parameter (a lost term, a lost dependence) shows in the ratio, not in the scatter
                k = float(np.median(a[:, 0] / a[:, 1]))
                agg.extra["ratio of the derivative to the true slope (%s)" % name[6:]] = dict(n=len(a), median=k)
                kind = name[6:].split("_")[0]
                if len(a) >= 10 and not abs(k - 1) <= {"con": 0.02, "ray": 0.08, "ray3": 0.15, "raylim": 0.2}[kind]:
                    agg.fail("derivatives are off by a common factor", series=name[6:], n=len(a), factor=k)
        if name.startswith("v_"):
            e = np.array(agg.series[name])
            agg.extra["value under differentiation, relative change (%s)" % name[2:]] = dict(n=len(e), median=float(np.median(e)), max=float(e.max()))
            if not (np.percentile(e, 95) if name == "v_con" else e.max()) <= VLIM[name[2:]]:
                agg.fail("evaluating under differentiation changes the value of a light curve", engine=name[2:], max=float(e.max()))
        if name.startswith("g_"):
            a = np.array(agg.series[name])
            for sub, x in (("all", a[:, 0]), ("smooth", a[a[:, 1] > 2.5][:, 0]), ("crossing", a[a[:, 1] < 1][:, 0])):
                if len(x) > 3:
                    kind = name[2:].split("_")[0]
                    q50, q90 = np.percentile(x, 50), np.percentile(x, 90)
                    l50, l90 = LIM.get((kind, sub), (None, None))
                    if name[2:] == "raylim_rho" and l50:
                        l50, l90 = 2.5 * l50, l90 and 2.5 * l90
                    if l50 and len(x) >= (10 if sub == "smooth" else 8) and not (q50 <= l50 and (l90 is None or len(x) < 30 or q90 <= l90)):
                        agg.fail("derivatives do not match the slope of the true magnification", series=name, subset=sub, n=len(x), median=q50, limit_median=l50, q90=q90, limit_q90=l90)
                    agg.extra["gradient error %s %s" % (name[2:], sub)] = dict(n=len(x), **{"q%d" % q: float(np.percentile(x, q)) for q in (50, 75, 90, 97)}, max=float(x.max()))
