"""Every point for which a light curve keeps the multipole value is accurate."""
import numpy as np
from vlib import oracle as O, gen, setup_repo, core

ID = "P13"
RULE = ("binaries with q from 1e-5 to 1e5, radii 3e-4..0.3; batches of 256 sources concentrated at 0.3..30 radii from central, resonant and planetary caustics, on the cusp axes, "
        "plus field points; acceptance is observed from outside: the light-curve routine is run with a useless (coarse) finite-source resolution, so a point that still equals the pure "
        "multipole light curve was accepted; non-trivial = accepted source, keyed by (system, radius, source)")
ASSUMPTIONS = ["VBBinaryLensing finite-source magnification (tolerance 1e-5)", "limit 1.5e-3 relative: ten times the largest deviation observed over two million stress points"]
NS = 256
LIM = 1.5e-3


def draw(rng, N):
    s, q = gen.binary(rng, 0.2, 5.0, 1e-5)
    if rng.uniform() < 0.4:
        q = 10 ** rng.uniform(-5, -1.5)
        if rng.uniform() < 0.25:
            q = 1 / q
    rho = 10 ** rng.uniform(-3.5, -0.5)
    m, zl = O.lenses(2, s, q)
    wc = O.caustic_points(m, zl, 256)[1].ravel()
    wc = wc[np.isfinite(wc)]
    i = rng.integers(0, len(wc), N)
    # half of the anchors from the cusp-rich part: planetary caustic of the lighter companion
    k = int(np.argmin(m))
    o = zl[1 - k]
    d = zl[k] - o
    pc = o + d - 1 / np.conj(d)
    near = wc[np.argsort(abs(wc - pc))[:max(8, len(wc) // 6)]]
    j = rng.integers(0, len(near), N)
    base = np.where(rng.uniform(size=N) < .3, near[j], wc[i])
    w = base + rho * 10 ** rng.uniform(-.5, 1.5, N) * np.exp(1j * rng.uniform(0, 2 * np.pi, N))
    u = rng.uniform(size=N)
    w = np.where(u < .05, pc + max(rho, 3 * np.sqrt(min(q, 1 / q))) * 10 ** rng.uniform(-1, .7, N) * np.exp(1j * rng.uniform(0, 6.3, N)), w)
    w = np.where(u > .95, w.real + 0j, w)
    w = np.where((u > .9) & (u < .95), rng.uniform(-2, 2, N) + 1j * rng.uniform(-2, 2, N), w)
    return s, q, rho, w


def cases(tier, rng):
    k = {"quick": (400, 60), "thorough": (12000, 1500)}[tier]
    out = []
    for j in range(k[0]):
        s, q, rho, w = draw(rng, NS)
        out.append(dict(k="icrs", s=s, q=q, rho=float(rho), w=gen.c2l(w), u1=0.0 if j % 10 else 0.6))
    for j in range(k[1]):
        s, q, rho, w = draw(rng, NS)
        out.append(dict(k="contour", s=s, q=q, rho=float(rho), w=gen.c2l(w), u1=0.0 if j % 4 else 0.6))
    return out


def judge(ctx, s, q, rho, w, acc, mult, u1, which):
    n = int(acc.sum())
    ctx.ev("accepted_" + which, n)
    ctx.ev("sent_to_full_" + which, len(w) - n)
    for i in np.nonzero(acc)[0]:
        ref = float(O.mag_uniform(2, (s, q), w[i:i + 1], rho)[0]) if u1 == 0 else float(O.mag_ld(2, (s, q), w[i:i + 1], rho, u1, nodes=12)[0])
        ctx.ran(s, q, rho, complex(w[i]), u1)
        e = abs(mult[i] / ref - 1)
        if e > LIM:      # a second opinion before a verdict: tighter tolerance, both reference codes
            ref2 = float(O.mag_uniform(2, (s, q), w[i:i + 1], rho, 1e-7)[0]) if u1 == 0 else float(O.mag_ld(2, (s, q), w[i:i + 1], rho, u1, nodes=30, tol=1e-6)[0])
            ctx.ev("reference_recomputed")
            e2 = abs(mult[i] / ref2 - 1)
            if e2 <= LIM:
                e = e2
        ctx.put("err", float(e))
        ctx.check(e <= LIM, "multipole value kept although it is wrong (%s)" % which, s=s, q=q, rho=rho, w=w[i], got=mult[i], ref=ref, rel=e, u1=u1)


def k_icrs(ctx, s, q, rho, w, u1):
    import jax.numpy as jnp
    from microjax.inverse_ray.lightcurve import mag_binary
    w = gen.l2c(w)
    kw = dict(u1=u1, r_resolution=6, th_resolution=6, Nlimb=12, bins_r=5, bins_th=6, chunk_size=64)
    full = np.asarray(mag_binary(jnp.array(w), rho, s=s, q=q, MAX_FULL_CALLS=len(w), **kw))
    mult = np.asarray(mag_binary(jnp.array(w), rho, s=s, q=q, MAX_FULL_CALLS=0, **kw))
    acc = np.abs(full - mult) <= 1e-9 * np.abs(mult)
    judge(ctx, s, q, rho, w, acc, mult, u1, "icrs")
    if u1 == 0:
        try:
            tf = setup_repo.get("microjax.inverse_ray.cond_extended:test_full")
        except core.RepoMissing:
            ctx.skip("stand-alone acceptance test not there")
        else:
            a = np.asarray(tf(jnp.array(w - .5 * s * (1 - q) / (1 + q)), rho, nlenses=2, a=.5 * s, e1=q / (1 + q)))
            judge(ctx, s, q, rho, w, a & ~acc, mult, u1, "stand-alone test")
    ctx.sample(s=s, q=q, rho=rho, accepted=int(acc.sum()), of=len(w))


def k_contour(ctx, s, q, rho, w, u1):
    import jax.numpy as jnp
    from microjax.caustics.lightcurve import magnifications
    from microjax.inverse_ray.lightcurve import mag_binary
    w = gen.l2c(w)
    kw = dict(nlenses=2, s=s, q=q, npts_limb=16)
    if u1:
        kw.update(limb_darkening=True, u1=u1, npts_ld=4)
    full = np.asarray(magnifications(jnp.array(w), rho, **kw))
    mult = np.asarray(mag_binary(jnp.array(w), rho, s=s, q=q, MAX_FULL_CALLS=0, u1=u1, r_resolution=6, th_resolution=6, Nlimb=12, bins_r=5, bins_th=6, chunk_size=64))
    acc = np.abs(full - mult) <= 1e-9 * np.abs(mult)
    judge(ctx, s, q, rho, w, acc, mult, u1, "contour")


def finalize(agg):
    e = np.array(agg.series.get("err", []))
    if len(e):
        agg.extra["accepted points: number, 99%, 99.9%, max error"] = [len(e)] + [float(x) for x in np.quantile(e, [.99, .999, 1])]
