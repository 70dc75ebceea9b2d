"""Same call under different schedules: batching, order, neighbours, shapes, compilation, vectorisation, history."""
import numpy as np
from vlib import oracle as O, gen, fs, setup_repo

ID = "P27"
RULE = ("random 1-, 2- and 3-lens systems; 24 source points (caustic neighbourhoods, axes, far away) evaluated as one batch, permuted, reshaped, one at a time, in windows, next to hostile neighbours (1e9, exactly on a lens, on a cusp, NaN), compiled, vectorised over sources and over lens parameters, "
        "again after unrelated calls with other lens numbers, shapes and parameters, and with the inputs inspected afterwards; point source, images, multipole, both finite-source engines, single-lens transforms; non-trivial = (routine, system, source, schedule)")
ASSUMPTIONS = ["sources within 2e-3 of a caustic are left out for the strict comparison (the acceptance of a root is a threshold there)", "differently compiled code may round differently: 2e-8 x magnification^2 (more below mass ratios of 1e-3, 1e-6 for three lenses); the finite-source engines amplify it to their own accuracy"]


def cases(tier, rng):
    f = {"quick": 1, "thorough": 30}[tier]
    out = []
    for i in range(36 * f):
        n = 1 + i % 3
        p = gen.triple_ok(rng) if n == 3 else gen.binary(rng, .2, 4, 1e-4) if n == 2 else gen.system(rng, n)
        out.append(dict(k="point", n=n, p=list(p), seed=int(rng.integers(1 << 31)), g="n%d%d" % (n, i % 2)))
    for i in range(12 * f):
        n = 1 + i % 3
        p = gen.triple_ok(rng) if n == 3 else gen.binary(rng, .2, 4, 1e-4) if n == 2 else gen.system(rng, n)
        out.append(dict(k="multi", n=n, p=list(p), seed=int(rng.integers(1 << 31)), g="n%d%d" % (n, i % 2)))
    for i in range(5 * f):
        out.append(dict(k="contour", n=2, p=list(gen.binary(rng, .3, 3, 1e-4)), seed=int(rng.integers(1 << 31)), u1=0.0, g="c"))
    for i in range(8 * f):
        out.append(dict(k="ray", n=2, p=list(gen.binary(rng, .3, 3, 1e-4)), seed=int(rng.integers(1 << 31)), g="r"))
    for i in range(8 * f):
        out.append(dict(k="fast", seed=int(rng.integers(1 << 31)), g="f"))
    return out


def points(rng, n, p, N=24):
    w = []
    m, zl = O.lenses(n, *p)
    wc = O.caustic_points(m, zl, 720)[1].ravel() if n > 1 else np.array([0j])
    wc = wc[np.isfinite(wc)]
    while len(w) < N:
        for x in gen.sources(rng, n, p, N):
            if len(w) < N and np.abs(wc - x).min() > 2e-3 and np.abs(zl - x).min() > 1e-4 and abs(x) < 50:
                w.append(x)
    return np.array(w), wc, zl


def k_point(ctx, n, p, seed):
    import jax, jax.numpy as jnp
    from microjax.point_source import mag_point_source as f
    rng = np.random.default_rng(seed)
    w, wc, zl = points(rng, n, p)
    P = O.pub_params(n, *p)
    F = lambda x: np.asarray(f(jnp.asarray(x), nlenses=n, **P))
    keep = w.copy()
    base = F(w)
    qm = min(p[1], 1 / p[1]) if n == 2 else 1.0            # images next to a tiny planet are ill-conditioned
    T = (2e-8 if qm > 1e-2 else 1e-7 * max(1.0, 1e-3 / qm) if n < 3 else 1e-6) * base ** 2 + 1e-9
    C = lambda what, got, ref=base, tol=T: (ctx.ran(what, n, p, seed, n=np.size(ref)), ctx.close(what, got, ref, atol=tol, n=n, p=p))
    C("repeated call", F(w), tol=0 * T)
    pm = rng.permutation(len(w))
    C("order of the batch", F(w[pm]), base[pm], T[pm])
    C("batch with two dimensions", F(w.reshape(4, 6)).reshape(-1))
    C("batch with three dimensions", F(w.reshape(2, 3, 4)).reshape(-1))
    C("one point at a time", np.array([F(x[None])[0] for x in w[:8]]), base[:8], T[:8])
    sc = [F(x) for x in w[:4]]
    ctx.check(all(np.shape(x) == () for x in sc), "scalar source gives a scalar", shape=[np.shape(x) for x in sc], n=n)
    C("scalar sources", np.array(sc), base[:4], T[:4])
    hostile = np.array([1e9, 1e5j, zl[0] if n > 1 else 1e-8, wc[0], 1e-12 + 0j, complex("nan")])
    mixed = np.concatenate([w[:9], hostile, w[9:]])
    got = F(mixed)
    C("hostile neighbours", np.concatenate([got[:9], got[9 + len(hostile):]]))
    C("compiled", np.asarray(jax.jit(lambda x: f(x, nlenses=n, **P))(jnp.asarray(w))))
    C("vectorised over the sources", np.asarray(jax.vmap(lambda x: f(x, nlenses=n, **P))(jnp.asarray(w))))
    C("mapped over the sources", np.asarray(jax.lax.map(lambda x: f(x, nlenses=n, **P), jnp.asarray(w))))
    if n > 1:
        q = {k: np.array([v, v * 1.1, v]) for k, v in P.items()}
        v = np.asarray(jax.vmap(lambda d, x: f(x, nlenses=n, **d), in_axes=({k: 0 for k in q}, None))({k: jnp.asarray(v) for k, v in q.items()}, jnp.asarray(w)))
        C("vectorised over the lens parameters", v[0])
        C("vectorised over the lens parameters (last)", v[2])
    # unrelated work in between
    o = 1 + n % 3
    po = gen.system(rng, o)
    f(jnp.asarray(w[:3] * 2), nlenses=o, **O.pub_params(o, *po))
    if n > 1:
        p2 = [x * 1.05 for x in p]
        f(jnp.asarray(w), nlenses=n, **O.pub_params(n, *p2))
    C("after unrelated calls", F(w), tol=0 * T)
    ctx.check(np.array_equal(keep, w), "the input array was modified")
    z, ok = setup_repo.get("microjax.point_source:_images_point_source")(jnp.asarray(w - (O.x_cm(*p[:2]) if n > 1 else 0)), nlenses=n, **O.low_params(n, *p))
    ok = np.asarray(ok)
    ctx.check(ok.shape[-1] == len(w) or ok.shape[0] == len(w), "one set of images per source", shape=ok.shape)
    if len(ctx.samples) < 2:
        ctx.sample(n=n, p=p, w=w[0], A=base[0])


def k_multi(ctx, n, p, seed):
    import jax, jax.numpy as jnp
    from microjax.multipole import mag_hexadecapole
    I = setup_repo.get("microjax.point_source:_images_point_source")
    rng = np.random.default_rng(seed)
    w, wc, zl = points(rng, n, p)
    lp = O.low_params(n, *p)
    sh = O.x_cm(*p[:2]) if n > 1 else 0.0

    def f(x, rho):
        z, ok = I(x - sh, nlenses=n, **lp)
        return mag_hexadecapole(z, ok, rho, u1=.4, nlenses=n, **lp)
    try:
        base = [np.asarray(v) for v in f(jnp.asarray(w), 1e-3)]
    except TypeError:
        ctx.skip("internal interface of the multipole routine changed")
        return
    A = np.maximum(np.abs(base[0]), 1)
    T = 1e-6 * A ** 2
    fin = np.isfinite(base[0])
    ctx.check(np.isfinite(base[0]).all(), "multipole value is not finite", n=n, p=p)
    pm = rng.permutation(len(w))
    for what, got, i in (("order of the batch", f(jnp.asarray(w[pm]), 1e-3), pm), ("compiled", jax.jit(f)(jnp.asarray(w), 1e-3), slice(None)), ("vectorised", jax.vmap(lambda x: f(x[None], 1e-3))(jnp.asarray(w)), slice(None))):
        ctx.ran("multi", what, n, p, seed, n=len(w))
        ctx.close("multipole: " + what, np.asarray(got[0]).reshape(-1), base[0].reshape(-1)[i], atol=T[i], n=n, p=p)


def agree(ctx, name, got, ref, lim):
    """the engines amplify last-bit differences to their own accuracy, so agreement is judged over the run"""
    got, ref = np.asarray(got).reshape(-1), np.asarray(ref).reshape(-1)
    for a, b in zip(got, ref):
        ctx.put(name, [float(abs(a / b - 1)) if np.isfinite(a) and np.isfinite(b) else 9.0, lim])


def k_contour(ctx, n, p, seed, u1):
    import jax, jax.numpy as jnp
    from microjax.caustics.lightcurve import magnifications as f
    rng = np.random.default_rng(seed)
    rho = float(10 ** rng.uniform(-2, -1))
    w = fs.sources(rng, n, p, rho, 12)
    P = O.pub_params(n, *p)
    F = jax.jit(lambda x, r, d: f(x, r, nlenses=n, **d))
    run = lambda x, r=rho, d=P: np.asarray(F(jnp.asarray(x), r, d))
    base = run(w)
    ctx.ran("contour", p, seed, n=4 * len(w))
    ctx.close("contour: repeated call", run(w), base, n=n, p=p)
    pm = rng.permutation(len(w))
    agree(ctx, "contour order of the batch", run(w[pm]), base[pm], 1e-6)
    agree(ctx, "contour interpreted", np.asarray(f(jnp.asarray(w), rho, nlenses=n, **P)), base, 1e-6)
    # other points replaced by far ones
    x = w.copy()
    x[1::2] = 5 + 5j
    agree(ctx, "contour neighbours replaced", run(x)[::2], base[::2], 1e-6)
    run(w, rho * 1.3, {k: v * 1.1 for k, v in P.items()})
    ctx.close("contour: after another system", run(w), base, n=n, p=p)
    agree(ctx, "contour window", np.concatenate([np.asarray(f(jnp.asarray(w[i:i + 1]), rho, nlenses=n, **P)) for i in range(3)]), base[:3], 1e-6)


def k_ray(ctx, n, p, seed):
    import jax, jax.numpy as jnp
    from microjax.inverse_ray.extended_source import mag_uniform as f
    rng = np.random.default_rng(seed)
    rho = float(10 ** rng.uniform(-2, -1))
    w = fs.sources(rng, n, p, rho, 6)
    P = O.pub_params(n, *p)
    F = lambda x, d, r: f(x, r, nlenses=n, r_resolution=200, th_resolution=200, Nlimb=200, **d)
    J = jax.jit(F)
    one = np.array([float(J(jnp.asarray(x), P, rho)) for x in w])
    ctx.ran("ray", p, seed, n=4 * len(w))
    ctx.close("ray shooting: repeated call", [float(J(jnp.asarray(x), P, rho)) for x in w], one, n=n, p=p)
    V = jax.jit(lambda x, d, r: jax.lax.map(lambda y: F(y, d, r), x))
    agree(ctx, "ray mapped", V(jnp.asarray(w), P, rho), one, 1e-3)
    pm = rng.permutation(len(w))
    ctx.close("ray shooting: order in a mapped batch", np.asarray(V(jnp.asarray(w[pm]), P, rho)), np.asarray(V(jnp.asarray(w), P, rho))[pm], rtol=1e-12, n=n, p=p)
    J(jnp.asarray(w[0]), {k: v * 1.1 for k, v in P.items()}, rho * 2)
    ctx.close("ray shooting: after another system", [float(J(jnp.asarray(x), P, rho)) for x in w[::-1]], one[::-1], n=n, p=p)
    agree(ctx, "ray interpreted", [float(F(jnp.asarray(w[0]), P, rho))], one[:1], 1e-3)


def k_fast(ctx, seed):
    import jax, jax.numpy as jnp
    import microjax.fastlens.mag_fft_jax as M
    rng = np.random.default_rng(seed)
    rho = float(10 ** rng.uniform(-3, 0))
    u = np.abs(rng.normal(size=40)) * rho * rng.choice([.3, 1, 5], 40)
    for name, m, ex in (("mag_disk", M.mag_disk(), ()), ("mag_limb", M.mag_limb(), (.4,))):
        F = lambda x: np.asarray(m.A(jnp.asarray(x), rho, *ex))
        base = F(u)
        ctx.ran("fast", name, seed, n=4 * len(u))
        ctx.close("transform engine: repeated call", F(u), base)
        pm = rng.permutation(len(u))
        ctx.close("transform engine: order of the batch", F(u[pm]), base[pm], rtol=1e-12)
        ctx.close("transform engine: one at a time", [float(F(x[None])[0]) for x in u[:5]], base[:5], rtol=1e-12)
        m.A(jnp.asarray(u), rho * 3, *ex)
        ctx.close("transform engine: after another radius", F(u), base)
        ctx.close("transform engine: compiled", np.asarray(jax.jit(lambda x, r: m.A(x, r, *ex))(jnp.asarray(u), rho)), base, rtol=1e-7)
        ctx.close("transform engine: vectorised over radii", np.asarray(jax.vmap(lambda r: m.A(jnp.asarray(u), r, *ex))(jnp.array([rho * 2, rho])))[1], base, rtol=1e-7)


def finalize(agg):
    for name in sorted(agg.series):
        if name in ("persistent", "sliver"):
            continue
        a = np.array(agg.series[name])
        e, lim = a[:, 0], a[0, 1]
        bad = int(np.sum(e > lim))
        agg.extra[name] = dict(n=len(e), bitwise=int(np.sum(e == 0)), beyond_limit=bad, median=float(np.median(e)), max=float(e.max()))
        if bad > max(2, .05 * len(e)) or np.median(e) > lim:
            agg.fail("values depend on the schedule: " + name, n=len(e), bad=bad, median=float(np.median(e)))
        if np.sum(e > 2e-2) > max(1, .02 * len(e)):
            agg.fail("values depend strongly on the schedule: " + name, n=len(e), bad=int(np.sum(e > 2e-2)))
