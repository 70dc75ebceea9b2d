"""Index and NaN sanitizer: every engine executed with out-of-range reads poisoned, and checked for finite output."""
import numpy as np
from vlib import oracle as O, gen, fs, setup_repo

ID = "P28"
RULE = ("every engine (point source, images, critical curves, multipole, low-level and adaptive ray shooting, contour integration, transform engine; values and derivatives) traced to its primitive program and re-executed with every out-of-range gather and slice turned into NaN poison "
        "and scatter indices counted, over stress systems (mass ratios 1e-6..1e6, separations 0.2..5, changes of topology, radii 1e-4..3) and stress sources (on the axis, at the origin, on folds and cusps, next to lenses, far away); "
        "non-trivial = (engine, system, source) executed under the sanitizer")
ASSUMPTIONS = ["XLA executes the traced program with the documented out-of-range rules", "a scatter index equal to the array size is the library's own drop sentinel (jnp.unique with a size) and only counted",
               "sources exactly at the position of a lens are excluded: the lens equation itself is singular there"]


def params(n, th):
    return dict(zip(["s", "q", "q3", "r3", "psi"], [th[i] for i in range(2 * (n == 2) + 5 * (n == 3))]))


def low(n, th):
    if n == 1:
        return {}
    if n == 2:
        return dict(a=.5 * th[0], e1=th[1] / (1 + th[1]))
    import jax.numpy as jnp
    t = 1 + th[1] + th[2]
    return dict(a=.5 * th[0], e1=th[1] / t, e2=1 / t, r3=th[3] * jnp.exp(1j * th[4]), psi=th[4])


def low_ray(n, th):
    p = params(n, th)
    return p


def engines():
    import jax, jax.numpy as jnp
    from microjax.point_source import mag_point_source, critical_and_caustic_curves
    from microjax.inverse_ray.lightcurve import mag_binary, mag_triple
    from microjax.inverse_ray.extended_source import mag_uniform, mag_limb_dark
    from microjax.caustics.lightcurve import magnifications
    from microjax.multipole import mag_hexadecapole
    import microjax.fastlens.mag_fft_jax as M
    images = lambda *a, **k: setup_repo.get("microjax.point_source:_images_point_source")(*a, **k)
    sequential = lambda *a, **k: setup_repo.get("microjax.point_source:_images_point_source_sequential")(*a, **k)
    ps = lambda n: (lambda th, w, rho: mag_point_source(w, nlenses=n, **params(n, th)))
    seq = dict(r_resolution=200, th_resolution=200, Nlimb=300)
    fast = {}

    def transform(kind):
        if kind not in fast:
            fast[kind] = getattr(M, kind)()
        m = fast[kind]
        return (lambda th, w, rho: m.A(jnp.abs(w), rho)) if kind == "mag_disk" else (lambda th, w, rho: m.A(jnp.abs(w), rho, .4))

    def multi(th, w, rho):
        z, ok = images(w, nlenses=2, **low(2, th))
        return mag_hexadecapole(z, ok, rho, u1=.4, nlenses=2, **low(2, th))

    def deriv(f, n):
        # along the sources, the radius and every lens parameter at once: forward mode, one direction at a time
        def g(th, w, rho):
            out = [jax.jvp(f, (th, w, rho), (jnp.zeros_like(th), d * jnp.ones_like(w), jnp.zeros_like(rho)))[1] for d in (1 + 0j, 1j)]
            out.append(jax.jvp(f, (th, w, rho), (jnp.zeros_like(th), jnp.zeros_like(w), jnp.ones_like(rho)))[1])
            return out + [jax.jvp(f, (th, w, rho), (jnp.eye(len(th))[i], jnp.zeros_like(w), jnp.zeros_like(rho)))[1] for i in range(len(th))]
        return g
    mapped = lambda f: (lambda th, w, rho: jax.lax.map(lambda x: f(th, x, rho), w))
    uni2 = mapped(lambda th, x, rho: mag_uniform(x, rho, nlenses=2, **seq, **params(2, th)))
    lim2 = mapped(lambda th, x, rho: mag_limb_dark(x, rho, u1=.5, nlenses=2, **seq, **params(2, th)))
    uni3 = mapped(lambda th, x, rho: mag_uniform(x, rho, nlenses=3, **seq, **params(3, th)))
    lc = lambda f, n, u1: (lambda th, w, rho: f(w, rho, u1=u1, MAX_FULL_CALLS=6, chunk_size=3, **seq, **params(n, th)))
    return {
        "point1": (1, ps(1)), "point2": (2, ps(2)), "point3": (3, ps(3)), "dpoint1": (1, deriv(ps(1), 1)), "dpoint2": (2, deriv(ps(2), 2)), "dpoint3": (3, deriv(ps(3), 3)),
        "seq2": (2, lambda th, w, rho: sequential(w, nlenses=2, **low(2, th))), "seq3": (3, lambda th, w, rho: sequential(w, nlenses=3, **low(3, th))),
        "crit2": (2, lambda th, w, rho: critical_and_caustic_curves(npts=60, nlenses=2, **params(2, th))), "crit3": (3, lambda th, w, rho: critical_and_caustic_curves(npts=60, nlenses=3, **params(3, th))),
        "multi": (2, multi), "uni2": (2, uni2), "lim2": (2, lim2), "uni3": (3, uni3), "duni2": (2, deriv(uni2, 2)), "dlim2": (2, deriv(lim2, 2)),
        "bin": (2, lc(mag_binary, 2, 0.0)), "binlim": (2, lc(mag_binary, 2, 0.5)), "tri": (3, lc(mag_triple, 3, 0.0)),
        "contour": (2, lambda th, w, rho: magnifications(w, rho, nlenses=2, npts_limb=200, **params(2, th))),
        "contour1": (1, lambda th, w, rho: magnifications(w, rho, nlenses=1, npts_limb=200)),
        "mag_disk": (1, transform("mag_disk")), "mag_limb": (1, transform("mag_limb")),
    }


# engine: (systems, sources per system, worker group)
PLAN = {"point1": (6, 30, "a"), "point2": (80, 30, "a"), "point3": (60, 30, "b"), "dpoint1": (4, 20, "a"), "dpoint2": (40, 20, "a"), "dpoint3": (20, 20, "b"), "seq2": (30, 40, "a"), "seq3": (20, 40, "b"),
        "crit2": (40, 1, "a"), "crit3": (30, 1, "b"), "multi": (40, 20, "a"), "uni2": (40, 4, "a"), "lim2": (24, 4, "e"), "uni3": (12, 4, "e"), "duni2": (10, 4, "c"), "dlim2": (6, 4, "d"),
        "bin": (20, 6, "f"), "binlim": (12, 6, "f"), "tri": (6, 6, "e"), "contour": (24, 6, "h"), "contour1": (6, 6, "b"), "mag_disk": (20, 40, "b"), "mag_limb": (20, 40, "b")}


def cases(tier, rng):
    f = {"quick": 1, "thorough": 25}[tier]
    out = []
    for e, (K, N, g) in PLAN.items():
        for i in range(0, K * f, 10):
            out.append(dict(k="san", eng=e, K=min(10, K * f - i), N=N, seed=int(rng.integers(1 << 31)), g=g if f == 1 else g + e))
    return out


_E, _C = None, {}


def compiled(eng):
    global _E
    import jax
    if _E is None:
        _E = engines()
    if eng not in _C:
        from vlib import sanitize
        n, f = _E[eng]
        g, sites = sanitize.instrument(f)
        _C[eng] = (n, jax.jit(f), jax.jit(g), sites)
    return _C[eng]


def stress(rng, eng, n, N):
    far = eng[:5] == "point" or eng[:3] == "seq"
    if n == 1:
        p = []
    elif n == 2:
        p = gen.binary(rng) if far else gen.binary(rng, .25, 4, 1e-5)
    else:
        p = gen.triple(rng) if far and rng.uniform() < .5 else gen.triple_ok(rng)
    rho = float(10 ** rng.uniform(-3, .3)) if n != 2 or not far else .01
    m, zl = O.lenses(n, *p)
    w = fs.sources(rng, n, p, rho, N) if n > 1 else (rng.normal(size=N) + 1j * rng.normal(size=N)) * rho * rng.choice([1e-3, .3, 1, 3], N)
    x = 0
    wc = O.caustic_points(m, zl, 64)[1].ravel() if n > 1 else np.array([0j])
    wc = wc[np.isfinite(wc)]
    for i in range(N):
        u = rng.uniform()
        if u < .06:
            w[i] = complex(w[i].real, 0)
        elif u < .1:
            w[i] = wc[rng.integers(len(wc))]
        elif u < .13:
            w[i] = 10 ** rng.uniform(0, 3) * np.exp(2j * np.pi * rng.uniform())
        elif u < .16:
            w[i] = complex(w[i].real, 10 ** rng.uniform(-16, -6))
    if n > 1 or not eng.startswith("contour"):
        w = np.where(np.abs(w[:, None] - zl).min(1) < 1e-9, w + 1e-3 * (1 + 1j), w)
    return list(p), rho, w


def k_san(ctx, eng, K, N, seed):
    import jax, jax.numpy as jnp
    try:
        n, f, g, sites = compiled(eng)
    except setup_repo.RepoMissing as e:
        ctx.skip(str(e))
        return
    rng = np.random.default_rng(seed)
    for _ in range(K):
        p, rho, w = stress(rng, eng, n, N)
        a = (jnp.array(p, float), jnp.array(w), jnp.array(rho))
        plain = [np.asarray(x) for x in jax.tree_util.tree_leaves(f(*a))]
        out, cnt = g(*a)
        san = [np.asarray(x) for x in jax.tree_util.tree_leaves(out)]
        ctx.ran(eng, p, seed, n=N)
        ctx.ev("executions of " + eng, N)
        cnt = np.asarray(cnt)
        for name, c in zip(sites.names, cnt):
            if c:
                ctx.ev("out of range %s" % name, int(c))
            if name.startswith(("scatter@", "dynamic_update_slice@")) and eng != "contour":   # contour: fixed number of pieces per track, surplus fragments of spurious roots are dropped by design; P09 judges the values
                ctx.check(c == 0, "write outside the array", eng=eng, site=name, count=int(c), p=p, rho=rho)
        for i, (x, y) in enumerate(zip(plain, san)):
            if x.dtype.kind not in "fc":
                continue
            bx, by = ~np.isfinite(x), ~np.isfinite(y)
            poisoned = by & ~bx
            ctx.check(not poisoned.any(), "a value read outside an array reaches the result", eng=eng, out=i, n=int(poisoned.sum()), p=p, rho=rho, w=w[:8], sites=[s for s, c in zip(sites.names, cnt) if c])
            if bx.any():
                j = int(np.argwhere(bx.reshape(-1))[0][0])
                ctx.check(False, "non-finite " + ("derivative" if eng[0] == "d" else "value"), eng=eng, out=i, n=int(bx.sum()), size=bx.size, index=j, p=p, rho=rho, w=w[j % N], min_gap=float(np.abs(w[j % N] - O.lenses(n, *p)[1]).min()))
            both = ~bx & ~by
            d = np.abs(x - y)[both] / np.maximum(np.abs(x[both]), 1)
            ctx.top("difference between sanitized and ordinary execution of " + eng, float(d.max()) if d.size else 0.0)
    ctx.sample(eng=eng, n_sites=len(sites.names), last_system=p, rho=rho)


def finalize(agg):
    reads = {k: v for k, v in agg.events.items() if k.startswith("out of range")}
    agg.extra["out_of_range_sites"] = reads
