"""Derivatives of the point-source magnification and of polynomial roots."""
import numpy as np
from vlib import oracle as O, gen, setup_repo

ID = "P07"
RULE = ("1-3 lens systems with corners, sources in the field, on the axes, next to lenses and at graded distances (>=2e-3) from the caustics; every partial derivative "
        "(source coordinates and lens parameters) in forward and reverse mode against Richardson differences of the independent solver; "
        "roots: implicit derivatives against the analytic formula evaluated at numpy roots; non-trivial = source where the differences are self-consistent")
ASSUMPTIONS = ["finite differences of the independent solver count only when step sizes h and h/2 agree"]
NS = 16
NAMES = {1: ["x", "y"], 2: ["x", "y", "s", "q"], 3: ["x", "y", "s", "q", "q3", "r3", "psi"]}


def cases(tier, rng):
    k = {"quick": (8, 60, 40, 6), "thorough": (80, 1200, 800, 60)}[tier]
    out = []
    for n, K in ((1, k[0]), (2, k[1]), (3, k[2])):
        for _ in range(K):
            p = () if n == 1 else (gen.binary(rng, 0.3, 4.0, 1e-3) if n == 2 else gen.triple_ok(rng))
            m, zl = O.lenses(n, *p)
            w = []
            _, wc = O.caustic_points(m, zl, 300) if n > 1 else (0, np.zeros(1))
            while len(w) < NS:
                for x in gen.sources(rng, n, p, NS, far=False):
                    if np.nanmin(np.abs(wc - x)) > (2e-3 if n < 3 else 1e-2) and len(w) < NS and np.abs(x - zl).min() > 1e-3:
                        w.append(x)
            out.append(dict(k="grad", n=n, p=list(p), w=gen.c2l(w)))
    for _ in range(k[3]):
        for n in (2, 4, 5, 6, 10):
            out.append(dict(k="roots", n=n, seed=int(rng.integers(1 << 31))))
    return out


_F = {}


def fun(n):
    if n not in _F:
        import jax, jax.numpy as jnp
        from microjax.point_source import mag_point_source

        def f(th):
            kw = dict(zip(NAMES[n][2:], th[2:]))
            return mag_point_source(th[0] + 1j * th[1], nlenses=n, **kw)
        _F[n] = (jax.jit(jax.vmap(f)), jax.jit(jax.vmap(jax.jacfwd(f))), jax.jit(jax.vmap(jax.grad(f))))
    return _F[n]


def ref_mag(n, th):
    m, zl = O.lenses(n, *th[2:])
    return O.mag_ps(complex(th[0], th[1]), m, zl)


def ref_grad(n, th):
    out, err = [], []
    for j in range(len(th)):
        D = []
        h0 = 2e-5 * max(abs(th[j]), 0.05) if j >= 2 else 2e-5
        for h in (h0, h0 / 2):
            v = []
            for sg in (1, -1):
                t = list(th)
                t[j] += sg * h
                A, ok = ref_mag(n, t)
                if not ok:
                    return None, None
                v.append(A)
            D.append((v[0] - v[1]) / (2 * h))
        out.append((4 * D[1] - D[0]) / 3)
        err.append(abs(D[1] - D[0]))
    return np.array(out), np.array(err)


def k_grad(ctx, n, p, w):
    import jax.numpy as jnp
    w = gen.l2c(w)
    th = np.array([[x.real, x.imag] + list(p) for x in w])
    f, jf, jr = fun(n)
    val, fw, rv = np.asarray(f(jnp.array(th))), np.asarray(jf(jnp.array(th))), np.asarray(jr(jnp.array(th)))
    for i in range(len(w)):
        A, ok = ref_mag(n, th[i])
        if not ok or abs(val[i] / A - 1) > (1e-6 if n < 3 else 1e-4):
            ctx.ev("value_not_certain")     # values are judged by P02
            continue
        g, e = ref_grad(n, th[i])
        if g is None:
            ctx.ev("ambiguous_oracle")
            continue
        sc = np.maximum(np.abs(g), 1e-3 * np.abs(g).max()) + A
        if np.any(e > 1e-3 * sc):
            ctx.ev("differences_not_converged")
            continue
        ctx.ran(n, tuple(p), complex(w[i]))
        tol = min((1e-4 if n < 3 else 2e-4) + 1e-8 * A * A, 2e-3) * sc + e + 1e-10 * A / 1e-5
        ctx.ev("derivatives_judged", len(g))
        d = np.abs(fw[i] - g)
        ok = bool(np.all(d <= tol))
        ctx.top("derivative error / tolerance n=%d" % n, (d / tol).max())
        ctx.check(ok, "derivative of the point-source magnification is wrong", n=n, theta=dict(zip(NAMES[n], th[i])), got=fw[i], ref=g, tol=tol)
        ctx.check(np.all(np.abs(fw[i] - rv[i]) <= (1e-5 if n < 3 else 5e-5) * sc), "reverse-mode and forward-mode derivatives differ", n=n, theta=th[i], fwd=fw[i], rev=rv[i])
    ctx.sample(n=n, theta=th[0], forward=fw[0])


def k_roots(ctx, n, seed):
    import jax, jax.numpy as jnp
    f = setup_repo.get("microjax.poly_solver:poly_roots")
    rng = np.random.default_rng(seed)
    for _ in range(12):
        r = rng.normal(size=n) + 1j * rng.normal(size=n)
        if min(abs(r[i] - r[j]) for i in range(n) for j in range(i)) < .1:
            continue
        c = np.poly(r) * np.exp(1j * rng.uniform(0, 6.3)) * 10 ** rng.uniform(-1, 1)
        d = rng.normal(size=n + 1) + 1j * rng.normal(size=n + 1)
        z, dz = jax.jvp(lambda x: f(x), (jnp.array(c),), (jnp.array(d),))
        z, dz = np.asarray(z), np.asarray(dz)
        h = 1e-6
        zp, zm = np.roots(c + h * d), np.roots(c - h * d)
        near = lambda a: np.array([a[np.argmin(abs(a - t))] for t in z])
        ref = (near(zp) - near(zm)) / (2 * h)
        ana = -np.polyval(d, z) / np.polyval(np.polyder(c), z)
        ctx.ran("roots", n, complex(c[0]))
        ctx.close("derivative of the roots with respect to the coefficients", dz, ana, rtol=1e-8, atol=1e-8 * np.abs(ana).max(), coeffs=c, direction=d)
        ctx.close("derivative of the roots against differences", dz, ref, rtol=1e-3, atol=1e-3 * (np.abs(ana).max() + 1))
        # reverse mode: <u, J d> must equal <J^T u, d> on a real-valued summary
        u = rng.normal(size=n)
        s = lambda x: jnp.sum(jnp.abs(f(x)) ** 2)
        g = np.asarray(jax.grad(s)(jnp.array(c)))
        lin = np.sum(2 * np.real(np.conj(z) * dz))
        ctx.close("reverse-mode derivative of the roots", np.sum(np.real(g * d)), lin, rtol=1e-7, atol=1e-7 * np.sum(np.abs(z) * np.abs(dz)))


def finalize(agg):
    e = agg.events
    bad = e.get("value_not_certain", 0)
    if bad > 0.05 * max(agg.evals, 1):
        agg.fail("too many values disagree with the reference to judge derivatives", n=bad, total=agg.evals)
