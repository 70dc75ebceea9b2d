"""Special functions and their derivatives."""
import numpy as np
from vlib import setup_repo

ID = "P21"
RULE = ("elliptic parameters -50..1-1e-9 (full precision up to 1-1e-3) (dense, at 0, next to 0, either side of every branch), Bessel arguments 0..1e4 incl. the branch points and the zeros, complex gamma arguments |Re|,|Im| <= 100 incl. reflection line and integers; "
        "scalars, 1-d, 2-d and empty-adjacent shapes; forward and reverse derivatives; interpreted, compiled, vectorised; non-trivial = (function, argument block)")
ASSUMPTIONS = ["scipy.special as reference (cephes/boost), relative accuracy 1e-13"]
M = "microjax.fastlens.special:"


def cases(tier, rng):
    f = {"quick": 1, "thorough": 40}[tier]
    out = []
    for k in ("ellip", "bessel", "gam", "ellipgrad", "besselgrad", "gamgrad", "shapes"):
        for i in range(10 * f):
            out.append(dict(k=k, seed=int(rng.integers(1 << 31))))
    return out


def ms(rng, n=400):
    return np.concatenate([[0.0, 1e-300, -1e-300, 1e-16, -1e-16, 1e-8, -1e-8, 1e-6, -1e-6, 1.01e-6, .5, .999, .999999, 1 - 1e-9, -1.0, -50.0], rng.uniform(0, 1, n), -10 ** rng.uniform(-12, 1.7, n), 1 - 10 ** rng.uniform(-8, 0, n), 10 ** rng.uniform(-12, 0, n) * .9999])


def k_ellip(ctx, seed):
    import jax.numpy as jnp, scipy.special as S
    m = ms(np.random.default_rng(seed))
    tol = np.where(1 - m >= 1e-3, 1e-12, np.where(1 - m >= 1e-4, 1e-10, np.where(1 - m >= 1e-7, 1e-6, 2e-5)))      # the iteration count is fixed
    for n in ("ellipk", "ellipe"):
        f = setup_repo.get(M + n)
        ctx.ran(n, seed, n=len(m))
        ref = getattr(S, n)(m)
        ctx.close(n, np.asarray(f(jnp.array(m))), ref, atol=tol * ref)
    ctx.sample(m=m[-1], K=float(S.ellipk(m[-1])))


def bx(rng, n=600):
    from scipy.special import jn_zeros
    return np.concatenate([[0.0, 1e-300, 1e-8, 9.9e-6, 1e-5, 1.1e-5, 1e-3, .1, 1.0, 4.999999, 5.0, 5.000001, 100.0, 1e4], rng.uniform(0, 30, n), 10 ** rng.uniform(-8, 4, n), jn_zeros(0, 20), jn_zeros(1, 20), jn_zeros(2, 20)])


def k_bessel(ctx, seed):
    import jax.numpy as jnp, scipy.special as S
    x = bx(np.random.default_rng(seed))
    for n, o, tol in (("j0", 0, 3e-15), ("j1", 1, 3e-15), ("j2", 2, 6e-15), ("j1p5", 1.5, 2e-12)):
        f = setup_repo.get(M + n)
        ctx.ran(n, seed, n=len(x))
        ctx.close(n, np.asarray(f(jnp.array(x))), S.jv(o, x), atol=tol + x * 2e-15 / np.sqrt(x + 1))
    ctx.sample(x=x[-70], J0=float(S.j0(x[-70])))


def zs(rng, n=300):
    z = np.concatenate([rng.uniform(-60, 60, n) + 1j * rng.uniform(-60, 60, n), rng.uniform(-5, 5, n) + 1j * 10 ** rng.uniform(-6, 1, n) * rng.choice([-1, 1], n), rng.uniform(.01, 100, n) + 0j, np.arange(1, 30) + 0j, 1j * rng.uniform(.01, 60, 30), .5 + 1j * rng.uniform(-99, 99, 50)])
    from scipy.special import loggamma
    L = loggamma(z)
    dist = np.where(z.real < .5, np.abs(z - np.round(z.real)), 1)
    return z[(np.abs(L.real) < 650) & (dist > 1e-7)]


def k_gam(ctx, seed):
    import jax.numpy as jnp, scipy.special as S
    z = zs(np.random.default_rng(seed))
    f = setup_repo.get(M + "gamma")
    ref = S.gamma(z)
    ctx.ran("gamma", seed, n=len(z))
    ctx.close("gamma", np.asarray(f(jnp.array(z))), ref, atol=np.abs(ref) * (1e-10 + 1e-15 / np.where(z.real < .5, np.minimum(np.abs(z - np.round(z.real)), 1), 1)))
    w = z[z.real > -20][:200]
    w = w[np.abs(w) < 40]
    g0, g1 = np.asarray(f(jnp.array(w))), np.asarray(f(jnp.array(w + 1)))
    ctx.close("recurrence of gamma", g1, w * g0, atol=np.abs(g1) * (1e-10 + 1e-13 / np.minimum(np.abs(w - np.round(w.real)) + (w.real > .5), 1)))
    ctx.close("conjugate symmetry", np.asarray(f(jnp.array(np.conj(w)))), np.conj(g0), rtol=1e-12)
    x = np.random.default_rng(seed).uniform(.05, 30, 40)
    ctx.close("real arguments", np.asarray(f(jnp.array(x))), S.gamma(x), rtol=1e-10)


def grads(f, x):
    import jax, jax.numpy as jnp
    x = jnp.array(x)
    r = np.asarray(jax.vmap(jax.grad(lambda t: f(t)))(x))
    g = np.asarray(jax.jvp(f, (x,), (jnp.ones_like(x),))[1])
    return r, g


def k_ellipgrad(ctx, seed):
    import scipy.special as S
    m = ms(np.random.default_rng(seed), 150)
    m = m[m < 1 - 1e-5]
    E, K = S.ellipe(m), S.ellipk(m)
    sm = np.abs(m) < 1e-3
    ms_ = np.where(sm, .5, m)
    # series of K and E for small m
    dk = np.where(sm, np.pi / 2 * (1 / 4 + 9 / 32 * m + 75 / 256 * m ** 2 + 1225 / 4096 * m ** 3), (E - (1 - m) * K) / (2 * ms_ * (1 - ms_)))
    de = np.where(sm, -np.pi / 2 * (1 / 4 + 3 / 32 * m + 15 / 256 * m ** 2 + 175 / 4096 * m ** 3), (E - K) / (2 * ms_))
    for n, ref in (("ellipk", dk), ("ellipe", de)):
        f = setup_repo.get(M + n)
        ctx.ran(n, "grad", seed, n=len(m))
        for mode, g in zip(("reverse", "forward"), grads(f, m)):
            ctx.close("%s derivative of %s" % (mode, n), g, ref, atol=np.abs(ref) * (3e-9 + 2e-14 / (1 - m)) + np.minimum(1e-8, 5e-16 / np.maximum(np.abs(m), 1e-300)))


def k_besselgrad(ctx, seed):
    import jax.numpy as jnp, scipy.special as S
    x = bx(np.random.default_rng(seed), 150)
    for n, o in (("j0", 0), ("j1", 1)):
        f = setup_repo.get(M + n)
        F = lambda t: f(jnp.atleast_1d(t)).reshape(jnp.shape(t))
        s = x[x < 200]
        ctx.ran(n, "grad", seed, n=len(s))
        for mode, g in zip(("reverse", "forward"), grads(F, s)):
            ctx.close("%s derivative of %s" % (mode, n), g, S.jvp(o, s), atol=2e-11)


def k_gamgrad(ctx, seed):
    import jax, jax.numpy as jnp, scipy.special as S
    z = zs(np.random.default_rng(seed), 120)
    z = z[np.abs(z) < 80]
    f = setup_repo.get(M + "gamma")
    ref = S.gamma(z) * S.digamma(z)
    g = np.asarray(jax.jvp(f, (jnp.array(z),), (jnp.ones(len(z)) + 0j,))[1])
    d = np.where(z.real < .5, np.minimum(np.abs(z - np.round(z.real)), 1), 1)
    ctx.ran("gamma", "grad", seed, n=len(z))
    ctx.close("derivative of gamma", g, ref, atol=np.abs(S.gamma(z)) * (np.abs(S.digamma(z)) + .1) * (1e-9 + 1e-14 / d))


def k_shapes(ctx, seed):
    import jax, jax.numpy as jnp, scipy.special as S
    rng = np.random.default_rng(seed)
    for n, ref in (("ellipk", S.ellipk), ("ellipe", S.ellipe)):
        f = setup_repo.get(M + n)
        for sh in ((), (1,), (7,), (2, 3), (1, 4, 1)):
            m = rng.uniform(-3, .99, sh)
            for how, v in (("plain", f(jnp.array(m))), ("compiled", jax.jit(f)(jnp.array(m)))):
                ctx.ran(n, how, sh, seed)
                ctx.check(np.shape(v) == sh, "shape of the result", fn=n, how=how, got=np.shape(v), want=sh)
                ctx.close("%s for shape %s" % (n, sh), np.asarray(v), ref(m), rtol=1e-12)
        for s in (0.0, .3, -2.0):
            ctx.close("%s of a Python number" % n, float(f(s)), ref(s), rtol=1e-12)
    for n, ref in (("j0", S.j0), ("j1", S.j1), ("j2", lambda x: S.jv(2, x)), ("j1p5", lambda x: S.jv(1.5, x))):
        f = setup_repo.get(M + n)
        for sh in ((1,), (9,), (2, 3)):
            x = rng.uniform(.01, 40, sh)
            for how, v in (("plain", f(jnp.array(x))), ("compiled", jax.jit(f)(jnp.array(x)))):
                ctx.ran(n, how, sh, seed)
                ctx.check(np.shape(v) == sh, "shape of the result", fn=n, how=how, got=np.shape(v), want=sh)
                ctx.close("%s for shape %s" % (n, sh), np.asarray(v), ref(x), atol=1e-11)
    g = setup_repo.get(M + "gamma")
    for sh in ((1,), (5,), (2, 3), (2, 1, 3)):
        z = rng.uniform(.1, 9, sh) + 1j * rng.normal(size=sh)
        v = np.asarray(g(jnp.array(z)))
        ctx.ran("gamma", sh, seed)
        ctx.check(v.shape == sh, "shape of the result", fn="gamma", got=v.shape, want=sh)
        ctx.close("gamma for shape %s" % (sh,), v, S.gamma(z), rtol=1e-10)
