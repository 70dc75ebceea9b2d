"""Annual parallax: structure."""
import numpy as np
from vlib import setup_repo

ID = "P24"
RULE = ("targets uniform on the sphere, near the celestial poles (to 1e-4 deg) and on the ecliptic; reference times 1995-2030; event times from 1e-3 d to 10 yr from the reference time, scalar and arrays; parallax vectors of any direction and size 0..5; "
        "explicit and automatic orbital epochs, eccentricity 0..0.3, obliquities and periods other than the Earth's; non-trivial = (target, reference time, relation)")
ASSUMPTIONS = ["relations between executions need no reference; the velocity at the reference time is a symmetric difference over dt (documented), error (dt^2/6) x third derivative",
               "east is undefined exactly at the celestial poles"]


def cases(tier, rng):
    f = {"quick": 1, "thorough": 40}[tier]
    return [dict(k=k, seed=int(rng.integers(1 << 31))) for k, n in (("anchor", 50), ("linear", 40), ("sky", 40), ("epochs", 30), ("kepler", 20), ("diff", 16)) for i in range(n * f)]


def target(rng):
    k = int(rng.integers(5))
    ra, dec = float(rng.uniform(0, 360)), float(np.degrees(np.arcsin(rng.uniform(-1, 1))))
    if k == 1:
        dec = float(rng.choice([-1, 1]) * (90 - 10 ** rng.uniform(-4, 1)))
    if k == 2:
        l = rng.uniform(0, 2 * np.pi)
        e = np.radians(23.44)
        v = np.array([np.cos(l), np.sin(l) * np.cos(e), np.sin(l) * np.sin(e)])
        ra, dec = float(np.degrees(np.arctan2(v[1], v[0])) % 360), float(np.degrees(np.arcsin(v[2])))
    if k == 3:
        ra, dec = 268.0 + float(rng.normal()) * 5, -29.0 + float(rng.normal()) * 5
    if k == 4:
        ra, dec = float(rng.choice([0.0, 90.0, 180.0, 270.0])), float(rng.choice([0.0, 66.56, -66.56, 23.44, -23.44]))
    return ra, dec


def orbit(rng):
    tref = float(rng.uniform(0, 12500))
    if rng.integers(2):
        return tref, 0.0, 0.0, {}
    tp = float(tref + rng.uniform(-400, 400))
    kw = dict(ecc=float(rng.choice([0.0, .0167, .1, .3])), period=float(rng.choice([365.25636, 200.0, 687.0])), rotaxis_deg=float(rng.choice([23.44, 0.0, 60.0])))
    return tref, tp, float(tp + rng.uniform(20, 120)), kw


def times(rng, tref):
    d = np.concatenate([[0.0, 1e-3, -1e-3, .1, -.1], rng.uniform(-200, 200, 20), rng.uniform(-3650, 3650, 8)])
    return tref + d


def C():
    import jax.numpy as jnp
    from microjax.trajectory.parallax import set_parallax, compute_parallax
    return jnp, set_parallax, compute_parallax


def k_anchor(ctx, seed):
    rng = np.random.default_rng(seed)
    jnp, sp, cp = C()
    ra, dec = target(rng)
    tref, tp, tv, kw = orbit(rng)
    P = sp(tref, tp, tv, ra, dec, **kw)
    N, E = rng.normal(size=2)
    amp = np.hypot(N, E)
    w = 2 * np.pi / kw.get("period", 365.25636)
    ee = kw.get("ecc", .0167)
    big = (1 / (1 - ee)) ** 4            # bound of the third derivative over the circular value
    out = [np.asarray(v) for v in cp(jnp.array([tref]), N, E, P)]
    ctx.ran("anchor", ra, dec, tref)
    ctx.close("displacement at the reference time", out, np.zeros((2, 1)), atol=1e-12)
    s = [np.asarray(v).ravel() for v in cp(tref, N, E, P)]
    ctx.close("displacement at a scalar reference time", s, np.zeros((2, 1)), atol=1e-12)
    for h in (.01, .1, 1.0):
        a, b = [np.array([np.asarray(v) for v in cp(jnp.array([tref + s * h]), N, E, P)]) for s in (1, -1)]
        ctx.close("rate at the reference time", (a - b) / (2 * h), np.zeros((2, 1)), atol=amp * big * w ** 3 * (h * h + .01) / 6 * 1.1 + 1e-10 / h)
    # quadratic onset: the displacement is bounded by half the largest acceleration times time squared
    d = 10 ** rng.uniform(-2, 2, 30)
    q = np.array([np.asarray(v) for v in cp(jnp.array(tref + d), N, E, P)])
    ctx.check(np.all(np.hypot(*q) <= amp * (w ** 2 * d ** 2 / 2 / (1 - ee) ** 2 * 1.001 + d * big * w ** 3 * .01 / 6 * 1.1 + 1e-10)), "displacement exceeds half the maximal acceleration times time squared", ra=ra, dec=dec, tref=tref, got=np.hypot(*q) / amp, d=d)
    p = np.array([np.asarray(v) for v in cp(jnp.array(tref + d), 0.0, 0.0, P)])
    ctx.check(np.all(p == 0), "no parallax gives no displacement")
    if len(ctx.samples) < 2:
        ctx.sample(ra=ra, dec=dec, tref=tref, piE=[N, E], displacement=[float(q[0, 0]), float(q[1, 0])], dt=float(d[0]))


def k_linear(ctx, seed):
    rng = np.random.default_rng(seed)
    jnp, sp, cp = C()
    ra, dec = target(rng)
    tref, tp, tv, kw = orbit(rng)
    P = sp(tref, tp, tv, ra, dec, **kw)
    t = times(rng, tref)
    F = lambda N, E: np.array([np.asarray(v) for v in cp(jnp.array(t), N, E, P)])
    (a, b), (c, d), x, y = rng.normal(size=2), rng.normal(size=2), *rng.normal(size=2)
    A, B = F(a, b), F(c, d)
    sc = np.abs(A).max() + np.abs(B).max()
    ctx.ran("linear", ra, dec, tref)
    ctx.close("linear in the parallax vector", F(x * a + y * c, x * b + y * d), x * A + y * B, atol=1e-12 * sc * (abs(x) + abs(y)))
    th = rng.uniform(0, 2 * np.pi)
    R = F(a * np.cos(th) - b * np.sin(th), a * np.sin(th) + b * np.cos(th))
    # turning the vector by th turns the displacement of the trajectory by -th
    ctx.close("rotation of the parallax vector", R, [A[0] * np.cos(th) + A[1] * np.sin(th), -A[0] * np.sin(th) + A[1] * np.cos(th)], atol=1e-12 * sc)
    n1, e1 = F(1.0, 0.0), F(0.0, 1.0)
    ctx.close("north and east unit vectors give the same displacement turned by a right angle", np.array([n1[0], n1[1]]), np.array([-e1[1], e1[0]]), atol=1e-13)
    one = np.array([[float(np.asarray(v).ravel()[0]) for v in cp(float(s), a, b, P)] for s in t[:4]]).T
    ctx.close("one time at a time", one, A[:, :4], atol=1e-12 * sc)
    pm = rng.permutation(len(t))
    ctx.close("order of the times", np.array([np.asarray(v) for v in cp(jnp.array(t[pm]), a, b, P)]), A[:, pm], atol=1e-13 * sc)
    import jax
    ctx.close("compiled", np.array(jax.jit(lambda t, N, E: cp(t, N, E, sp(tref, tp, tv, ra, dec, **kw)))(jnp.array(t), a, b)), A, atol=1e-9 * sc)


def k_sky(ctx, seed):
    rng = np.random.default_rng(seed)
    jnp, sp, cp = C()
    ra, dec = target(rng)
    tref, tp, tv, kw = orbit(rng)
    t = times(rng, tref)
    F = lambda ra, dec, N=1.0, E=0.0: np.array([np.asarray(v) for v in cp(jnp.array(t), N, E, sp(tref, tp, tv, ra, dec, **kw))])
    A = F(ra, dec)                                     # rows: north and east displacement
    tol = 1e-9 * max(np.abs(A).max(), 1e-3) / max(np.cos(np.radians(dec)), 1e-6) * 1e-2 + 1e-9
    ctx.ran("sky", ra, dec, tref)
    ctx.close("right ascension is periodic", F(ra + 360, dec), A, atol=tol)
    ctx.close("antipodal target mirrors east", F(ra + 180, -dec), [A[0], -A[1]], atol=tol)
    d2 = dec + 1e-5
    if abs(d2) < 89.9 and abs(dec) < 89.9:
        ctx.close("continuous across the sky", F(ra, d2), A, atol=20 * np.radians(1e-5) * (1 + np.abs(t - tref).max() * .02) * 4)
    c = np.cos(np.radians(dec))
    # length of the orbit displacement: three orthogonal lines of sight
    v1 = np.array([np.cos(np.radians(ra)) * c, np.sin(np.radians(ra)) * c, np.sin(np.radians(dec))])
    q = np.linalg.qr(np.column_stack([v1, rng.normal(size=3), rng.normal(size=3)]))[0]
    s2 = []
    for k in range(3):
        x = q[:, k]
        r, d = np.degrees(np.arctan2(x[1], x[0])), np.degrees(np.arcsin(np.clip(x[2], -1, 1)))
        if abs(d) > 89.9:
            return
        s2.append(np.sum(F(r, d) ** 2, 0))
    tot = np.sum(s2, 0) / 2
    q2 = np.linalg.qr(rng.normal(size=(3, 3)))[0]
    s2 = []
    for k in range(3):
        x = q2[:, k]
        r, d = np.degrees(np.arctan2(x[1], x[0])), np.degrees(np.arcsin(np.clip(x[2], -1, 1)))
        if abs(d) > 89.9:
            return
        s2.append(np.sum(F(r, d) ** 2, 0))
    ctx.close("length of the displacement in space from two orthogonal triads of targets", np.sum(s2, 0) / 2, tot, rtol=1e-8, atol=1e-12)


def k_epochs(ctx, seed):
    rng = np.random.default_rng(seed)
    jnp, sp, cp = C()
    from microjax.trajectory.parallax import peri_vernal
    ra, dec = target(rng)
    tref = float(rng.uniform(1000, 9000))
    t = times(rng, tref)
    tp, tv = [float(v) for v in peri_vernal(tref)]
    F = lambda a, b, tr=tref, tt=t, **kw: np.array([np.asarray(v) for v in cp(jnp.array(tt), .3, -.7, sp(tr, a, b, ra, dec, **kw))])
    A = F(tp, tv)
    sc = np.abs(A).max() + 1e-3
    ctx.ran("epochs", ra, dec, tref)
    ctx.close("automatic epochs", F(0.0, 0.0), A, atol=1e-10 * sc)
    ctx.close("automatic epochs when only one is zero", F(tp + 5, 0.0), A, atol=1e-10 * sc)
    a2, b2 = [float(v) for v in peri_vernal(tref + 2450000.0)]
    ctx.close("full Julian dates", [a2, b2], [tp, tv], atol=1e-9)
    T = 365.25636
    ctx.close("one sidereal period later", F(tp, tv, tref + T, t + T), A, atol=1e-9 * sc)
    ctx.close("epochs one period earlier", F(tp - T, tv - T), A, atol=1e-9 * sc)
    ctx.check(abs(tp - tref) <= 185 or not 1546 < tref < 8853, "perihelion is not the nearest one", tref=tref, tp=tp)
    ctx.check(40 < tv - tp < 110, "vernal equinox does not follow the perihelion by its usual interval", tref=tref, tp=tp, tv=tv)
    M = ((tp - 1546.70833) / 365.2596)
    ctx.check(abs(M - round(M)) * 365.26 < 4, "perihelion epoch off by days", tp=tp)
    V = (tv - 1623.81597) / 365.2422
    ctx.check(abs(V - round(V)) * 365.2422 < .2, "vernal equinox epoch off", tv=tv)


def k_kepler(ctx, seed):
    import jax.numpy as jnp
    g = setup_repo.get("microjax.trajectory.parallax:getpsi")
    rng = np.random.default_rng(seed)
    phi = np.concatenate([rng.uniform(-200, 200, 400), [0.0, np.pi, -np.pi, 2 * np.pi, 1e-9, np.pi + 1e-9, np.pi - 1e-9]])
    for e in (0.0, .0167, float(rng.uniform(0, .6)), .6):
        E = np.asarray(g(jnp.array(phi), e))
        ctx.ran("kepler", e, seed, n=len(phi))
        ctx.close("Kepler's equation", E - e * np.sin(E), phi, atol=1e-11 * (1 + np.abs(phi) * .1))
        ctx.close("whole turns", np.asarray(g(jnp.array(phi + 2 * np.pi), e)), E + 2 * np.pi, atol=1e-9)
        ctx.check(np.all(np.abs(E - phi) <= e + 1e-9), "eccentric anomaly further from the mean anomaly than the eccentricity", e=e)


def k_diff(ctx, seed):
    import jax
    rng = np.random.default_rng(seed)
    jnp, sp, cp = C()
    ra, dec = target(rng)
    if abs(dec) > 89:
        dec = 40.0
    tref, tp, tv, kw = orbit(rng)
    t = float(tref + rng.uniform(-300, 300))
    f = lambda v: jnp.stack([x.reshape(()) for x in cp(jnp.array([v[0]]), v[1], v[2], sp(tref, tp, tv, v[3], v[4], **kw))])
    v = np.array([t, rng.normal(), rng.normal(), ra, dec])
    J, Jr = np.asarray(jax.jacfwd(f)(jnp.array(v))), np.asarray(jax.jacrev(f)(jnp.array(v)))
    ctx.ran("diff", ra, dec, tref)
    h = np.array([1e-2, 1e-3, 1e-3, 1e-2, 1e-2])
    num = []
    for i in range(5):
        D = lambda s: (np.asarray(f(jnp.array(v + s * h * (np.arange(5) == i)))) - np.asarray(f(jnp.array(v - s * h * (np.arange(5) == i))))) / (2 * s * h[i])
        num.append((4 * D(.5) - D(1)) / 3)
    ctx.close("derivatives of the displacement (forward)", J, np.array(num).T, rtol=1e-5, atol=1e-6)
    ctx.close("derivatives of the displacement (reverse)", Jr, J, rtol=1e-9, atol=1e-10)
