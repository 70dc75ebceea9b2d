"""Annual parallax against independent ephemerides."""
import numpy as np

ID = "P25"
RULE = ("targets over the whole sky (Galactic bulge, ecliptic, high declination), reference dates 2000-2022, event times within 2 years; user-supplied orbits (eccentricity 0..0.5, any period, obliquity and epochs) against exact two-body motion; three references for the Earth: an astronomical ephemeris (astropy/ERFA), a Kepler orbit from textbook mean elements, and VBMicrolensing's own parallax; "
        "non-trivial = (target, reference date)")
ASSUMPTIONS = ["the tabulated perihelia (true perihelia of the Earth, displaced by the Moon by up to 2 days) and a two-body orbit limit the agreement: angle error up to 3e-3 rad, growing by the precession of the equinox (2.44e-4 rad per year since J2000), because the equinox of date stands for the J2000 one",
               "sign convention of Gould 2004: the displacement is the projected Sun-Earth vector, positive along north and east, as the module documents"]


def cases(tier, rng):
    f = {"quick": 1, "thorough": 40}[tier]
    return [dict(k=k, seed=int(rng.integers(1 << 31))) for k, n in (("eph", 60), ("kepler", 40), ("vbm", 24), ("orbit", 60)) for i in range(n * f)]


def basis(ra, dec):
    a, d = np.radians([ra, dec])
    return np.array([-np.sin(d) * np.cos(a), -np.sin(d) * np.sin(a), np.cos(d)]), np.array([-np.sin(a), np.cos(a), 0.0])


def target(rng):
    k = int(rng.integers(3))
    if k == 0:
        return 268.0 + float(rng.normal()) * 5, -29.0 + float(rng.normal()) * 5
    return float(rng.uniform(0, 360)), float(np.degrees(np.arcsin(rng.uniform(-.999, .999))))


def displacement(ra, dec, tref, t, **kw):
    import jax.numpy as jnp
    from microjax.trajectory.parallax import set_parallax, compute_parallax
    P = set_parallax(tref, 0.0, 0.0, ra, dec, **kw)
    a = [np.asarray(v) for v in compute_parallax(jnp.array(t), 1.0, 0.0, P)]
    b = [np.asarray(v) for v in compute_parallax(jnp.array(t), 0.0, 1.0, P)]
    return np.array(a), np.array(b)


def sun(t):
    """geocentric Sun, equatorial, AU (astropy / ERFA)"""
    from astropy.coordinates import get_body_barycentric
    from astropy.time import Time
    T = Time(np.asarray(t) + 2450000.0, format="jd", scale="tdb")
    return (get_body_barycentric("sun", T, ephemeris="builtin").xyz.to_value("au") - get_body_barycentric("earth", T, ephemeris="builtin").xyz.to_value("au"))


def proj(S, ra, dec, tref, t):
    n, e = basis(ra, dec)
    h = 1.0
    out = []
    for u in (n, e):
        s, s0, v = u @ S(t), u @ S(np.array([tref])), (u @ S(np.array([tref + h])) - u @ S(np.array([tref - h]))) / (2 * h)
        out.append(s - s0 - v * (t - tref))
    return np.array(out)


def k_eph(ctx, seed):
    rng = np.random.default_rng(seed)
    ra, dec = target(rng)
    tref = float(rng.uniform(1600, 9800))
    t = tref + np.concatenate([rng.uniform(-100, 100, 12), rng.uniform(-730, 730, 8)])
    a, b = displacement(ra, dec, tref, t)
    ref = proj(sun, ra, dec, tref, t)
    judge(ctx, "the astronomical ephemeris", a, b, ref, t, tref, ra, dec)


def LIM(t, tref):
    d = np.abs(t - tref)
    w = 2 * np.pi / 365.25
    delta = 3e-3 + 2.6e-4 * abs(tref - 1545) / 365.25          # angle error of the orbit: perihelion epoch + precession since J2000
    return delta * np.minimum(1.0 * (w * d) ** 2, 2 + w * d) + 1.2e-5 * d + 1e-6          # last: motion of the Earth about the Earth-Moon barycentre


def judge(ctx, what, a, b, ref, t, tref, ra, dec):
    d = np.abs(t - tref)
    lim = LIM(t, tref)
    ctx.ran(what, ra, dec, tref, n=len(t))
    ctx.top("largest deviation (AU) from " + what, np.max(np.abs(a - ref)))
    ctx.top("largest fraction of tolerance, " + what, np.max(np.abs(a - ref) / lim))
    ctx.close("displacement differs from " + what + " (north)", a[0], ref[0], atol=lim, ra=ra, dec=dec, tref=tref)
    ctx.close("displacement differs from " + what + " (east)", a[1], ref[1], atol=lim, ra=ra, dec=dec, tref=tref)
    ctx.close("east component of the parallax", b, [ref[1], -ref[0]], atol=lim, ra=ra, dec=dec, tref=tref)
    i = int(np.argmax(d))
    if len(ctx.samples) < 3:
        ctx.sample(ra=ra, dec=dec, tref=tref, t=t[i], got=[float(a[0][i]), float(a[1][i])], ref=[float(ref[0][i]), float(ref[1][i])])


def textbook(t):
    """geocentric Sun from mean elements (low-precision almanac formula, 0.01 deg)"""
    n = np.asarray(t) + 2450000.0 - 2451545.0
    L = np.radians(280.460 + .9856474 * n)
    g = np.radians(357.528 + .9856003 * n)
    lam = L + np.radians(1.915) * np.sin(g) + np.radians(.020) * np.sin(2 * g)
    R = 1.00014 - .01671 * np.cos(g) - .00014 * np.cos(2 * g)
    lam = lam - np.radians(3.82394e-5 * n)                 # equinox of date to J2000
    e = np.radians(23.439)
    return R * np.array([np.cos(lam), np.sin(lam) * np.cos(e), np.sin(lam) * np.sin(e)])


def k_kepler(ctx, seed):
    rng = np.random.default_rng(seed)
    ra, dec = target(rng)
    tref = float(rng.uniform(1600, 9800))
    t = tref + np.concatenate([rng.uniform(-100, 100, 12), rng.uniform(-730, 730, 8)])
    a, b = displacement(ra, dec, tref, t)
    judge(ctx, "the almanac formula", a, b, proj(textbook, ra, dec, tref, t), t, tref, ra, dec)


def twobody(tp, tv, P, e, obl):
    """geocentric Sun on a Kepler orbit that passes perihelion at tp and the equinox direction at tv"""
    def anomaly(t):
        M = np.asarray(2 * np.pi * (np.asarray(t, float) - tp) / P)
        lo, hi = M - e - 1e-9, M + e + 1e-9                 # bisection, no starting guess
        for _ in range(80):
            mid = 0.5 * (lo + hi)
            up = mid - e * np.sin(mid) < M
            lo, hi = np.where(up, mid, lo), np.where(up, hi, mid)
        E = 0.5 * (lo + hi)
        return E, 2 * np.arctan2(np.sqrt(1 + e) * np.sin(E / 2), np.sqrt(1 - e) * np.cos(E / 2))

    def S(t):
        E, f = anomaly(t)
        r, lam, o = 1 - e * np.cos(E), f - anomaly(tv)[1], np.radians(obl)
        return r * np.array([np.cos(lam), np.sin(lam) * np.cos(o), np.sin(lam) * np.sin(o)])
    return S


def k_orbit(ctx, seed):
    """user-supplied orbital elements: exact two-body motion"""
    import jax.numpy as jnp
    from microjax.trajectory.parallax import set_parallax, compute_parallax
    rng = np.random.default_rng(seed)
    ra, dec = target(rng)
    tref = float(rng.uniform(1600, 9800))
    P = float(rng.choice([365.25636, rng.uniform(80, 900)]))
    tp, tv = tref + float(rng.uniform(-2, 2)) * P, tref + float(rng.uniform(-2, 2)) * P
    e, obl, dt = float(rng.choice([0.0, 0.0167, rng.uniform(0, .5), .5])), float(rng.choice([23.44, rng.uniform(0, 60)])), 0.1
    t = tref + np.concatenate([rng.uniform(-.3, .3, 12), rng.uniform(-2, 2, 8), [0.0]]) * P
    par = set_parallax(tref, tp, tv, ra, dec, rotaxis_deg=obl, ecc=e, period=P, dt=dt)
    S = twobody(tp, tv, P, e, obl)
    n, ea = basis(ra, dec)
    q = []
    for u in (n, ea):
        v = (u @ S(np.array([tref + dt])) - u @ S(np.array([tref - dt]))) / (2 * dt)
        q.append(u @ S(t) - u @ S(np.array([tref])) - v * (t - tref))
    N, E = float(rng.normal()), float(rng.normal())
    d = [np.asarray(x) for x in compute_parallax(jnp.array(t), N, E, par)]
    ctx.ran("two-body orbit", ra, dec, tref, e, n=len(t))
    lim = 1e-8 * (1 + abs(N) + abs(E)) * (1 + np.abs(t - tref))
    ctx.close("displacement along the track on a user-supplied orbit", d[0], N * q[0] + E * q[1], atol=lim, ra=ra, dec=dec, ecc=e, period=P)
    ctx.close("displacement across the track on a user-supplied orbit", d[1], N * q[1] - E * q[0], atol=lim, ra=ra, dec=dec, ecc=e, period=P)


def k_vbm(ctx, seed):
    """trajectory with parallax from another microlensing code"""
    import tempfile, os
    import VBMicrolensing
    rng = np.random.default_rng(seed)
    ra, dec = 268.0 + float(rng.normal()) * 20, float(rng.uniform(-70, -2) if rng.integers(2) else rng.uniform(1, 70))
    h = ra / 15
    hh, mm = int(h), int((h - int(h)) * 60)
    ss = ((h - hh) * 60 - mm) * 60
    ad = abs(dec)
    d, m = int(ad), int((ad - int(ad)) * 60)
    s = ((ad - d) * 60 - m) * 60
    V = VBMicrolensing.VBMicrolensing()
    with tempfile.NamedTemporaryFile("w", suffix=".coordinates", delete=False) as f:
        f.write("%02d:%02d:%08.5f %s%02d:%02d:%08.5f" % (hh, mm, ss, "-" if dec < 0 else "+", d, m, s))
    try:
        V.SetObjectCoordinates(f.name, ".")
    finally:
        os.unlink(f.name)
    V.parallaxsystem = 1
    tref = float(rng.uniform(2000, 9000))
    V.t0_par_fixed, V.t0_par = 1, tref
    t = np.sort(tref + rng.uniform(-120, 120, 15))
    tE, u0 = 100.0, .3
    out = {}
    for N, E in ((1.0, 0.0), (0.0, 1.0), (0.0, 0.0)):
        # log tE, u0, t0, pi_N, pi_E
        r = V.PSPLLightCurveParallax([u0, np.log(tE), tref, N, E], list(t))
        out[(N, E)] = np.array(r[1:3])
    z = out[(0.0, 0.0)]
    a, b = displacement(ra, dec, tref, t)
    # that code returns the source position relative to the lens: minus our (tau, u0)
    judge(ctx, "VBMicrolensing", a, b, -(out[(1.0, 0.0)] - z), t, tref, ra, dec)
    ctx.close("displacement differs from VBMicrolensing (unit east parallax)", b, -(out[(0.0, 1.0)] - z), atol=LIM(t, tref), ra=ra, dec=dec, tref=tref)
