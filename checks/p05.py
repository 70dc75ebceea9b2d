"""Sequential image tracking along a trajectory gives the same images as solving every point on its own."""
import numpy as np
from vlib import oracle as O, gen, setup_repo

ID = "P05"
RULE = ("random and corner 1-3 lens systems; trajectories: straight lines through and past the caustics, along the lens axis, along the perpendicular axis, "
        "parabolas, random jumps, long leaps, reversed and single-point tracks, 1..200 points; every epoch is judged against the independent solver; "
        "non-trivial = epoch whose reference image set is unambiguous")
ASSUMPTIONS = ["epochs closer to a caustic than 2e-5 (two lenses) / 5e-3 (three lenses) are counted, not judged", "mass fractions >= 1e-3 / 1e-2"]


def track(rng, n, p):
    N = int(rng.choice([1, 2, 3, 40, 200], p=[.05, .05, .05, .5, .35]))
    kind = rng.choice(["line", "axis", "perp", "parab", "jump", "leap", "near"])
    t = np.linspace(-1.5, 1.5, N) if N > 1 else np.array([0.3])
    m, zl = O.lenses(n, *p)
    if kind == "line":
        th = rng.uniform(0, 2 * np.pi)
        w = (t + 1j * rng.uniform(-.5, .5)) * np.exp(1j * th)
    elif kind == "axis":
        w = t * rng.uniform(.5, 2) + 0.0137 + 0j
    elif kind == "perp":
        w = 1j * (t + .011) + 0
    elif kind == "parab":
        w = t + 1j * (t ** 2 - rng.uniform(0, 1)) * rng.uniform(-1, 1)
    elif kind == "jump":
        w = gen.sources(rng, n, p, N, far=False)
    elif kind == "leap":
        w = np.where(np.arange(N) % 2 == 0, 0.1 + 0.07j, 50.0 * np.exp(1j * np.arange(N))) + 0.01 * t
    else:
        c = gen.caustic(rng, n, p, 1)[0] if n > 1 else 0.01
        w = c + t * 0.05 * np.exp(1j * rng.uniform(0, 6.3))
    if rng.uniform() < .3:
        w = w[::-1]
    return str(kind), w


def cases(tier, rng):
    k = {"quick": (10, 110, 60), "thorough": (100, 2000, 1000)}[tier]
    out = []
    for n, K in ((1, k[0]), (2, k[1]), (3, k[2])):
        i = 0
        while i < K:
            p = gen.system(rng, n) if n != 2 else gen.binary(rng, qmin=1e-3)
            if n == 3:
                p = gen.triple_ok(rng)
            if n == 2 and not gen.tidy(n, p, 0.05):
                continue
            kind, w = track(rng, n, p)
            out.append(dict(k="track", n=n, p=list(p), kind=kind, w=gen.c2l(w)))
            i += 1
    return out


def k_track(ctx, n, p, kind, w):
    import jax.numpy as jnp
    from checks.p01 import near_caustic
    f = setup_repo.get("microjax.point_source:_images_point_source_sequential")
    w = gen.l2c(w)
    m, zl = O.lenses(n, *p, frame="mid")
    ws = w - (0.0 if n == 1 else O.x_cm(*p[:2]))
    N0 = len(ws)
    # pad by repeating the last point so that only a few array lengths are compiled
    L = min(x for x in (1, 2, 3, 40, 200) if x >= N0)
    wp = np.concatenate([ws, np.full(L - N0, ws[-1])])
    z, mask = f(jnp.array(wp), nlenses=n, **O.low_params(n, *p))
    z, mask = np.asarray(z), np.asarray(mask)
    ctx.check(z.shape == ({1: 2, 2: 5, 3: 10}[n], L) and mask.shape == z.shape, "tracked images have one row per branch and one column per epoch", shape=z.shape, N=L)
    tolr = {1: 1e-9, 2: 1.0001e-6, 3: 1.0001e-3}[n]
    for i, wi in enumerate(ws):
        if n == 1 and abs(wi) < 1e-9:
            continue
        ref, ok = O.solve_images(wi, m, zl)
        if not ok:
            ctx.ev("ambiguous_oracle")
            continue
        ctx.ran(n, tuple(p), complex(wi))
        ctx.ev("epochs_%s" % kind)
        got = z[mask[:, i], i]
        res = np.abs(O.lens_map(got, m, zl) - wi)
        good = len(got) == len(ref) and bool(np.all(res <= tolr * (1 + (abs(wi) if n == 1 else 0))))
        if good:
            D = np.abs(got[:, None] - ref[None, :])
            perm = D.argmin(1)
            dj = np.abs(O.det_jac(ref, m, zl))[perm]
            good = len(set(perm.tolist())) == len(ref) and bool(np.all(D.min(1) <= 1e-6 + 10 * tolr / np.maximum(dj, 1e-5)))
        if good:
            continue
        small = bool(np.all(np.isfinite(got))) and n > 1 and (abs(wi) > 4 or min(m) < 0.03)
        if small and len(got) < len(ref):
            # faint images next to a lens may miss the residual threshold; only their light is limited
            D = np.abs(got[:, None] - ref[None, :]) if len(got) else np.zeros((0, len(ref)))
            lost = [j for j in range(len(ref)) if not len(got) or D[:, j].min() > 1e-4]
            if np.sum(1 / np.abs(O.det_jac(ref[lost], m, zl))) <= 1e-4:
                ctx.ev("faint_images_dropped")
                continue
        if n > 1 and near_caustic(wi, m, zl, 2e-5 if n == 2 else 5e-3):
            ctx.ev("ambiguous_near_caustic")
            continue
        ctx.fail("sequential tracking does not return the images of the epoch", n=n, p=p, kind=kind, epoch=i, w=wi, got=got, ref=ref, residual=res)
    if kind in ("line", "axis", "perp", "parab") and N0 >= 40 and n == 2:
        from scipy.optimize import linear_sum_assignment
        good = 0
        for i in range(N0 - 1):
            D = np.abs(z[:, i][:, None] - z[:, i + 1][None, :])
            r, c = linear_sum_assignment(D)
            good += int(np.trace(D) <= 1.2 * D[r, c].sum() + 1e-9)
        ctx.put("continuity", [good, N0 - 1])
    ctx.sample(n=n, p=p, kind=kind, epochs=N0, w0=ws[0], z0=z[:, 0])


def finalize(agg):
    tot = sum(v for k, v in agg.events.items() if k.startswith("epochs_"))
    amb = agg.events.get("ambiguous_near_caustic", 0)
    agg.extra["near_caustic_fraction"] = amb / max(tot, 1)
    if tot and amb > 0.06 * tot:
        agg.fail("too many epochs disagree with the reference", ambiguous=amb, total=tot)
    c = np.array(agg.series.get("continuity", [[1, 1]]))
    if c[:, 1].sum() > 500:
        fr = c[:, 0].sum() / c[:, 1].sum()
        agg.extra["branch_continuity_fraction"] = fr
        if fr < 0.8:
            agg.fail("tracked rows do not follow branches", fraction=fr)
