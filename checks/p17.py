"""Image-plane regions: every image of every point of the disc lies in exactly one region."""
import numpy as np
from vlib import oracle as O, gen, fs, setup_repo

ID = "P17"
RULE = ("two and three lenses, radii 1e-3..0.5, sources on and around caustics, on lenses, on the axes and at the centre, default and unusual bin counts, margins and limb samplings; "
        "per configuration 96 random points of the disc (half of them next to its limb), their images from the independent solver, each looked up in the regions the code builds; "
        "non-trivial = image looked up, keyed by configuration")
ASSUMPTIONS = ["images are weighted by their magnification: a region set may lose or double-count a small part of the area because the limb is sampled",
               "a verdict needs the loss to persist with a four times denser limb"]
OPTS = [dict(), dict(bins_r=20, bins_th=60), dict(bins_r=90, bins_th=240), dict(margin_r=0.5, margin_th=0.5), dict(margin_r=2.0, margin_th=3.0)]
NP = 96


def spots(rng, n, p, rho, N):
    """fs.sources, a third of them replaced by sources with an image around or near the origin of the polar frame"""
    w = fs.sources(rng, n, p, rho, N)
    m, zl = O.lenses(n, *p)
    for i in range(0, N, 3):
        z = rho * 10 ** rng.uniform(-1, 1.7) * np.exp(2j * np.pi * rng.uniform())
        if np.abs(z - zl).min() > 0.05:
            w[i] = complex(O.lens_map(z, m, zl))
    return w


def cases(tier, rng):
    k = {"quick": (40, 12, 12), "thorough": (1500, 300, 400)}[tier]
    out = []
    for o in range(len(OPTS)):
        for i in range(k[0] if o == 0 else k[1]):
            p = gen.binary(rng, 0.3, 4.0, 1e-4)
            rho = float(10 ** rng.uniform(-2.7, -.3))
            out.append(dict(k="cover", n=2, p=list(p), rho=rho, w=gen.c2l(spots(rng, 2, p, rho, 12)), o=o, seed=int(rng.integers(1 << 31))))
    for i in range(k[2]):
        p = gen.triple_ok(rng)
        rho = float(10 ** rng.uniform(-2.3, -.5))
        out.append(dict(k="cover", n=3, p=list(p), rho=rho, w=gen.c2l(spots(rng, 3, p, rho, 8)), o=0, seed=int(rng.integers(1 << 31))))
    return out


_F = {}


def regions(n, p, w, rho, nl, o):
    key = (n, nl, o)
    if key not in _F:
        import jax, jax.numpy as jnp
        limb = setup_repo.get("microjax.inverse_ray.merge_area:calc_source_limb")
        define = setup_repo.get("microjax.inverse_ray.merge_area:define_regions")
        names = ["s", "q", "q3", "r3", "psi"][:len(p)]
        opt = dict(bins_r=50, bins_th=120, margin_r=1.0, margin_th=1.0)
        opt.update(OPTS[o])

        def f(w, rho, th):
            kw = dict(zip(names, th))
            img, mask = limb(w, rho, nl, nlenses=n, **kw)
            return define(img, mask, rho, nlenses=n, **opt)
        _F[key] = jax.jit(jax.vmap(f, in_axes=(0, None, None)))
    import jax.numpy as jnp
    r, t = _F[key](jnp.array(w), rho, jnp.array(p))
    return np.asarray(r), np.asarray(t)


def lost(n, p, w, rho, r, t, rng):
    """weights of images in no region and in more than one, relative to the total"""
    m, zl = O.lenses(n, *p)
    u = np.where(np.arange(NP) % 2 == 0, np.sqrt(rng.uniform(size=NP)), 1 - 10 ** rng.uniform(-4, -1, NP))
    src = w + rho * u * np.exp(2j * np.pi * rng.uniform(size=NP))
    tot = none = many = 0.0
    nimg = 0
    bad = None
    for x in src:
        z, *_ = O.solve_images(x, m, zl)
        z = z[np.abs(z) < 1e6]
        wt = np.minimum(1 / np.abs(O.det_jac(z, m, zl)), 1e3)
        zz = z                 # the polar frame is centred on the centre of mass of the first two lenses
        a, b = np.abs(zz)[:, None], np.mod(np.angle(zz), 2 * np.pi)[:, None]
        inr = (r[None, :, 0] <= a) & (a <= r[None, :, 1])
        full = t[None, :, 1] - t[None, :, 0] >= 2 * np.pi
        c = np.zeros(inr.shape, int)
        for s in (-2 * np.pi, 0.0, 2 * np.pi):
            c += (t[None, :, 0] <= b + s) & (b + s <= t[None, :, 1])
        # a region wider than the circle is integrated once around
        c = np.where(full, 1, c) * inr
        k = c.sum(axis=1)
        tot += wt.sum()
        none += wt[k == 0].sum()
        many += wt[k > 1].sum()
        nimg += len(z)
        if bad is None and (k != 1).any():
            i = int(np.argmax(k != 1))
            bad = dict(source=x, image=z[i], r=float(a[i, 0]), theta=float(b[i, 0]), regions=int(k[i]))
    return none / tot, many / tot, nimg, bad


def k_cover(ctx, n, p, rho, w, o, seed):
    w = gen.l2c(w)
    r, t = regions(n, p, w, rho, 500, o)
    for i in range(len(w)):
        none, many, k, bad = lost(n, p, w[i], rho, r[i], t[i], np.random.default_rng([seed, i]))
        ctx.ran(n, tuple(p), rho, complex(w[i]), o, n=k)
        ctx.ev("images_looked_up", k)
        ctx.ev("regions_in_use", int((r[i][:, 1] > 0).sum()))
        ctx.put("n%d_o%d" % (n, o), [none, many])
        if none > 1e-3 or many > 1e-3:
            ctx.ev("coarse_losses")
            ctx.put("bad", dict(n=n, p=p, rho=rho, w=w[i], o=o, none=none, many=many, bad=bad))
            r2, t2 = regions(n, p, w[i:i + 1], rho, 2000, o)
            none2, many2, _, bad2 = lost(n, p, w[i], rho, r2[0], t2[0], np.random.default_rng([seed, i]))
            ctx.check(none2 <= 1e-3, "part of the images lies in no integration region", n=n, p=p, rho=rho, w=w[i], o=o, lost=none2, coarse=none, example=bad2)
            ctx.check(many2 <= 1e-3, "part of the images lies in more than one integration region", n=n, p=p, rho=rho, w=w[i], o=o, doubled=many2, coarse=many, example=bad2)
    ctx.sample(n=n, p=p, rho=rho, w=w[0], r=r[0], th=t[0])


def finalize(agg):
    tot = bad = 0
    for k, v in agg.series.items():
        if k.startswith("n") and "_o" in k:
            a = np.array(v)
            tot += len(a)
            b = int(((a[:, 0] > 1e-3) | (a[:, 1] > 1e-3)).sum())
            bad += b
            agg.extra[k] = dict(configurations=len(a), lossy=b, worst_lost=float(a[:, 0].max()), worst_doubled=float(a[:, 1].max()))
    agg.extra["coarse losses"] = agg.series.get("bad", [])[:10]
    if tot > 200 and bad > 0.01 * tot:
        agg.fail("more than one configuration in a hundred loses or double-counts images at the default limb sampling", bad=bad, total=tot)
