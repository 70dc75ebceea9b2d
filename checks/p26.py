"""Zero-padding helpers of the utility module."""
import numpy as np
from vlib import setup_repo

ID = "P26"
RULE = ("arrays of 1..200 entries: dense, sparse, all zero, all non-zero, negative, repeated, single non-zero at either end; 1-d, 2-d and 3-d with every axis; integer and floating; complex point sets for the matching incl. ties and near-coincident points; "
        "interpreted, compiled and vectorised; non-trivial = (helper, array)")
ASSUMPTIONS = ["plain Python loops over the documented contract; zero means padding", "the trapezoid helper assumes the zero padding after the tail that its callers produce"]


def cases(tier, rng):
    f = {"quick": 1, "thorough": 30}[tier]
    return [dict(k=k, seed=int(rng.integers(1 << 31))) for k, n in (("first_last", 30), ("stats", 40), ("sort", 30), ("match", 40), ("trapz", 40)) for i in range(n * f)]


def U(name):
    return setup_repo.get("microjax.utils:" + name)


def arr(rng, shape):
    k = int(rng.integers(8))
    x = rng.normal(size=shape) * 10 ** rng.uniform(-3, 3)
    if k == 0:
        x = x * 0
    elif k == 1:
        x = x * (rng.uniform(size=shape) < .2)
    elif k == 2:
        x = x * (rng.uniform(size=shape) < .8)
    elif k == 3:
        x = -np.abs(x) * (rng.uniform(size=shape) < .5)
    elif k == 4:
        x = np.abs(x) * (rng.uniform(size=shape) < .5)
    elif k == 5:
        x = rng.integers(-1, 2, shape).astype(float)
    elif k == 6 and len(shape) == 1:
        j = int(rng.choice([0, shape[0] - 1]))
        x = x * (np.arange(shape[0]) == j)
    elif k == 7:
        x = np.round(x * 3 / (np.abs(x).max() + 1e-30))
    return x


def loop(x, axis, pred, last=False, default=0):
    y = np.moveaxis(x, axis, -1)
    out = np.zeros(y.shape[:-1], int)
    for i in np.ndindex(*y.shape[:-1]):
        idx = [j for j, v in enumerate(y[i]) if pred(v)]
        out[i] = (idx[-1] if last else idx[0]) if idx else default
    return out


def k_first_last(ctx, seed):
    import jax, jax.numpy as jnp
    rng = np.random.default_rng(seed)
    for shape in ((1,), (int(rng.integers(2, 60)),), (3, 7), (2, 3, 4)):
        x = arr(rng, shape)
        for ax in range(len(shape)):
            for name, pred, last in (("first_nonzero", lambda v: v != 0, False), ("last_nonzero", lambda v: v != 0, True), ("first_zero", lambda v: v == 0, False)):
                want = loop(x, ax, pred, last)
                f = U(name)
                got = np.asarray(f(jnp.array(x), axis=ax))
                ctx.ran(name, shape, ax, seed)
                ctx.check(got.shape == want.shape and np.array_equal(got, want), "%s returns the wrong index" % name, shape=shape, axis=ax, x=x, got=got, want=want)
                got = np.asarray(jax.jit(f, static_argnames="axis")(jnp.array(x), axis=ax))
                ctx.check(np.array_equal(got, want), "%s (compiled) returns the wrong index" % name, shape=shape, axis=ax, x=x)
    x = arr(rng, (5, 9))
    for name, pred, last in (("first_nonzero", lambda v: v != 0, False), ("last_nonzero", lambda v: v != 0, True), ("first_zero", lambda v: v == 0, False)):
        ctx.check(np.array_equal(np.asarray(jax.vmap(U(name))(jnp.array(x))), loop(x, 1, pred, last)), "%s (vectorised) returns the wrong index" % name, x=x)


def k_stats(ctx, seed):
    import jax, jax.numpy as jnp
    rng = np.random.default_rng(seed)
    x = arr(rng, (int(rng.integers(1, 120)),))
    nz = x[x != 0]
    for name, want in (("min_zero_avoiding", nz.min() if len(nz) else 0.0), ("max_zero_avoiding", nz.max() if len(nz) else 0.0), ("mean_zero_avoiding", nz.mean() if len(nz) else 0.0)):
        f = U(name)
        for how, g in (("interpreted", f), ("compiled", jax.jit(f)), ("vectorised", lambda v: jax.vmap(f)(jnp.stack([v, v]))[1])):
            ctx.ran(name, how, seed)
            # for arrays of one sign (the padding convention: zeros at one end of the range)
            if name != "mean_zero_avoiding" and len(nz) and nz.min() < 0 < nz.max():
                ctx.close("%s of an array of both signs (%s)" % (name, how), float(g(jnp.array(x))), want, rtol=1e-13)
                continue
            ctx.close("%s (%s)" % (name, how), float(g(jnp.array(x))), want, rtol=1e-12, atol=1e-12 * (np.abs(x).max() if name[:4] == "mean" else 0), x=x[:20])


def k_sort(ctx, seed):
    import jax, jax.numpy as jnp
    rng = np.random.default_rng(seed)
    x = arr(rng, (int(rng.integers(1, 120)),))
    for how, g in (("interpreted", U("sparse_argsort")), ("compiled", jax.jit(U("sparse_argsort")))):
        i = np.asarray(g(jnp.array(x)))
        ctx.ran(how, seed)
        ctx.check(sorted(i.tolist()) == list(range(len(x))), "not a permutation", got=i)
        y = x[i]
        n = int(np.sum(x != 0))
        ctx.check(np.all(np.diff(y[:n]) >= 0) and np.all(y[:n] != 0) and np.all(y[n:] == 0), "non-zero entries sorted first, zeros last", x=x[:20], y=y[:20])


def k_match(ctx, seed):
    import jax, jax.numpy as jnp
    rng = np.random.default_rng(seed)
    n = int(rng.choice([1, 2, 3, 5, 10]))
    a = rng.normal(size=n) + 1j * rng.normal(size=n)
    k = int(rng.integers(4))
    b = [a[rng.permutation(n)] + 1e-4 * rng.normal(size=n), rng.normal(size=n) + 1j * rng.normal(size=n), np.full(n, .3 + .1j), np.concatenate([a[:1].repeat(n // 2), a[n // 2:]])[:n]][k]
    want = []
    for z in a:
        d = np.abs(b - z)
        order = np.argsort(d, kind="stable")
        want.append([j for j in order if j not in want][0])
    for how, f in (("interpreted", U("match_points")), ("compiled", jax.jit(U("match_points")))):
        got = np.asarray(f(jnp.array(a), jnp.array(b)))
        ctx.ran(how, seed)
        ctx.check(sorted(got.tolist()) == list(range(n)), "matching is not one-to-one", got=got, n=n)
        # the closest unused candidate (ties may be broken either way)
        used = set()
        for i, j in enumerate(got.tolist()):
            free = [q for q in range(n) if q not in used]
            ctx.check(abs(b[j] - a[i]) <= min(abs(b[q] - a[i]) for q in free) + 1e-12, "not the closest unused candidate", i=i, j=j)
            used.add(j)
    if k == 0 and n > 1:
        dmin = np.abs(a[:, None] - a)[~np.eye(n, dtype=bool)].min()
        if dmin > 2e-3:
            ctx.check(np.abs(b[got] - a).max() < 1e-3, "slightly moved points are not followed", n=n)


def k_trapz(ctx, seed):
    import jax, jax.numpy as jnp
    rng = np.random.default_rng(seed)
    N = int(rng.integers(2, 120))
    tail = int(rng.integers(0, N))
    if rng.integers(4) == 0:
        tail = N - 1
    x = np.sort(rng.normal(size=N)) + 3
    y = rng.normal(size=N)
    x[tail + 1:], y[tail + 1:] = 0.0, 0.0
    want = float(np.sum(.5 * (y[1:tail + 1] + y[:tail]) * np.diff(x[:tail + 1])))
    f = U("trapz_zero_avoiding")
    for how, g in (("interpreted", f), ("compiled", jax.jit(f))):
        ctx.ran(how, N, tail, seed)
        ctx.close("trapezoid up to the tail (%s)" % how, float(g(jnp.array(y), jnp.array(x), tail)), want, atol=1e-11, N=N, tail=tail)
    v = jax.vmap(f)(jnp.stack([jnp.array(y)] * 2), jnp.stack([jnp.array(x)] * 2), jnp.array([tail, tail]))
    ctx.close("trapezoid up to the tail (vectorised)", np.asarray(v), [want] * 2, atol=1e-11, N=N, tail=tail)
