"""Index sanitizer for JAX programs.

JAX never traps an out-of-range index: gathers return a fill value or the clamped element, slices move to the last
admissible position and scatters drop or clamp the write.  `instrument(f)` traces f to a jaxpr and re-evaluates it with
shadow checks threaded through every call, scan, while and branch:

  * every gather / dynamic_slice whose index leaves the operand is counted per program site and its result is replaced
    by poison (NaN for floats, an extreme integer otherwise), so that a value read out of range is visible in the output
    exactly when it is used;
  * every scatter / dynamic_update_slice whose index leaves the operand is counted per site.

The instrumented function returns (output, counts) where counts is an int vector parallel to `sites`.
(jax.experimental.checkify refuses batched while loops, which every engine here contains.)
"""
import numpy as np

NS = 512


class Sites:
    def __init__(self):
        self.names, self.kind = [], []

    def index(self, kind, eqn):
        from jax._src import source_info_util as si
        where = "?"
        try:
            for fr in si.user_frames(eqn.source_info):
                if "/microjax/" in fr.file_name:
                    where = "%s:%s" % (fr.file_name.split("/microjax/")[-1], fr.function_name)
                    break
        except Exception:
            pass
        name = "%s@%s" % (kind, where)
        if name in self.names:
            return self.names.index(name)
        self.names.append(name)
        self.kind.append(kind)
        assert len(self.names) <= NS
        return len(self.names) - 1


def instrument(f, poison=True):
    import jax, jax.numpy as jnp
    from jax import lax
    from jax.extend import core as jcore
    sites = Sites()
    LIT = jcore.Literal

    def bad_gather(operand, idx, p):
        dn, sl = p["dimension_numbers"], p["slice_sizes"]
        bad = jnp.zeros(idx.shape[:-1], bool)
        for j, d in enumerate(dn.start_index_map):
            i = idx[..., j].astype(jnp.int64)
            bad |= (i < 0) | (i > operand.shape[d] - sl[d])
        return bad

    def bad_scatter(operand, idx, upd, p):
        dn = p["dimension_numbers"]
        win = [1] * operand.ndim
        uw = list(dn.update_window_dims)
        od = [d for d in range(operand.ndim) if d not in dn.inserted_window_dims and d not in getattr(dn, "operand_batching_dims", ())]
        for d, u in zip(od, uw):
            win[d] = upd.shape[u]
        bad = jnp.zeros(idx.shape[:-1], bool)
        drop = jnp.zeros(idx.shape[:-1], bool)
        for j, d in enumerate(dn.scatter_dims_to_operand_dims):
            i = idx[..., j].astype(jnp.int64)
            # an index equal to the array size is the usual "drop this one" sentinel (jnp.unique, padding): counted apart
            bad |= (i < 0) | (i > operand.shape[d])
            drop |= (i > operand.shape[d] - win[d])
        return bad, drop & ~bad

    def poisoned(x):
        if jnp.issubdtype(x.dtype, jnp.complexfloating):
            return jnp.full_like(x, complex(np.nan, np.nan))
        if jnp.issubdtype(x.dtype, jnp.floating):
            return jnp.full_like(x, np.nan)
        if x.dtype == bool:
            return ~x
        return x

    def run(jaxpr, consts, args, err):
        env = {}

        def rd(v):
            return v.val if isinstance(v, LIT) else env[v]
        for v, c in zip(jaxpr.constvars, consts):
            env[v] = c
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        for eqn in jaxpr.eqns:
            vals = [rd(v) for v in eqn.invars]
            p, name = eqn.params, eqn.primitive.name
            if name in ("pjit", "jit", "closed_call", "core_call", "remat", "checkpoint", "custom_jvp_call", "custom_vjp_call", "custom_vjp_call_jaxpr", "custom_lin"):
                cj = p.get("jaxpr") or p.get("call_jaxpr") or p.get("fun_jaxpr")
                if hasattr(cj, "consts"):
                    out, err = run(cj.jaxpr, cj.consts, vals, err)
                else:
                    out, err = run(cj, (), vals, err)
            elif name == "scan":
                nc, nk = p["num_consts"], p["num_carry"]
                cj = p["jaxpr"]
                C, K, X = vals[:nc], vals[nc:nc + nk], vals[nc + nk:]

                def body(c, x, cj=cj, C=C, nk=nk):
                    k, e = c
                    o, e = run(cj.jaxpr, cj.consts, [*C, *k, *x], e)
                    return (tuple(o[:nk]), e), tuple(o[nk:])
                (k, err), y = lax.scan(body, (tuple(K), err), tuple(X), length=p["length"], reverse=p["reverse"])
                out = [*k, *y]
            elif name == "while":
                a, b = p["cond_nconsts"], p["body_nconsts"]
                cc, bc, K = vals[:a], vals[a:a + b], vals[a + b:]
                cj, bj = p["cond_jaxpr"], p["body_jaxpr"]

                def pred(k, cj=cj, cc=cc):
                    o, _ = run(cj.jaxpr, cj.consts, [*cc, *k], jnp.zeros(NS, jnp.int64))
                    return o[0]

                def cond(c):
                    return jnp.any(pred(c[0]))

                def wbody(c, bj=bj, bc=bc):
                    k, e = c
                    pr = pred(k)
                    o, e = run(bj.jaxpr, bj.consts, [*bc, *k], e)
                    if jnp.ndim(pr):
                        o = [jnp.where(pr.reshape(pr.shape + (1,) * (jnp.ndim(n) - jnp.ndim(pr))), n, q) for n, q in zip(o, k)]
                    return (tuple(o), e)
                k, err = lax.while_loop(cond, wbody, (tuple(K), err))
                out = list(k)
            elif name == "cond":
                br = p["branches"]
                fs = [(lambda ops, e, cj=cj: run(cj.jaxpr, cj.consts, list(ops), e)) for cj in br]
                out, err = lax.switch(vals[0], [lambda ops, e, g=g: (lambda r: (tuple(r[0]), r[1]))(g(ops, e)) for g in fs], tuple(vals[1:]), err)
                out = list(out)
            else:
                sub, bp = eqn.primitive.get_bind_params(p)
                out = eqn.primitive.bind(*sub, *vals, **bp)
                if not eqn.primitive.multiple_results:
                    out = [out]
                if name == "gather":
                    bad = bad_gather(vals[0], vals[1], p)
                    err = err.at[sites.index("gather", eqn)].add(jnp.sum(bad))
                    if poison:
                        od = p["dimension_numbers"].offset_dims
                        sh = list(out[0].shape)
                        m = bad.reshape([1 if d in od else sh[d] for d in range(len(sh))]) if np.prod([sh[d] for d in range(len(sh)) if d not in od] or [1]) == np.prod(bad.shape or (1,)) else jnp.any(bad)
                        out = [jnp.where(m, poisoned(out[0]), out[0])]
                elif name == "dynamic_slice":
                    op, st = vals[0], vals[1:]
                    bad = jnp.zeros((), bool)
                    for i, d, s in zip(st, op.shape, p["slice_sizes"]):
                        bad |= (i < 0) | (i > d - s)
                    err = err.at[sites.index("dynamic_slice", eqn)].add(bad.astype(jnp.int64))
                    if poison:
                        out = [jnp.where(bad, poisoned(out[0]), out[0])]
                elif name == "dynamic_update_slice":
                    op, up, st = vals[0], vals[1], vals[2:]
                    bad = jnp.zeros((), bool)
                    for i, d, s in zip(st, op.shape, up.shape):
                        bad |= (i < 0) | (i > d - s)
                    err = err.at[sites.index("dynamic_update_slice", eqn)].add(bad.astype(jnp.int64))
                elif name.startswith("scatter"):
                    bad, drop = bad_scatter(vals[0], vals[1], vals[2], p)
                    err = err.at[sites.index("scatter", eqn)].add(jnp.sum(bad))
                    err = err.at[sites.index("drop", eqn)].add(jnp.sum(drop))
            for v, o in zip(eqn.outvars, out):
                env[v] = o
        return [rd(v) for v in jaxpr.outvars], err

    def g(*args):
        cj, shape = jax.make_jaxpr(f, return_shape=True)(*args)
        flat = jax.tree_util.tree_leaves(args)
        out, err = run(cj.jaxpr, cj.consts, flat, jnp.zeros(NS, jnp.int64))
        return jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(shape), out), err
    return g, sites
