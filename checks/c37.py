"""C37: mapping a model function over sets of arguments equals calling it for each set."""
import copy

import jax
import jax.numpy as jnp
import numpy as np

from checks.apicommon import HEAVY, NFIT, NG, OPS, argset, arrays, flat
from checks.losscommon import build
from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_U_PARAMS
from diffstar.diffstarpop.loss_kernels import mstar_ssfr_loss_mgash_anyz as ml
from pbt import gen
from pbt.core import check, close, prop_test

PLAIN = {k: f for k, (f, traced) in OPS.items() if traced and k not in HEAVY}
LOSSES = {"loss_mstar_kern": ml.loss_mstar_kern_tobs, "loss_mstar_ssfr_kern": ml.loss_mstar_ssfr_kern_tobs, "loss_mstar_ssfr_sat_kern": ml.loss_mstar_ssfr_sat_kern_tobs,
          "loss_combined_kern": ml.loss_combined_kern}
FUNCS = {**PLAIN, **LOSSES}
# differentiated with respect to the first argument
GRAD = ["calc_sfh_singlegal", "calc_sfh_galpop", "calc_mgas_singlegal", "calc_mgas_galpop", "get_bounded_diffstar_params", "get_unbounded_diffstar_params", "get_bounded_diffstarpop_params",
        "get_unbounded_diffstarpop_params", "mc_params_galpop", "mc_params_singlegal", "mc_sfh_singlegal", "mc_sfh_galpop", "tw_ndhist", "tw_ndhist_weighted", "compute_smhm", "fit_loss", *LOSSES]
HOWS = ("vmap", "jit", "map", "grad")


def _vary(r, a):
    """Other arguments; those that name a snapshot list or bins keep their lengths."""
    b = argset(r)
    for k in list(a):
        if r.bool(0.3):
            b[k] = copy.deepcopy(a[k])
    return b


def _cases(how, part):
    """Two functions of one half of the list, mapped in one way."""
    light = sorted(PLAIN if how != "grad" else [g for g in GRAD if g in PLAIN])[part::2]
    losses = list(LOSSES)[part::2]

    @gen.case_of
    def mapped(r):
        a = argset(r)
        ops = [r.choice(losses)] if r.bool(0.1) else [r.choice(light) for _ in range(2)]
        return dict(sets=[a, _vary(r, a)], ops=ops, axes=r.choice(["all", "first", "rest"]), how=how, order=r.perm(2))

    return mapped


def _args(op, a, args, mode):
    if op in LOSSES:
        u, d_m, d_s = build(a["loss"], mode)
        ut = DEFAULT_DIFFSTARPOP_U_PARAMS._make(gen.arr(u, mode))
        return (ut, d_m, d_s) if op == "loss_combined_kern" else (ut, d_m if op == "loss_mstar_kern" else d_s)
    return args[op]


def _total(f):
    def total(first, *rest):
        out = 0.0
        for x in jax.tree_util.tree_leaves(f(first, *rest)):
            if jnp.issubdtype(jnp.asarray(x).dtype, jnp.floating):
                out = out + jnp.sum(jnp.log10(1.0 + jnp.abs(x)))  # SFHs span many decades
        return out

    return total


_cache = {}


def _functions(op, how, axes):
    """(mapped function of stacked arguments, function of one set)"""
    if (op, how, axes) not in _cache:
        f = FUNCS[op]
        if how == "grad":
            f = jax.grad(_total(f))
        if how == "map":
            def g(*a, f=f, axes=axes):
                moving = tuple(x for x, ax in zip(a, axes) if ax == 0)

                def body(m):
                    m = iter(m)
                    return f(*[next(m) if ax == 0 else x for x, ax in zip(a, axes)])

                return jax.lax.map(body, moving)
        else:
            g = jax.vmap(f, in_axes=axes)
            if how == "jit":
                g = jax.jit(g)
        _cache[op, how, axes] = g, f
    return _cache[op, how, axes]


def _mapping_equals_looping(case, ctx):
    how = case["how"]
    sets = [case["sets"][i] for i in case["order"]]
    every = [arrays(a, ctx.mode) if case["ops"][0] not in LOSSES else None for a in sets]
    differ = False
    for op in case["ops"]:
        args = [jax.tree_util.tree_map(jnp.asarray, _args(op, a, e, ctx.mode)) for a, e in zip(sets, every)]
        n = len(args[0])
        axes = {"all": [0] * n, "first": [0] + [None] * (n - 1), "rest": [None] + [0] * (n - 1)}[case["axes"]]
        if n == 1:
            axes = [0]
        single = [tuple(x[k] if ax == 0 else x[0] for x, ax in zip(zip(*args), axes)) for k in range(2)]
        stacked = tuple(jax.tree_util.tree_map(lambda *v: jnp.stack(v), *x) if ax == 0 else x[0] for x, ax in zip(zip(*args), axes))
        g, f = _functions(op, how, tuple(axes))
        what = f"{how} of {op} over {case['axes']} arguments"
        got = flat(g(*stacked))
        want = [flat(f(*s)) for s in single]
        check(all(len(w) == len(got) for w in want), f"{what}: number of outputs")
        differ |= any(not np.array_equal(x, y, equal_nan=x.dtype.kind == "f") for x, y in zip(flat(single[0]), flat(single[1])))
        # gradients are rounded against the largest of their components
        top = lambda w: max((np.abs(v[np.isfinite(v)]).max(initial=0.0) for v in w if v.dtype.kind == "f"), default=0.0)
        floor = np.array([1e-13 * top(w) if how == "grad" else 0.0 for w in want])
        for i, x in enumerate(got):
            w = np.stack([w[i] for w in want])
            check(x.shape == w.shape, f"{what}: output {i} has shape {x.shape}, expected {w.shape}")
            if x.dtype.kind != "f":
                check(np.array_equal(x, w), f"{what}: output {i} is {x}, one call at a time gives {w}")
                continue
            w = w.astype(float)
            both = np.isnan(x) & np.isnan(w)
            scale = np.array([np.abs(v[np.isfinite(v)]).max(initial=0.0) for v in w]).reshape((2,) + (1,) * (w.ndim - 1))
            close(np.where(both, 0, x), np.where(both, 0, w), f"{what}: output {i}", rtol=ctx.tol(1e-7, 5e-3), atol=ctx.tol(1e-9, 5e-3) * scale + floor.reshape(scale.shape))
        ctx.label(how)
    ctx.nontrivial(differ)


def _test(how, part):
    def test(case, ctx):
        _mapping_equals_looping(case, ctx)

    test.__name__ = f"mapping_by_{how}_{part}"
    prop_test(_cases(how, part), quick=18, thorough=1000, mode="f64" if how == "grad" else ("f64", "f32"), rule="non-trivial: the mapped arguments differ between the sets")(test)


for _how in HOWS:
    for _part in (0, 1):
        _test(_how, _part)
