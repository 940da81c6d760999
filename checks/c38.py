"""C38: inputs whose lengths do not belong together are refused."""
import os
import tempfile

import jax
import numpy as np

from checks.apicommon import OPS, argset, arrays, flat
from checks.common import MahParams
from diffstar import DiffstarParams, DiffstarUParams
from diffstar.fitting_helpers import diffstar_fitting_helpers as fh
from pbt import gen
from pbt.core import check, prop_test

# arguments whose length is free (no other argument has to match it), by operation and position
FREE = {"calc_sfh_singlegal": (2,), "calc_sfh_galpop": (2,), "calc_mgas_singlegal": (2,), "calc_mgas_galpop": (2,), "mc_sfh_galpop": (8,), "mc_sfh_singlegal": (8,), "compute_smhm": (3,), "get_dt_array": (0,),
        "get_1d_arrays": (0,), "get_outline": (0, 1)}
UNUSED = {("loss_ssfr_sat_pred", 16), ("loss_ssfr_sat_pred", 17)}  # fields of the data that a prediction does not need
WHOLE = {"calc_sfh_galpop": (0, 1), "calc_mgas_galpop": (0, 1), "mc_sfh_galpop": (1,)}  # tuples of one array per parameter
SKIP = ("get_bounded_diffstarpop_params", "get_unbounded_diffstarpop_params", "all_params_from_varied", "get_dt_array", "get_1d_arrays", "get_outline")


@gen.case_of
def mismatches(r):
    return dict(set=argset(r), pick=[[r.choice([o for o in OPS if o not in SKIP]), r.integer(0, 40), r.integer(0, 2), r.choice(["shorter", "longer", "longer2"])] for _ in range(7)],
                whole=[[r.choice(sorted(WHOLE)), r.integer(0, 1), r.choice([-2, -1, 1, 2, 3])]])


def _refused(f, args, what):
    try:
        out = f(*args)
    except Exception:  # noqa: BLE001  (any error is a refusal)
        return
    check(False, f"{what} is accepted; outputs of shapes {[x.shape for x in flat(out)][:6]}")


@prop_test(mismatches, quick=150, thorough=6000, mode=("f64", "f32"), rule="non-trivial: at least four calls with one array a snapshot, galaxy or bin too long or too short")
def misaligned_arrays(case, ctx):
    args = arrays(case["set"], ctx.mode)
    tried = 0
    for op, i, ax, kind in case["pick"]:
        leaves, tree = jax.tree_util.tree_flatten_with_path(args[op])
        able = []
        for k, (path, x) in enumerate(leaves):
            top = path[0].idx
            field = path[1].idx if len(path) > 1 and hasattr(path[1], "idx") else None
            if isinstance(x, np.ndarray) and x.ndim and max(x.shape) > 2 and top not in FREE.get(op, ()) and (op, field) not in UNUSED and not x.dtype == np.uint32:
                able.append(k)
        if not able:
            continue
        k = able[i % len(able)]
        path, x = leaves[k]
        axes = [j for j in range(x.ndim) if x.shape[j] > 2]
        ax = axes[ax % len(axes)]
        n = x.shape[ax]
        idx = np.arange(n - 1) if kind == "shorter" else np.r_[np.arange(n), [n - 1] * (1 if kind == "longer" else 3)]
        y = np.take(x, idx, axis=ax)
        new = [v for _, v in leaves]
        new[k] = y
        tried += 1
        _refused(OPS[op][0], jax.tree_util.tree_unflatten(tree, new), f"{op} with argument {jax.tree_util.keystr(path)} of shape {y.shape} instead of {x.shape}")
    for op, i, d in case["whole"]:  # all parameters of one tuple for more or fewer galaxies than the rest
        where = WHOLE[op][i % len(WHOLE[op])]
        a = list(args[op])
        n = len(np.asarray(a[where][0]))
        if n + d < 2:
            continue
        idx = np.arange(n + d) % n
        a[where] = type(a[where])(*[np.asarray(x)[idx] for x in a[where]])
        tried += 1
        _refused(OPS[op][0], tuple(a), f"{op} with {n + d} instead of {n} galaxies in argument {where}")
    ctx.nontrivial(tried >= 4)


PARAM_OPS = {"calc_sfh_singlegal": (0, 1), "calc_sfh_galpop": (0, 1), "calc_mgas_singlegal": (0, 1), "calc_mgas_galpop": (0, 1), "get_bounded_diffstar_params": (0,), "get_unbounded_diffstar_params": (0,),
             "mc_sfh_galpop": (1,), "mc_sfh_singlegal": (1,), "get_loss_data_default": (2,)}


@gen.case_of
def counts(r):
    return dict(set=argset(r), pick=[[r.choice(list(PARAM_OPS)), r.integer(0, 1), r.choice([-2, -1, 1, 2])] for _ in range(6)])


@prop_test(counts, quick=120, thorough=4000, mode=("f64", "f32"), rule="non-trivial: always; six calls with a parameter tuple of the wrong length")
def wrong_number_of_parameters(case, ctx):
    args = arrays(case["set"], ctx.mode)
    for op, i, d in case["pick"]:
        where = PARAM_OPS[op][i % len(PARAM_OPS[op])]
        a = list(args[op])
        old = tuple(a[where])
        check(len(old) in (len(DiffstarParams._fields), len(DiffstarUParams._fields), len(MahParams._fields)), "parameters")
        a[where] = old[:d] if d < 0 else old + old[-1:] * d
        _refused(OPS[op][0], tuple(a), f"{op} with {len(a[where])} instead of {len(old)} parameters in argument {where}")
    ctx.nontrivial(True)


@gen.case_of
def tables(r):
    n = r.integer(1, 6)
    return dict(rows=n, ncol=r.integer(1, 14), keep=r.bool(), names=r.integer(1, 14), dtype=r.choice(["str", "float"]))


@prop_test(tables, quick=200, thorough=5000, mode="f64", rule="non-trivial: the number of columns differs from the number of names")
def wrong_columns(case, ctx):
    """A table whose columns do not match the names is refused, and an existing catalogue survives."""
    base = list(fh.get_header()[1])
    names = (base + [f"extra{i}" for i in range(8)])[: case["names"]]
    data = (np.arange(case["rows"] * case["ncol"]).reshape(case["rows"], case["ncol"]) + 1.0).astype(case["dtype"])
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "out.h5")
        if case["keep"]:
            with open(fn, "wb") as f:
                f.write(b"earlier catalogue")
        if len(names) == case["ncol"]:
            return ctx.nontrivial(False)
        try:
            fh.write_collated_data(fn, data, names)
        except Exception:  # noqa: BLE001
            if case["keep"]:
                check(open(fn, "rb").read() == b"earlier catalogue", "a refused table destroyed the existing catalogue")
            else:
                check(not os.path.exists(fn), "a refused table left a file behind")
        else:
            check(False, f"a table of {case['ncol']} columns is stored under {len(names)} names")
    ctx.nontrivial(True)
