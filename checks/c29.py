"""C29: public functions are pure: histories of calls with repeated and fresh arguments."""
import copy
import sys

import jax
import jax.numpy as jnp
import numpy as np

from checks.apicommon import HEAVY, NFIT, NG, OPS, MyMah, MyParams, MyU, argset, arrays, flat
from checks.common import MahParams
from checks.mirror import Mirror
from diffstar import DiffstarParams, DiffstarUParams
from pbt import gen
from pbt.core import check, close, prop_test


def _wiggle(r, t):
    """Same length, first and last entry; different in between."""
    return t[:1] + [t[i] + r.uf(0.2, 0.6) * (t[i + 1] - t[i]) for i in range(1, len(t) - 1)] + t[-1:]


FIT = ["get_loss_data_default", "fit_loss", "fit_loss_grad", "get_weights"]
MODEL = ["calc_sfh_singlegal", "calc_sfh_galpop", "calc_mgas_singlegal", "calc_mgas_galpop"]
MC = ["mc_params_galpop", "mc_params_singlegal", "mc_sfh_galpop", "mc_sfh_singlegal"]
STAT = ["tw_ndhist", "tw_ndhist_weighted", "compute_smhm"]
AFFECTS = {  # one respect in which arguments differ: operations that use it
    "times": FIT + MODEL + MC[2:] + ["cumulative_mstar_formed", "compute_fstar", "get_dt_array"], "weights": FIT, "sfh": FIT, "halo": FIT + MODEL + MC[2:],
    "galaxy": MODEL + ["get_unbounded_diffstar_params"], "cosmology": FIT + MODEL + MC[2:], "seed": MC, "perm": STAT + MC, "order": MODEL, "bins": STAT, "u": ["get_bounded_diffstar_params", *FIT[1:3]],
}


def _near(r, a):
    """A second set of arguments that agrees with the first in all but one respect."""
    b = copy.deepcopy(a)
    what = r.choice(list(AFFECTS))
    i, g = r.integer(0, 4), r.integer(0, NG - 1)
    if what == "times":
        b["t"] = _wiggle(r, a["t"])
        b["tab"]["t"] = _wiggle(r, a["tab"]["t"])
    if what == "galaxy":
        b["gals"][g][i] = r.diffstar_params(typical=True)[i]
    if what == "halo":
        b["mahs"][g][0] += r.uf(0.05, 0.3)
        b["tab"]["mah"][0] += r.uf(0.05, 0.3)
    if what == "cosmology":
        k = r.choice(["lgt0", "fb"])
        b[k] = r.cosmology()[k]
    if what == "seed":
        b["seed"] = a["seed"] + 1
    if what == "perm":  # same multiset of values
        for k in ("x", "y", "sig", "sub"):
            b[k] = a[k][::-1]
    if what == "order":
        b["gals"], b["mahs"] = a["gals"][::-1], a["mahs"][::-1]
    if what == "sfh":
        j = r.integer(0, NFIT - 1)
        b["tab"]["sfh"][j] = a["tab"]["sfh"][j] * 3.0 + 1e-3
    if what == "weights":
        b["wset"] = [w * r.uf(0.8, 1.2) for w in a["wset"]]
    if what == "bins":
        b["bins"][1] *= 1.1
    if what == "u":
        b["u"][i] += r.uf(0.1, 0.5)
    return b, AFFECTS[what]


NAMES = list(OPS)
_jitted = {}


def _digest(x, depth=0):
    if isinstance(x, (np.ndarray, jnp.ndarray)):
        a = np.asarray(x)
        return (a.shape, str(a.dtype), a.tobytes())
    if isinstance(x, (bool, int, float, str, np.generic)):
        return repr(x)
    if isinstance(x, dict) and depth < 5:
        return tuple((k, _digest(v, depth + 1)) for k, v in x.items())
    if isinstance(x, (list, tuple)) and depth < 5:
        return tuple(_digest(v, depth + 1) for v in x)
    return None


def defaults():
    """Every public constant of the package."""
    out = {}
    for name, mod in list(sys.modules.items()):
        if (name == "diffstar" or name.startswith("diffstar.")) and ".tests" not in name and mod is not None:
            for k, v in list(vars(mod).items()):
                if not k.startswith("_") and isinstance(v, (np.ndarray, jnp.ndarray, float, int, tuple, dict, list)):
                    out[name, k] = _digest(v)
    return out


def _form(args, how):
    if how == "np":
        return jax.tree_util.tree_map(lambda v: v.copy() if isinstance(v, np.ndarray) else v, args)
    if how in ("jax", "jit"):
        return jax.tree_util.tree_map(lambda v: jnp.asarray(v) if isinstance(v, (np.ndarray, np.generic)) else v, args)
    out = []
    for v in args:
        if isinstance(v, DiffstarParams):
            v = tuple(v) if how == "tuple" else MyParams(*v)
        elif isinstance(v, DiffstarUParams):
            v = tuple(v) if how == "tuple" else MyU(*v)
        elif isinstance(v, MahParams) and how == "foreign":
            v = MyMah(*v)
        out.append(v)
    return tuple(out)


@gen.case_of
def histories(r):
    a = argset(r)
    near = r.bool(0.7)
    b, names = _near(r, a) if near else (argset(r), NAMES)
    focus = [r.choice(names) for _ in range(r.integer(1, 3))]
    steps = []
    for _ in range(r.integer(3, 14)):
        op = r.choice(focus) if r.bool(0.6) else r.choice(NAMES if r.bool(0.3) else names)
        steps.append([op, r.integer(0, 1), r.choice(["np", "np", "jax", "jit", "tuple", "foreign"])])
    return dict(sets=[a, b], near=near, steps=steps)


def _call(op, how, args):
    """(function to call, arguments) for one step; fresh copies of the arguments."""
    f, jit_ok = OPS[op]
    if how == "jit" and not jit_ok:
        how = "jax"
    if op.startswith(("get_loss", "get_weights", "get_outline", "get_1d")) and how in ("jax", "jit"):
        how = "np"
    if op == "all_params_from_varied" and how in ("tuple", "foreign"):
        how = "np"
    a = _form(args[op], how)
    if how == "jit":
        f = _jitted.setdefault(op, jax.jit(f))
    return f, a, how


def mirror(case, mode):
    """In the second process: every distinct call of the history once, the second set of
    arguments first, the steps from last to first."""
    args = [arrays(a, mode) for a in case["sets"][::-1]][::-1]
    out = {}
    for op, k, how in sorted(case["steps"][::-1], key=lambda s: -s[1]):
        f, a, how = _call(op, how, args[k])
        if (op, k, how) not in out:
            out[op, k, how] = flat(f(*a))
    return out


_mirrors = {}


@prop_test(histories, quick=130, thorough=6000, mode=("f64", "f32"), rule="non-trivial: some call is repeated with the same values after a different call")
def call_histories(case, ctx):
    if ctx.mode not in _mirrors:
        _mirrors[ctx.mode] = Mirror(ctx.mode, "checks.c29")
    twin = _mirrors[ctx.mode]
    twin.send(case)
    try:
        calls = _history(case, ctx)
    finally:
        other = twin.recv()
    check(isinstance(other, dict), f"the same calls in another order fail: {other}")
    for (op, k, how), out in calls.items():
        what = f"{op} ({how}, arguments {k}) of {case['steps']}"
        check(len(out) == len(other[op, k, how]), f"{what}: number of outputs depends on the order of calls")
        for x, y in zip(out, other[op, k, how]):
            check(x.shape == y.shape and x.dtype == y.dtype, f"{what}: type of the result depends on the order of calls")
            ok = np.array_equal(x, y, equal_nan=x.dtype.kind == "f")
            if not ok and x.dtype.kind == "f":
                scale = np.abs(y[np.isfinite(y)]).max(initial=0.0)
                n = np.isnan(y)
                close(np.where(n & np.isnan(x), 0, x), np.where(n & np.isnan(x), 0, y), f"{what}: result depends on the calls made before", rtol=ctx.tol(1e-10, 1e-5), atol=ctx.tol(1e-12, 1e-6) * scale)
            else:
                check(ok, f"{what}: result depends on the calls made before")


def _history(case, ctx):
    args = [arrays(a, ctx.mode) for a in case["sets"]]
    before = defaults()
    np.random.seed(5)
    rs = np.random.get_state()[1].tobytes()
    seen, first, order = {}, {}, []
    repeated = False
    for i, (op, k, how) in enumerate(case["steps"]):
        f, a, how = _call(op, how, args[k])
        keep = [v.copy() for v in flat(a)]
        res = f(*a)
        out = flat(res)
        for x, y in zip(flat(a), keep):
            check(x.dtype == y.dtype and np.array_equal(x, y, equal_nan=True), f"step {i}: {op} changed its input")
        what = f"step {i}: {op} ({how}) after {order[-6:]}"
        if (op, k, how) in seen:
            repeated |= order[-1] != (op, k)
            for x, y in zip(out, seen[op, k, how]):
                check(x.shape == y.shape and np.array_equal(x, y, equal_nan=True), f"{what}: result differs from the same call made before")
        seen[op, k, how] = [x.copy() for x in out]
        if (op, k) in first:
            ref_, how0 = first[op, k]
            check(len(out) == len(ref_), f"{what}: number of outputs differs from the {how0} call")
            for x, y in zip(out, ref_):
                if x.dtype.kind == "f":
                    y64 = np.asarray(y, float)
                    scale = np.abs(y64[np.isfinite(y64)]).max(initial=0.0)
                    x64 = np.where(np.isnan(y64) & np.isnan(x), 0.0, np.asarray(x, float))
                    y64 = np.where(np.isnan(y64) & np.isnan(x), 0.0, y64)
                    close(x64, y64, f"{what}: differs from the {how0} call", rtol=ctx.tol(1e-7, 5e-3), atol=ctx.tol(1e-9, 5e-3) * scale)
                else:
                    check(np.array_equal(x, y), f"{what}: differs from the {how0} call")
        else:
            first[op, k] = ([x.copy() for x in out], how)
            if (op, 1 - k) in first and op != "get_1d_arrays" and not case["near"] and args[0][op] is not args[1][op]:
                same = all(x.shape == y.shape and np.array_equal(x, y, equal_nan=True) for x, y in zip(flat(args[0][op]), flat(args[1][op])))
                o = first[op, 1 - k][0]
                if not same and op not in ("tw_ndhist", "tw_ndhist_weighted", "compute_smhm", "get_weights"):
                    check(not all(x.shape == y.shape and np.array_equal(x, y, equal_nan=True) for x, y in zip(out, o)), f"{what}: same result as for different arguments")
        order.append((op, k))
    after = defaults()
    for kk, v in before.items():
        check(after.get(kk) == v, f"module constant {kk[0]}.{kk[1]} changed during {order}")
    check(np.random.get_state()[1].tobytes() == rs, "the global NumPy random state was used")
    ctx.nontrivial(repeated)
    return seen


def _layout(args, kind):
    """The same values in arrays of another memory layout."""
    def one(v):
        if not isinstance(v, np.ndarray) or v.ndim == 0:
            return v
        if kind == "strided":
            big = np.full(tuple(2 * n + 1 for n in v.shape), 77, dtype=v.dtype)
            out = big[tuple(slice(1, None, 2) for _ in v.shape)]
            out[...] = v
            return out
        if kind == "reversed":
            return v[::-1].copy()[::-1]
        if kind == "fortran":
            return np.asfortranarray(v.copy())
        v = v.copy()
        if kind == "readonly":
            v.flags.writeable = False
        return v
    return jax.tree_util.tree_map(one, args)


LAYOUTS = ("readonly", "strided", "reversed", "fortran", "refilled")
CHEAP = [n for n in OPS if n not in HEAVY]


def _refilled(f, op, old, new):
    tree = jax.tree_util.tree_structure(new)
    x, y = jax.tree_util.tree_leaves(old), jax.tree_util.tree_leaves(new)
    is_arr = lambda v: isinstance(v, np.ndarray) and v.ndim > 0
    if jax.tree_util.tree_structure(old) != tree or any(is_arr(v) and (np.shape(u) != v.shape or u.dtype != v.dtype) for u, v in zip(x, y)):
        return new
    buf = [u.copy() if is_arr(v) else u for u, v in zip(x, y)]
    flat(f(*jax.tree_util.tree_unflatten(tree, buf)))
    for u, v in zip(buf, y):
        if is_arr(v):
            u[...] = v
    return jax.tree_util.tree_unflatten(tree, [u if is_arr(v) else v for u, v in zip(buf, y)])


@gen.case_of
def single_calls(r):
    a = argset(r)
    i = r.integer(1, NFIT - 2)  # galaxies that form no stars for a while
    a["tab"]["sfh"][i] = 0.0
    ops = [r.choice(FIT)] + [r.choice(CHEAP) for _ in range(5)]
    return dict(set=a, other=_near(r, a)[0] if r.bool() else argset(r), calls=[[o, r.choice(LAYOUTS)] for o in ops])


@prop_test(single_calls, quick=120, thorough=6000, mode=("f64", "f32"), rule="non-trivial: every case (six calls with NumPy inputs in two memory layouts or in buffers that held other values)")
def inputs_untouched_in_any_layout(case, ctx):
    """NumPy arguments come back as they went in, and neither their memory layout nor a
    read-only flag matters."""
    args = arrays(case["set"], ctx.mode)
    for op, kind in case["calls"]:
        f, a, _ = _call(op, "np", args)
        keep = [v.copy() for v in flat(a)]
        want = [x.copy() for x in flat(f(*a))]
        for x, y in zip(flat(a), keep):
            check(x.dtype == y.dtype and np.array_equal(x, y, equal_nan=True), f"{op} changed its input")
        if kind == "refilled":  # the caller's buffers held other values in the call before
            b = _refilled(f, op, arrays(case["other"], ctx.mode)[op], args[op])
        else:
            b = _layout(args[op], kind)
        got = flat(f(*b))
        for x, y in zip(flat(b), keep):
            check(x.dtype == y.dtype and np.array_equal(x, y, equal_nan=True), f"{op} changed its {kind} input")
        check(len(got) == len(want), f"{op}: number of outputs depends on the memory layout ({kind})")
        for x, y in zip(got, want):
            check(x.shape == y.shape and x.dtype == y.dtype, f"{op}: type of the result depends on the memory layout ({kind})")
            if x.dtype.kind != "f":
                check(np.array_equal(x, y), f"{op}: result depends on the memory layout ({kind})")
                continue
            both = np.isnan(x) & np.isnan(y)
            scale = np.abs(y[np.isfinite(y)]).max(initial=0.0)
            close(np.where(both, 0, x), np.where(both, 0, y), f"{op}: result depends on the memory layout ({kind})", rtol=ctx.tol(1e-10, 1e-5), atol=ctx.tol(1e-12, 1e-6) * scale)
    ctx.nontrivial(True)


INTS = {  # arguments that may be whole numbers; those of one group are given as integers together
    "calc_sfh_singlegal": [[0], [2], [0, 1, 2]], "calc_sfh_galpop": [[0], [2], [0, 1, 2]], "calc_mgas_singlegal": [[0, 1]], "calc_mgas_galpop": [[0, 1]],
    "get_bounded_diffstar_params": [[0]], "get_unbounded_diffstar_params": [[0]], "mc_params_galpop": [[1, 2, 4, 5, 6]], "mc_params_singlegal": [[1, 2, 4, 5, 6]],
    "mc_sfh_galpop": [[1, 2, 4, 5, 6], [8]], "mc_sfh_singlegal": [[1, 2, 4, 5, 6], [8]], "tw_ndhist": [[0], [2, 3]], "tw_ndhist_weighted": [[0], [2], [2, 3, 4]],
    "compute_smhm": [[0], [1], [0, 1, 3]], "cumulative_mstar_formed": [[0], [1], [0, 1]], "compute_fstar": [[0]], "get_1d_arrays": [[0], [1], [0, 1, 2]],
    "get_loss_data_default": [[1]],
}


@gen.case_of
def integer_calls(r):
    a = argset(r)
    a["t"] = [float(x) for x in sorted(1 + i for i in r.perm(13)[: len(a["t"])])]
    a["bins"] = [float(r.integer(8, 10)), float(r.integer(1, 2))]
    return dict(set=a, ops=[[op, r.choice(INTS[op])] for op in (r.choice(list(INTS)) for _ in range(6))])


@prop_test(integer_calls, quick=60, thorough=3000, mode=("f64", "f32"), rule="non-trivial: two calls or more accepted integers")
def whole_numbers_as_integers(case, ctx):
    """Whole numbers may be given as integers: they are refused, or the results are those of the same floats."""
    args = arrays(case["set"], ctx.mode)
    n = 0
    for op, which in case["ops"]:
        f = OPS[op][0]
        whole = [jax.tree_util.tree_map(lambda v: np.rint(v), v) if i in which else v for i, v in enumerate(args[op])]
        want = [np.array(x) for x in flat(f(*whole))]
        ints = [jax.tree_util.tree_map(lambda v: np.asarray(v).astype(int), v) if i in which else v for i, v in enumerate(whole)]
        try:
            got = [np.asarray(x) for x in flat(f(*ints))]
        except TypeError:
            ctx.label(f"{op} refuses integers")
            continue
        n += 1
        check(len(got) == len(want), f"{op}: number of outputs for integers")
        for x, y in zip(got, want):
            check(x.shape == y.shape, f"{op}: shape {x.shape} for integers, {y.shape} for floats")
            if y.dtype.kind != "f":
                check(np.array_equal(x, y), f"{op}: {x} for integers, {y} for floats")
                continue
            bad = ~np.isfinite(y)
            check(np.array_equal(x[bad], y[bad], equal_nan=True), f"{op}: non-finite entries differ for integers")
            close(np.where(bad, 0, x), np.where(bad, 0, y), f"{op}: result for whole numbers given as integers (arguments {which})", rtol=ctx.tol(1e-9, 1e-4), atol=ctx.tol(1e-11, 1e-5) * np.abs(y[~bad]).max(initial=ctx.tol(0.0, 1.0)))
    ctx.nontrivial(n > 1)
