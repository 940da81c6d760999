"""C35: saved calibration data reload to the same data and the same losses."""
import contextlib
import io
import os
import sys
import tempfile
import types

import numpy as np

from checks.losscommon import build, draw
from pbt import gen
from pbt.core import REPO, check, prop_test

PATH = os.path.join(REPO, "scripts", "diffstarpop_scripts", "save_loss_data.py")
FUNCS = ("get_loss_data_pdfs_mstar", "get_loss_data_pdfs_ssfr_central", "get_loss_data_pdfs_ssfr_satellite")
NFIELDS = (12, 18, 18)
HELPERS = "fit_get_loss_helpers_mgash"


def _program(serve, d):
    """Run the program in directory d with serve(kind, nhalos) in place of the measured data."""
    calls = []

    def loader(k):
        def f(indir, nhalos, *a, **kw):
            calls.append((k, nhalos))
            return serve(k, nhalos), None

        return f

    stub = types.ModuleType(HELPERS)
    stub.get_loss_data_smhm = lambda *a, **k: (_ for _ in ()).throw(AssertionError("not used"))
    for k, n in enumerate(FUNCS):
        setattr(stub, n, loader(k))
    old, cwd = sys.modules.get(HELPERS), os.getcwd()
    sys.modules[HELPERS] = stub
    os.chdir(d)
    ns = {"__name__": "save_loss_data", "__file__": PATH}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            exec(compile(open(PATH).read(), PATH, "exec"), ns)
    finally:
        os.chdir(cwd)
        if old is None:
            sys.modules.pop(HELPERS)
        else:
            sys.modules[HELPERS] = old
    return ns, calls


KINDS = ["f8", "f4", "i8", "i4", "u4", "bool", "jax", "scalar", "npscalar", "int", "list", "tuple", "floats"]
RAGGED = ["ragged", "raggedtuple", "objarr", "long"]


@gen.case_of
def values(r):
    def kinds(n):
        k = [r.choice(KINDS) for _ in range(n)]
        for _ in range(r.integer(0, 2)):
            k[r.integer(0, n - 1)] = r.choice(RAGGED)
        if r.integer(0, 99) == 57:
            k[r.integer(0, n - 1)] = "verylong"
        if r.bool(0.15):
            k[r.integer(0, n - 1)] = r.choice(["bigf8", "bigf8", "bigi8", "bigf4", "bigjax", "biglist"])
        return k

    return dict(kinds=[kinds(n) for n in NFIELDS], seed=r.seed() % 2**31, special=r.bool(0.5), swap=r.bool(0.3), direct=r.bool(0.7))


def _value(kind, rng, special):
    import jax.numpy as jnp

    shape = tuple(rng.randint(0 if special and rng.rand() < 0.1 else 1, 5, rng.randint(1, 4)))
    x = rng.normal(size=shape) * 10.0 ** rng.randint(-30, 31)
    if special and x.size:
        x.flat[rng.randint(x.size)] = rng.choice([np.nan, np.inf, -np.inf, 0.0, -0.0])
    if kind in ("f8", "f4"):
        with np.errstate(all="ignore"):
            return x.astype(kind)
    if kind in ("i8", "i4", "u4"):
        i = np.iinfo(kind)
        return rng.randint(i.min, i.max, shape, dtype=kind)
    if kind.startswith("big"):
        x = rng.normal(size=(int(10.0 ** rng.uniform(3.5, 5.5)), rng.randint(1, 6)))
        if kind == "biglist":
            return list(x[: 10 ** rng.randint(1, 4)])
        return jnp.asarray(x) if kind == "bigjax" else (x * 1e9).astype(kind[3:])
    if kind == "bool":
        return rng.rand(*shape) < 0.5
    if kind == "jax":
        return jnp.asarray(rng.normal(size=(2, 3)))
    if kind == "scalar":
        return float(rng.normal() * 10.0 ** rng.randint(-30, 31))
    if kind == "int":
        return int(rng.randint(-(10**9), 10**9))
    if kind == "npscalar":
        return np.float64(rng.normal())
    if kind in ("list", "tuple"):
        v = [rng.normal(size=shape) for _ in range(rng.randint(1, 5))]
        return v if kind == "list" else tuple(v)
    if kind == "floats":
        return [float(a) for a in rng.normal(size=rng.randint(1, 5))]
    n = {"long": rng.randint(101, 140), "verylong": 10_050}.get(kind, rng.randint(2, 13))
    v = [rng.normal(size=1 + k if k < 2 else rng.randint(0, 6)) for k in range(n)]
    if special and rng.rand() < 0.3:
        v[rng.randint(n)] = rng.normal(size=(2, rng.randint(0, 3)))
    if rng.rand() < 0.2:
        v[rng.randint(n)] = rng.randint(-9, 9, rng.randint(0, 4))
    v = [v[i] for i in rng.permutation(n)]
    if kind == "objarr":
        o = np.empty(n, dtype=object)
        o[:] = v
        return o
    return v if kind != "raggedtuple" else tuple(v)


def _same(got, val, what):
    if isinstance(val, np.ndarray) and val.dtype == object:
        val = list(val)
    if isinstance(val, (list, tuple)) and len(val) and any(np.shape(v) != np.shape(val[0]) for v in val):
        check(isinstance(got, (list, tuple)) and len(got) == len(val), f"{what}: {len(val)} arrays of different shapes come back as {type(got).__name__} of {len(got)}")
        for i, (g, v) in enumerate(zip(got, val)):
            _same(g, v, f"{what}[{i}]")
        return
    g, v = np.asarray(got), np.asarray(val)
    check(g.shape == v.shape, f"{what}: shape {g.shape}, saved {v.shape}")
    check(g.dtype == v.dtype, f"{what}: type {g.dtype}, saved {v.dtype}")
    check(np.array_equal(g, v, equal_nan=v.dtype.kind == "f"), f"{what}: values differ")


@prop_test(values, quick=80, thorough=3000, mode="f64", rule="non-trivial: an array, a scalar and a list of arrays of different shapes among the values")
def round_trip(case, ctx):
    rng = np.random.RandomState(case["seed"])
    sets = {n: [tuple(_value(k, rng, case["special"]) for k in ks) for ks in case["kinds"]] for n in (10, 100)}
    with tempfile.TemporaryDirectory() as d:
        ns, calls = _program(lambda k, n: sets[n][k], d)
        check(sorted(calls) == [(k, n) for k in range(3) for n in (10, 100)], f"loss data requested: {calls}")
        fns = {n: os.path.join(d, f"loss_kernels_testing_data_{n}halos.h5") for n in sets}
        check(set(os.listdir(d)) == {os.path.basename(f) for f in fns.values()}, f"files written: {os.listdir(d)}")
        if case["direct"]:
            x = sets[10]
            with contextlib.redirect_stdout(io.StringIO()):
                ns["save_loss_data_h5"](fns[10], *(list(v) if case["swap"] else v for v in sets[100]))  # overwrites
                ns["save_loss_data_h5"](fns[100], *x)
            sets = {10: sets[100], 100: x}
        for n, fn in fns.items():
            out = ns["load_loss_data_h5"](fn)
            check(len(out) == 3 and tuple(map(len, out)) == NFIELDS, f"reloaded {[len(o) for o in out]} values")
            for k in range(3):
                for i, (g, v) in enumerate(zip(out[k], sets[n][k])):
                    _same(g, v, f"{FUNCS[k]}, value {i} ({case['kinds'][k][i]})")
        bad = [list(v) for v in sets[10]]
        j = case["seed"] % 3
        bad[j] = bad[j][:-1]
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                ns["save_loss_data_h5"](os.path.join(d, "bad.h5"), *bad)
        except ValueError:
            pass
        else:
            check(False, f"a tuple with {len(bad[j])} values instead of {NFIELDS[j]} is accepted")
    kinds = {k for ks in case["kinds"] for k in ks}
    ctx.nontrivial(bool(kinds & {"f8", "jax"}) and bool(kinds & {"scalar", "npscalar"}) and bool(kinds & {"ragged", "long", "objarr", "raggedtuple"}))


@gen.case_of
def loss_cases(r):
    return draw(r)


@prop_test(loss_cases, quick=12, thorough=300, mode="f64", rule="non-trivial: the loss is positive")
def losses_after_reloading(case, ctx):
    import diffstar.diffstarpop.loss_kernels.mstar_ssfr_loss_mgash_anyz as m

    u, dm, ds = build(case, "f64")
    fs = (m.loss_mstar_kern_tobs_grad_wrapper, m.loss_mstar_ssfr_kern_tobs_grad_wrapper, m.loss_mstar_ssfr_sat_kern_tobs_grad_wrapper)
    data = (dm, ds, ds)
    with tempfile.TemporaryDirectory() as d:
        ns, _ = _program(lambda k, n: data[k], d)
        out = ns["load_loss_data_h5"](os.path.join(d, "loss_kernels_testing_data_10halos.h5"))
    pos = False
    for k, f in enumerate(fs):
        a, b = f(u, data[k]), f(u, tuple(np.asarray(v) if not isinstance(v, list) else v for v in out[k]))
        check(np.array_equal(np.asarray(a[0]), np.asarray(b[0]), equal_nan=True), f"{FUNCS[k]}: loss {b[0]} with the reloaded data, {a[0]} with the original")
        check(np.array_equal(np.asarray(a[1]), np.asarray(b[1]), equal_nan=True), f"{FUNCS[k]}: gradient differs with the reloaded data")
        pos |= float(a[0]) > 0
    ctx.nontrivial(pos)
