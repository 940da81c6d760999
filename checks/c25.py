"""C25: catalogue slices are exact and unfitted halos are flagged."""
import os
import tempfile

import h5py
import numpy as np

from diffstar.data_loaders import load_flat_hdf5, load_precomputed_diffmah_fits
from diffstar.data_loaders.load_smah_data import load_smdpl_diffmah_fits
from pbt import gen, ref
from pbt.core import all_finite, check, close, prop_test

DTYPES = ["f8", "f4", "i8", "i4", "u1", "?"]


@gen.case_of
def files(r):
    n = r.choice([1, 2, 5, 17, 60])
    cols = []
    for i in range(r.integer(1, 6)):
        cols.append([r.choice(["a", "z", "halo_id", "x_", "T"]) + str(i), r.choice(DTYPES), r.choice([0, 0, 1, 3])])
    cuts = sorted(r.integer(0, n) for _ in range(r.integer(0, 4)))
    return dict(n=n, cols=cols, seed=r.seed() % 2**31, cuts=cuts, sub=[r.bool() for _ in cols], rev=r.bool(), over=r.integer(0, 3))


def _column(rng, dt, shape):
    if dt == "?":
        return rng.rand(*shape) > 0.5
    if dt[0] in "iu":
        return rng.randint(0, 200, shape).astype(dt)
    x = rng.normal(size=shape).astype(dt)
    x[rng.rand(*shape) < 0.05] = np.nan
    return x


def _same(a, b, what):
    b = np.asarray(b)
    check(isinstance(a, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape, f"{what}: {getattr(a, 'dtype', None)}{np.shape(a)} instead of {b.dtype}{b.shape}")
    check(np.array_equal(a, b, equal_nan=b.dtype.kind == "f"), f"{what}: values differ")


@prop_test(files, quick=400, thorough=20000, mode="f64", rule="non-trivial: a proper block of the file, or a subset of the columns, is loaded")
def flat_slices(case, ctx):
    rng = np.random.RandomState(case["seed"])
    n = case["n"]
    data = {k: _column(rng, dt, (n,) if not w else (n, w)) for k, dt, w in case["cols"]}
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "x.h5")
        with h5py.File(fn, "w") as f:
            for k, v in data.items():
                f[k] = v
        full = load_flat_hdf5(fn)
        check(set(full) == set(data), "columns")
        for k in data:
            _same(full[k], data[k], f"column {k}")
        keys = [k for k, s in zip(data, case["sub"]) if s]
        if case["rev"]:
            keys = keys[::-1]
        edges = [0, *case["cuts"], n]
        parts = []
        for a, b in zip(edges[:-1], edges[1:]):
            for want in (None, keys, tuple(keys)):
                got = load_flat_hdf5(fn, istart=a, iend=b, keys=want)
                check(set(got) == set(data if want is None else want), f"columns of block {a}:{b}")
                for k in got:
                    _same(got[k], data[k][a:b], f"column {k} rows {a}:{b}")
                if want is None:
                    parts.append(got)
            tail = load_flat_hdf5(fn, istart=a, keys=keys)
            for k in keys:
                _same(tail[k], data[k][a:], f"column {k} rows {a}:")
            head = load_flat_hdf5(fn, iend=b, keys=keys)
            for k in keys:
                _same(head[k], data[k][:b], f"column {k} rows :{b}")
        past = load_flat_hdf5(fn, istart=edges[1], iend=n + case["over"])
        for k in data:
            _same(np.concatenate([p[k] for p in parts]), data[k], f"concatenated blocks of {k}")
            _same(past[k], data[k][edges[1]:], f"column {k} rows past the end")
    ctx.nontrivial(len(keys) < len(data) or any(0 < c < n for c in case["cuts"]))


NB = 16  # rows in most blocks: one compiled shape


@gen.case_of
def fits(r):
    rows = []
    for _ in range(NB):
        k = r.choice(["fit", "fit", "fit", "loss", "points", "both", "edge"])
        rows.append(dict(mah=r.mah_params(), k=k, loss=r.logf(1e-6, 10.0), n=r.integer(6, 100), junk=r.choice([-99.0, 0.0, np.nan, np.inf, 1e30, None]), neg=r.choice([-1.0, -1.0, -99.0, -1e-6])))
    return dict(rows=rows, t0=r.uf_or([13.8, 13.820002], 5.0, 20.0), npts=r.choice([5, 5, 5, 1, 20, 50]), cut=r.integer(1, NB - 1), dt=r.choice(["f8", "f4"]), via=r.bool(),
                extra=r.bool())


@prop_test(fits, quick=400, thorough=20000, mode=("f64", "f32"), rule="non-trivial: the file has both fitted and unfitted halos")
def diffmah_fits(case, ctx):
    rows, t0, npts = case["rows"], case["t0"], case["npts"]
    par, loss, nf, nofit = [], [], [], []
    for row in rows:
        n = max(row["n"], npts)
        l, bad = row["loss"], False
        if row["k"] == "edge":
            n, l = npts, 0.0  # exactly enough points, zero loss: fitted
        if row["k"] in ("loss", "both"):
            l, bad = row.get("neg", -1.0), True
        if row["k"] in ("points", "both"):
            n, bad = npts - 1, True
        p = row["mah"]
        if bad and row["junk"] is not None:
            p = [row["junk"]] * 5
        par.append(p), loss.append(l), nf.append(n), nofit.append(bad)
    par = np.array(par, case["dt"])
    loss, nf, nofit = np.array(loss, case["dt"]), np.array(nf, "i8"), np.array(nofit)
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "fits.h5")
        with h5py.File(fn, "w") as f:
            for j, k in enumerate(ref.MAH_NAMES):
                f[k] = par[:, j]
            f["loss"], f["n_points_per_fit"] = loss, nf
            if case["extra"]:
                f["halo_id"] = np.arange(NB)
        if case["via"]:
            load = lambda **k: load_precomputed_diffmah_fits(fn, t0, npts_fit_min=npts, **k)
        else:
            load = lambda **k: load_smdpl_diffmah_fits("fits.h5", data_drn=d, npts_fit_min=npts, t0=t0, **k)
        out = load()
        c = case["cut"]
        blocks = [load(istart=0, iend=c), load(istart=c, iend=None if case["extra"] else NB)]
    check(len(out) == 4, "return value")
    mah, logmp0, l, n = out
    check(tuple(mah._fields) == ref.MAH_NAMES, "halo parameter names")
    check(np.array_equal(np.asarray(l)[~nofit], loss[~nofit]) and np.array_equal(n, nf), "loss or number of points changed")
    check(np.all(np.asarray(l)[nofit] == -1.0), "an unfitted halo is reported with a loss other than -1")
    x = np.stack([np.asarray(v, float) for v in mah], 1)
    check(np.all(x[nofit] == -1.0), "an unfitted halo has parameters other than -1")
    check(np.array_equal(x[~nofit], par[~nofit].astype(float)), "a fitted halo's parameters changed")
    logmp0 = np.asarray(logmp0, float)
    check(logmp0.shape == (NB,), "shape of the present-day mass")
    all_finite(logmp0, "present-day halo mass")
    p64 = par.astype(float) if ctx.mode == "f64" else par.astype(np.float32).astype(float)
    exp = np.array([ref.log_mah(p, np.array([t0]), np.log10(t0))[0] for p in p64[~nofit]])
    close(logmp0[~nofit], exp, "present-day halo mass", atol=ctx.tol(2e-5 if case["dt"] == "f4" else 1e-9, 2e-4))
    for i in range(4):
        a = out[i] if i else x
        b = np.concatenate([np.stack([np.asarray(v, float) for v in blk[0]], 1) if i == 0 else np.asarray(blk[i]) for blk in blocks])
        close(b, a, f"output {i} loaded in two blocks", atol=ctx.tol(1e-12, 1e-5))
    ctx.nontrivial(nofit.any() and not nofit.all())
