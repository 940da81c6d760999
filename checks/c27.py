"""C27: Galacticus extraction keeps every galaxy's mass in every block."""
import contextlib
import io
import os
import runpy
import sys
import tempfile
import warnings

import h5py
import numpy as np

from diffstar.data_loaders import extract_galacticus_sfh_data as eg
from diffstar.data_loaders import load_galacticus_sfh as lg
from pbt import gen
from pbt.core import check, close, prop_test

COLS = {"disk": "diskStarFormationHistoryMass", "bulge": "spheroidStarFormationHistoryMass"}


@gen.case_of
def boxes(r):
    many = r.bool(0.06)
    n = r.integer(130, 300) if many else r.choice([1, 2, 3, 6, 12])
    nmet, nt = r.integer(1, 4), r.integer(2, 8)
    empty = {}
    for c in COLS:
        e = [r.bool(0.3) for _ in range(n)]
        if r.bool(0.3):
            e = [True] * n
            e[r.integer(0, n - 1)] = False
        if many:  # a long run of galaxies without any history
            k, j = r.integer(0, 10), r.integer(110, n - 1)
            e = [k <= i < j or e[i] for i in range(n)]
        if all(e):
            e[r.integer(0, n - 1) if not many else r.choice([0, n - 1])] = False
        empty[c] = e
    a = r.integer(0, n - 1)
    return dict(n=n, nmet=nmet, nt=nt, empty=empty, cuts=sorted(r.integer(0, n) for _ in range(r.integer(1, 3))), a=a, b=r.integer(a + 1, n),
                seed=r.seed() % 2**31, dt0=r.logf(1e-6, 0.5), narrow=r.choice([0.0, 0.0, 0.5]), zeros=r.bool(), cli=r.bool(0.15), comp=r.choice(["disk", "bulge"]))


def _write(case, d):
    rng = np.random.RandomState(case["seed"])
    n, nmet, nt = case["n"], case["nmet"], case["nt"]
    t = np.cumsum(case["dt0"] + rng.exponential(1.0, nt) * np.where(rng.rand(nt) < case["narrow"], 1e-4, 1.0))
    raw = {}
    fn = os.path.join(d, lg.BN_GALCUS)
    dt = h5py.vlen_dtype(h5py.vlen_dtype(np.float64))
    with h5py.File(fn, "w") as f:
        g = f.create_group("Outputs/Output1/nodeData")
        for c, col in COLS.items():
            x = 10.0 ** rng.uniform(3, 11, (n, 2 * nmet, nt))
            if case["zeros"]:
                x[rng.rand(*x.shape) < 0.3] = 0.0
            ds = g.create_dataset(col, (n,), dtype=dt)
            ds.attrs["time"] = t
            for i in range(n):
                k = 0 if case["empty"][c][i] else 2 * nmet
                v = np.empty(k, object)
                for j in range(k):
                    v[j] = x[i, j]
                ds[i] = v
                if k == 0:
                    x[i] = 0.0
            raw[c] = x
        m = g.create_dataset("haloAccretionHistoryMass", (n,), dtype=h5py.vlen_dtype(np.float64))
        tt = g.create_dataset("haloAccretionHistoryTime", (n,), dtype=h5py.vlen_dtype(np.float64))
        mah = []
        for i in range(n):
            k = rng.randint(0, 9)
            mah.append((10.0 ** rng.uniform(8, 14, k), np.sort(rng.uniform(0, 14, k))))
            m[i], tt[i] = mah[-1]
        iso = rng.randint(0, 2, n)
        last = rng.uniform(1, 14, n)
        g["nodeIsIsolated"], g["basicTimeLastIsolated"] = iso, last
    return fn, t, raw, mah, iso, last


def _expect(case, raw, c):
    k = case["nmet"]
    return raw[c][:, :k].sum(1), raw[c][:, k:].sum(1)


@prop_test(boxes, quick=350, thorough=15000, mode="f64", rule="non-trivial: a block that starts after the first galaxy is extracted and some galaxy has no history")
def extraction_and_derived_histories(case, ctx):
    n = case["n"]
    with tempfile.TemporaryDirectory() as d:
        fn, t, raw, mah, iso, last = _write(case, d)
        check(eg.get_nhalos_tot(fn) == n, "number of halos")
        edges = [0, *case["cuts"], n]
        blocks = [(0, None), (case["a"], case["b"]), (case["a"], None), *zip(edges[:-1], edges[1:])]
        full = {}
        for c, col in COLS.items():
            tot, ins = _expect(case, raw, c)
            for a, b in blocks:
                gt, gi, gtime = eg.extract_galacticus_sfh_tables(fn, col, istart=a, iend=b)
                check(np.array_equal(gtime, t), "times")
                close(gt, tot[a:b], f"total mass per bin of {c}, galaxies {a}:{b}", rtol=1e-12)
                close(gi, ins[a:b], f"in-situ mass per bin of {c}, galaxies {a}:{b}", rtol=1e-12)
                if (a, b) == (0, None):
                    full[c] = gt, gi
                else:
                    check(np.array_equal(gt, full[c][0][a:b]) and np.array_equal(gi, full[c][1][a:b]), f"galaxies {a}:{b} differ from those rows of a full extraction")
        for a, b in blocks:
            gm, gt, gi, gl = eg.extract_galacticus_mah_tables(fn, istart=a, iend=b)
            rows = list(range(n))[a:b]
            check(len(gm) == len(gt) == len(gi) == len(gl) == len(rows), f"accretion histories {a}:{b}: number of rows")
            for k, i in enumerate(rows):
                check(np.array_equal(gm[k], mah[i][0]) and np.array_equal(gt[k], mah[i][1]), f"accretion history {i} in block {a}:{b}")
            check(np.array_equal(gi, iso[a:b]) and np.array_equal(gl, last[a:b]), f"isolation data {a}:{b}")
        # the tables as the extraction program saves them
        for c in COLS:
            np.save(os.path.join(d, f"delta_mstar_tot_{c}.npy"), full[c][0])
            np.save(os.path.join(d, f"delta_mstar_in_situ_{c}.npy"), full[c][1])
            np.save(os.path.join(d, f"tarr_{c}.npy"), t)
        data = lg.load_galacticus_sfh_target_data(d)
        width = np.diff(np.concatenate([[0.0], t]))
        check(np.array_equal(data["tarr"], t), "times of the derived histories")
        check(np.array_equal(data["is_cen"], iso), "central flag")
        for k, j in (("sfh_tot", 0), ("sfh_in_situ", 1)):
            mass = full["disk"][j] + full["bulge"][j]
            check(np.shape(data[k]) == (n, case["nt"]), f"shape of {k}")
            close(np.cumsum(data[k] * width * 1e9, axis=1), np.cumsum(mass, axis=1), f"{k} integrated over its bins", rtol=1e-11)
        lg.write_galacticus_sfh_data_block(d)
        out = os.path.join(d, lg.BNAME_SFH_DATA)
        for a, b in [(0, n), *blocks[1:]]:
            blk = lg.load_galacticus_sfh_data_block(out, a, b)
            check(np.array_equal(blk["tarr"], t), "times read back")
            for k in ("sfh_tot", "sfh_in_situ", "is_cen"):
                check(np.array_equal(blk[k], data[k][a:b]), f"{k} rows {a}:{b} read back differ")
        if case["cli"]:
            ctx.label("program")
            o = os.path.join(d, "out")
            os.mkdir(o)
            a, b = case["a"], case["b"]
            argv = sys.argv
            sys.argv = ["x", case["comp"], "-indrn", d, "-bname", os.path.basename(fn), "-outdrn", o, "-istart", str(a), "-iend", str(b)]
            try:
                with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    runpy.run_module("diffstar.data_loaders.extract_galacticus_sfh_data", run_name="__main__")
            finally:
                sys.argv = argv
            c = case["comp"]
            for k, j in (("tot", 0), ("in_situ", 1)):
                x = np.load(os.path.join(o, f"delta_mstar_{k}_{c}.npy"))
                check(np.array_equal(x, full[c][j][a:b]), f"table delta_mstar_{k}_{c} written by the extraction program")
            check(np.array_equal(np.load(os.path.join(o, f"tarr_{c}.npy")), t), "times written by the extraction program")
    ctx.nontrivial((case["a"] > 0 or any(x > 0 for x in edges[1:-1])) and any(any(e) for e in case["empty"].values()))


@gen.case_of
def mixed(r):
    return dict(n=r.integer(1, 20), seed=r.seed() % 2**31, nt=r.integer(2, 6))


@prop_test(mixed, quick=60, thorough=3000, mode="f64", rule="non-trivial: always")
def analysis_bundle(case, ctx):
    """load_galacticus_diffstar_data pairs each file with its field."""
    rng = np.random.RandomState(case["seed"])
    n, nt = case["n"], case["nt"]
    t = np.cumsum(0.1 + rng.rand(nt))
    with tempfile.TemporaryDirectory() as d:
        d1, d2, d3 = (os.path.join(d, x) for x in "abc")
        files = {}
        for x in (d1, d2, d3):
            os.mkdir(x)
        for key, path in (("diffmah_fit_data", os.path.join(d3, lg.BN_DIFFMAH)), ("diffstar_in_situ_fit_data", os.path.join(d2, lg.BN_DIFFSTAR_IN_SITU)),
                          ("diffstar_in_plus_ex_situ_fit_data", os.path.join(d2, lg.BN_DIFFSTAR_IN_PLUS_EX_SITU))):
            files[key] = {"loss": rng.rand(n), "p" + key[-12:-9]: rng.rand(n)}
            with h5py.File(path, "w") as f:
                for k, v in files[key].items():
                    f[k] = v
        with h5py.File(os.path.join(d1, lg.BN_GALCUS), "w") as f:
            f["Outputs/Output1/nodeData/nodeIsIsolated"] = np.arange(n) % 2
        m = {}
        for c in COLS:
            for k in ("tot", "in_situ"):
                m[c, k] = rng.rand(n, nt) * 1e9
                np.save(os.path.join(d1, f"delta_mstar_{k}_{c}.npy"), m[c, k])
            np.save(os.path.join(d1, f"tarr_{c}.npy"), t)
        out = lg.load_galacticus_diffstar_data(d1, diffstar_drn=d2, diffmah_drn=d3)
    for k, v in files.items():
        got = getattr(out, k)
        check(set(got) == set(v) and all(np.array_equal(got[c], v[c]) for c in v), f"field {k} does not hold its file")
    w = np.diff(np.concatenate([[0.0], t])) * 1e9
    for k in ("tot", "in_situ"):
        close(out.galcus_sfh_data["sfh_" + k] * w, m["disk", k] + m["bulge", k], f"sfh_{k}", rtol=1e-11)
    check(np.array_equal(out.galcus_sfh_data["is_cen"], np.arange(n) % 2), "is_cen")
