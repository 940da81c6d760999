"""C24: fit results survive the text lines, the collation and the HDF5 catalogue."""
import os
import tempfile

import h5py
import jax.numpy as jnp
import numpy as np

from checks.fitcommon import fh
from diffstar.data_loaders import load_flat_hdf5
from diffstar.data_loaders.load_smah_data import load_fit_sfh
from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS
from pbt import gen, ref
from pbt.core import check, close, prop_test

PN = ref.PNAMES
FILL = -99.0


@gen.case_of
def catalogues(r):
    n = r.choice([1, 1, 2, 3, 7, 20])
    rows = []
    style = r.choice(["mix", "mix", "all fit", "all failed"])
    for _ in range(n):
        failed = style == "all failed" or (style == "mix" and r.bool(0.4))
        hid = r.choice([r.integer(0, 9), r.integer(0, 10**6), r.integer(10**9, 10**10), r.integer(2**53, 2**62), -r.integer(1, 99)])
        row = dict(id=int(hid), failed=failed)
        if not failed:
            row["p"] = r.diffstar_params() if r.bool(0.7) else [r.choice([1, -1]) * r.logf(1e-12, 1e8) for _ in range(8)]
            row["loss"] = r.choice([0.0, 999.99, r.logf(1e-9, 1e9), r.logf(1e-3, 10)])
            row["success"] = r.choice([1, 1, 0, -1])
        rows.append(row)
    cut = sorted(r.integer(0, n) for _ in range(r.integer(0, 3)))
    return dict(rows=rows, cut=cut, form=r.choice(["nt", "tuple", "jax"]), asstr=r.bool(0.7))


@prop_test(catalogues, quick=300, thorough=20000, mode="f64", rule="non-trivial: both fitted and failed galaxies, or a single galaxy, or an id beyond 2**53")
def write_collate_load(case, ctx):
    header, colnames = fh.get_header()
    check(tuple(colnames) == ("halo_id", *PN, "loss", "success"), f"columns {colnames}")
    check(header.startswith("#") and header.endswith("\n") and tuple(header[1:].split()) == tuple(colnames), "header line does not name the columns in order")
    rows, n = case["rows"], len(case["rows"])
    lines = []
    for row in rows:
        if row["failed"]:
            s = fh.get_outline_nofit(np.int64(row["id"]))
        else:
            p = row["p"]
            if case["form"] == "nt":
                p = DEFAULT_DIFFSTAR_PARAMS._make(p)
            elif case["form"] == "jax":
                p = DEFAULT_DIFFSTAR_PARAMS._make([jnp.array(x) for x in p])
            s = fh.get_outline(np.int64(row["id"]), p, row["loss"], row["success"])
        check(s.endswith("\n") and s.count("\n") == 1 and not s.startswith("#"), "outline is not one data line")
        check(len(s.split()) == len(colnames), "outline does not have one entry per column")
        lines.append(s)
    with tempfile.TemporaryDirectory() as d:
        # rank files, one header each, as the fitting scripts write and read them
        edges = [0, *case["cut"], n]
        blocks = []
        for k, (a, b) in enumerate(zip(edges[:-1], edges[1:])):
            if a == b:
                continue
            fn = os.path.join(d, f"rank_{k}.dat")
            with open(fn, "w") as f:
                f.write(header)
                f.writelines(lines[a:b])
            use_str = case["asstr"] or any(abs(r["id"]) > 2**52 for r in rows)
            blocks.append(np.atleast_2d(np.genfromtxt(fn, dtype="str") if use_str else np.loadtxt(fn)))
        data = np.concatenate(blocks)
        out = os.path.join(d, "cat.hdf5")
        fh.write_collated_data(out, data, colnames)
        back = load_flat_hdf5(out)
        ms, q = load_fit_sfh("cat.hdf5", data_drn=d)
        with h5py.File(out, "r") as f:
            check(set(f.keys()) == set(colnames), "catalogue columns")
    ids = np.array([r["id"] for r in rows])
    check(np.issubdtype(back["halo_id"].dtype, np.integer) and np.array_equal(back["halo_id"], ids), f"halo ids {back['halo_id'][:5]} != {ids[:5]}")
    suc = np.array([-1 if r["failed"] else r["success"] for r in rows])
    check(np.issubdtype(back["success"].dtype, np.integer) and np.array_equal(back["success"], suc), "success flags")
    close(back["loss"], np.array([-1.0 if r["failed"] else r["loss"] for r in rows]), "loss", rtol=1.1e-5)
    exp = np.array([[FILL] * 8 if r["failed"] else r["p"] for r in rows], float)
    for j, k in enumerate(PN):
        close(back[k], exp[:, j], f"column {k}", rtol=1.1e-5, atol=1e-37)
    close(ms, exp[:, :4], "main-sequence parameters read by load_fit_sfh", rtol=1.1e-5, atol=1e-37)
    close(q, exp[:, 4:], "quenching parameters read by load_fit_sfh", rtol=1.1e-5, atol=1e-37)
    f = [r["failed"] for r in rows]
    ctx.label("n=1" if n == 1 else "mixed" if any(f) and not all(f) else "uniform")
    ctx.nontrivial(n == 1 or (any(f) and not all(f)) or any(abs(r["id"]) > 2**53 for r in rows))
