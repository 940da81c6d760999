"""C32: calibration targets and halo samples match the simulation measurements."""
import contextlib
import io
import os
import runpy
import sys
import tempfile
import warnings

import h5py
import numpy as np

from pbt import gen, ref
from pbt.core import REPO, Skip, check, close, prop_test

DIR = os.path.join(REPO, "scripts", "diffstarpop_scripts")
sys.path.insert(0, DIR)
import fit_get_loss_helpers_mgash as H  # noqa: E402
from diffstar.defaults import FB, LGT0  # noqa: E402

IDS = [8, 10, 13, 16, 19]
MIN_HALOS = 50
COUNTS = [0, 30, 49, 50, 51, 80, 150]
FUNCS = {
    "get_loss_data_smhm": ("smhm", None),
    "get_loss_data_pdfs_mstar": ("mstar", None),
    "get_loss_data_pdfs_mstar_cen": ("mstar", "cen"),
    "get_loss_data_pdfs_mstar_sat": ("mstar", "sat"),
    "get_loss_data_pdfs_ssfr_central": ("ssfr", "cen"),
    "get_loss_data_pdfs_ssfr_satellite": ("ssfr", "sat"),
}


@gen.case_of
def samples(r):
    nz, nm = r.integer(1, 3), r.integer(2, 4)
    cnt = [[[r.choice(COUNTS) for _ in range(2)] for _ in range(nm)] for _ in range(nz)]
    for z in range(nz):
        cnt[z][r.integer(0, nm - 1)] = [r.choice([50, 80]), r.choice([50, 150])]
    nhalos = r.choice([20, 50, 50, 60, 60])
    if r.bool(0.6):  # a bin with exactly as many halos as are asked for, in total or of one type
        k = r.integer(0, nhalos)
        cnt[r.integer(0, nz - 1)][r.integer(0, nm - 1)] = r.choice([[k, nhalos - k], [nhalos, r.choice(COUNTS)], [r.choice(COUNTS), nhalos]])
    return dict(nz=nz, nm=nm, cnt=cnt, func=r.choice(list(FUNCS)), nhalos=nhalos, seed=r.seed() % 2**31, npseed=r.seed() % 2**31, nmstar=r.choice([20, 23]), nssfr=r.integer(3, 6),
                lgt0=r.choice([None, None, 1.139, 1.05]), fb=r.choice([None, None, 0.15]), scale=r.choice([[0, 0], [-9, 3], [-9, 3]]), neg=r.bool(), empty=r.bool(0.4), shuffle=r.bool(0.8), mah=[r.mah_params() for _ in range(4)])


def _write(case, d):
    """Files in the layout of the measurement scripts; returns their content."""
    rng = np.random.RandomState(case["seed"])
    nz, nm, nk, ns = case["nz"], case["nm"], case["nmstar"], case["nssfr"]
    x = dict(
        redshift_targets=np.sort(rng.uniform(0, 3, nz)), age_targets=np.sort(rng.uniform(2, 13.5, nz))[::-1].copy(), logmh_bins=np.cumsum(np.r_[11.0, rng.uniform(0.3, 1.0, nm)]),
        smhm=rng.uniform(8, 11, (nz, nm)), smhm_diff=rng.uniform(8, 11, (nz, nm)), hist=rng.uniform(1, 9, (nz, nm)), counts=rng.uniform(1, 900, (nz, nm)),
        counts_cen=rng.uniform(1, 900, (nz, nm)), counts_sat=rng.uniform(1, 900, (nz, nm)),
    )
    zi, mi, up = [], [], []
    for z in range(nz):
        for m in range(nm):
            for k, c in enumerate(case["cnt"][z][m]):
                zi += [z] * c
                mi += [m] * c
                up += list(np.full(c, -1) if k == 0 else rng.choice([0, 1, 77, 10**9], c))
    n = len(zi)
    o = rng.permutation(n) if case["shuffle"] else np.arange(n)
    zi, mi, up = np.array(zi)[o], np.array(mi)[o], np.array(up)[o]
    base = np.array(case["mah"])[rng.randint(0, len(case["mah"]), n)]
    base[:, 0] = 11.0 + 3 * rng.permutation(n) / n  # unique: identifies the halo
    base[:, 1:] *= rng.uniform(0.99, 1.01, (n, 4))
    s = dict(logmh_id=mi, mah_params_samp=base.T.copy(), ms_params_samp=rng.rand(4, n), q_params_samp=rng.rand(4, n), upid_samp=up, tobs_id=zi, tobs_val=x["age_targets"][zi],
             redshift_val=x["redshift_targets"][zi])
    scale = 10.0 ** rng.uniform(*case["scale"], (3, nz, nm))  # any total weight, also far below one
    w = {k: 10.0 ** rng.uniform(-2, 3, (nz, nm, nk, ns)) * scale[i, :, :, None, None] for i, k in enumerate(("cent", "sat"))}
    for k in w:
        if case["neg"]:
            w[k][rng.rand(*w[k].shape) < 0.05] *= -1e-3
        if case["empty"]:
            w[k][rng.randint(nz), rng.randint(nm)] = 0.0
            w[k][rng.randint(nz), :, IDS[rng.randint(5)]] = 0.0
            if FUNCS[case["func"]][0] == "mstar":  # a populated bin always has counts
                w[k][:, :, 0, 0] = 1.0
    p = dict(mstar_wcounts=10.0 ** rng.uniform(-2, 3, (nz, nm, nk)) * scale[2, :, :, None], mstar_counts=rng.rand(nz, nm, nk), mstar_ssfr_wcounts_cent=w["cent"], mstar_ssfr_wcounts_sat=w["sat"],
             logssfr_bins_pdf=np.cumsum(np.r_[-13.0, rng.uniform(0.3, 1, ns)]), logmstar_bins_pdf=np.cumsum(np.r_[7.0, rng.uniform(0.1, 0.3, nk)]))
    for fn, data in (("smdpl_smhm.h5", x), ("smdpl_smhm_samples_haloes.h5", s), ("smdpl_mstar_ssfr.h5", p)):
        with h5py.File(os.path.join(d, fn), "w") as f:
            for k, v in data.items():
                f[k] = v
    return x, s, p


def _rows(case, s, kind, which, nhalos):
    """(epoch, mass bin, members) of every row, in order."""
    out = []
    for z in range(case["nz"]):
        for m in range(case["nm"]):
            sel = (s["tobs_id"] == z) & (s["logmh_id"] == m)
            if which:
                sel &= (s["upid_samp"] == -1) == (which == "cen")
            if sel.sum() >= (nhalos if kind == "smhm" else MIN_HALOS):
                out.append((z, m, np.flatnonzero(sel)))
    return out


def _check_halos(mah, logmp0, upid, consts, keys, tobs, rows, s, x, nhalos, lgt0, ctx, what):
    n = len(rows)
    check(np.shape(mah) == (n, 5, nhalos), f"{what}: halo parameters have shape {np.shape(mah)}, expected {(n, 5, nhalos)}")
    check(np.shape(logmp0) == (n, nhalos) and np.shape(tobs) == (n,), f"{what}: shapes of masses or times")
    order = np.argsort(s["mah_params_samp"][0])
    col = s["mah_params_samp"][0][order]
    for r, (z, m, members) in enumerate(rows):
        k = np.clip(np.searchsorted(col, mah[r, 0]), 0, len(col) - 1)
        idx = order[k]
        here = f"{what}, epoch {z}, mass bin {m}"
        check(np.array_equal(s["mah_params_samp"][:, idx], mah[r]), f"{here}: a halo's parameters are not those of one sampled halo")
        check(np.isin(idx, members).all(), f"{here}: a halo of another epoch, mass bin or type")
        if len(members) >= nhalos:
            check(len(set(idx.tolist())) == nhalos, f"{here}: a halo is repeated although there are enough")
        if upid is not None:
            check(np.array_equal(upid[r], s["upid_samp"][idx]), f"{here}: host ids do not belong to the halos")
        check(tobs[r] == x["age_targets"][z], f"{here}: time {tobs[r]}, epoch is {x['age_targets'][z]}")
        j = [0, nhalos // 2, nhalos - 1]
        exp = [ref.log_mah(mah[r, :, i], np.array([10.0**lgt0]), lgt0)[0] for i in j]
        close(np.asarray(logmp0)[r][j], exp, f"{here}: present-day mass", atol=ctx.tol(1e-8, 2e-4))
    for v, c, nm in zip(consts, (-1.0, 13.0, -99.0), ("lgmu_infall", "logmhost_infall", "gyr_since_infall")):
        check(np.shape(v) == (n, nhalos) and np.all(np.asarray(v) == c), f"{what}: {nm}")
    ks = np.asarray(keys)
    check(len(ks) == n and len({tuple(np.ravel(k).tolist()) for k in ks}) == n, f"{what}: random keys are not one distinct key per row")


def _ssfr_target(w, weights):
    """Halo-mass-weighted mixture of the normalised per-mass tables, at the target masses."""
    w = np.clip(w, 0.0, None)
    tot = w.sum((2, 3))
    nz, nm = tot.shape
    out = np.zeros((nz, len(IDS), w.shape[3]))
    for z in range(nz):
        for a, k in enumerate(IDS):
            row = sum(weights[z, m] * w[z, m, k] / tot[z, m] for m in range(nm) if tot[z, m] > 0)
            if np.sum(row) > 0:
                out[z, a] = row / np.sum(row)
    return out


def _check_data(data, name, case, files, nhalos, lgt0, fb, ctx, what):
    x, s, p = files
    kind, which = FUNCS[name]
    rows = _rows(case, s, kind, which, nhalos)
    if kind == "smhm":
        check(len(data) == 8, f"{what}: {len(data)} items")
        mah, mp0, a, b, c, keys, tobs, target = data
        upid = None
        close(target, [x["smhm"][z, m] for z, m, _ in rows], f"{what}: targets", rtol=1e-12)
    else:
        mah, mp0, upid, a, b, c, keys, tobs, l, f = data[:10]
        check(float(l) == lgt0 and float(f) == fb, f"{what}: age {l} and baryon fraction {f}, requested {lgt0} and {fb}")
    _check_halos(np.asarray(mah), mp0, upid, (a, b, c), keys, np.asarray(tobs), rows, s, x, nhalos, lgt0, ctx, what)
    if kind == "mstar":
        check(len(data) == 12, f"{what}: {len(data)} items")
        check(np.array_equal(data[10], p["logmstar_bins_pdf"]), f"{what}: stellar mass bins")
        w = {None: p["mstar_wcounts"], "cen": p["mstar_ssfr_wcounts_cent"].sum(3), "sat": p["mstar_ssfr_wcounts_sat"].sum(3)}[which]
        exp = np.array([w[z, m] / w[z, m].sum() for z, m, _ in rows])
        close(data[11], exp, f"{what}: stellar mass distributions", rtol=1e-9)
    if kind == "ssfr":
        check(len(data) == 18, f"{what}: {len(data)} items")
        lo, hi, mb, sb, wt, idx, ids, target = data[10:]
        check(np.array_equal(mb, p["logmstar_bins_pdf"]) and np.array_equal(sb, p["logssfr_bins_pdf"]), f"{what}: bins")
        cells = [(i, j) for i in range(len(mb) - 1) for j in range(len(sb) - 1)]
        check(np.array_equal(lo, [[mb[i], sb[j]] for i, j in cells]) and np.array_equal(hi, [[mb[i + 1], sb[j + 1]] for i, j in cells]), f"{what}: two-dimensional cells")
        check(np.array_equal(np.asarray(ids), IDS), f"{what}: target stellar masses")
        cnt = x["counts_cen" if which == "cen" else "counts_sat"]
        frac = cnt / cnt.sum(1, keepdims=True)
        wt, idx = np.asarray(wt, float), np.asarray(idx)
        width = max(sum(z == k for k, _, _ in rows) for z in range(case["nz"]))
        check(wt.shape == idx.shape == (case["nz"], width), f"{what}: shape of the halo weights")
        for z in range(case["nz"]):
            mine = [(r, m) for r, (k, m, _) in enumerate(rows) if k == z]
            got = {}
            for i, v in zip(idx[z], wt[z]):
                if v != 0:
                    check(int(i) not in got, f"{what}, epoch {z}: row {i} is counted twice")
                    got[int(i)] = v
            check(set(got) == {r for r, _ in mine}, f"{what}, epoch {z}: weights point to rows {sorted(got)}, its rows are {[r for r, _ in mine]}")
            for r, m in mine:
                check(abs(got[r] - frac[z, m]) <= ctx.tol(1e-12, 1e-6), f"{what}, epoch {z}: weight of mass bin {m} is {got[r]}, expected {frac[z, m]}")
            check(np.all((idx[z] >= 0) & (idx[z] < len(rows))), f"{what}: a padded index is out of range")
        exp = _ssfr_target(p["mstar_ssfr_wcounts_cent" if which == "cen" else "mstar_ssfr_wcounts_sat"], frac)
        close(target, exp, f"{what}: sSFR distributions", rtol=1e-9, atol=1e-15)
    return rows


def _call(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


@prop_test(samples, quick=500, thorough=3000, mode="f64", rule="non-trivial: some mass bin is skipped for having too few halos and some row needs repeated halos or several epochs occur")
def targets_from_files(case, ctx):
    name, nh = case["func"], case["nhalos"]
    kind = FUNCS[name][0]
    lgt0, fb = case["lgt0"], case["fb"]
    kw = {k: v for k, v in (("lgt0", lgt0), ("fb", fb)) if v is not None}
    lgt0, fb = float(LGT0 if lgt0 is None else lgt0), float(FB if fb is None else fb)
    with tempfile.TemporaryDirectory() as d:
        files = _write(case, d)
        rows = _rows(case, files[1], kind, FUNCS[name][1], nh)
        if not rows or (kind == "ssfr" and len({z for z, _, _ in rows}) < case["nz"]):
            raise Skip()
        np.random.seed(case["npseed"])
        data, plot = _call(getattr(H, name), d + "/", nh, **kw)
        np.random.seed(case["npseed"])
        again, _ = _call(getattr(H, name), d + "/", nh, **kw)
    rows = _check_data(data, name, case, files, nh, lgt0, fb, ctx, name)
    for a, b in zip(data, again):
        check(np.array_equal(np.asarray(a), np.asarray(b)), f"{name}: not reproducible with the same numpy seed")
    x, s, p = files
    binsc = 0.5 * (x["logmh_bins"][1:] + x["logmh_bins"][:-1])
    if kind == "smhm":
        check(np.array_equal(plot[0], x["age_targets"]) and np.allclose(plot[1], binsc) and np.array_equal(plot[2], s["tobs_id"]) and np.array_equal(plot[3], s["logmh_id"]), f"{name}: plot data")
        check(np.array_equal(plot[9], x["redshift_targets"]) and np.array_equal(plot[10], x["smhm"]) and np.array_equal(plot[11], s["mah_params_samp"]), f"{name}: plot data")
    else:
        if kind == "mstar":
            check(np.array_equal(plot[0], p["logmstar_bins_pdf"]) and np.array_equal(plot[2], x["age_targets"]) and np.array_equal(plot[3], x["redshift_targets"]), f"{name}: plot data")
            check(np.array_equal(plot[4], s["tobs_id"]) and np.array_equal(plot[5], s["logmh_id"]) and np.allclose(plot[6], binsc), f"{name}: plot data")
        else:
            check(np.array_equal(np.asarray(plot[0]), IDS) and np.array_equal(np.asarray(plot[2]), np.asarray(data[17])), f"{name}: plot data")
            close(plot[1], 0.5 * (p["logssfr_bins_pdf"][1:] + p["logssfr_bins_pdf"][:-1]), f"{name}: sSFR bin centres", rtol=1e-12)
        big = plot[-1]
        _check_data(big, name, case, files, np.shape(big[1])[1], lgt0, fb, ctx, f"{name}, plotting sample")
    ctx.label(name)
    skipped = len(rows) < case["nz"] * case["nm"]
    ctx.nontrivial(skipped and (case["nz"] > 1 or any(len(m) < nh for _, _, m in rows)))


@gen.case_of
def saved(r):
    n, nh, nz = r.integer(1, 30), r.integer(1, 6), r.integer(1, 4)
    return dict(n=n, nh=nh, nz=nz, seed=r.seed() % 2**31, ragged=r.choice(["array", "ragged", "equal", "single"]), nr=r.choice([1, 3, 12, 120]), jax=r.bool(), big=r.bool())


def _fake(case, fields, rng):
    import jax.numpy as jnp

    out = []
    for k in fields:
        if k in ("lgt0", "fb"):
            v = float(rng.rand()) if rng.rand() < 0.5 else np.float64(rng.rand())
        elif k == "upid_data":
            v = rng.choice([-1, 5, 2**40], (case["n"], case["nh"]))
        elif k == "ran_key_data":
            v = rng.randint(0, 2**32, (case["n"], 2)).astype("u4")
        elif "ragged" in k and case["ragged"] != "array":
            nr = 1 if case["ragged"] == "single" else case["nr"]
            v = [rng.rand(case["nh"] if case["ragged"] == "equal" else rng.randint(0, 7)) for _ in range(nr)]
        else:
            v = rng.rand(case["n"], case["nh"]).astype(rng.choice(["f4", "f8"]))
            v = v if not case["jax"] else jnp.asarray(v)
        out.append(v)
    return tuple(out)


@prop_test(saved, quick=250, thorough=5000, mode="f64", rule="non-trivial: the data hold a list of arrays of different lengths")
def saving_and_loading(case, ctx):
    rng = np.random.RandomState(case["seed"])
    made = {}

    def fake(fields):
        def f(indir, nhalos, **k):
            made.setdefault(nhalos, []).append(_fake(case, fields, rng))
            return made[nhalos][-1], ("plot",)

        return f

    names = ("get_loss_data_pdfs_mstar", "get_loss_data_pdfs_ssfr_central", "get_loss_data_pdfs_ssfr_satellite")
    n12 = ["mah_params_data", "logmp0_data", "upid_data", "lgmu_infall_data", "logmhost_infall_data", "gyr_since_infall_data", "ran_key_data", "t_obs_targets", "lgt0", "fb"]
    tail = {"mstar": ["logmstar_bins_pdf", "mstar_counts_target"], "cen": ["ndbins_lo", "ndbins_hi", "logmstar_bins_pdf", "logssfr_bins_pdf", "mhalo_pdf_cen_ragged", "indx_pdf", "target_mstar_ids", "target_data"]}
    tail["sat"] = [k.replace("_cen_", "_sat_").replace("target_data", "target_data_sat") for k in tail["cen"]]
    old = {k: getattr(H, k) for k in names}
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            for k, t in zip(names, ("mstar", "cen", "sat")):
                setattr(H, k, fake(n12 + tail[t]))
            ns = _call(runpy.run_path, os.path.join(DIR, "save_loss_data.py"))
            got = {nh: _call(ns["load_loss_data_h5"], f"loss_kernels_testing_data_{nh}halos.h5") for nh in made}
            with h5py.File("loss_kernels_testing_data_10halos.h5", "r") as f:
                names_on_disk = {g: set(f[g]) | set(f[g].attrs) for g in f}
        finally:
            os.chdir(cwd)
            for k, v in old.items():
                setattr(H, k, v)
    check(set(made) == {10, 100}, f"saved halo numbers {sorted(made)}")
    for g, t in (("loss_data_mstar", "mstar"), ("loss_data_ssfr", "cen"), ("loss_data_ssfr_sat", "sat")):
        check(set(n12 + tail[t]) <= names_on_disk[g], f"{g}: names on disk {sorted(names_on_disk[g])}")
    for nh, tuples in made.items():
        check(len(got[nh]) == 3, "three tuples are loaded")
        for t, a, b in zip(("mstar", "cen", "sat"), tuples, got[nh]):
            check(len(a) == len(b), f"{t}: {len(b)} items loaded, {len(a)} saved")
            for k, u, v in zip(n12 + tail[t], a, b):
                if isinstance(u, list):
                    check(len(u) == len(v) and all(np.array_equal(np.asarray(p), np.asarray(q)) for p, q in zip(u, v)), f"{t} {k}: list of arrays changed")
                else:
                    u = np.asarray(u)
                    check(u.shape == np.shape(v) and np.array_equal(u, np.asarray(v)), f"{t} {k}: value changed in the file")
                    check(np.asarray(v).dtype == u.dtype, f"{t} {k}: type {u.dtype} became {np.asarray(v).dtype}")
    ctx.nontrivial(case["ragged"] == "ragged" and case["nr"] > 1)
