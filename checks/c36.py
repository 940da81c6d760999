"""C36: fit-quality tables average every fitted galaxy once."""
import contextlib
import io
import os
import sys
import tempfile
import warnings

import h5py
import numpy as np

from checks import umstub
from checks.catcommon import UM, Mapped, galaxies, join, write
from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS
from diffstar import calc_sfh_galpop
from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS, FB, LGT0
from pbt import gen, ref
from pbt.core import REPO, check, close, prop_test

os.environ.setdefault("MPLBACKEND", "Agg")
PATH = os.path.join(REPO, "scripts", "diffstarpop_scripts", "calculate_quality_diffstar_fits_mgash.py")
BINS = 11.25 + 0.5 * np.arange(7)
KEYS = {"tarr", "mpeak_bins", "mpeak_binsc", "mstar_data_mean", "mstar_fit_mean", "sfr_data_mean", "sfr_fit_mean"}
LCRC = "/lcrc/project/halotools/"
NT_UM, NT_TNG, NT_GAL, NTAB, NMAX = 117, 13, 11, 200, 160


class Files(Mapped):
    def __enter__(self):
        super().__enter__()
        self.txt = np.loadtxt
        np.loadtxt = lambda p, *a, **k: self.txt(self.path(p), *a, **k)

    def __exit__(self, *a):
        np.loadtxt = self.txt
        super().__exit__(*a)


def _cases(sims, nsub):
    @gen.case_of
    def f(r):
        return dict(sim=r.choice(sims), seed=r.seed() % 2**31, n=r.integer(60, 100), nsub=r.integer(1, nsub), width=r.choice([1, 2, 3]), pfit=r.choice([1.0, 0.8, 0.4]), pzero=r.choice([0.0, 0.2, 0.5]), early=r.bool(), lowmass=r.bool(0.3), ones=r.bool(0.3))

    return f


def _sfh(rng, case, n, nt):
    """Histories with snapshots without star formation, and masses far from the model's."""
    s = 10.0 ** rng.uniform(-4, 2, (n, nt))
    s[rng.rand(n, nt) < case["pzero"]] = 0.0
    if case["early"]:
        for i in range(n):
            s[i, : rng.randint(0, nt // 2)] = 0.0
    s[rng.rand(n) < 0.1] *= 1e-9  # below the sSFR floor
    s[:, -1] = np.where(rng.rand(n) < 0.3, 1e-13, s[:, -1])
    if case["ones"]:
        s[rng.rand(n, nt) < 0.3] = 1.0
    return s


def _um(case, d, sim, nsub):
    """UniverseMachine subvolumes below d; returns galaxies with their histories."""
    rng = np.random.RandomState(case["seed"])
    sdir, mdir, mpat, bdir = UM[sim]
    t = np.sort(rng.uniform(0.1, 13.7, NT_UM))
    os.makedirs(d + bdir, exist_ok=True)
    np.savetxt(d + bdir + "smdpl_cosmic_time.txt", t)
    full = nsub == 576
    width = 3 if full and case["width"] > 1 else case["width"]
    ids = np.arange(576) if full else np.sort(rng.choice(10 if width == 1 else 60, nsub, replace=False))
    if width == 1 and not full:
        ids[0] = rng.randint(0, ids[0] + 1)
    store = umstub.MOCK.setdefault("stores", {})[bdir] = {}
    parts = []
    for k in ids:
        n = 20 if full else int(rng.choice([20, 21, 24]))
        g = galaxies(rng, n, 1.0 if full else case["pfit"], 0.3)
        if full:  # one shape
            g["success"][:] = -1
            g["success"][rng.permutation(n)[:9]], g["mloss"][:] = 1, 0.1
        tag = f"{k:0{width}d}"
        write(d + sdir + f"diffstar_fits_subvol_{tag}.hdf5", g["sfh"], DEFAULT_DIFFSTAR_PARAMS._fields, loss=g["loss"], success=g["success"])
        write(d + mdir + mpat.format(tag), g["mah"], DEFAULT_MAH_PARAMS._fields, loss=g["mloss"])
        g["fit"] = (g["mloss"] > 0) & (g["success"] == 1)
        g["data"] = _sfh(rng, case, n, NT_UM)
        other = _sfh(rng, case, n, NT_UM)
        lgm = 8.0 + rng.uniform(3.0, 6.6, (n, 1)) * np.sort(rng.uniform(0.3, 1.0, (n, NT_UM)), axis=1)
        lgm[:, -1] -= rng.choice([0.0, 0.3], n)  # some lose mass
        if case["lowmass"]:
            lgm[rng.rand(n) < 0.2] -= 6.0
        g["lgmp"] = np.where(lgm < 7.0, 0.0, lgm).max(axis=1)
        both = [g["data"], other] if sim == "DR1_nomerging" else [other, g["data"]]
        store[(int(k),)] = dict(halo_id=np.arange(n), sfr_history_main_prog=both[0], sfr_history_all_prog=both[1], mpeak_history_main_prog=10.0**lgm, upid=g["cen"])
        parts.append(g)
    return join(parts), t


def _tng(case, d):
    rng = np.random.RandomState(case["seed"])
    n = case["n"]
    g = galaxies(rng, n, case["pfit"], 0.3, 20)
    loc = Files(d).path
    t = np.sort(rng.uniform(0.1, 13.7, NT_TNG))
    write(loc(LCRC + "alarcon/results/tng_diffmah_tpeak/diffmah_tng_fits.hdf5"), g["mah"], DEFAULT_MAH_PARAMS._fields, loss=g["mloss"])
    write(loc(LCRC + "alarcon/results/mgash/TNG/diffstar_tng_fits.hdf5"), g["sfh"], DEFAULT_DIFFSTAR_PARAMS._fields, loss=g["loss"], success=g["success"])
    data = loc(LCRC + "alarcon/data/")
    os.makedirs(data, exist_ok=True)
    lgm = rng.uniform(11.0, 14.6, (n, 1)) - 3 * rng.uniform(0.0, 1.0, (n, NT_TNG))
    tab = np.zeros(n, dtype=[("mpeak", "f8"), ("sfh", "f8", NT_TNG), ("mpeakh", "f8", NT_TNG), ("cen1_sat0", "i4", NT_TNG)])
    tab["sfh"], tab["mpeakh"], tab["mpeak"] = _sfh(rng, case, n, NT_TNG), lgm, lgm.max(1)
    np.save(data + "tng_diffmah.npy", tab)
    np.save(data + "tng_cosmic_time.npy", t)
    g["data"], g["lgmp"] = tab["sfh"], lgm.max(1) - np.log10(0.6774)
    g["fit"] = (g["mloss"] > 0) & (g["loss"] > 0) & (g["success"] == 1)
    return g, t


def _galacticus(case, d):
    rng = np.random.RandomState(case["seed"])
    n = case["n"]
    g, other, wrong = (galaxies(rng, n, case["pfit"], 0.3) for _ in range(3))
    loc = Files(d).path
    base = LCRC + "Galacticus/diffstarpop_data/"
    t = np.sort(rng.uniform(0.1, 13.7, NT_GAL))
    both = [g, other] if case["sim"] == "galcus_insitu" else [other, g]
    import smhm_utils_galacticus_mgash as su

    write(loc(base + "diffmah_fits.h5"), g["mah"], DEFAULT_MAH_PARAMS._fields, loss=g["mloss"])
    for fn, x in zip(("in_situ", "in_plus_ex_situ"), both):
        write(loc(base + f"diffstar_fits_{fn}.hdf5"), wrong["sfh"], DEFAULT_DIFFSTAR_PARAMS._fields, loss=wrong["loss"], success=wrong["success"])
        sdir = os.path.join(loc(su.BEBOP_GALAC_SFH), f"diffstar_fits_{fn}.hdf5")
        if os.path.exists(sdir):
            os.unlink(sdir)
        write(sdir, x["sfh"], DEFAULT_DIFFSTAR_PARAMS._fields, loss=x["loss"], success=x["success"])
    dt = np.diff(np.r_[0.0, t])
    parts = {k: _sfh(rng, case, n, NT_GAL) for k in ("in_situ_bulge", "in_situ_disk", "tot_bulge", "tot_disk")}
    zero = rng.rand(n, NT_GAL) < case["pzero"]
    for k in parts:
        parts[k][zero] = 0.0
        np.save(loc(base) + f"delta_mstar_{k}.npy", parts[k] * dt * 1e9)
    np.save(loc(base) + "tarr_bulge.npy", t)
    np.save(loc(base) + "tarr_disk.npy", t)
    with h5py.File(loc(base) + "galacticus_11To14.2Mhalo_SFHinsitu_AHearin.hdf5", "w") as f:
        f["Outputs/Output1/nodeData/nodeIsIsolated"] = g["cen"]
    lgmp = np.array([ref.log_mah(m, t[-1:], LGT0)[0] for m in g["mah"]])
    out = {}
    for sim, pre, x in zip(("galcus_insitu", "galcus_inplusexsitu"), ("in_situ", "tot"), both):
        y = dict(x, mah=g["mah"], mloss=g["mloss"], lgmp=lgmp, data=parts[pre + "_bulge"] + parts[pre + "_disk"])
        y["fit"] = (y["mloss"] > 0) & (y["loss"] > 0) & (y["success"] == 1)
        out[sim] = y, t
    return out


def _expected(g, t):
    """Means per halo-mass bin over the fitted galaxies, from the whole catalogue at once."""
    n = len(g["mah"])
    i = np.resize(np.arange(n), -(-n // NMAX) * NMAX)
    tab = np.linspace(0.01, 10**LGT0, NTAB)
    sfr, sm = [], []
    for j in i.reshape(-1, NMAX):
        a, b = calc_sfh_galpop(DEFAULT_DIFFSTAR_PARAMS._make(g["sfh"][j].T), DEFAULT_MAH_PARAMS._make(g["mah"][j].T), tab, lgt0=LGT0, fb=FB, return_smh=True)
        sfr.append(np.log10(np.asarray(a)))
        sm.append(np.log10(np.asarray(b)))
    sfr, sm = (10.0 ** np.array([np.interp(t, tab, y) for y in np.concatenate(x)[:n]]) for x in (sfr, sm))
    sfr = np.maximum(sfr, 1e-12 * sm)
    dsm = np.array([ref.cumul_mass(t, s) for s in g["data"]])
    dsfr = np.where(g["data"] > 0, np.maximum(g["data"], 1e-12 * dsm), 0.0)
    out = {k: np.full((len(BINS) - 1, len(t)), np.nan) for k in ("mstar_data_mean", "mstar_fit_mean", "sfr_data_mean", "sfr_fit_mean")}
    for b in range(len(BINS) - 1):
        sel = g["fit"] & (g["lgmp"] > BINS[b]) & (g["lgmp"] < BINS[b + 1])
        if sel.any():
            for k, v in zip(out, (dsm, sm, dsfr, sfr)):
                out[k][b] = v[sel].mean(axis=0)
    return out


def _setup(case, d, nsub):
    """Writes the catalogues of the simulation, or of all of them; {simulation: (galaxies, times)}."""
    sim, out = case["sim"], {}
    umstub.MOCK["stores"] = {}
    if sim in ("smdpl", "all"):
        out["smdpl"] = _um(case, d, "DR1_nomerging", nsub)
    if sim in ("smdpl_dr1", "all"):
        out["smdpl_dr1"] = _um(dict(case, seed=case["seed"] + 1), d, "DR1", case["nsub"])
    if sim in ("tng", "all"):
        out["tng"] = _tng(case, d)
    if sim in ("galcus_insitu", "galcus_inplusexsitu", "all"):
        g = _galacticus(case, d)
        out.update(g if sim == "all" else {sim: g[sim]})
    return out


def _run(case, ctx, nsub):
    sim = case["sim"]
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        cats = _setup(case, d, nsub)
        out = d + "/out/"
        os.mkdir(out)
        keep = sys.argv
        sys.argv = [PATH, "-sim_name", sim, "-outdir", out]
        try:
            with Files(d), contextlib.redirect_stdout(io.StringIO()):
                exec(compile(open(PATH).read(), PATH, "exec"), {"__name__": "__main__", "__file__": PATH})
        finally:
            sys.argv = keep
        check(set(os.listdir(out)) == {f"diffstar_quality_{k}.h5" for k in cats}, f"{sim}: files written: {os.listdir(out)}")
        res = {}
        for k, (g, t) in cats.items():
            with h5py.File(out + f"diffstar_quality_{k}.h5") as f:
                res[k] = {c: f[c][...] for c in f}
    good = []
    for sim, (g, t) in cats.items():
        got, exp = res[sim], _expected(g, t)
        check(set(got) == KEYS, f"{sim}: columns {sorted(got)}")
        close(got["tarr"], t, f"{sim}: times", rtol=1e-12)
        close(got["mpeak_bins"], BINS, f"{sim}: mass bins", rtol=1e-12)
        close(got["mpeak_binsc"], 0.5 * (BINS[1:] + BINS[:-1]), f"{sim}: mass bin centres", rtol=1e-12)
        for k, v in exp.items():
            check(got[k].shape == v.shape, f"{sim}: {k} has shape {got[k].shape}, expected {v.shape}")
            ok = np.isclose(got[k], v, rtol=1e-5, atol=0.0, equal_nan=True)
            if not ok.all():
                b, j = np.argwhere(~ok)[0]
                check(False, f"{sim}: {k} in mass bin {b} at {t[j]} Gyr is {got[k][b, j]}, expected {v[b, j]}")
        ctx.label(sim)
        good.append(not g["fit"].all() and np.isfinite(exp["mstar_fit_mean"][:, 0]).sum() > 2)
    ctx.nontrivial(all(good))


RULE = "non-trivial: some galaxies without a fit and more than two populated mass bins"
dr1_cases, other_cases, full_cases = _cases(["smdpl_dr1"], 4), _cases(["tng", "galcus_insitu", "galcus_inplusexsitu"], 1), _cases(["smdpl", "all"], 4)


@prop_test(dr1_cases, quick=25, thorough=500, mode="f64", rule=RULE)
def quality_of_universemachine(case, ctx):
    _run(case, ctx, case["nsub"])


@prop_test(other_cases, quick=50, thorough=900, mode="f64", rule=RULE)
def quality_of_tng_and_galacticus(case, ctx):
    _run(case, ctx, 0)


@prop_test(full_cases, quick=2, thorough=30, mode="f64", rule=RULE)
def quality_of_all_subvolumes(case, ctx):
    _run(case, ctx, 576)
