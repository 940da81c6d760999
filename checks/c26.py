"""C26: simulation loaders return consistent histories with the right units."""
import importlib.util
import os
import shutil
import tempfile

import h5py
import numpy as np

from checks.common import any_size
from checks.umstub import MOCK
from diffstar.data_loaders import load_smah_data as ls
from pbt import gen, ref
from pbt.core import check, close, prop_test

NT = 24
H_TNG = 0.6774
UM = {
    "load_bolshoi_data": ("bpl_diffmah_{}.npy", "bpl_cosmic_time.npy"),
    "load_bolshoi_small_data": ("um_histories_subsample_dr1_bpl_{}_diffmah.npy", "bpl_cosmic_time.npy"),
    "load_mdpl_data": ("mdpl2_diffmah_{}.npy", "mdpl2_cosmic_time.npy"),
    "load_mdpl_small_data": ("um_histories_dr1_mdpl2_small_{}.npy", "mdpl2_cosmic_time.npy"),
}
ALL = [*UM, "load_tng_data", "load_tng_small_data", "load_SMDPL_nomerging_data", "load_SMDPL_DR1_data"]


def build(r, n, nt):
    return dict(
        t=[x + 0.05 for x in r.tgrid(nt)], n=n, seed=r.seed() % 2**31, type=r.choice(["cens", "sats", "orphans"]), dt=r.choice(["f4", "f8"]),
        zeros=r.choice([0.0, 0.2, 0.9]), early=r.integer(0, nt), noise=r.choice([0.0, 0.3]), first=r.integer(0, len(ALL) - 1), low=r.uf(6.0, 8.0),
    )


sims = gen.case_of(lambda r: build(r, r.choice([1, 3, 8]), NT))


def _make(case):
    rng = np.random.RandomState(case["seed"])
    n = case["n"]
    t = np.array(case["t"])
    NT = len(t)
    sfr = 10.0 ** rng.uniform(-3, 3, (n, NT))
    sfr[rng.rand(n, NT) < case["zeros"]] = 0.0
    sfr[:, : case["early"]] *= rng.rand() > 0.5
    sfr_all = sfr + 10.0 ** rng.uniform(-2, 2, (n, NT))
    lm = case["low"] + np.sort(rng.uniform(0, 7, (n, NT)), axis=1) + case["noise"] * rng.normal(size=(n, NT))
    ids = rng.permutation(10**6)[:n].astype("i8") + rng.randint(0, 2) * 10**10
    return t, sfr.astype(case["dt"]), sfr_all.astype(case["dt"]), lm.astype(case["dt"]), ids


@prop_test(sims, quick=160, thorough=8000, mode=("f64", "f32"), rule="non-trivial: more than one galaxy with different histories")
def loaders(case, ctx):
    t, sfr, sfr_all, lm, ids = _make(case)
    NT = len(t)
    n = case["n"]
    with tempfile.TemporaryDirectory() as d:
        um = np.zeros(n, dtype=[("halo_id", "i8"), ("sfr_history_main_prog", case["dt"], NT), ("sfr_history_all_prog", case["dt"], NT), ("mpeak", "f4")])
        um["halo_id"], um["sfr_history_main_prog"], um["sfr_history_all_prog"] = ids, sfr, sfr_all
        other = um.copy()
        other["halo_id"] += 7
        other["sfr_history_main_prog"] = um["sfr_history_main_prog"] * 2 + 1
        for k, (pat, tfn) in UM.items():
            for ty in ("cens", "sats", "orphans"):
                np.save(os.path.join(d, pat.format(ty)), um if ty == case["type"] else other)
            np.save(os.path.join(d, tfn), t)
        tng = np.zeros(n, dtype=[("mpeak", "f8"), ("sfh", case["dt"], NT), ("mpeakh", case["dt"], NT)])
        tng["sfh"], tng["mpeakh"], tng["mpeak"] = sfr, lm, lm.max(1)
        for fn in ("tng_diffmah.npy", "tng_small.npy"):
            np.save(os.path.join(d, fn), tng)
        np.save(os.path.join(d, "tng_cosmic_time.npy"), t)
        np.savetxt(os.path.join(d, "smdpl_cosmic_time.txt"), t)
        MOCK["data"] = dict(halo_id=ids, sfr_history_main_prog=sfr, sfr_history_all_prog=sfr_all, mpeak_history_main_prog=(10.0**lm).astype(case["dt"]))
        MOCK["calls"] = []
        keep = {k: v.copy() for k, v in MOCK["data"].items()}
        order = ALL[case["first"]:] + ALL[: case["first"]]
        for name in order:
            f = getattr(ls, name)
            if name in UM or name == "load_tng_small_data":
                out = f(case["type"], data_drn=d)
            elif name == "load_tng_data":
                out = f(data_drn=d)
            else:
                out = f([0, 3], data_drn=d)
                check(MOCK["calls"][-1] == ((0, 3), d), "subvolumes or directory not passed to the reader")
            halos = name in ("load_tng_data", "load_SMDPL_nomerging_data", "load_SMDPL_DR1_data")
            check(len(out) == (6 if halos else 4), f"{name}: number of outputs")
            hid, lsm, sfh, tt = out[:4]
            exp_id = np.arange(n) if "tng" in name else ids
            exp_sfh = sfr_all if name == "load_SMDPL_DR1_data" else sfr
            check(np.array_equal(hid, exp_id), f"{name}: halo ids {hid} instead of {exp_id}")
            check(np.array_equal(np.asarray(sfh), exp_sfh), f"{name}: SFH differs from the stored one")
            close(tt, t, f"{name}: times", rtol=1e-12)
            s64 = exp_sfh.astype(float) if ctx.mode == "f64" else exp_sfh.astype(np.float32).astype(float)
            t64 = gen.r32(t, ctx.mode)
            exp = np.log10(np.array([ref.cumul_mass(t64, s) for s in s64]))
            close(lsm, exp, f"{name}: log stellar mass formed", atol=ctx.tol(2e-6 if case["dt"] == "f4" else 1e-9, 2e-5))
            if halos:
                lmah, mp0 = np.asarray(out[4], float), np.asarray(out[5], float)
                if name == "load_tng_data":
                    x = lm.astype(float) - np.log10(H_TNG)
                else:
                    m = MOCK["data"]["mpeak_history_main_prog"]
                    x = np.where(m < 1e7, 0.0, np.log10(np.maximum(m.astype(float), 1.0)))
                    sharp = np.abs(m / 1e7 - 1) < 1e-5
                    x = np.where(sharp, np.nan, x)
                check(lmah.shape == (n, NT), f"{name}: shape of halo histories")
                check(np.all(np.diff(lmah, axis=1) >= 0), f"{name}: halo mass decreases")
                check(np.array_equal(mp0, lmah[:, -1]), f"{name}: present-day mass is not the last entry")
                if np.all(np.isfinite(x)):
                    close(lmah, np.maximum.accumulate(x, axis=1), f"{name}: log halo mass", atol=5e-6)
        for k, v in keep.items():
            check(np.array_equal(v, MOCK["data"][k]), f"stored {k} was modified")
    ctx.nontrivial(n > 1)



@gen.case_of
def targets(r):
    n = r.integer(1, 60)
    return dict(n=n, seed=r.seed() % 2**31, dt=r.choice(["f4", "f8"]), extra=r.bool(), dead=r.choice([0.0, 0.3]))


@prop_test(targets, quick=60, thorough=3000, mode="f64", rule="non-trivial: more than one mass bin")
def stellar_to_halo_mass_targets(case, ctx):
    from diffstar.diffstarpop.sumstats import smdpl_smhm_targets as st

    rng = np.random.RandomState(case["seed"])
    n = case["n"]
    bins = np.sort(rng.uniform(10, 15, n)).astype(case["dt"])
    smhm = rng.uniform(6, 12, n).astype(case["dt"])
    smhm[rng.rand(n) < case["dead"]] = np.nan
    with tempfile.TemporaryDirectory() as d:  # the module reads a file next to itself: run a copy of it
        os.makedirs(os.path.join(d, "tests", "testing_data"))
        with h5py.File(os.path.join(d, "tests", "testing_data", "smdpl_smhm_z0.h5"), "w") as f:
            if case["extra"]:
                f["counts"] = rng.rand(n)
            f["logmh_bins"], f["smhm"] = bins, smhm
        fn = shutil.copy(st.__file__, d)
        spec = importlib.util.spec_from_file_location("diffstar.diffstarpop.sumstats._targets_copy", fn)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        got = mod.umachine_smhm_z0_allhalos()
    check(len(got) == 2, "number of outputs")
    for name, a, b in (("mass bins", got[0], bins), ("stellar mass of each bin", got[1], smhm)):
        check(np.array_equal(a, b, equal_nan=True), f"{name}: {a} instead of the stored {b}")
    ctx.nontrivial(n > 1)


any_size("loaders_of_large_files", loaders, build, lambda r: dict(n=r.size(1500), nt=r.integer(2, 12)) if r.bool(0.6) else dict(n=r.integer(1, 4), nt=r.size(400)))
