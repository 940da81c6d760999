"""C31: parallel catalogue fitting programs treat every galaxy once, with its own data."""
import inspect
import os
import tempfile
import time
import types

import h5py
import numpy as np
from diffmah.fitting_helpers import diffmah_fitter_helpers as dmf

from checks import mpisim
from checks.umstub import MOCK
from diffstar.data_loaders import load_galacticus_sfh as lgs
from diffstar.data_loaders import load_smah_data as ls
from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS
from diffstar.fitting_helpers import diffstar_fitting_helpers as dfh
from pbt import gen, ref
from pbt.core import check, close, prop_test

NT = 12
PROGRAMS = {
    "tng": "scripts/history_fitting_script_TNG_mgash.py",
    "galacticus": "scripts/galacticus_diffstar_fitter_script.py",
    "galacticus_mgash": "scripts/galacticus_diffstar_fitter_script_mgash.py",
    "umachine": "scripts/diffstar_fitting_script_umachine_mgash.py",
    "umachine_dr1": "scripts/diffstar_fitting_script_umachine.py",  # only its DR1 mode: the other expects unknown file names
}
DIFFMAH_PROGRAM = "scripts/galacticus_analysis/galacticus_diffmah_fitter_script.py"
FB = {"tng": 0.0486 / 0.3089, "galacticus": 0.04930 / 0.31530, "galacticus_mgash": 0.04930 / 0.31530, "umachine": 0.048206 / 0.307115, "umachine_dr1": 0.048206 / 0.307115}
T0_UM = 13.820002
REAL_SIG = inspect.signature(dfh.diffstar_fitter)
NAMES = list(dfh.get_header()[1])


@gen.case_of
def catalogues(r):
    prog = r.choice(list(PROGRAMS))
    nranks = r.choice([1, 2, 2, 3, 3, 4, 5, 11])
    n = nranks + r.choice([0, 0, 1, 2, 5])
    sub0 = r.choice([0, 1, 7, 99, 120])
    nsub = r.choice([1, 1, 2, 3]) if prog.startswith("umachine") else 1
    return dict(
        prog=prog, nranks=nranks, n=n, sub0=sub0, nsub=nsub, t=[x + 0.05 for x in r.tgrid(NT)],
        gals=[[dict(mah=r.mah_params(), kind=r.choice(["fit", "fit", "fit", "noloss", "fewpts", "dwarf", "light"])) for _ in range(n)] for _ in range(nsub)],
        opts=dict(fstar_tdelay=r.choice([None, None, 0.5, 2.5]), mass_fit_min=r.choice([None, None, 6.0, 9.25]), ssfrh_floor=r.choice([None, None, 1e-11, 3e-13])),
        logmp0_min=r.choice([None, 9.0, 11.5, 13.0]), sfh_type=r.choice(["in_situ", "in_plus_ex_situ"]), sim=r.choice(["DR1", "DR1_nomerging"] if prog != "umachine_dr1" else ["DR1"]), seed=r.seed() % 2**31,
        stale=r.bool(), outdir=r.choice(["new", "old", "indir"]), delay=r.choice([0.0, 0.0, 0.002]), nan=r.bool(0.2), extra=r.choice([0] * 10 + [1, 2, -1]),
    )


def _stub(calls, delay, sink=False):
    def fitter(*a, **k):
        b = REAL_SIG.bind(*a, **k)
        b.apply_defaults()
        d = dict(b.arguments)
        sfh = np.array(d["sfh_table"], float)
        if delay:
            time.sleep(delay * (1 + 3 * ((int(sfh[0] * 1e6) + mpisim.rank()) % 3)))
        calls.append((mpisim.rank(), d))
        return _answer(sfh)

    return fitter


def _answer(sfh):
    """A deterministic made-up fit of an SFH: parameters, loss, success."""
    h = np.abs(np.sin(np.asarray(sfh, float)[:8] * 37.0 + np.arange(8)))
    p = DEFAULT_DIFFSTAR_PARAMS._make(h * 10 - 3)
    return p, float(h.sum() * 1e-3), (-1 if h[0] > 0.85 else 1)


def _halo(g, t0, lgmin):
    """Halo parameters whose mass at t0 is clearly above (or below) the limit."""
    p = list(g["mah"])
    m = ref.log_mah(p, np.array([t0]), np.log10(t0))[0]
    want = lgmin - 0.4 if g["kind"] == "dwarf" else None
    if want is None and m < lgmin + 0.05:
        want = lgmin + 0.1 + (m % 1)
    if want is not None:
        p[0] += want - m
    return p


def _write_diffmah(fn, gals, t0, lgmin, rng, nan):
    par, loss, npts, mah = [], [], [], []
    for g in gals:
        p = _halo(g, t0, lgmin)
        l, k = 10.0 ** rng.uniform(-4, -1), rng.randint(5, 90)
        if g["kind"] == "noloss":
            l, k = -1.0, rng.randint(0, 90)
        if g["kind"] == "fewpts":
            k = rng.randint(1, 5)
        bad = g["kind"] in ("noloss", "fewpts")
        mah.append(p)
        par.append([np.nan if nan else -99.0] * 5 if bad and rng.rand() < 0.5 else p)
        loss.append(l), npts.append(k)
    par = np.array(par, float)
    with h5py.File(fn, "w") as f:
        for j, k in enumerate(ref.MAH_NAMES):
            f[k] = par[:, j]
        f["loss"], f["n_points_per_fit"], f["fit_algo"] = np.array(loss), np.array(npts), np.zeros(len(gals), int)
    return np.array(mah, float)


def _sfhs(gals, rng, t):
    s = 10.0 ** rng.uniform(-1, 2, (len(gals), NT))
    for i, g in enumerate(gals):
        s[i, 1:][rng.rand(NT - 1) < 0.15] = 0.0
        m = ref.cumul_mass(t, s[i])[-1]
        s[i] *= 10 ** (rng.uniform(5.0, 7.8) if g["kind"] == "light" else rng.uniform(8.2, 11.0)) / m
    return s


def _expected_rows(prog, gals, ids, sfh):
    rows, fitted = [], []
    for g, i, s in zip(gals, ids, sfh):
        no = g["kind"] in ("noloss", "fewpts") or (g["kind"] == "dwarf" and prog != "tng") or (g["kind"] == "light" and prog.startswith("galacticus"))
        fitted.append(not no)
        p, l, ok = _answer(s)
        rows.append([i, *([-99.0] * 8 if no else p), -1.0 if no else l, -1 if no else ok])
    return rows, fitted


def _check_catalogue(fn, rows, where):
    check(os.path.isfile(fn), f"{where}: no catalogue {os.path.basename(fn)}")
    with h5py.File(fn, "r") as f:
        out = {k: f[k][...] for k in f.keys()}
    check(set(out) == set(NAMES), f"{where}: columns {sorted(out)}")
    n = len(rows)
    for k in NAMES:
        check(out[k].shape == (n,), f"{where}: {out[k].shape[0]} rows in {k} for {n} galaxies")
    exp_ids = [r[0] for r in rows]
    check(out["halo_id"].tolist() == exp_ids, f"{where}: ids {out['halo_id'].tolist()} instead of {exp_ids}")
    check(out["success"].tolist() == [r[-1] for r in rows], f"{where}: success flags {out['success'].tolist()}")
    for j, k in enumerate(NAMES[1:-1], 1):
        close(out[k], [r[j] for r in rows], f"{where}: column {k}", rtol=2e-5, atol=1e-9)


def _check_calls(calls, t, sfh, mah, fitted, lgt0, fb, opts, where):
    left = [i for i, y in enumerate(fitted) if y]
    defaults = {k: REAL_SIG.parameters[k].default for k in ("dlogm_cut", "t_fit_min", "mass_fit_min", "fstar_tdelay", "ssfrh_floor")}
    for _, d in calls:
        s = np.asarray(d["sfh_table"], float)
        hit = [i for i in left if np.array_equal(s, sfh[i])]
        check(hit, f"{where}: a fit was run on a history that is not that of a galaxy still to be fitted")
        i = hit[0]
        left.remove(i)
        close(np.array([float(x) for x in d["mah_params"]]), mah[i], f"{where}: halo parameters given to the fit of galaxy {i}", rtol=1e-9, atol=1e-12)
        check(tuple(d["mah_params"]._fields) == ref.MAH_NAMES, f"{where}: halo parameter names")
        check(np.array_equal(np.asarray(d["t_table"], float), t), f"{where}: cosmic times of galaxy {i}")
        close(float(d["lgt0"]), lgt0, f"{where}: lgt0 of galaxy {i}", rtol=1e-9)
        close(float(d["fb"]), fb, f"{where}: baryon fraction of galaxy {i}", rtol=1e-9)
        for k in defaults:
            want = defaults[k] if opts.get(k) is None else opts[k]
            check(float(d[k]) == float(want), f"{where}: fit of galaxy {i} ran with {k} = {d[k]}, requested {want}")
    check(not left, f"{where}: galaxies {left} were never fitted")


@prop_test(catalogues, quick=400, thorough=5000, mode="f64", rule="non-trivial: several ranks and both fitted and unfitted galaxies, or a rank with a single galaxy")
def fitting_programs(case, ctx):
    prog, nranks, n = case["prog"], case["nranks"], case["n"]
    um = prog.startswith("umachine")
    rng = np.random.RandomState(case["seed"])
    t = np.array(case["t"])
    opts = case["opts"]
    lgmin = 10.5 if case["logmp0_min"] is None else case["logmp0_min"]
    t0 = T0_UM if um else t[-1]
    argv = [x for k, v in opts.items() if v is not None for x in ("-" + k, repr(v))]
    calls = []
    with tempfile.TemporaryDirectory() as d:
        indir, out = os.path.join(d, "in"), os.path.join(d, "out")
        os.mkdir(indir)
        if case["outdir"] == "indir" or (case["outdir"] == "old" or prog != "tng"):
            os.makedirs(out, exist_ok=True)
        if case["outdir"] == "indir":
            out = indir
        sets, patches = [], []
        if um:
            sims = {"DR1": os.path.join(d, "dr1"), "DR1_nomerging": os.path.join(d, "dr1_no_merging_upidh")}
            MOCK["calls"], MOCK["stores"] = [], {}
            for sim, p in sims.items():
                os.mkdir(p)
                np.savetxt(os.path.join(p, "smdpl_cosmic_time.txt"), t)
                MOCK["stores"][p] = {}
                for j, gals in enumerate(case["gals"]):
                    sub = case["sub0"] + j
                    sfh = _sfhs(gals, rng, t)
                    other = _sfhs(gals, rng, t)
                    ids = (rng.permutation(10**5)[:n] + rng.choice([0, 2**24, 10**11])).astype("i8")
                    base = f"diffmah_fits_subvol_{sub}.hdf5" if sim == "DR1" else f"subvol_{sub:03d}_diffmah_fits.h5"
                    extra = case["extra"] if j == len(case["gals"]) - 1 else 0  # halo fits of another catalogue
                    mah = _write_diffmah(os.path.join(p, base), gals[:extra] if extra < 0 < n - 1 else gals + gals[:1] * abs(extra), t0, lgmin, rng, case["nan"])
                    main, alls = (other, sfh) if sim == "DR1" else (sfh, other)
                    MOCK["stores"][p][(sub,)] = dict(halo_id=ids, sfr_history_main_prog=main, sfr_history_all_prog=alls, mpeak_history_main_prog=10.0 ** np.sort(rng.uniform(8, 13, (n, NT)), 1))
                    if sim == case["sim"]:
                        sets.append((gals, ids, sfh, mah, f"diffstar_fits_subvol_{sub}.hdf5"))

            def local(drn):
                return sims["DR1_nomerging" if "no_merging" in str(drn) else "DR1"]

            for name in ("load_SMDPL_DR1_data", "load_SMDPL_nomerging_data", "load_smdpl_diffmah_fits"):
                orig = getattr(ls, name)

                def redirected(first, data_drn=None, *a, _o=orig, **k):
                    return _o(first, local(data_drn), *a, **k)

                patches.append((ls, name, redirected))
            argv = [out, case["sim"], "-istart", case["sub0"], "-iend", case["sub0"] + case["nsub"], *argv]
        else:
            gals = case["gals"][0]
            sfh = _sfhs(gals, rng, t)
            ids = np.arange(n)
            if prog == "tng":
                mdir = os.path.join(d, "mah")
                os.mkdir(mdir)
                mah = _write_diffmah(os.path.join(mdir, "diffmah_tng_fits.hdf5"), gals, t0, lgmin, rng, case["nan"])
                a = np.zeros(n, dtype=[("mpeak", "f8"), ("sfh", "f8", NT), ("mpeakh", "f8", NT)])
                a["sfh"], a["mpeakh"] = sfh, np.sort(rng.uniform(8, 13, (n, NT)), 1)
                np.save(os.path.join(indir, "tng_diffmah.npy"), a)
                np.save(os.path.join(indir, "tng_cosmic_time.npy"), t)
                argv = [out, "-indir", indir, "-indir_diffmah", mdir, *argv]
                name = "diffstar_tng_fits.hdf5"
            else:
                mah = _write_diffmah(os.path.join(indir, "diffmah_fits.h5"), gals, t0, lgmin, rng, case["nan"])
                other = _sfhs(gals, rng, t)
                ins = case["sfh_type"] == "in_situ"
                inbn = lgs.BNAME_SFH_DATA if case["delay"] else "another.hdf5"
                with h5py.File(os.path.join(indir, inbn), "w") as f:
                    f["sfh_in_situ"], f["sfh_tot"] = (sfh, other) if ins else (other, sfh)
                    f["is_cen"], f["tarr"] = np.ones(n, int), t
                argv = [case["sfh_type"], "-indir", indir, "-inbn", inbn, *([] if case["outdir"] == "indir" else ["-outdir", out]), *argv]
                name = f"diffstar_fits_{case['sfh_type']}.hdf5"
            sets.append((gals, ids, sfh, mah, name))
        if prog != "tng" and case["logmp0_min"] is not None:
            argv += ["-logmp0_min", repr(lgmin)]
        keep = {}
        if os.path.isdir(out):
            stem = [f"subvol_{case['sub0'] + j:03d}_tmp_sfh_fits_rank_{{}}.dat" for j in range(case["nsub"])] if um else ["tmp_sfh_fits_rank_{}.dat"] if prog == "tng" else [f"tmp_sfh_fits_rank_{{}}_{case['sfh_type']}.dat"]
            if case["stale"]:  # left behind by an earlier, interrupted run on more ranks
                for s in stem:
                    for k in (0, nranks - 1, nranks, nranks + 3):
                        open(os.path.join(out, s.format(k)), "w").write(dfh.get_header()[0] + dfh.get_outline_nofit(10**6 + k) * 2)
            for k in ("notes.txt", "diffstar_fits_subvol_9999.hdf5", "diffstar_fits_other.hdf5", "table.dat"):
                keep[k] = f"{k} {case['seed']}"
                open(os.path.join(out, k), "w").write(keep[k])
        patches.append((dfh, "diffstar_fitter", _stub(calls, case["delay"])))
        olds = [(m, k, getattr(m, k)) for m, k, _ in patches]
        for m, k, v in patches:
            setattr(m, k, v)
        where = f"{prog} on {nranks} ranks, {n} galaxies"
        refused = None
        try:
            mpisim.run_program(PROGRAMS[prog], argv, nranks, d)
        except Exception as e:  # noqa: BLE001
            refused = e
            if not (um and case["extra"]):
                raise
        finally:
            for m, k, v in olds:
                setattr(m, k, v)
            MOCK.pop("stores", None)
        if um and case["extra"]:
            check(refused is not None, f"{where}: a subvolume whose halo fits belong to another number of galaxies is fitted")
            check(not os.path.exists(os.path.join(out, sets[-1][-1])), f"{where}: a catalogue is written for a subvolume with unmatched halo fits")
            for *_, sfh, _, _ in sets[-1:]:
                check(not any(np.array_equal(np.asarray(c["sfh_table"], float), x) for _, c in calls for x in sfh), f"{where}: galaxies with unmatched halo fits were fitted")
            ctx.label(prog + " refused")
            return ctx.nontrivial(True)
        done = 0
        pairs = []
        for gals, ids, sfh, mah, name in sets:
            rows, fitted = _expected_rows(prog, gals, ids.tolist(), sfh)
            _check_catalogue(os.path.join(out, name), rows, where)
            pairs.append((sfh, mah, fitted))
        _check_calls(calls, t, np.concatenate([p[0] for p in pairs]), np.concatenate([p[1] for p in pairs]), sum([p[2] for p in pairs], []), np.log10(t0), FB[prog], opts, where)
        left = [x for x in os.listdir(out) if x.endswith(".dat") and x != "table.dat" and (not case["stale"] or not keep)]
        check(not left, f"{where}: temporary files left: {left}")
        for k, v in keep.items():
            check(os.path.isfile(os.path.join(out, k)) and open(os.path.join(out, k)).read() == v, f"{where}: {k} in the output directory was changed or removed")
    some = [y for p in pairs for y in p[2]]
    ctx.label(prog)
    ctx.nontrivial(nranks > 1 and (0 < sum(some) < len(some) or n < 2 * nranks))


@gen.case_of
def growth(r):
    nranks = r.choice([1, 2, 3, 4, 11])
    n = nranks + r.choice([0, 0, 1, 4])
    return dict(nranks=nranks, n=n, seed=r.seed() % 2**31, dt=r.choice([None, 0.2, 3.0]), delay=r.choice([0.0, 0.002]), where=r.integer(0, n - 1), bn=r.bool())


@prop_test(growth, quick=150, thorough=2000, mode="f64", rule="non-trivial: several ranks and a halo that ends before the present")
def halo_fitting_program(case, ctx):
    rng = np.random.RandomState(case["seed"])
    n, nranks = case["n"], case["nranks"]
    t0 = 13.8
    dtmin = 0.5 if case["dt"] is None else case["dt"]
    hist = []
    for i in range(n):
        k = rng.randint(2, 9)
        short = rng.rand() < 0.25
        end = t0 if i == case["where"] or rng.rand() < 0.5 else rng.uniform(5, 13)
        span = dtmin * rng.uniform(0.2, 0.9) if short else dtmin + rng.uniform(0.05, 1.5)
        tt = np.sort(np.concatenate([[end - span, end], rng.uniform(end - span, end, k - 2)]))
        hist.append((10.0 ** rng.uniform(9, 13, k), tt))
    calls = []
    sig = inspect.signature(dmf.diffmah_fitter)

    def answer(m):
        h = np.abs(np.sin(np.log(np.asarray(m, float)).sum() * np.arange(1, 7)))
        return types.SimpleNamespace(p_best=tuple(h[:5] * 8), loss_best=h[5], loss_data=types.SimpleNamespace(log_mah_target=np.log10(m)), code_used=int(h[0] > 0.5))

    def fitter(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        d = dict(b.arguments)
        if case["delay"]:
            time.sleep(case["delay"] * ((len(calls) + mpisim.rank()) % 3))
        calls.append(d)
        return answer(d["mah_sim"])

    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "box.hdf5")
        with h5py.File(fn, "w") as f:
            g = f.create_group("Outputs/Output1/nodeData")
            m = g.create_dataset("haloAccretionHistoryMass", (n,), dtype=h5py.vlen_dtype(np.float64))
            tt = g.create_dataset("haloAccretionHistoryTime", (n,), dtype=h5py.vlen_dtype(np.float64))
            for i in range(n):
                m[i], tt[i] = hist[i]
            g["nodeIsIsolated"], g["basicTimeLastIsolated"] = np.ones(n, int), np.ones(n)
        out = os.path.join(d, "out")
        argv = ["-indir", d, "-inbn", "box.hdf5", "-outdir", out, *([] if case["dt"] is None else ["-dt_fit_min", case["dt"]]), *(["-outbn", "x.h5"] if case["bn"] else [])]
        old = dmf.diffmah_fitter
        dmf.diffmah_fitter = fitter
        try:
            mpisim.run_program(DIFFMAH_PROGRAM, argv, nranks, d)
        finally:
            dmf.diffmah_fitter = old
        where = f"halo fitting on {nranks} ranks, {n} halos"
        with h5py.File(os.path.join(out, "x.h5" if case["bn"] else "diffmah_fits.h5"), "r") as f:
            got = {k: f[k][...] for k in f.keys()}
        check(os.listdir(out) == ["x.h5" if case["bn"] else "diffmah_fits.h5"], f"{where}: output directory holds {os.listdir(out)}")
    check(len(calls) == n, f"{where}: {len(calls)} fits")
    exp, left = [], list(range(n))
    for i, (m, tt) in enumerate(hist):
        mm, ts = np.maximum.accumulate(m), tt
        if ts[-1] < t0:
            mm, ts = np.append(mm, mm[-1]), np.append(ts, t0)
        hits = [c for c in calls if np.array_equal(c["mah_sim"], mm) and np.array_equal(c["t_sim"], ts)]
        check(len(hits) == 1, f"{where}: halo {i} was fitted {len(hits)} times with its own history extended to the present")
        skip = tt[-1] - tt[0] < dtmin
        check(bool(hits[0].get("force_skip_fit", False)) == bool(skip), f"{where}: halo {i} lived {tt[-1] - tt[0]} Gyr, minimum {dtmin}, but skipping the fit is {hits[0].get('force_skip_fit')}")
        a = answer(mm)
        exp.append([*a.p_best, a.loss_best])
    for j, k in enumerate([*ref.MAH_NAMES, "loss"]):
        close(got[k], [e[j] for e in exp], f"{where}: column {k}", rtol=2e-5, atol=1e-9)
    ctx.nontrivial(nranks > 1 and any(h[1][-1] < t0 for h in hist))
