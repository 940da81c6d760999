"""C34: the measurement programs tabulate every fitted galaxy exactly once."""
import importlib
import os
import tempfile
import warnings

import h5py
import numpy as np

from checks import mpisim, umstub
from checks.catcommon import UM, Mapped, age, galaxies, join, write
from pbt import gen, ref
from pbt.core import check, close, prop_test



from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS, mah_halopop  # noqa: E402
from diffstar import calc_sfh_galpop  # noqa: E402
from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS, FB, LGT0  # noqa: E402

PROGS = {"tng": "measure_smhm_tng_script_mpi_mgash.py", "smdpl": "measure_smhm_smdpl_script_mpi_mgash.py", "galacticus": "measure_smhm_galacticus_script_mpi_mgash.py"}
NMAX, NTAB = 160, 200
OUT = {"smdpl_smhm.h5", "smdpl_smhm_samples_haloes.h5", "smdpl_mstar_ssfr.h5"}


def _case(r, prog):
    return dict(prog=prog, seed=r.seed() % 2**31, n=r.integer(60, 100), nsub=r.integer(1, 5), ranks=r.integer(1, 4), sim=r.choice(["DR1", "DR1_nomerging", None]), digits=r.choice([None, 2, 3]), first=r.integer(0, 9),
                z=sorted([r.uf_or([0.0, 0.5, 1.0, 2.0], 0.0, 4.0) for _ in range(r.integer(1, 3))], key=lambda x: x if r.bool(0.7) else -x), pfit=r.choice([1.0, 0.8, 0.4]), limit=r.choice([None, None, 2, 5]), sfh_type=r.choice([None, "in_situ", "in_plus_ex_situ"]),
                psat=r.choice([0.3, 0.3, 0.0, 1.0]), dirs=r.bool(), leftover=r.bool(0.3))


smdpl_runs, tng_runs, galacticus_runs = (gen.case_of(lambda r, p=p: _case(r, p)) for p in ("smdpl", "tng", "galacticus"))
RULE = "non-trivial: several chunks or ranks, some galaxies without a fit and both centrals and satellites"


def _setup(case, d):
    """Writes the input files; returns (galaxies by chunk, command line, ranks)."""
    rng = np.random.RandomState(case["seed"])
    new = lambda n, k=1: galaxies(rng, n, case["pfit"], case["psat"], k)
    prog, argv = case["prog"], []
    mp, dp = DEFAULT_MAH_PARAMS._fields, DEFAULT_DIFFSTAR_PARAMS._fields
    if prog == "tng":
        g = new(case["n"], 20)
        n = len(g["mah"])
        mdir, sdir = "/lcrc/project/halotools/alarcon/results/tng_diffmah_tpeak/", "/lcrc/project/halotools/alarcon/results/mgash/TNG/"
        if case["dirs"]:
            mdir, sdir = d + "/m/", d + "/s/"
            argv += ["-diffmah_drn", mdir, "-diffstar_drn", sdir]
        loc = Mapped(d).path
        write(loc(mdir) + "diffmah_tng_fits.hdf5", g["mah"], mp, loss=g["mloss"])
        write(loc(sdir) + "diffstar_tng_fits.hdf5", g["sfh"], dp, loss=g["loss"], success=g["success"])
        data = d + "/lcrc/project/halotools/alarcon/data/"
        os.makedirs(data, exist_ok=True)
        cs = rng.randint(0, 2, (n, 6))
        cs[:, -1] = g["cen"]
        tab = np.zeros(n, dtype=[("cen1_sat0", "i4", (6,)), ("x", "f8")])
        tab["cen1_sat0"] = cs
        np.save(data + "tng_diffmah.npy", tab)
        np.save(data + "tng_cosmic_time.npy", np.linspace(0.3, 13.8, 6))
        g["upid"] = np.where(g["cen"] == 1, -1, 0)
        g["fit"] = (g["mloss"] > 0) & (g["loss"] > 0) & (g["success"] == 1)
        parts = [{k: v[i] for k, v in g.items()} for i in np.array_split(np.arange(n), 20)]
        return parts, argv, 20, None
    if prog == "galacticus":
        g = new(case["n"])
        n = len(g["mah"])
        other = new(n)
        base = "/lcrc/project/halotools/Galacticus/diffstarpop_data/"
        mdir = sdir = base
        if case["dirs"]:
            mdir, sdir = d + "/m/", d + "/s/"
            argv += ["-diffmah_drn", mdir, "-diffstar_drn", sdir]
        if case["sfh_type"]:
            argv += ["-sfh_type", case["sfh_type"]]
        loc = Mapped(d).path
        write(loc(mdir) + "diffmah_fits.h5", g["mah"], mp, loss=g["mloss"])
        both = [g, other] if case["sfh_type"] != "in_plus_ex_situ" else [other, g]
        for fn, x in zip(("in_situ", "in_plus_ex_situ"), both):
            write(loc(sdir) + f"diffstar_fits_{fn}.hdf5", x["sfh"], dp, loss=x["loss"], success=x["success"])
        os.makedirs(loc(base), exist_ok=True)
        t = np.linspace(0.5, 13.8, 7)
        np.save(loc(base) + "tarr_bulge.npy", t)
        np.save(loc(mdir) + "tarr_disk.npy", t)
        for k in ("in_situ_bulge", "in_situ_disk", "tot_bulge", "tot_disk"):
            np.save(loc(base) + f"delta_mstar_{k}.npy", rng.rand(n, 7))
        with h5py.File(loc(base) + "galacticus_11To14.2Mhalo_SFHinsitu_AHearin.hdf5", "w") as f:
            f["Outputs/Output1/nodeData/nodeIsIsolated"] = g["cen"]
        g["upid"] = np.where(g["cen"] == 1, -1, 0)
        g["fit"] = (g["mloss"] > 0) & (g["loss"] > 0) & (g["success"] == 1)
        return [g], argv, min(case["ranks"], 2), None
    out, umstub.MOCK["stores"] = {}, {}
    width = {None: 1, 2: 2, 3: 3}[case["digits"]]
    ids = case["first"] + np.sort(rng.choice(np.arange(max(case["nsub"], 8)), case["nsub"], replace=False))
    if case["digits"] is None:  # plain numbers, at least one of them of a single digit
        ids = np.unique(np.append(ids[1:], rng.randint(0, 10)))
    for sim, (sdir, mdir, mpat, bdir) in UM.items():
        parts = []
        store = umstub.MOCK["stores"][bdir] = {}
        for k in ids:
            g = new(rng.choice([20, 21, 24]))
            n = len(g["mah"])
            s = f"{k:0{width}d}"
            write(d + sdir + f"diffstar_fits_subvol_{s}.hdf5", g["sfh"], dp, loss=g["loss"], success=g["success"])
            write(d + mdir + mpat.format(s), g["mah"], mp, loss=g["mloss"])
            g["upid"] = np.where(g["cen"] == 1, -1, rng.choice([0, 77, 10**10], n))
            g["fit"] = (g["mloss"] > 0) & (g["success"] == 1)
            store[(int(k),)] = dict(halo_id=np.arange(n), upid=g["upid"])
            parts.append(g)
        out[sim] = parts
    if case["sim"]:
        argv += ["-sim_name", case["sim"]]
    return out[case["sim"] or "DR1_nomerging"], argv, case["ranks"], ids


def _tables(g):
    """(log halo mass, log stellar mass, log sSFR) of the fitted galaxies, padded to NMAX for the model."""
    t = np.linspace(0.01, 10**LGT0, NTAB)
    n = len(g["mah"])
    i = np.resize(np.arange(n), NMAX)
    mah = DEFAULT_MAH_PARAMS._make(g["mah"][i].T)
    lgm = np.asarray(mah_halopop(mah, t, LGT0)[1])[:n]
    sfr, sm = calc_sfh_galpop(DEFAULT_DIFFSTAR_PARAMS._make(g["sfh"][i].T), mah, t, lgt0=LGT0, fb=FB, return_smh=True)
    sm = np.log10(np.asarray(sm))[:n]
    return t, lgm, sm, np.log10(np.asarray(sfr))[:n] - sm


_lazy = {}


def _modules(prog, limit):
    m = _lazy.setdefault(prog, importlib.import_module(f"smhm_utils_{prog}_mgash"))
    d = _lazy.setdefault((prog, "defaults"), {k: getattr(m, k) for k in ("N_HALOS_MAX", "N_HALOS_PER_SUBVOL") if hasattr(m, k)})
    for k, v in d.items():
        setattr(m, k, v)
    if limit and prog == "tng":
        m.N_HALOS_PER_SUBVOL = limit
    elif limit:
        m.N_HALOS_MAX = limit
    return m


def _measure(case, ctx):
    prog = case["prog"]
    limit = case["limit"]
    if limit and prog == "smdpl":
        limit = limit * case["nsub"] + (case["seed"] % case["nsub"])
    _modules(prog, limit)
    np.random.seed(case["seed"])
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        parts, argv, ranks, ids = _setup(case, d)
        out = d + "/out/"
        os.mkdir(out)
        with open(out + "keep.txt", "w") as f:
            f.write("unrelated")
        if case["leftover"]:
            for k in (0, 997):
                with open(out + {"tng": f"_tmp_subvol_{k}_tng_smhm.h5", "galacticus": f"_tmp_subvol_{k}_galacticus_smhm.h5", "smdpl": f"_tmp_subvol_{k}_smdpl_smhm.h5"}[prog], "w") as f:
                    f.write("interrupted")
        argv += ["-outdrn", out, "-z_bins", *[repr(float(z)) for z in case["z"]]]
        with Mapped(d):
            mpisim.run_program("scripts/diffstarpop_scripts/" + PROGS[prog], argv, ranks, out)
        names = set(os.listdir(out))
        check(names == OUT | {"keep.txt"}, f"{prog}: files left: {sorted(names)}")
        x, s, p = ({k: np.array(v) for k, v in _read(out + fn)} for fn in ("smdpl_smhm.h5", "smdpl_smhm_samples_haloes.h5", "smdpl_mstar_ssfr.h5"))
    what = f"{prog} {case['sim'] if prog == 'smdpl' else case['sfh_type'] or ''}"
    allg = join(parts)
    chunk = np.repeat(np.arange(len(parts)), [len(q["mah"]) for q in parts])
    t, lgm, lgs, ssfr = _tables(allg)
    ssfr = np.clip(ssfr, -12.0, None)
    fit, cen = allg["fit"], allg["upid"] == -1
    z = case["z"]
    mb, sb, qb = x["logmh_bins"], p["logmstar_bins_pdf"], p["logssfr_bins_pdf"]
    nm = len(mb) - 1
    check(np.array_equal(mb, p["logmh_bins"]), f"{what}: halo mass bins differ between the files")
    for y in (x, p):
        check(np.array_equal(y["redshift_targets"], z), f"{what}: redshifts {y['redshift_targets']}, requested {z}")
        check(np.array_equal(y["age_targets"], x["age_targets"]), f"{what}: ages differ between the files")
    tid = np.array([int(np.argmin(np.abs(t - a))) for a in x["age_targets"]])
    close(x["age_targets"], t[tid], f"{what}: ages are times of the table", rtol=1e-12)
    check(np.all(np.abs(x["age_targets"] - age(z)) <= t[1] - t[0] + 1e-3), f"{what}: ages {x['age_targets']} for redshifts {z} of age {age(z)}")
    if prog == "smdpl":
        u = np.zeros(len(x["subvol_used"]), int)
        u[ids] = 1
        check(np.array_equal(x["subvol_used"], u), f"{what}: subvolumes used {np.flatnonzero(x['subvol_used'])}, available {ids}")
    # tables
    for i, k in enumerate(tid):
        m, y = lgm[fit, k], lgs[fit, k]
        here = f"{what}, redshift {z[i]}"
        for name, sel in (("counts", np.ones(fit.sum(), bool)), ("counts_cen", cen[fit]), ("counts_sat", ~cen[fit])):
            check(np.array_equal(x[name][i], np.histogram(m[sel], mb)[0]), f"{here}: {name} are {x[name][i]}, expected {np.histogram(m[sel], mb)[0]}")
        close(x["hist"][i], np.histogram(m, mb, weights=y)[0], f"{here}: summed log stellar mass", rtol=1e-9, atol=1e-9)
        b = mb.reshape(-1, 1)
        sig = np.full((len(m), 1), np.mean(np.diff(mb)))
        close(x["counts_diff"][i], ref.ndhist(m[:, None], sig, np.ones(len(m)), b[:-1], b[1:]), f"{here}: smooth counts", rtol=1e-6, atol=1e-9)
        close(x["hist_diff"][i], ref.ndhist(m[:, None], sig, y, b[:-1], b[1:]), f"{here}: smooth sum of log stellar mass", rtol=1e-6, atol=1e-8)
        with np.errstate(all="ignore"):
            for a, c in (("smhm", "counts"), ("smhm_diff", "counts_diff")):
                num = x["hist" + a[4:]][i] / x[c][i]
                check(np.allclose(x[a][i], num, rtol=1e-9, equal_nan=True), f"{here}: {a} is {x[a][i]}, expected {num}")
        sg = np.column_stack([np.full(fit.sum(), np.mean(np.diff(sb))), np.full(fit.sum(), np.mean(np.diff(qb)))])
        pts = np.column_stack([y, ssfr[fit, k]])
        lo = np.array([[a, c] for a in sb[:-1] for c in qb[:-1]])
        hi = np.array([[a, c] for a in sb[1:] for c in qb[1:]])
        for j in range(nm):
            mine = (m > mb[j]) & (m < mb[j + 1])
            check(np.array_equal(p["mstar_counts"][i, j], np.histogram(y[mine], sb)[0]), f"{here}, mass bin {j}: stellar mass counts")
            close(p["mstar_wcounts"][i, j], ref.ndhist(pts[mine, :1], sg[mine, :1], np.ones(mine.sum()), sb[:-1, None], sb[1:, None]), f"{here}, mass bin {j}: smooth stellar mass counts", rtol=1e-6, atol=1e-9)
            for name, sel in (("cent", mine & cen[fit]), ("sat", mine & ~cen[fit])):
                got = p["mstar_ssfr_wcounts_" + name][i, j]
                exp = ref.ndhist(pts[sel], sg[sel], np.ones(sel.sum()), lo, hi).reshape(got.shape)
                close(got, exp, f"{here}, mass bin {j}: smooth counts in stellar mass and sSFR ({name})", rtol=1e-6, atol=1e-9)
    # sampled halos
    where = {tuple(v): q for q, v in enumerate(allg["mah"].tolist())}
    n = len(s["logmh_id"])
    check(s["mah_params_samp"].shape == (5, n) and s["ms_params_samp"].shape == (4, n) and s["q_params_samp"].shape == (4, n), f"{what}: shapes of the sampled parameters {[s[k].shape for k in s]}")
    idx = [where.get(tuple(v), -1) for v in s["mah_params_samp"].T.tolist()]
    check(-1 not in idx, f"{what}: a sampled halo has parameters of no galaxy")
    idx = np.array(idx, int)
    check(np.all(fit[idx]), f"{what}: a galaxy without a fit was sampled")
    sf = allg["sfh"][idx].T
    check(np.array_equal(s["ms_params_samp"], sf[:4]) and np.array_equal(s["q_params_samp"], sf[4:]), f"{what}: a sampled halo has the galaxy parameters of another one")
    check(np.array_equal(s["upid_samp"], allg["upid"][idx]), f"{what}: a sampled halo has the host id of another one")
    zi, mi = s["tobs_id"], s["logmh_id"]
    check(np.array_equal(s["tobs_val"], x["age_targets"][zi]) and np.array_equal(s["redshift_val"], np.array(z)[zi]), f"{what}: times of the sampled halos")
    close(s["logmh_val"], (0.5 * (mb[1:] + mb[:-1]))[mi], f"{what}: mass bin centres of the sampled halos", rtol=1e-12)
    mass = lgm[idx, tid[zi]]
    check(np.all((mass >= mb[mi]) & (mass < mb[mi + 1])), f"{what}: a sampled halo is outside its mass bin")
    check(len(set(zip(zi.tolist(), mi.tolist(), idx.tolist()))) == n, f"{what}: a halo is sampled twice")
    cap = {"tng": limit or 1000, "smdpl": (limit or 20000) // len(parts), "galacticus": limit or 20000}[prog]
    for i, k in enumerate(tid):
        for c in range(len(parts)):
            have = np.histogram(lgm[fit & (chunk == c), k], mb)[0]
            got = np.bincount(mi[(zi == i) & (chunk[idx] == c)], minlength=nm)
            check(np.array_equal(got, np.minimum(have, cap)), f"{what}, redshift {z[i]}, part {c}: {got} halos sampled, there are {have} and at most {cap} are kept")
    ctx.label(prog)
    ctx.nontrivial((len(parts) > 1 or ranks > 1) and not fit.all() and 0 < cen[fit].sum() < fit.sum())


def _read(fn):
    with h5py.File(fn, "r") as f:
        return [(k, f[k][...]) for k in f]


@prop_test(smdpl_runs, quick=60, thorough=1500, mode="f64", rule=RULE)
def measurement_of_universemachine(case, ctx):
    _measure(case, ctx)


@prop_test(tng_runs, quick=25, thorough=500, mode="f64", rule=RULE)
def measurement_of_tng(case, ctx):
    _measure(case, ctx)


@prop_test(galacticus_runs, quick=60, thorough=1500, mode="f64", rule=RULE)
def measurement_of_galacticus(case, ctx):
    _measure(case, ctx)


def _z0_case(r, prog):
    c = _case(r, prog)
    lo = r.uf(10.5, 12.5)
    return dict(c, dirs=True, sim=r.choice(["DR1", "DR1_nomerging"]), pick=r.integer(0, 100), bins=[lo + i * 0.25 for i in range(7)])


z0_smdpl, z0_tng = (gen.case_of(lambda r, p=p: _z0_case(r, p)) for p in ("smdpl", "tng"))


def _z0(case, ctx):
    """The present-day tables of one subvolume or chunk."""
    prog, bins = case["prog"], np.array(case["bins"])
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        parts, argv, _, ids = _setup(case, d)
        k = case["pick"] % len(parts)
        f = _modules(prog, None).compute_weighted_histograms_z0
        if prog == "tng":
            got = f(k, diffmah_drn=argv[1], diffstar_drn=argv[3], logmh_bins=bins)
        else:
            sdir, mdir, _, _ = UM[case["sim"]]
            got = f(int(ids[k]), case["sim"], diffmah_drn=d + mdir, diffstar_drn=d + sdir, diffstar_bnpat="diffstar_fits_subvol_{}.hdf5", logmh_bins=bins)
    _, lgm, lgs, _ = _tables(parts[k])
    fit = parts[k]["fit"]
    m, y = lgm[fit, -1:], lgs[fit, -1]
    b, sig = bins[:, None], np.full((len(m), 1), np.mean(np.diff(bins)))
    for name, g, w in zip(("counts", "summed log stellar mass"), got, (np.ones(len(m)), y)):
        close(g, ref.ndhist(m, sig, w, b[:-1], b[1:]), f"{prog}: present-day {name}", rtol=1e-6, atol=1e-8)
    ctx.label(prog)
    ctx.nontrivial(len(parts) > 1 and not fit.all() and ((m > bins[0]) & (m < bins[-1])).any())


Z0_RULE = "non-trivial: several parts, some galaxies without a fit and some inside the bins"


@prop_test(z0_smdpl, quick=60, thorough=1500, mode="f64", rule=Z0_RULE)
def present_day_tables_of_universemachine(case, ctx):
    _z0(case, ctx)


@prop_test(z0_tng, quick=30, thorough=800, mode="f64", rule=Z0_RULE)
def present_day_tables_of_tng(case, ctx):
    _z0(case, ctx)


@gen.case_of
def samples(r):
    nb = r.integer(1, 6)
    lo = r.uf(10.5, 12.5)
    edges = [lo]
    for _ in range(nb):
        edges.append(edges[-1] + r.choice([0.25, 0.5, 0.3125]))
    n = r.integer(1, 60)
    # masses on the edges (all but the last, where bins differ in convention), inside, outside
    return dict(prog=r.choice(sorted(PROGS)), edges=edges, m=[r.choice(edges[:-1]) if r.bool(0.3) else r.uf(lo - 0.5, edges[-1] + 0.5) for _ in range(n)],
                limit=r.choice([None, None, 1, 3, 10]), empty=r.choice([None, 0, nb - 1]), seed=r.seed() % 2**31)


@prop_test(samples, quick=400, thorough=20000, mode="f64", rule="non-trivial: a mass on a bin edge and one outside the bins")
def halo_samples(case, ctx):
    m, b = np.array(case["m"]), np.array(case["edges"])
    w = np.digitize(m, b) - 1
    if case["empty"] is not None and len(set(w.tolist()) & set(range(len(b) - 1))) > 1:
        keep = w != case["empty"]
        m, w = m[keep], w[keep]
    n = len(m)
    if not ((w >= 0) & (w < len(b) - 1)).any():
        return
    mod = _modules(case["prog"], case["limit"])
    cap = mod.N_HALOS_PER_SUBVOL if case["prog"] == "tng" else mod.N_HALOS_MAX
    np.random.seed(case["seed"])
    i = np.arange(n, dtype=float)
    upid = 7 + np.arange(n)
    if case["prog"] == "smdpl":
        r = mod.sample_halos(1, b, m, m - 2, [i] * 5, [i] * 8, upid)
    else:
        r = mod.sample_halos(b, m, m - 2, [i] * 5, [i] * 8, upid)
    ids, val, mah, ms, q, up = r
    j = np.asarray(ms)[:, 0].astype(int)
    check(len(set(j.tolist())) == len(j), "a halo is sampled twice")
    check(np.array_equal(np.asarray(ids), w[j]), f"sampled halos of masses {m[j]} are labelled with bins {ids} of {b}")
    close(np.asarray(val, float), 0.5 * (b[1:] + b[:-1])[w[j]], "bin centres of the sampled halos", rtol=1e-12)
    for x in (np.array(mah).T, np.asarray(ms), np.asarray(q)):
        check(np.array_equal(x, np.repeat(j[:, None], x.shape[1], axis=1)), "parameters of a sampled halo belong to another one")
    check(np.array_equal(np.asarray(up), upid[j]), "host id of a sampled halo belongs to another one")
    have = np.bincount(w[(w >= 0) & (w < len(b) - 1)], minlength=len(b) - 1)
    check(np.array_equal(np.bincount(w[j], minlength=len(b) - 1), np.minimum(have, cap)), f"sampled {np.bincount(w[j])} of {have} halos, at most {cap} per bin")
    ctx.label(case["prog"])
    ctx.nontrivial(np.isin(m, b).any() and len(j) < n)
