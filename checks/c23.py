"""C23: fitting targets and weights."""
import numpy as np

from checks import fitcommon as fc
from checks.common import any_size, mah_nt, sfh_nt
from checks.fitcommon import fh
from diffstar import calc_sfh_singlegal
from diffstar.defaults import DEFAULT_DIFFSTAR_U_PARAMS, get_bounded_diffstar_params, get_unbounded_diffstar_params
from pbt import gen, ref
from pbt.core import Skip, all_finite, check, close, leq, prop_test

NT = 30
DT, MAH, SM, LSM, SFH, LFS, DELAY, FLOOR, W, WF, LGTMAX, LGT0_, FB_ = range(13)


def build(r, nt):
    tab = fc.tables(r, nt)
    tab["mah"][0] = r.uf_or([tab["mah"][0]], 9.0, 16.0, 0.5)
    c = dict(tab=tab, kw=fc.settings(r), plain=r.bool(0.2), u=r.u_params(8), by=r.uf(1.0, 4.0) * r.choice([-1, 1]), seed=r.seed() % 2**31)
    if r.bool(0.25):
        c["kw"]["dlogm_cut"] = r.uf(0.02, 0.5)
    if r.bool(0.25):
        c["kw"]["t_fit_min"] = r.uf(1.0, 12.0)
    return c


any_tables = gen.case_of(lambda r: build(r, NT))


def _get(case, mode):
    tab, kw = case["tab"], {} if case["plain"] else case["kw"]
    t, s, m = gen.arr(tab["t"], mode), gen.arr(tab["sfh"], mode), mah_nt(tab["mah"], mode)
    keep = (t.copy(), s.copy())
    start, data = fh.get_loss_data_default(t, s, m, **kw)
    check(np.array_equal(t, keep[0]) and np.array_equal(s, keep[1]), "inputs were modified")
    full = dict(dlogm_cut=3.5, t_fit_min=1.0, mass_fit_min=7.0, fstar_tdelay=1.0, ssfrh_floor=1e-12)
    full.update(kw)
    return t, s, m, kw, full, start, list(data)


def _targets(t, s, full):
    t, s = ref.f64(t), ref.f64(s)
    sm = ref.cumul_mass(t, s)
    fs = ref.fstar(t, sm, full["fstar_tdelay"])
    fl = np.maximum(fs, full["ssfrh_floor"] * sm)
    fl = np.maximum(fl, fl.max() / 1000.0)
    return sm, fl


@prop_test(any_tables, quick=400, thorough=20000, mode=("f64", "f32"), rule="non-trivial: the SFR floor or the sSFR floor is active somewhere")
def targets_hold_the_input_history(case, ctx):
    t, s, m, kw, full, (u0, err), d = _get(case, ctx.mode)
    sm, fs = _targets(t, s, full)
    rt = ctx.tol(1e-9, 3e-5)
    close(d[DT], t, "times in the loss data")
    close(d[SM], sm, "stellar mass target", rtol=rt)
    close(d[LSM], np.log10(sm), "log stellar mass target", atol=ctx.tol(1e-9, 1e-5))
    check(np.all(np.asarray(d[SFH], float) > 0), "SFR target is not positive")
    close(d[SFH], np.maximum(ref.f64(s), ref.SFR_MIN), "SFR target", rtol=ctx.tol(1e-12, 1e-6))
    f = 10.0 ** np.asarray(d[LFS], float)
    # the averaged SFR is a difference of masses: allow the rounding of those masses
    noise = ctx.tol(1e-15, 1e-6) * sm / (full["fstar_tdelay"] * 1e9)
    leq(np.abs(f - fs), 10 * noise + noise.max() / 100 + rt * fs + 1e-30, "averaged SFR target")
    leq(f.max() / f.min(), 1000 * (1 + ctx.tol(1e-9, 1e-3)), "averaged SFR target spans more than a factor 1000")
    leq(full["ssfrh_floor"] * sm, f * (1 + ctx.tol(1e-9, 1e-3)), "averaged sSFR target is below the floor")
    for i, k in ((DELAY, "fstar_tdelay"), (FLOOR, "ssfrh_floor")):
        close(float(d[i]), float(full[k]), f"{k} in the loss data", rtol=1e-6)
    # starting guess
    u0, err = np.asarray(u0, float), np.asarray(err, float)
    check(u0.shape == (8,) and err.shape == (8,), "starting guess shape")
    all_finite(u0, "starting guess")
    all_finite(err, "starting errors")
    check(np.all(err > 0), "starting errors are not positive")
    b = np.array([float(x) for x in get_bounded_diffstar_params(DEFAULT_DIFFSTAR_U_PARAMS._make(u0))])
    for k, v in zip(ref.PNAMES, b):
        check(ref.BOUNDS[k][0] < v < ref.BOUNDS[k][1], f"starting guess of {k} is {v}, out of bounds")
    loss = float(fh.loss_default_clipssfrh(gen.arr(u0, ctx.mode), tuple(d)))
    check(np.isfinite(loss), "loss at the starting guess is not finite")
    g = fh.loss_grad_default_clipssfrh_np(gen.arr(u0, ctx.mode), tuple(d))
    all_finite(g, "gradient at the starting guess")
    ctx.nontrivial(np.any(s <= ref.SFR_MIN) or np.any((full["ssfrh_floor"] * sm > ref.fstar(ref.f64(t), sm, full["fstar_tdelay"]))[ref.f64(t) > full["fstar_tdelay"]]))


@prop_test(any_tables, quick=400, thorough=20000, mode="f64", rule="non-trivial: some snapshots count and some are excluded although their mass or averaged SFR is close to the final or peak value")
def excluded_snapshots_do_not_count(case, ctx):
    t, s, m, kw, full, _, d = _get(case, ctx.mode)
    NT = len(t)
    sm, fs = _targets(t, s, full)
    l = np.log10(sm)
    e = 1e-6
    thr = min(full["mass_fit_min"], l[-1] - 0.5)
    out = (t < full["t_fit_min"] - e) | (l < thr - e) | (l < l[-1] - full["dlogm_cut"] - e)
    inn = (t > full["t_fit_min"] + e) & (l > thr + e) & (l > l[-1] - full["dlogm_cut"] + e)
    outf = out | (t < full["fstar_tdelay"] - e)
    innf = inn & (t > full["fstar_tdelay"] + 0.02)
    u = gen.arr(np.array(case["u"], float), ctx.mode)
    loss = lambda dd: float(fh.loss_default_clipssfrh(u, tuple(dd)))
    base = loss(d)
    check(np.isfinite(base), "loss is not finite")
    by = case["by"]

    def moved(slot, sel):
        dd = list(d)
        x = np.array(d[slot], float)
        x[sel] = 10.0 ** (np.log10(x[sel]) + by) if slot in (SFH, SM) else x[sel] + by
        dd[slot] = gen.arr(x, ctx.mode)
        return loss(dd)

    notlast = np.arange(NT) < NT - 1
    atol = 1e-11 * max(1.0, base)
    for slot, sel, what in ((LSM, out, "mass"), (SFH, out, "SFR"), (LFS, outf & notlast, "averaged SFR")):
        if sel.any():
            close(moved(slot, sel), base, f"moving the {what} target of excluded snapshots (t={t[sel].round(3).tolist()}) changes the loss", atol=atol)
    # the counting snapshots do count: a far-off target raises the loss by the mean square residual
    rng = np.random.RandomState(case["seed"])
    for slot, sel, what, c in ((LSM, inn, "mass", 30.0), (LFS, innf & notlast, "averaged SFR", 1.0)):
        if sel.any():
            i = rng.choice(np.flatnonzero(sel))
            far = np.array(d[slot], float)
            vals = []
            for off in (0.0, 10.0, -10.0):  # second difference isolates the weight of snapshot i
                x = far.copy()
                x[i] += off
                dd = list(d)
                dd[slot] = gen.arr(x, ctx.mode)
                vals.append(loss(dd))
            curv = (vals[1] + vals[2] - 2 * vals[0]) / 200.0 * NT / c
            check(0.5 < curv < 20, f"{what} residual of a snapshot at t={t[i]:.3f} that should count has weight {curv:.3g}")
    tricky = (out & (l[-1] - l < 0.1)) | (outf & (np.log10(fs.max()) - np.log10(fs) < 0.1))
    ctx.label("peak excluded" if tricky.any() else "plain")
    ctx.nontrivial(inn.any() and (out.any() or outf.any()))


def _both(case, ctx):
    targets_hold_the_input_history(case, ctx)
    excluded_snapshots_do_not_count(case, ctx)


any_size("targets_of_tables_of_any_length", _both, build, lambda r: dict(nt=r.size(1500)), quick=4, rule="non-trivial: more than 200 times")


@gen.case_of
def weight_tables(r):
    """Direct weight requests: mass histories and averaged SFRs of any shape."""
    t = np.cumsum([r.logf(0.05, 1.0) for _ in range(NT)])
    l = np.sort([r.uf(4.0, 11.5) for _ in range(NT)])
    if r.bool(0.5):
        k = r.integer(1, NT - 1)
        l[k:] = l[k] + np.arange(NT - k) * r.choice([0.0, 1e-3, 1e-2])  # stalled mass
    return dict(t=t.tolist(), l=l.tolist(), f=[r.uf(-4, 3) for _ in range(NT)], peak=r.integer(0, NT - 1), **{k: v for k, v in fc.settings(r).items() if k in ("dlogm_cut", "t_fit_min", "mass_fit_min", "fstar_tdelay")},
                early=r.bool())


@prop_test(weight_tables, quick=1500, thorough=60000, mode="f64", rule="non-trivial: an excluded snapshot lies within 0.1 dex of the final mass or of the peak averaged SFR")
def weights_directly(case, ctx):
    t, l, f = np.array(case["t"]), np.array(case["l"]), np.array(case["f"])
    f[case["peak"]] = f.max() + 0.01
    tmin = case["t_fit_min"] if case["early"] else case["t_fit_min"] + t[NT // 2]
    w, wf = fh.get_weights(t, l, f, case["fstar_tdelay"], case["dlogm_cut"], tmin, case["mass_fit_min"])
    w, wf = np.asarray(w, float), np.asarray(wf, float)
    check(w.shape == t.shape and wf.shape == t.shape, "shape")
    check(np.all(w > 0) and np.all(wf > 0), "weights are not positive")
    e = 1e-9
    thr = min(case["mass_fit_min"], l[-1] - 0.5)
    out = (t < tmin - e) | (l < thr - e) | (l < l[-1] - case["dlogm_cut"] - e)
    inn = (t > tmin + e) & (l > thr + e) & (l > l[-1] - case["dlogm_cut"] + e)
    outf = out | (t < case["fstar_tdelay"] - e)
    check(np.all(w[out] > 1e6), f"an excluded snapshot has weight {w[out].min() if out.any() else 0} in the mass residual")
    check(np.all(wf[outf] > 1e6), f"an excluded snapshot has weight {wf[outf].min() if outf.any() else 0} in the averaged-SFR residual")
    check(np.all(w[inn] < 10), "a snapshot that should count is excluded from the mass residual")
    check(np.all(wf[inn & (t > case["fstar_tdelay"] + 0.02)] < 10), "a snapshot that should count is excluded from the averaged-SFR residual")
    ctx.nontrivial(np.any(out & (l[-1] - l < 0.1)) or np.any(outf & (f.max() - f < 0.1)))


@gen.case_of
def model_history(r):
    p = r.diffstar_params(typical=True)
    p[4] = r.uf(0.8, 2.0)
    p[6] = r.uf(-1.0, 0.0)
    p[7] = r.uf(p[6], 0.0)
    t = np.linspace(r.uf(0.2, 1.0), 13.8, NT)
    mah = [r.uf(11.0, 14.5), r.uf(0.0, 0.7), r.uf(1.5, 4.0), r.uf(0.1, 0.8), 14.0]
    kw = fc.settings(r)
    kw["ssfrh_floor"] = r.choice([1e-13, 1e-14])
    return dict(p=p, mah=mah, t=t.tolist(), kw=kw)


@prop_test(model_history, quick=400, thorough=20000, mode="f64", rule="non-trivial: always (floors inactive, quenching after the peak)")
def model_history_has_zero_loss_at_its_parameters(case, ctx):
    t, m, kw = gen.arr(case["t"], ctx.mode), mah_nt(case["mah"], ctx.mode), case["kw"]
    p = sfh_nt(case["p"], ctx.mode)
    s = np.asarray(calc_sfh_singlegal(p, m, t, lgt0=kw["lgt0"], fb=kw["fb"]))
    sm, fs = _targets(t, s, kw)
    raw = ref.fstar(ref.f64(t), sm, kw["fstar_tdelay"])
    far = ref.f64(t) > kw["fstar_tdelay"]
    if np.any(fs[far] > raw[far] * (1 + 1e-9)) or np.any(s < sm * kw["ssfrh_floor"]):
        raise Skip("a floor is active")
    gap = case["p"][4] - np.log10(t[np.argmax(fs)])
    if gap < 0.3:
        raise Skip("quenching ridge active")
    _, d = fh.get_loss_data_default(t, s, m, **kw)
    u = gen.arr(fc.finite_u(get_unbounded_diffstar_params(p)), ctx.mode)
    loss = float(fh.loss_default_clipssfrh(u, d))
    leq(loss, 110.0 * np.exp(-50 * gap) + 1e-7, "loss of a model history at its own parameters")
    # and it is a minimum that notices each setting: another halo or baryon fraction does not fit
    other = list(d)
    other[FB_] = d[FB_] * 2.0
    check(float(fh.loss_default_clipssfrh(u, tuple(other))) > 0.5, "the loss ignores the baryon fraction it was given")
