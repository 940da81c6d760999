"""C39: the fit loss is the stated sum of weighted residuals."""
import numpy as np

from checks import fitcommon as fc
from checks.common import any_size, mah_nt, sfh_nt
from checks.fitcommon import fh
from diffstar.defaults import get_unbounded_diffstar_params
from pbt import gen, ref
from pbt.core import Skip, close, leq, prop_test

NT = 30


def params(r):
    """Bounded diffstar parameters, and whether the history is likely to sit on a floor."""
    return r.diffstar_params(typical=r.bool(0.7))


def build_targets(r, nt):
    """Any target, any weights: nothing is derived from anything else."""
    t = [x + 0.15 for x in r.tgrid(nt)]
    lm = np.sort([r.uf(4.0, 11.8) for _ in range(nt)])
    near = r.bool(0.4)
    return dict(
        p=params(r), mah=[r.uf(10.5, 14.8), r.uf(0.0, 0.7), r.uf(1.5, 4.0), r.uf(0.1, 0.8), r.uf_or([14.0], 6.0, 14.0)], t=t, near=near,
        lm=lm.tolist(), dm=[r.uf_or([0.0], -0.5, 0.5) for _ in range(nt)], sfr=[r.logf(1e-7, 1e3) for _ in range(nt)], ds=[r.uf_or([0.0], -0.7, 0.7) for _ in range(nt)],
        lf=[r.uf(-6, 3) for _ in range(nt)], df=[r.uf_or([0.0], -1.5, 1.5) for _ in range(nt)],
        delay=r.uf_or([1.0], 0.3, 3.0), floor=r.choice([1e-12, 1e-11, 1e-13, 1e-10]), w=[r.choice([1.0, 1.0, 0.5, 1e10]) for _ in range(nt)], wf=[r.choice([1.0, 1.0, 0.5, 1e10]) for _ in range(nt)],
        peak=r.uf_or([1.0, -0.5], -0.8, 1.14), **r.cosmology(),
    )


given_targets = gen.case_of(lambda r: build_targets(r, NT))


def model(p, mah, t, lgt0, fb, delay, floor):
    s = 10.0 ** ref.lg_sfh(p, mah, t, lgt0, fb)
    m = ref.cumul_mass(t, s)
    return np.maximum(s, m * floor / 10), m, np.maximum(ref.fstar(t, m, delay), m * floor / 10)


def terms(p, mod, sm, lsm, sfr, lf, w, wf, peak):
    s, m, f = mod
    a = 30 * np.mean(((np.log10(m) - lsm) / w) ** 2)
    b = np.mean(((np.log10(f) - lf) / wf) ** 2)
    c = np.mean((np.clip(1e8 * (s - sfr) / sm, -1, 1) / w) ** 2)
    d = 0.5 * (np.log10(f[-1]) - lf[-1]) ** 2
    e = 100 * ref.expit(-50 * (p[4] - peak))
    return a, b, c, d, e


def rounded(c, mode):
    """The values after rounding to the precision of the calculation, and the unbounded parameters."""
    f = lambda x: gen.r32(np.array(x, float), mode)
    u = gen.arr(fc.finite_u(get_unbounded_diffstar_params(sfh_nt(c["p"], "f64"))), mode)
    p = np.array(ref.bounded(f(u)), float)
    return f, u, p


@prop_test(given_targets, quick=300, thorough=20000, mode=("f64", "f32"), rule="non-trivial: every kind of residual contributes and some snapshot is excluded")
def loss_of_given_targets(case, ctx):
    f, u, p = rounded(case, ctx.mode)
    t, mah = f(case["t"]), f(case["mah"])
    lgt0, fb, delay, floor = (float(f(case[k])) for k in ("lgt0", "fb", "delay", "floor"))
    mod = model(p, mah, t, lgt0, fb, delay, floor)
    if not (np.all(np.isfinite(np.log10(mod[0]))) and mod[1].min() > 0):
        raise Skip
    if case["near"]:  # targets around the model
        lsm, sfr, lf = np.log10(mod[1]) + case["dm"], mod[0] * 10.0 ** np.array(case["ds"]), np.log10(mod[2]) + case["df"]
    else:
        lsm, sfr, lf = np.array(case["lm"]), np.array(case["sfr"]), np.array(case["lf"])
    lsm, sfr, lf = f(lsm), f(sfr), f(lf)
    sm = f(10.0**lsm)
    w, wf, peak = f(case["w"]), f(case["wf"]), float(f(case["peak"]))
    want = terms(p, mod, sm, lsm, sfr, lf, w, wf, peak)
    g = lambda x: gen.arr(x, ctx.mode)
    data = (g(t), mah_nt(case["mah"], ctx.mode), g(sm), g(lsm), g(sfr), g(lf), g(delay), g(floor), g(w), g(wf), g(peak), g(lgt0), g(fb))
    got = float(fh.loss_default_clipssfrh(u, data))
    # a time average is a difference of masses, and a quenching time near the peak is on a steep slope
    noise = ctx.tol(1e-14, 3e-6) * np.max(mod[1] / (delay * 1e9 * mod[2])) * (1 + np.abs(np.log10(mod[2]) - lf).max())
    steep = 50 * ctx.tol(1e-13, 3e-6) * want[4]
    close(got, sum(want), f"fit loss (mass {want[0]:.4g}, averaged SFR {want[1]:.4g}, SFR {want[2]:.4g}, last averaged SFR {want[3]:.4g}, quenching before the peak {want[4]:.4g})",
          rtol=ctx.tol(1e-9, 3e-3), atol=noise + steep + ctx.tol(1e-11, 1e-4))
    ctx.label("near" if case["near"] else "far")
    ctx.nontrivial(min(want[:4]) > 1e-3 * sum(want[:4]) and (w > 1e9).any())


def build_fit(r, nt):
    return dict(p=params(r), tab=fc.tables(r, nt), kw=fc.settings(r))


fits = gen.case_of(lambda r: build_fit(r, NT))


@prop_test(fits, quick=300, thorough=20000, mode=("f64", "f32"), rule="non-trivial: the loss is not dominated by one kind of residual and some snapshot is excluded")
def loss_of_a_tabulated_history(case, ctx):
    """The targets and weights that the fitter builds, from their definitions."""
    f, u, p = rounded(case, ctx.mode)
    tab, kw = case["tab"], case["kw"]
    t, s, mah = f(tab["t"]), f(tab["sfh"]), f(tab["mah"])
    lgt0, fb, delay, floor = (float(f(kw[k])) for k in ("lgt0", "fb", "fstar_tdelay", "ssfrh_floor"))
    sm = ref.cumul_mass(t, s)
    raw = ref.fstar(t, sm, delay)
    fs = np.maximum(raw, floor * sm)
    fs = np.maximum(fs, fs.max() / 1000)
    lsm, lf = np.log10(sm), np.log10(fs)
    cuts = [t - kw["t_fit_min"], lsm - min(kw["mass_fit_min"], lsm[-1] - 0.5), lsm - lsm[-1] + kw["dlogm_cut"], lsm[-1] - lsm - 0.1, lf.max() - lf - 0.1, t - delay - 0.01]
    e = ctx.tol(1e-8, 1e-4)
    if min(np.abs(c).min() for c in cuts) < e or np.sort(lf)[-1] - np.sort(lf)[-2] < e:
        raise Skip("a snapshot is on the edge of a cut")
    keep = (cuts[0] > 0) & (cuts[1] > 0) & (cuts[2] > 0)
    w = np.where(keep, np.where(cuts[3] < 0, 0.5, 1.0), 1e10)
    wf = np.where(keep & (cuts[5] > 0), np.where(cuts[4] < 0, 0.5, 1.0), 1e10)
    mod = model(p, mah, t, lgt0, fb, delay, floor)
    peak = np.log10(t[np.argmax(lf)])
    want = terms(p, mod, sm, lsm, np.maximum(s, ref.SFR_MIN), lf, w, wf, peak)
    _, data = fh.get_loss_data_default(gen.arr(tab["t"], ctx.mode), gen.arr(tab["sfh"], ctx.mode), mah_nt(tab["mah"], ctx.mode), **kw)
    got = float(fh.loss_default_clipssfrh(u, data))
    noise = ctx.tol(1e-14, 3e-6) * (np.max(mod[1] / (delay * 1e9 * mod[2])) + np.max(sm / (delay * 1e9 * fs))) * (1 + np.abs(np.log10(mod[2]) - lf).max())
    steep = 50 * ctx.tol(1e-13, 3e-6) * want[4]
    close(got, sum(want), f"fit loss of a tabulated history (mass {want[0]:.4g}, averaged SFR {want[1]:.4g}, SFR {want[2]:.4g}, last averaged SFR {want[3]:.4g}, quenching before the peak {want[4]:.4g})",
          rtol=ctx.tol(1e-9, 3e-3), atol=noise + steep + ctx.tol(1e-10, 1e-4))
    leq(-got, 0.0, "negative loss")
    ctx.nontrivial(max(want[:4]) < 0.98 * sum(want[:4]) and (w > 1e9).any())


any_size("loss_of_long_targets", loss_of_given_targets, build_targets, lambda r: dict(nt=r.size(1500)), rule="non-trivial: more than 200 times")
any_size("loss_of_long_histories", loss_of_a_tabulated_history, build_fit, lambda r: dict(nt=r.size(1500)), rule="non-trivial: more than 200 times")
