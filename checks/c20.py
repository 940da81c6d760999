"""C20: the Diffstar fitter returns what it reports and recovers model galaxies."""
import numpy as np

from checks import fitcommon as fc
from checks.common import mah_nt, sfh_nt
from checks.fitcommon import fh
from diffstar import calc_sfh_singlegal
from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS, get_unbounded_diffstar_params
from pbt import gen, ref
from pbt.core import all_finite, check, close, leq, prop_test

NT = 30
P = DEFAULT_DIFFSTAR_PARAMS._fields


@gen.case_of
def any_tables(r):
    return dict(tab=fc.tables(r, NT), kw=fc.settings(r) if r.bool(0.6) else r.cosmology(), seed=r.seed() % 2**31)


def _fit(tab, kw, seed, mode):
    t, s, m = gen.arr(tab["t"], mode), gen.arr(tab["sfh"], mode), mah_nt(tab["mah"], mode)
    np.random.seed(seed)
    fc.reset()
    out = fh.diffstar_fitter(t, s, m, **kw)
    runs = list(fc.RUNS)
    return t, s, m, out, runs


def _verify(t, s, m, kw, out, runs, ctx):
    p, loss, success = out
    check(type(p)._fields == P, "fitter does not return diffstar params")
    x = np.array([float(v) for v in p])
    all_finite(x, "fitted parameters")
    check(np.isfinite(loss), f"reported loss {loss}")
    eps = ctx.tol(1e-12, 2e-6)
    for k, v in zip(P, x):
        lo, hi = ref.BOUNDS[k]
        check(lo - eps <= v <= hi + eps, f"fitted {k}={v} outside its bounds")
    check(x[7] >= x[6] - eps, "fitted lg_rejuv below lg_drop")
    check(success == 1, f"success flag {success} for a finite fit")
    _, data = fh.get_loss_data_default(t, s, m, **kw)
    u = gen.arr(fc.finite_u(get_unbounded_diffstar_params(p)), ctx.mode)
    again = float(fh.loss_default_clipssfrh(u, data))
    close(loss, again, "reported loss is not the loss of the returned parameters", rtol=ctx.tol(1e-6, 3e-2), atol=ctx.tol(1e-9, 3e-3))
    for r in runs:
        l0 = float(fh.loss_default_clipssfrh(gen.arr(r["x0"], ctx.mode), data))
        leq(loss, l0, "fit is worse than its own starting guess", rtol=ctx.tol(1e-9, 1e-3), atol=ctx.tol(1e-10, 1e-3))
    return x, data


RULE = "non-trivial: the final loss is finite and below the loss of the first starting guess"


@prop_test(any_tables, quick=110, thorough=5000, mode=("f64", "f32"), rule=RULE)
def fit_of_any_history_reports_its_loss(case, ctx):
    t, s, m, out, runs = _fit(case["tab"], case["kw"], case["seed"], ctx.mode)
    _, data = _verify(t, s, m, case["kw"], out, runs, ctx)
    ctx.label(case["tab"]["kind"])
    ctx.nontrivial(bool(runs) and out[1] < 0.99 * float(fh.loss_default_clipssfrh(gen.arr(runs[0]["x0"], ctx.mode), data)))


N = 8


@gen.case_of
def model_galaxies(r):
    g = []
    for _ in range(N):
        p = r.diffstar_params(typical=True)
        p[7] = r.uf(p[6], 0.0)
        g.append(dict(p=p, mah=[r.uf(11.6, 14.3), r.uf(0.0, 0.7), r.uf(1.5, 4.0), r.uf(0.1, 0.8), 14.0], seed=r.seed() % 2**31))
    t0 = r.uf_or([13.8], 11.0, 14.5)
    t = np.linspace(0.3, t0, NT) if r.bool() else np.logspace(-0.5, np.log10(t0), NT)
    return dict(g=g, t=[float(x) for x in t], lgt0=float(np.log10(t0)), fb=r.uf_or([0.156], 0.1, 0.3))


@prop_test(model_galaxies, quick=14, thorough=500, mode=("f64", "f32"), rule="non-trivial: always (eight distinct model galaxies are fitted)")
def model_galaxies_are_recovered(case, ctx):
    rms = []
    kw = dict(lgt0=case["lgt0"], fb=case["fb"])
    for g in case["g"]:
        m = mah_nt(g["mah"], ctx.mode)
        t = gen.arr(case["t"], ctx.mode)
        true = calc_sfh_singlegal(sfh_nt(g["p"], ctx.mode), m, t, **kw, return_smh=True)
        tab = dict(t=case["t"], sfh=[float(x) for x in true.sfh], mah=g["mah"])
        t, s, m, out, runs = _fit(tab, kw, g["seed"], ctx.mode)
        x, _ = _verify(t, s, m, kw, out, runs, ctx)
        lsm = ref.lg_sfh(x, np.array(g["mah"]), np.array(case["t"]), kw["lgt0"], kw["fb"])
        l2 = np.log10(ref.cumul_mass(np.array(case["t"]), 10.0**lsm))
        l1 = np.log10(np.asarray(true.smh, float))
        t_ = np.array(case["t"])
        sel = (t_ >= 1) & (l1 > l1[-1] - 3.5) & (l1 > min(7.0, l1[-1] - 0.5))
        rms.append(float(np.sqrt(np.mean((l2 - l1)[sel] ** 2))))
    check(max(rms) < 0.4, f"the fitted mass history misses a model galaxy by {max(rms):.3f} dex rms")
    check(np.median(rms) < 0.1, f"fitted mass histories of eight model galaxies miss by {np.median(rms):.3f} dex rms (median)")
