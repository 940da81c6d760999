"""Public functions of the package as a table of calls, with drawn arguments (checks C29 and C37)."""
from collections import namedtuple

import jax
import numpy as np

from checks import fitcommon as fc
from checks import losscommon as lc
from checks.common import MahParams
from checks.fitcommon import fh
from checks.popcommon import bounded_pop, key, pop_nt, sub_arrays, subhalo
from diffstar import (
    DiffstarParams,
    DiffstarUParams,
    calc_mgas_galpop,
    calc_mgas_singlegal,
    calc_sfh_galpop,
    calc_sfh_singlegal,
    get_bounded_diffstar_params,
    get_unbounded_diffstar_params,
)
from diffstar import utils as du
from diffstar.diffstarpop import get_bounded_diffstarpop_params, get_unbounded_diffstarpop_params
from diffstar.diffstarpop import mc_diffstarpop_mgash as mc
from diffstar.diffstarpop.loss_kernels import mstar_ssfr_loss_mgash_anyz as ml
from diffstar.diffstarpop.param_utils import get_all_params_from_varied
from diffstar.diffstarpop.sumstats.diffndhist import tw_ndhist, tw_ndhist_weighted
from diffstar.diffstarpop.sumstats.smhm import compute_smhm
from pbt import gen

NT, NG, NB, NFIT = 9, 3, 4, 30
MyParams = namedtuple("MyParams", DiffstarParams._fields)  # a caller's own namedtuple
MyU = namedtuple("MyU", DiffstarUParams._fields)
MyMah = namedtuple("MyMah", MahParams._fields)


def argset(r):
    gals = [r.diffstar_params(typical=True) for _ in range(NG)]
    mahs = [r.mah_params(True) for _ in range(NG)]
    return dict(
        gals=gals, mahs=mahs, t=r.tgrid(NT), sub=[subhalo(r, wide=False) for _ in range(NG)], pop=bounded_pop(r, style="near"), seed=r.seed(),
        u=[r.uf(-5, 5) for _ in range(8)], x=r.floats(NG, 10, 14), y=r.floats(NG, 8, 11), sig=[r.uf(0.05, 0.4) for _ in range(NG)],
        bins=[r.uf(9.5, 10.5), r.uf(0.5, 1.2)], tab=fc.tables(r, NFIT), loss=lc.draw(r), **r.cosmology(),
        wset=[r.uf_or([1.0], 0.3, 4.0), r.uf_or([3.5], 1.0, 5.0), r.uf_or([1.0], 0.0, 3.0), r.uf_or([7.0], 5.0, 10.0)],
    )


def _copied(args):
    return jax.tree_util.tree_map(lambda v: v.copy() if isinstance(v, np.ndarray) else v, args)


def arrays(a, mode):
    """All arguments as numpy values."""
    f = lambda x: gen.arr(x, mode)
    g, m = f(a["gals"]), f(a["mahs"])
    sub = sub_arrays(a["sub"], mode)
    b = f(a["bins"][0] + a["bins"][1] * np.arange(NB + 1))
    u, d_m, d_s = lc.build(a["loss"], mode)
    lo, hi = b[:-1].reshape(-1, 1), b[1:].reshape(-1, 1)
    mc_args = (sub[0], *sub[2:], np.asarray(key(a["seed"])))
    popd = pop_nt(a["pop"], mode)
    tab = (f(a["tab"]["t"]), f(a["tab"]["sfh"]), MahParams(*f(a["tab"]["mah"])))
    kw = (f(a["lgt0"]), f(a["fb"]))
    sfh1, sfhn = DiffstarParams(*g[0]), DiffstarParams(*g.T.copy())
    mah1, mahn = MahParams(*m[0]), MahParams(*m.T.copy())
    t = f(a["t"])
    upar = DiffstarUParams(*f(a["u"]))
    X, Y, S = f(a["x"]), f(a["y"]), f(a["sig"])
    names = ("fstar_tdelay", "dlogm_cut", "t_fit_min", "mass_fit_min")
    fit = fh.get_loss_data_default(*_copied(tab), lgt0=float(a["lgt0"]), fb=float(a["fb"]), **dict(zip(names, a["wset"])))[1]
    fit = jax.tree_util.tree_map(np.array, fit)
    return {
        "calc_sfh_singlegal": (sfh1, mah1, t, *kw), "calc_sfh_galpop": (sfhn, mahn, t, *kw),
        "calc_mgas_singlegal": (sfh1, mah1, t, *kw), "calc_mgas_galpop": (sfhn, mahn, t, *kw),
        "get_bounded_diffstar_params": (upar,), "get_unbounded_diffstar_params": (sfh1,),
        "get_unbounded_diffstarpop_params": (popd,), "get_bounded_diffstarpop_params": (jax.tree_util.tree_map(np.array, get_unbounded_diffstarpop_params(_copied(popd))),),
        "mc_params_galpop": (popd, sub[0], sub[1], *mc_args[1:]), "mc_sfh_galpop": (popd, mahn, *mc_args, t, *kw),
        "mc_params_singlegal": (popd, *[x[0] for x in (sub[0], sub[1], *mc_args[1:-1])], mc_args[-1]),
        "mc_sfh_singlegal": (popd, mah1, *[x[0] for x in mc_args[:-1]], mc_args[-1], t, *kw),
        "tw_ndhist": (X.reshape(-1, 1), S.reshape(-1, 1), lo, hi), "tw_ndhist_weighted": (X.reshape(-1, 1), S.reshape(-1, 1), Y, lo, hi),
        "compute_smhm": (X, Y, S, b), "cumulative_mstar_formed": (t, np.abs(f(a["y"][0]) + t)), "compute_fstar": (t, np.cumsum(t) * 1e9),
        "get_dt_array": (t,), "get_1d_arrays": (t, Y[:1], X[0]), "all_params_from_varied": (MyMah(*mah1), mah1._replace(logm0=f(13.0))),
        "loss_mstar": (u, d_m), "loss_combined": (u, d_m, d_s), "loss_ssfr_sat_pred": (u, d_s),
        "get_loss_data_default": (*tab, *kw, *a["wset"]), "fit_loss": (np.asarray(upar), fit), "fit_loss_grad": (np.asarray(upar), fit),
        "get_weights": (fit[0], fit[3], fit[5], *a["wset"]), "get_outline": (12, sfh1, 0.5, 1),
    }


OPS = {
    # name: (function, may be traced)
    "calc_sfh_singlegal": (lambda s, m, t, l, f: calc_sfh_singlegal(s, m, t, lgt0=l, fb=f, return_smh=True), True),
    "calc_sfh_galpop": (lambda s, m, t, l, f: calc_sfh_galpop(s, m, t, lgt0=l, fb=f, return_smh=True), True),
    "calc_mgas_singlegal": (lambda s, m, t, l, f: calc_mgas_singlegal(s, m, t, lgt0=l, fb=f), True),
    "calc_mgas_galpop": (lambda s, m, t, l, f: calc_mgas_galpop(s, m, t, lgt0=l, fb=f), True),
    "get_bounded_diffstar_params": (get_bounded_diffstar_params, True),
    "get_unbounded_diffstar_params": (get_unbounded_diffstar_params, True),
    "get_bounded_diffstarpop_params": (get_bounded_diffstarpop_params, True),
    "get_unbounded_diffstarpop_params": (get_unbounded_diffstarpop_params, True),
    "mc_params_galpop": (mc.mc_diffstar_params_galpop, True),
    "mc_params_singlegal": (mc.mc_diffstar_params_singlegal, True),
    "mc_sfh_galpop": (lambda *a: mc.mc_diffstar_sfh_galpop(*a[:-2], lgt0=a[-2], fb=a[-1]), True),
    "mc_sfh_singlegal": (lambda *a: mc.mc_diffstar_sfh_singlegal(*a[:-2], lgt0=a[-2], fb=a[-1]), True),
    "tw_ndhist": (tw_ndhist, True),
    "tw_ndhist_weighted": (tw_ndhist_weighted, True),
    "compute_smhm": (compute_smhm, True),
    "cumulative_mstar_formed": (du.cumulative_mstar_formed, True),
    "compute_fstar": (lambda t, m: du.compute_fstar(t, m, 1.0), True),
    "get_dt_array": (du._jax_get_dt_array, True),
    "get_1d_arrays": (lambda *a: tuple(du.get_1d_arrays(*a)), False),
    "all_params_from_varied": (lambda a, b: get_all_params_from_varied(a, b), True),
    "loss_mstar": (ml.loss_mstar_kern_tobs_grad_wrapper, False),
    "loss_combined": (lambda u, a, b: ml.loss_combined_wrapper(u, a, b)[0], False),
    "loss_ssfr_sat_pred": (ml.get_pred_mstar_ssfr_sat_data_wrapper, False),
    "get_loss_data_default": (lambda t, s, m, l, f, *w: fh.get_loss_data_default(t, s, m, lgt0=l, fb=f, fstar_tdelay=w[0], dlogm_cut=w[1], t_fit_min=w[2], mass_fit_min=w[3]), False),
    "fit_loss": (fh.loss_default_clipssfrh, True),
    "fit_loss_grad": (fh.loss_grad_default_clipssfrh_np, False),
    "get_weights": (fh.get_weights, False),
    "get_outline": (lambda *a: np.array([float(x) for x in fh.get_outline(*a).split()]), False),
}
HEAVY = ("loss_mstar", "loss_combined", "loss_ssfr_sat_pred")


def flat(x):
    leaves = jax.tree_util.tree_leaves(x)
    return [np.asarray(v) for v in leaves]
