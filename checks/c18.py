"""C18: predicted mass and sSFR distributions are normalised mixtures."""
import numpy as np

from checks import losscommon as lc
from checks.common import any_size
from diffstar.diffstarpop.loss_kernels import mstar_ssfr_loss_mgash_anyz as mod
from pbt import gen, ref
from pbt.core import Skip, check, close, prop_test


@gen.case_of
def cases(r):
    return lc.draw(r)


RULE = "non-trivial: both sequences contribute and at least one requested mass bin is well populated"


@prop_test(cases, quick=130, thorough=5000, mode=("f64", "f32"), rule=RULE)
def predictions_follow_the_model(case, ctx):
    want = lc.reference(case, ctx.mode)
    if want["raw"].min() < ctx.tol(1e-6, 0.1):
        raise Skip  # an observation whose halos all miss the bins has no distribution
    NO, NM, NS, NZ, NID = (len(case[k]) for k in ("halos", "mjit", "sjit", "ix", "ids"))
    u, d_m, d_s = lc.build(case, ctx.mode)
    pm = np.asarray(mod.get_pred_mstar_data_wrapper(u, d_m), float)
    check(pm.shape == (NO, NM), f"predicted mass distribution shape {pm.shape}")
    check(pm.min() >= -ctx.tol(1e-12, 1e-5), "negative probability in the mass distribution")
    close(pm.sum(1), np.ones(NO), "mass distribution does not sum to one", atol=ctx.tol(1e-10, 2e-5))
    close(pm, want["mstar"], "predicted mass distribution", atol=ctx.tol(1e-7, 2e-2))
    ok = want["tot"] > ctx.tol(1e-6, 0.05)
    for nm, f in (("sSFR", mod.get_pred_mstar_ssfr_data_wrapper), ("satellite sSFR", mod.get_pred_mstar_ssfr_sat_data_wrapper)):
        ps = np.asarray(f(u, d_s), float)
        check(ps.shape == (NZ, NID, NS), f"predicted {nm} distribution shape {ps.shape}")
        check(ps[ok].size == 0 or ps[ok].min() >= -ctx.tol(1e-9, 1e-4), f"negative probability in the {nm} distribution")
        close(ps[ok].sum(-1), np.ones(ok.sum()), f"{nm} distribution does not sum to one", atol=ctx.tol(1e-8, 1e-4))
        close(ps[ok], want["ssfr"][ok], f"predicted {nm} distribution", atol=ctx.tol(1e-6, 4e-2))
    ctx.nontrivial(ok.any())
    ctx.label("populated rows %d" % ok.sum())


N = 12


def build_hist(r, n, nm, ns):
    return dict(sm=[r.uf(6.0, 12.5) for _ in range(n)], ss=[r.uf_or([-12.0], -12.5, -8.0) for _ in range(n)],
                w=[r.uf_or([0.0, 1.0], 0.0, 1.0) for _ in range(n)], mb=[r.uf(7, 8.5), r.uf(0.3, 0.8) * 7 / nm], sb=[r.uf(-12.5, -11.0), r.uf(0.3, 0.8) * 6 / ns],
                mjit=lc.jitter(r, nm), sjit=lc.jitter(r, ns), perm=r.perm(n))


hist_cases = gen.case_of(lambda r: build_hist(r, N, lc.NM, lc.NS))


@prop_test(hist_cases, quick=300, thorough=10000, mode=("f64", "f32"), rule="non-trivial: more than two galaxies of unequal weight lie in the bins")
def histogram_of_masses_and_ssfr(case, ctx):
    f = lambda x: gen.arr(x, ctx.mode)
    r64 = lambda x: gen.r32(x, ctx.mode)
    mb, sb = lc.edges(case["mb"], case["mjit"]), lc.edges(case["sb"], case["sjit"])
    sm, ss, w = case["sm"], case["ss"], case["w"]
    N = len(sm)
    s1, s2 = np.diff(mb).mean(), np.diff(sb).mean()
    k = ref.ndhist(r64(sm)[:, None], np.full((N, 1), s1), r64(w), r64(mb)[:-1, None], r64(mb)[1:, None])
    lo = np.array([[a, b] for a in mb[:-1] for b in sb[:-1]])
    hi = np.array([[a, b] for a in mb[1:] for b in sb[1:]])
    j = ref.ndhist(np.stack([r64(sm), r64(ss)], 1), np.tile([s1, s2], (N, 1)), r64(w), r64(lo), r64(hi))
    if k.sum() < 0.05 or j.sum() < 0.05:
        raise Skip
    p = np.array(case["perm"])
    g1 = np.asarray(mod.compute_diff_histograms_mstar_atmobs_z_vmap(f(mb), f([sm, np.array(sm)[p]]), f([w, np.array(w)[p]])), float)
    close(g1[0], k / k.sum(), "mass histogram", atol=ctx.tol(1e-9, 2e-3))
    close(g1[1], g1[0], "mass histogram depends on halo order", atol=ctx.tol(1e-12, 1e-4))
    g2 = np.asarray(mod.compute_diff_histograms_mstar_ssfr_atmobs_z_vmap(
        f([sm, np.array(sm)[p]]), f([ss, np.array(ss)[p]]), f([w, np.array(w)[p]]), f(lo), f(hi), f(mb), f(sb)), float)
    close(g2[0], j / j.sum(), "mass-sSFR histogram", atol=ctx.tol(1e-9, 2e-3))
    close(g2[1], g2[0], "mass-sSFR histogram depends on halo order", atol=ctx.tol(1e-12, 1e-4))
    ctx.nontrivial(np.sum(np.array(w) > 0) > 2 and len(set(w)) > 2)


any_size("predictions_for_large_samples", predictions_follow_the_model, lambda r, **k: lc.draw(r, **k), lc.large, quick=2)
any_size("histograms_of_large_samples", histogram_of_masses_and_ssfr, build_hist, lambda r: dict(n=r.size(), nm=r.integer(2, 30), ns=r.integer(2, 20)))
