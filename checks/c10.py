"""C10: main-sequence efficiency depends only on halo mass and scales with fb."""
import numpy as np
from diffmah.diffmah_kernels import mah_singlehalo

from checks.common import any_size, lg, mah_nt, sfh_nt
from diffstar import calc_sfh_galpop, calc_sfh_singlegal
from diffstar.kernels.main_sequence_kernels import _sfr_eff_plaw, sfh_ms_kernel, sfh_ms_kernel_vmap
from pbt import gen, ref
from pbt.core import close, prop_test

NT = 16
FLOOR = -13.5


def _noq(ms):
    return [*ms, 1.0, -0.5, 0.0, 0.0]


def _eff(ms, mah, t, lgt0, fb, ctx):
    """log10 of SFR / (fb * Mhalo), NaN where the SFR floor is near; and log10 Mhalo."""
    t = gen.arr(t, ctx.mode)
    s = lg(calc_sfh_singlegal(sfh_nt(_noq(ms), ctx.mode), mah_nt(mah, ctx.mode), t, lgt0=lgt0, fb=fb))
    lgm = np.asarray(mah_singlehalo(mah_nt(mah, ctx.mode), t, lgt0)[1], float)
    return np.where(s > FLOOR, s - np.log10(fb) - lgm, np.nan), lgm


def _ms(r):
    return [r.uf(*ref.MS_BOUNDS[n]) for n in ("lgmcrit", "lgy_at_mcrit", "indx_lo", "indx_hi")]


@gen.case_of
def twins(r):
    """Two halos that pass through the same masses at different times and ages."""
    late = (0.1, 0.9) if r.bool() else (0.1, 4.0)
    mah = lambda: [r.uf(11.0, 15.0), r.uf(-0.9, 0.9), r.uf(late[1], 9.0) if r.bool() else r.uf(late[1], 4.0 + late[0]), r.uf(*late), 14.0]
    a, b = mah(), mah()
    return dict(ms=_ms(r), a=a, b=b, ca=r.cosmology(), cb=r.cosmology(), t=[r.uf(0.3, 13.5) for _ in range(NT)])


def _time_of_mass(mah, lgt0, lgm):
    """Times at which the growing history reaches the masses (bisection); NaN if never."""
    lo, hi = np.full(lgm.shape, 0.02), np.full(lgm.shape, 13.9)
    f = lambda x: ref.log_mah(mah, x, lgt0)
    ok = (f(lo) < lgm) & (f(hi) > lgm)
    for _ in range(80):
        mid = 0.5 * (lo + hi)
        up = f(mid) < lgm
        lo, hi = np.where(up, mid, lo), np.where(up, hi, mid)
    return np.where(ok, 0.5 * (lo + hi), np.nan)


@prop_test(twins, quick=500, thorough=15000, mode="f64", rule="non-trivial: both halos reach at least 4 common masses with SFR above the floor")
def same_mass_same_efficiency(case, ctx):
    ea, lgm = _eff(case["ms"], case["a"], case["t"], case["ca"]["lgt0"], case["ca"]["fb"], ctx)
    tb = _time_of_mass(case["b"], case["cb"]["lgt0"], lgm)
    use = np.isfinite(tb)
    eb, lgmb = _eff(case["ms"], case["b"], np.where(use, tb, 1.0), case["cb"]["lgt0"], case["cb"]["fb"], ctx)
    use &= np.isfinite(ea) & np.isfinite(eb) & (np.abs(lgmb - lgm) < 1e-9)
    close(eb[use], ea[use], "efficiency of two galaxies at equal halo mass (log10)", atol=1e-7)
    ctx.nontrivial(use.sum() >= 4)


def build(r, nt):
    return dict(ms=_ms(r), mah=r.mah_params(typical=r.bool(0.7)), t=[r.uf(0.1, 13.8) for _ in range(nt)], **r.cosmology(),
                d=r.uf(-3.0, 3.0), scale=r.logf(0.05, 20.0))


single = gen.case_of(lambda r: build(r, NT))


@prop_test(single, quick=500, thorough=15000, mode=("f64", "f32"), rule="non-trivial: at least 4 times above the floor")
def rescaling_relations(case, ctx):
    ms, mah, t, lgt0, fb = case["ms"], case["mah"], case["t"], case["lgt0"], case["fb"]
    tol = ctx.tol(1e-9, 3e-4)
    d, k = case["d"], case["scale"]
    e0, lgm = _eff(ms, mah, t, lgt0, fb, ctx)
    # efficiency normalisation
    e1, _ = _eff([ms[0], ms[1] + d, *ms[2:]], mah, t, lgt0, fb, ctx)
    both = np.isfinite(e0) & np.isfinite(e1)
    close((e1 - e0)[both], np.full(both.sum(), d), "shift of lgy_at_mcrit (log10)", atol=tol)
    # masses and critical mass together
    e2, _ = _eff([ms[0] + d, *ms[1:]], [mah[0] + d, *mah[1:]], t, lgt0, fb, ctx)
    both = np.isfinite(e0) & np.isfinite(e2)
    close(e2[both], e0[both], "common shift of masses and lgmcrit (log10)", atol=ctx.tol(1e-9, 1e-3))
    # baryon fraction: _eff divides by it
    e3, _ = _eff(ms, mah, t, lgt0, fb * k, ctx)
    both = np.isfinite(e0) & np.isfinite(e3)
    close(e3[both], e0[both], "SFR is not proportional to fb (log10)", atol=tol)
    # low/high index swap about the critical mass: eff(Mcrit + x; lo, hi) = eff(Mcrit - x; -hi, -lo)
    x = (lgm - ms[0])[:4]
    a = np.asarray(_sfr_eff_plaw(ms[0] + x, *ms), float)
    b = np.asarray(_sfr_eff_plaw(ms[0] - x, ms[0], ms[1], -ms[3], -ms[2]), float)
    close(a, b, "mirror symmetry of the rolling power law", atol=ctx.tol(1e-9, 2e-3))
    ctx.nontrivial(np.isfinite(e0).sum() >= 4)


@gen.case_of
def landmarks(r):
    return dict(ms=_ms(r), x=[r.uf(-0.3, 0.3) for _ in range(4)], far=r.uf(3.0, 5.0), lgt0=float(np.log10(13.8)), fb=r.uf(0.05, 0.4))


@prop_test(landmarks, quick=400, thorough=12000, mode="f64", rule="non-trivial: indices differ")
def value_at_mcrit_and_asymptotic_slopes(case, ctx):
    """Halos that have stopped growing at chosen masses."""
    ms = case["ms"]
    lgmc = ms[0]
    masses = [lgmc, lgmc - case["far"], lgmc - case["far"] - 0.5, lgmc + case["far"], lgmc + case["far"] + 0.5]
    # peak reached at t0: constant afterwards, equal to logm0
    t0 = 10.0 ** case["lgt0"]
    mah = [[m, 0.3, 2.0, 0.5, t0] for m in masses]
    t = np.array([t0 * 1.01, t0 * 1.5])
    s = lg(calc_sfh_galpop(sfh_nt([_noq(ms)] * 5, ctx.mode), mah_nt(mah, ctx.mode), t, lgt0=case["lgt0"], fb=case["fb"]))
    e = s - np.log10(case["fb"]) - np.array(masses)[:, None]
    close(e[0], np.full(2, ms[1]), "efficiency at lgmcrit (log10)", atol=1e-8)
    if (s[1:3] > FLOOR).all():
        close((e[1] - e[2]) / 0.5, np.full(2, ms[2]), "slope far below lgmcrit", atol=1e-6)
        ctx.label("low-mass slope observed")
    if (s[3:] > FLOOR).all():
        close((e[4] - e[3]) / 0.5, np.full(2, ms[3]), "slope far above lgmcrit", atol=1e-6)
        ctx.label("high-mass slope observed")
    # rolling speed: slope-weighted deviation at x equals the sigmoid of speed 9
    x = np.array(case["x"])
    got = np.asarray(_sfr_eff_plaw(lgmc + x, *ms), float)
    close(got, ref.lg_efficiency(lgmc + x, *ms), "efficiency near lgmcrit", atol=1e-10)
    ctx.nontrivial(abs(ms[2] - ms[3]) > 0.1)


@prop_test(single, quick=250, thorough=8000, mode="f64", rule="non-trivial: always")
def main_sequence_kernel_is_the_unquenched_sfr(case, ctx):
    t = np.array(case["t"])
    m = mah_nt(case["mah"], ctx.mode)
    ms = tuple(case["ms"])
    got = lg(sfh_ms_kernel_vmap(t, m, ms, case["lgt0"], case["fb"]))
    want = ref.lg_sfh_ms(ms, case["mah"], t, case["lgt0"], case["fb"])
    close(got, want, "sfh_ms_kernel_vmap (log10)", atol=1e-8)
    one = lg(sfh_ms_kernel(t[0], m, ms, case["lgt0"], case["fb"]))
    close(one, want[0], "sfh_ms_kernel (log10)", atol=1e-8)


def _both(case, ctx):
    rescaling_relations(case, ctx)
    main_sequence_kernel_is_the_unquenched_sfr(case, ctx)


any_size("efficiency_at_many_times", _both, build, lambda r: dict(nt=r.size()))
