"""C02: star formation histories are always physical."""
import numpy as np

from checks.common import any_size, mah_nt, sfh_lg_tol
from diffstar import DiffstarParams, DiffstarUParams, calc_sfh_galpop, calc_sfh_singlegal, get_bounded_diffstar_params
from pbt import gen, ref
from pbt.core import all_finite, check, close, leq, prop_test

NG, NT = 6, 24
RULE = ("non-trivial: at least one unbounded parameter lies in a saturated tail (|u - centre| > 5 widths) "
        "or some SFR sits on the floor, and some SFR is above the floor")


def build(r, ng, nt):
    u = []
    for _ in range(ng):
        kind = r.choice(["normal", "extreme", "mixed"])
        if kind == "normal":
            u.append([float(np.mean(ref.BOUNDS[n]) + r.uf(-3, 3)) for n in ref.PNAMES])
        elif kind == "extreme":
            u.append(r.u_params())
        else:
            u.append([r.uf(-20, 20) for _ in range(8)])
    mah = [r.mah_params() for _ in range(ng)]
    t = r.tgrid(nt)
    return dict(u=u, mah=mah, t=t, **r.cosmology())


cases = gen.case_of(lambda r: build(r, NG, NT))


def _verify(sfr, smh, ms, case, ctx, what, tp, tol):
    """sfr, smh, ms: (n, nt) float64"""
    all_finite(sfr, what + " SFR")
    all_finite(smh, what + " stellar mass")
    check(np.all(sfr >= ref.SFR_MIN * (1 - 2e-7)), lambda: f"{what}: SFR {sfr.min()!r} below the 1e-14 floor")
    leq(np.log10(sfr), np.log10(ms), what + ": SFR exceeds the unquenched SFR (log10)", atol=tol)
    check(np.all(smh > 0), f"{what}: stellar mass not positive")
    check(np.all(np.diff(smh, axis=1) >= 0), f"{what}: stellar mass decreases with time")
    t = gen.r32(case["t"], ctx.mode)
    for i in range(sfr.shape[0]):
        after = t >= tp[i]
        if after.sum() >= 2:
            v = np.log10(ms[i, after])
            close(v, np.full_like(v, v[0]), what + ": unquenched SFR changes after t_peak (log10)",
                  atol=ctx.tol(1e-9, 2e-4))


def _flags(u, sfr, ctx):
    u = np.array(u)
    mid = np.array([np.mean(ref.BOUNDS[n]) for n in ref.PNAMES])
    wid = np.array([np.ptp(ref.BOUNDS[n]) for n in ref.PNAMES])
    sat = (np.abs(u - mid) > 2 * wid).any()
    floor = (sfr < ref.SFR_MIN * 1.001).any()
    above = (sfr > ref.SFR_MIN * 10).any()
    if sat:
        ctx.label("saturated parameters")
    if floor:
        ctx.label("floor reached")
    ctx.nontrivial((sat or floor) and above)


def _noq(p):
    return p._replace(lg_drop=p.lg_drop * 0, lg_rejuv=p.lg_rejuv * 0)


@prop_test(cases, quick=600, thorough=15000, mode=("f64", "f32"), rule=RULE)
def population_is_physical(case, ctx):
    u = gen.arr(case["u"], ctx.mode)
    t = gen.arr(case["t"], ctx.mode)
    p = get_bounded_diffstar_params(DiffstarUParams(*u.T))
    m = mah_nt(case["mah"], ctx.mode)
    kw = dict(lgt0=case["lgt0"], fb=case["fb"])
    sfh, smh = calc_sfh_galpop(p, m, t, return_smh=True, **kw)
    ms = calc_sfh_galpop(_noq(p), m, t, **kw)
    f = lambda x: np.asarray(x, dtype=float)
    shape = (len(case["u"]), len(case["t"]))
    check(f(sfh).shape == shape and f(smh).shape == shape, "wrong output shape")
    tp = gen.r32([x[4] for x in case["mah"]], ctx.mode)
    tol = sfh_lg_tol(f(p).T, ctx.mode)
    _verify(f(sfh), f(smh), f(ms), case, ctx, "calc_sfh_galpop", tp, tol)
    _flags(case["u"], f(sfh), ctx)


@prop_test(cases, quick=250, thorough=6000, mode=("f64", "f32"), rule=RULE)
def single_galaxy_is_physical(case, ctx):
    u = gen.arr(case["u"], ctx.mode)
    t = gen.arr(case["t"], ctx.mode)
    kw = dict(lgt0=case["lgt0"], fb=case["fb"])
    f = lambda x: np.asarray(x, dtype=float)[None]
    for i in (0, len(case["u"]) // 2):
        p = get_bounded_diffstar_params(DiffstarUParams(*u[i]))
        m = mah_nt(case["mah"][i], ctx.mode)
        sfh, smh = calc_sfh_singlegal(p, m, t, return_smh=True, **kw)
        ms = calc_sfh_singlegal(_noq(p), m, t, **kw)
        tp = [gen.r32(case["mah"][i][4], ctx.mode)]
        tol = sfh_lg_tol([np.array(p, dtype=float)], ctx.mode)
        _verify(f(sfh), f(smh), f(ms), case, ctx, "calc_sfh_singlegal", tp, tol)
    _flags(case["u"][:1], np.asarray(sfh, float), ctx)


def _both(case, ctx):
    population_is_physical(case, ctx)
    single_galaxy_is_physical(case, ctx)


any_size("populations_and_grids_of_any_size", _both, build, dict(nt_min=2), mode=("f64", "f32"))
