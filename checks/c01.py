"""C01: SFH equals the model definition."""
import numpy as np

from checks.common import any_size, lg, mah_nt, ref_lg_sfh_pop, sfh_lg_tol, sfh_nt
from diffstar import calc_mgas_galpop, calc_mgas_singlegal, calc_sfh_galpop, calc_sfh_singlegal
from pbt import gen, ref
from pbt.core import close, prop_test

NG, NT = 6, 24
RULE = "non-trivial: some SFR is above the floor and some quenching factor differs from 1"


def build(r, ng, nt):
    g = r.galaxies(ng, typical=r.bool())
    t = r.tgrid(nt)
    c = r.cosmology()
    # put some grid times on the landmarks of the events
    if r.bool():
        g["sfh"][r.integer(0, ng - 1)][4] = float(np.clip(np.log10(r.choice(t)), 0.1, 2.0))
    if r.bool():
        g["mah"][r.integer(0, ng - 1)][4] = r.choice(t)
    return dict(t=t, **g, **c)


cases = gen.case_of(lambda r: build(r, NG, NT))


def _classify(case, ctx, want):
    floor = np.log10(ref.SFR_MIN)
    t = np.log10(np.array(case["t"]))
    q = np.array([ref.lg_quench(t, *s[4:]) for s in case["sfh"]])
    above = want > floor + 1e-3
    if above.any():
        ctx.label("above floor")
    if (~above).any():
        ctx.label("at floor")
    if (q[above] < -1e-3).any():
        ctx.label("quenching active")
    if any(m[4] < case["t"][-1] for m in case["mah"]):
        ctx.label("t_peak inside grid")
    ctx.nontrivial(above.any() and (q[above] < -1e-3).any())


def _compare(got, case, ctx, what, rows=None):
    want = ref_lg_sfh_pop(case["sfh"], case["mah"], case["t"], case["lgt0"], case["fb"], ctx.mode)
    tol = sfh_lg_tol(case["sfh"], ctx.mode) + np.zeros_like(want)
    if rows is not None:
        want, tol = want[rows], tol[rows]
    close(lg(got), want, what + " (log10)", atol=tol)
    return want


@prop_test(cases, quick=700, thorough=20000, mode=("f64", "f32"), rule=RULE)
def population_sfh_matches_model(case, ctx):
    t = gen.arr(case["t"], ctx.mode)
    sfh = calc_sfh_galpop(sfh_nt(case["sfh"], ctx.mode), mah_nt(case["mah"], ctx.mode), t,
                          lgt0=case["lgt0"], fb=case["fb"])
    want = _compare(sfh, case, ctx, "calc_sfh_galpop")
    _classify(case, ctx, want)


@prop_test(cases, quick=350, thorough=10000, mode=("f64", "f32"), rule=RULE)
def single_sfh_matches_model(case, ctx):
    t = gen.arr(case["t"], ctx.mode)
    for i in range(0, len(case["sfh"]), 2)[:3]:
        sfh = calc_sfh_singlegal(sfh_nt(case["sfh"][i], ctx.mode), mah_nt(case["mah"][i], ctx.mode), t,
                                 lgt0=case["lgt0"], fb=case["fb"])
        want = _compare(sfh, case, ctx, "calc_sfh_singlegal", rows=i)
    _classify(case, ctx, ref_lg_sfh_pop(case["sfh"], case["mah"], case["t"], case["lgt0"], case["fb"], "f64"))


@prop_test(cases, quick=250, thorough=8000, mode="f64", rule=RULE)
def gas_model_sfh_matches_model(case, ctx):
    t = gen.arr(case["t"], ctx.mode)
    pop = calc_mgas_galpop(sfh_nt(case["sfh"], ctx.mode), mah_nt(case["mah"], ctx.mode), t,
                           case["lgt0"], case["fb"])
    want = _compare(pop.sfh, case, ctx, "calc_mgas_galpop.sfh")
    _classify(case, ctx, want)
    one = calc_mgas_singlegal(sfh_nt(case["sfh"][1], ctx.mode), mah_nt(case["mah"][1], ctx.mode), t,
                              case["lgt0"], case["fb"])
    _compare(one.sfh, case, ctx, "calc_mgas_singlegal.sfh", rows=1)


@prop_test(cases, quick=150, thorough=4000, mode="f64", rule=RULE)
def default_cosmology_of_gas_model(case, ctx):
    """The documented defaults (13.8 Gyr, fb = 0.156) are what is used when omitted."""
    t = gen.arr(case["t"], ctx.mode)
    case = dict(case, lgt0=float(np.log10(13.8)), fb=0.156)
    pop = calc_mgas_galpop(sfh_nt(case["sfh"], ctx.mode), mah_nt(case["mah"], ctx.mode), t)
    _compare(pop.sfh, case, ctx, "calc_mgas_galpop default cosmology")
    one = calc_mgas_singlegal(sfh_nt(case["sfh"][0], ctx.mode), mah_nt(case["mah"][0], ctx.mode), t)
    _compare(one.sfh, case, ctx, "calc_mgas_singlegal default cosmology", rows=0)


def _both(case, ctx):
    population_sfh_matches_model(case, ctx)
    single_sfh_matches_model(case, ctx)
    if len(case["t"]) > 2:
        gas_model_sfh_matches_model(dict(case, sfh=(case["sfh"] * 2)[:max(2, len(case["sfh"]))], mah=(case["mah"] * 2)[:max(2, len(case["mah"]))]), ctx)


any_size("populations_and_grids_of_any_size", _both, build, dict(nt_min=2))
