"""C06: gas and stars account for all accreted baryons."""
import numpy as np

from checks.common import any_size, lg, mah_nt, ref_lg_sfh_pop, sfh_lg_tol, sfh_nt
from diffstar import calc_mgas_galpop, calc_mgas_singlegal, calc_sfh_galpop
from pbt import gen, ref
from pbt.core import all_finite, check, close, prop_test

NG, NT = 5, 26
RULE = "non-trivial: some halo is accreting at the last time or stops inside the grid, and forms stars"


def build(r, ng, nt):
    g = r.galaxies(ng, typical=r.bool())
    t = r.tgrid(nt)
    if r.bool():
        g["mah"][r.integer(0, ng - 1)][4] = r.choice(t[2:])
    return dict(t=t, **g, **r.cosmology(), i=r.integer(0, ng - 1))


cases = gen.case_of(lambda r: build(r, NG, NT))


def _verify(gas, rows, case, ctx, what):
    t = gen.r32(case["t"], ctx.mode)
    mah = gen.r32(case["mah"], ctx.mode)
    acc = np.array([ref.cumul_mass(t, case["fb"] * ref.dmhdt(mah[i], t, case["lgt0"])) for i in rows])
    g = [np.atleast_2d(np.asarray(x, float)) for x in gas]
    sfh, smh, dm, mg = g
    for name, x in zip(("sfh", "smh", "dmgash", "mgash"), g):
        check(x.shape == (len(rows), len(t)), f"{what}.{name}: wrong shape {x.shape}")
        all_finite(x, f"{what}.{name}")
    scale = np.maximum(np.abs(acc), smh)
    run = np.maximum.accumulate(scale, axis=1)
    # diffmah: dM/dt cancels analytically, so f32 accretion is only good to ~1e-3
    close(mg + smh, acc, f"{what}: gas + stars differ from the accreted baryons", atol=ctx.tol(1e-9, 2e-3) * run)
    dt = ref.dt_cells(t)
    want = np.array([ref.dt_cells(x) for x in mg]) / dt / 1e9
    err = ctx.tol(1e-13, 3e-6) * np.abs(mg).max(axis=1, keepdims=True) / dt / 1e9
    # in f32 the cell widths themselves carry the rounding of the mid-points
    dterr = ctx.tol(1e-13, 3e-6) * t[-1] / dt
    close(dm, want, f"{what}: net gas rate is not the derivative of the gas mass",
          atol=err + np.abs(want) * (dterr + ctx.tol(1e-10, 1e-4)))
    tol = sfh_lg_tol([case["sfh"][i] for i in rows], ctx.mode)
    want = ref_lg_sfh_pop([case["sfh"][i] for i in rows], [case["mah"][i] for i in rows], case["t"],
                          case["lgt0"], case["fb"], ctx.mode)
    close(lg(sfh), want, f"{what}.sfh (log10)", atol=tol + 0 * want)
    smh_ref = np.array([ref.cumul_mass(t, x) for x in sfh])
    close(smh, smh_ref, f"{what}.smh", rtol=ctx.tol(1e-10, 2e-5))


@prop_test(cases, quick=500, thorough=15000, mode=("f64", "f32"), rule=RULE)
def population_gas_budget(case, ctx):
    s, m, t = sfh_nt(case["sfh"], ctx.mode), mah_nt(case["mah"], ctx.mode), gen.arr(case["t"], ctx.mode)
    gas = calc_mgas_galpop(s, m, t, case["lgt0"], case["fb"])
    _verify(gas, range(len(case["sfh"])), case, ctx, "calc_mgas_galpop")
    sfh = calc_sfh_galpop(s, m, t, lgt0=case["lgt0"], fb=case["fb"], return_smh=True)
    tol = sfh_lg_tol(case["sfh"], ctx.mode)
    close(lg(gas.sfh), lg(sfh.sfh), "gas-model SFH vs SFH model (log10)", atol=tol)
    close(lg(gas.smh), lg(sfh.smh), "gas-model mass vs SFH model (log10)", atol=tol)
    inside = any(case["t"][0] < x[4] < case["t"][-1] for x in case["mah"])
    if inside:
        ctx.label("accretion stops inside the grid")
    ctx.nontrivial(np.asarray(gas.smh).max() > 1e5)


@prop_test(cases, quick=350, thorough=10000, mode=("f64", "f32"), rule=RULE)
def single_galaxy_gas_budget(case, ctx):
    t = gen.arr(case["t"], ctx.mode)
    i = case["i"]
    gas = calc_mgas_singlegal(sfh_nt(case["sfh"][i], ctx.mode), mah_nt(case["mah"][i], ctx.mode), t,
                              case["lgt0"], case["fb"])
    _verify(gas, [i], case, ctx, "calc_mgas_singlegal")
    ctx.nontrivial(np.asarray(gas.smh).max() > 1e5)


@prop_test(cases, quick=200, thorough=5000, mode="f64", rule="non-trivial: the galaxy forms stars")
def gas_scales_with_baryon_fraction(case, ctx):
    """Halving fb halves both the accreted baryons and the stars (away from the floor)."""
    s, m, t = sfh_nt(case["sfh"], ctx.mode), mah_nt(case["mah"], ctx.mode), gen.arr(case["t"], ctx.mode)
    a = calc_mgas_galpop(s, m, t, case["lgt0"], case["fb"])
    b = calc_mgas_galpop(s, m, t, case["lgt0"], case["fb"] * 0.5)
    scale = np.abs(np.asarray(a.mgash)) + np.asarray(a.smh)
    close(b.mgash, 0.5 * np.asarray(a.mgash), "mgas at half the baryon fraction",
          atol=1e-9 * np.maximum.accumulate(scale, axis=1) + 1.0)
    ctx.nontrivial(np.asarray(a.smh).max() > 1e5)


def _both(case, ctx):
    population_gas_budget(case, ctx)
    single_galaxy_gas_budget(case, ctx)


any_size("populations_and_grids_of_any_size", _both, build, dict(), mode=("f64", "f32"))
