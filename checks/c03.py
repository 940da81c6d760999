"""C03: population results equal galaxy-by-galaxy results; time-grid independence."""
import numpy as np

from checks.common import any_size, lg, mah_nt, sfh_lg_tol, sfh_nt
from diffstar import calc_mgas_galpop, calc_mgas_singlegal, calc_sfh_galpop, calc_sfh_singlegal
from diffstar.utils import cumulative_mstar_formed, cumulative_mstar_formed_galpop
from pbt import gen
from pbt.core import check, close, prop_test

NG, NT = 7, 21
RULE = "non-trivial: galaxies of the population differ in every parameter and their SFHs differ"


def build(r, ng, nt):
    g = r.galaxies(ng, typical=r.bool(0.4))
    case = dict(t=r.tgrid(nt), **g, **r.cosmology())
    case["perm"] = r.perm(ng)
    case["pick"] = [r.integer(0, ng - 1) for _ in range(4)]
    case["times"] = sorted(r.perm(nt)[:6])
    case["one"] = r.integer(0, nt - 1)
    return case


cases = gen.case_of(lambda r: build(r, NG, NT))


def _args(case, ctx, rows=None):
    s, m = case["sfh"], case["mah"]
    if rows is not None:
        s, m = [s[i] for i in rows], [m[i] for i in rows]
    return sfh_nt(s, ctx.mode), mah_nt(m, ctx.mode), gen.arr(case["t"], ctx.mode)


def _tol(case, ctx):
    return 0.2 * sfh_lg_tol(case["sfh"], ctx.mode)


def _gas_close(a, b, ctx, what, tol):
    """Gas histories (NG, nt) of two evaluations of the same galaxies."""
    close(lg(a.sfh), lg(b.sfh), what + " sfh (log10)", atol=tol)
    close(lg(a.smh), lg(b.smh), what + " smh (log10)", atol=tol)
    ma, mb, smh = np.asarray(a.mgash, float), np.asarray(b.mgash, float), np.asarray(b.smh, float)
    scale = np.abs(mb) + 2 * smh
    close(ma, mb, what + " mgas", atol=(3 * tol + ctx.tol(1e-10, 1e-4)) * scale.max(axis=-1, keepdims=True))
    return scale


@prop_test(cases, quick=300, thorough=8000, mode=("f64", "f32"), rule=RULE)
def rows_equal_single_galaxies(case, ctx):
    s, m, t = _args(case, ctx)
    kw = dict(lgt0=case["lgt0"], fb=case["fb"])
    pop = calc_sfh_galpop(s, m, t, return_smh=True, **kw)
    tol = _tol(case, ctx)
    check(pop.sfh.shape == (len(case["sfh"]), len(case["t"])), "population SFH has the wrong shape")
    for i in case["pick"][:3]:
        one = calc_sfh_singlegal(sfh_nt(case["sfh"][i], ctx.mode), mah_nt(case["mah"][i], ctx.mode), t,
                                 return_smh=True, **kw)
        close(lg(pop.sfh[i]), lg(one.sfh), f"row {i} of the population SFH (log10)", atol=tol[i])
        close(lg(pop.smh[i]), lg(one.smh), f"row {i} of the population mass (log10)", atol=tol[i])
    ctx.nontrivial(len(set(map(tuple, case["sfh"]))) == len(case["sfh"]) and np.ptp(lg(pop.sfh)[:, -1]) > 0.1)


@prop_test(cases, quick=200, thorough=6000, mode=("f64", "f32"), rule=RULE)
def gas_rows_equal_single_galaxies(case, ctx):
    s, m, t = _args(case, ctx)
    pop = calc_mgas_galpop(s, m, t, case["lgt0"], case["fb"])
    tol = _tol(case, ctx)
    dt = np.diff(gen.r32(case["t"], ctx.mode)).min()
    for i in case["pick"][:2]:
        one = calc_mgas_singlegal(sfh_nt(case["sfh"][i], ctx.mode), mah_nt(case["mah"][i], ctx.mode), t,
                                  case["lgt0"], case["fb"])
        row = type(one)(*[x[i] for x in pop])
        scale = _gas_close(row, one, ctx, f"row {i} of the gas population", tol[i])
        rate = np.abs(np.asarray(one.dmgash, float)).max() + scale.max() / dt / 1e9
        close(row.dmgash, one.dmgash, f"row {i} of the gas rate", atol=(3 * tol[i] + ctx.tol(1e-10, 1e-4)) * rate)
    ctx.nontrivial(len(set(map(tuple, case["sfh"]))) == len(case["sfh"]))


@prop_test(cases, quick=300, thorough=8000, mode=("f64", "f32"), rule=RULE)
def reordering_duplicating_dropping(case, ctx):
    s, m, t = _args(case, ctx)
    kw = dict(lgt0=case["lgt0"], fb=case["fb"])
    full = calc_sfh_galpop(s, m, t, return_smh=True, **kw)
    tol = _tol(case, ctx)
    for name, rows in (("reordered", case["perm"]), ("re-sampled", case["pick"]), ("single-row", case["pick"][:1])):
        s2, m2, _ = _args(case, ctx, rows)
        sub = calc_sfh_galpop(s2, m2, t, return_smh=True, **kw)
        close(lg(sub.sfh), lg(full.sfh)[rows], f"{name} population SFH (log10)", atol=tol[rows])
        close(lg(sub.smh), lg(full.smh)[rows], f"{name} population mass (log10)", atol=tol[rows])
    gas = calc_mgas_galpop(s, m, t, case["lgt0"], case["fb"])
    s2, m2, _ = _args(case, ctx, case["perm"])
    gas2 = calc_mgas_galpop(s2, m2, t, case["lgt0"], case["fb"])
    want = type(gas)(*[np.asarray(x)[case["perm"]] for x in gas])
    _gas_close(gas2, want, ctx, "reordered gas population", tol[case["perm"]])
    ctx.nontrivial(case["perm"] != sorted(case["perm"]) and np.ptp(lg(full.sfh)[:, -1]) > 0.1)


@prop_test(cases, quick=250, thorough=8000, mode=("f64", "f32"), rule="non-trivial: the SFHs vary over the grid")
def sfr_does_not_depend_on_other_times(case, ctx):
    s, m, t = _args(case, ctx)
    kw = dict(lgt0=case["lgt0"], fb=case["fb"])
    full = lg(calc_sfh_galpop(s, m, t, **kw))
    tol = _tol(case, ctx)
    sub = calc_sfh_galpop(s, m, t[case["times"]], **kw)
    close(lg(sub), full[:, case["times"]], "population SFH on a sub-grid (log10)", atol=tol)
    one = calc_sfh_galpop(s, m, t[[case["one"]]], **kw)
    close(lg(one), full[:, [case["one"]]], "population SFH at a single time (log10)", atol=tol)
    i = case["pick"][0]
    s1, m1 = sfh_nt(case["sfh"][i], ctx.mode), mah_nt(case["mah"][i], ctx.mode)
    sub = calc_sfh_singlegal(s1, m1, t[case["times"]], **kw)
    close(lg(sub), full[i, case["times"]], "single-galaxy SFH on a sub-grid (log10)", atol=tol[i])
    ctx.nontrivial(np.ptp(full, axis=1).max() > 0.1)


@gen.case_of
def tables(r):
    n, nt = 5, 13
    sfh = [[r.choice([0.0, 1e-14, None, None, None, None]) for _ in range(nt)] for _ in range(n)]
    sfh = [[r.logf(1e-8, 1e4) if x is None else x for x in row] for row in sfh]
    return dict(t=r.tgrid(nt), sfh=sfh, perm=r.perm(n))


@prop_test(tables, quick=250, thorough=8000, mode=("f64", "f32"), rule="non-trivial: rows differ")
def integrator_rows_equal_single(case, ctx):
    t, sfh = gen.arr(case["t"], ctx.mode), gen.arr(case["sfh"], ctx.mode)
    pop = np.asarray(cumulative_mstar_formed_galpop(t, sfh), float)
    rows = range(len(sfh)) if len(sfh) < 20 else case["perm"][:12]
    one = np.array([np.asarray(cumulative_mstar_formed(t, sfh[i]), float) for i in rows])
    close(pop[rows], one, "population integrator row", rtol=ctx.tol(1e-12, 1e-5))
    p2 = np.asarray(cumulative_mstar_formed_galpop(t, sfh[case["perm"]]), float)
    close(p2, pop[case["perm"]], "reordered integrator", rtol=ctx.tol(1e-12, 1e-5))


SIZES = [(1, 1), (4, 4), (5, 5), (8, 8), (4, 9), (5, 1), (2, 2), (3, 8), (13, 5), (12, 12), (40, 4)]


@gen.case_of
def sized(r):
    ng, nt = r.choice(SIZES)
    return dict(t=r.tgrid(nt) if nt > 1 else [r.uf(0.5, 13.5)], **r.galaxies(ng, typical=r.bool(0.5)), **r.cosmology(),
                pick=[r.integer(0, ng - 1), ng - 1])


@prop_test(sized, quick=150, thorough=5000, mode=("f64", "f32"),
           rule="non-trivial: the number of galaxies equals the number of times or of parameters, and the galaxies differ")
def any_population_size(case, ctx):
    """Sizes for which two axes of a table could be taken for one another."""
    s, m, t = _args(case, ctx)
    kw = dict(lgt0=case["lgt0"], fb=case["fb"])
    ng, nt = len(case["sfh"]), len(case["t"])
    pop = calc_sfh_galpop(s, m, t, return_smh=True, **kw)
    alone = calc_sfh_galpop(s, m, t, **kw)
    tol = _tol(case, ctx)
    check(pop.sfh.shape == pop.smh.shape == alone.shape == (ng, nt), lambda: f"shapes {pop.sfh.shape}, {alone.shape} of {ng} galaxies at {nt} times")
    gas = calc_mgas_galpop(s, m, t, case["lgt0"], case["fb"]) if nt > 2 else None  # a rate needs three times
    for i in case["pick"]:
        a = sfh_nt(case["sfh"][i], ctx.mode), mah_nt(case["mah"][i], ctx.mode), t
        one = calc_sfh_singlegal(*a, return_smh=True, **kw)
        here = f"row {i} of {ng} galaxies at {nt} times"
        close(lg(pop.sfh[i]), lg(one.sfh), here + ": sfh (log10)", atol=tol[i])
        close(lg(pop.smh[i]), lg(one.smh), here + ": smh (log10)", atol=tol[i])
        close(lg(alone[i]), lg(one.sfh), here + ": sfh without smh (log10)", atol=tol[i])
        if gas is not None:
            g1 = calc_mgas_singlegal(*a, case["lgt0"], case["fb"])
            check(gas.mgash.shape == gas.dmgash.shape == (ng, nt), "shape of the gas population")
            _gas_close(type(g1)(*[x[i] for x in gas]), g1, ctx, here + ": gas", tol[i])
    ctx.label(f"{ng}x{nt}")
    ctx.nontrivial((ng == nt or ng in (4, 5, 8)) and len(set(map(tuple, case["sfh"]))) == ng)


def _all(case, ctx):
    n = len(case["sfh"])
    case["pick"] = [n - 1, n // 2, *case["pick"][:2]]
    rows_equal_single_galaxies(case, ctx)
    gas_rows_equal_single_galaxies(case, ctx)
    reordering_duplicating_dropping(case, ctx)
    sfr_does_not_depend_on_other_times(case, ctx)
    table = dict(t=case["t"], perm=case["perm"], sfh=np.resize(np.array(case["sfh"])[:, 0], (n, len(case["t"]))) ** 2)
    integrator_rows_equal_single(table, ctx)


any_size("large_populations_and_long_grids", _all, build, dict(big_g=2600, big_t=1500))
