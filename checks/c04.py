"""C04: stellar mass formed is the time integral of the SFH."""
import numpy as np

from checks.common import any_size, mah_nt, sfh_nt
from diffstar import calc_mgas_galpop, calc_mgas_singlegal, calc_sfh_galpop, calc_sfh_singlegal
from diffstar.utils import cumulative_mstar_formed, cumulative_mstar_formed_galpop, cumtrapz
from pbt import gen, ref
from pbt.core import check, close, prop_test

LENGTHS = (2, 3, 12, 33)


def _paired(r, t):
    """Sometimes with snapshots that follow closely on others (down to 1e-6 Gyr)."""
    if not r.bool(0.3):
        return t
    t = list(t)
    for i in range(1, len(t)):
        if r.bool(0.3):
            t[i] = t[i - 1] + r.logf(1e-5, 1e-2) * (t[i] - t[i - 1])
    return t


def build_table(r, ng, nt):
    kind = r.choice(["smooth", "bursts", "rough"])
    lo, hi = (1e-3, 1e3) if kind == "smooth" else (1e-14, 1e5)
    sfh = []
    for _ in range(ng):
        row = [r.logf(lo, hi) for _ in range(nt)]
        if kind == "bursts":
            row = [x if r.bool(0.3) else 0.0 for x in row]
        sfh.append(row)
    t = r.tgrid(nt)
    if r.bool(0.3):  # a table that starts near the earliest allowed time
        t0 = r.logf(0.01, 0.03)
        t = [float(x) for x in t0 + (t[-1] - t0) * (np.array(t) - t[0]) / (t[-1] - t[0])]
    return dict(t=_paired(r, t), sfh=sfh)


tables = gen.case_of(lambda r: build_table(r, nt=r.choice(LENGTHS[::-1]), ng=2))


@prop_test(tables, quick=800, thorough=25000, mode=("f64", "f32"),
           rule="non-trivial: at least two distinct positive SFR values")
def integrator_is_the_trapezoid(case, ctx):
    t, sfh = gen.arr(case["t"], ctx.mode), gen.arr(case["sfh"], ctx.mode)
    want = np.array([ref.cumul_mass(t, s) for s in sfh.astype(float)])
    tol = ctx.tol(1e-12, 1e-5)
    one = cumulative_mstar_formed(t, sfh[0])
    check(one.shape == t.shape, "integrator changes the length")
    close(one, want[0], "cumulative_mstar_formed", rtol=tol)
    close(cumulative_mstar_formed_galpop(t, sfh), want, "cumulative_mstar_formed_galpop", rtol=tol)
    raw = np.concatenate(([0.0], np.cumsum(np.diff(t.astype(float)) * 0.5 * (sfh[-1][1:] + sfh[-1][:-1]).astype(float))))
    close(cumtrapz(t, sfh[-1]), raw, "cumtrapz", rtol=tol * 10, atol=1e-30)
    ctx.label(f"nt={len(case['t'])}")
    ctx.nontrivial(len({x for x in case["sfh"][0] if x > 0}) >= 2)


NG, NT = 5, 26


def build_model(r, ng, nt):
    return dict(**r.galaxies(ng, typical=r.bool()), t=_paired(r, r.tgrid(nt)), **r.cosmology(), i=r.integer(0, ng - 1))


models = gen.case_of(lambda r: build_model(r, NG, NT))


@prop_test(models, quick=350, thorough=10000, mode=("f64", "f32"),
           rule="non-trivial: a galaxy forms more than 1e5 Msun")
def every_entry_point_integrates_its_sfh(case, ctx):
    s, m = sfh_nt(case["sfh"], ctx.mode), mah_nt(case["mah"], ctx.mode)
    t = gen.arr(case["t"], ctx.mode)
    kw = dict(lgt0=case["lgt0"], fb=case["fb"])
    tol = ctx.tol(1e-11, 2e-5)
    integ = lambda sfh: np.array([ref.cumul_mass(t, x) for x in np.atleast_2d(np.asarray(sfh, float))])
    plain = calc_sfh_galpop(s, m, t, **kw)
    off = calc_sfh_galpop(s, m, t, return_smh=False, **kw)
    both = calc_sfh_galpop(s, m, t, return_smh=True, **kw)
    check(tuple(both._fields) == ("sfh", "smh"), "return_smh=True must return (sfh, smh)")
    close(both.sfh, plain, "asking for the mass changes the SFH", rtol=ctx.tol(1e-9, 2e-3))
    close(off, plain, "return_smh=False", rtol=ctx.tol(1e-9, 2e-3))
    close(both.smh, integ(both.sfh), "calc_sfh_galpop smh", rtol=tol)
    gas = calc_mgas_galpop(s, m, t, case["lgt0"], case["fb"])
    close(gas.smh, integ(gas.sfh), "calc_mgas_galpop smh", rtol=tol)
    i = case["i"]
    s1, m1 = sfh_nt(case["sfh"][i], ctx.mode), mah_nt(case["mah"][i], ctx.mode)
    one = calc_sfh_singlegal(s1, m1, t, return_smh=True, **kw)
    close(one.smh, integ(one.sfh)[0], "calc_sfh_singlegal smh", rtol=tol)
    close(calc_sfh_singlegal(s1, m1, t, **kw), one.sfh, "asking for the mass changes the single SFH",
          rtol=ctx.tol(1e-9, 2e-3))
    g1 = calc_mgas_singlegal(s1, m1, t, case["lgt0"], case["fb"])
    close(g1.smh, integ(g1.sfh)[0], "calc_mgas_singlegal smh", rtol=tol)
    ctx.nontrivial(np.asarray(both.smh).max() > 1e5)


@gen.case_of
def linear(r):
    nt = 17
    return dict(t=r.tgrid(nt), a=[r.logf(1e-6, 1e3) for _ in range(nt)], b=[r.logf(1e-6, 1e3) for _ in range(nt)],
                ca=r.logf(0.01, 100), cb=r.logf(0.01, 100), cut=r.integer(1, nt - 2))


@prop_test(linear, quick=300, thorough=10000, mode="f64", rule="non-trivial: always (metamorphic)")
def integrator_is_linear_and_additive(case, ctx):
    """Linear in the SFH, and independent of what happens later."""
    t = np.array(case["t"])
    a, b = np.array(case["a"]), np.array(case["b"])
    f = lambda y: np.asarray(cumulative_mstar_formed(t, y))
    close(f(case["ca"] * a + case["cb"] * b), case["ca"] * f(a) + case["cb"] * f(b), "linearity",
          rtol=1e-9, atol=(1 + case["ca"] + case["cb"]) * 1e-5 * t[0])  # the floor before the first time does not scale
    b2 = a.copy()
    b2[case["cut"]:] = b[case["cut"]:]
    close(f(b2)[: case["cut"]], f(a)[: case["cut"]], "later SFR changes earlier mass", rtol=1e-13)


any_size("integrals_of_large_tables", integrator_is_the_trapezoid, build_table, dict(nt_min=2), mode=("f64", "f32"))
any_size("integrals_of_large_populations", every_entry_point_integrates_its_sfh, build_model, dict())
