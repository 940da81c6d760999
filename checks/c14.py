"""C14: Monte Carlo outputs agree with each other for the same random key."""
import jax
import numpy as np

from checks.common import any_size, mah_nt
from checks.popcommon import bounded_pop, key, pop_nt, sub_arrays, subhalo
from diffstar import calc_sfh_galpop, calc_sfh_singlegal
from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS, get_bounded_diffstar_params
from diffstar.diffstarpop import (
    mc_diffstar_params_galpop,
    mc_diffstar_params_singlegal,
    mc_diffstar_sfh_galpop,
    mc_diffstar_sfh_singlegal,
)
from diffstar.diffstarpop.kernels import diffstarpop_mgash as kern
from diffstar.diffstarpop.mc_diffstarpop_mgash import mc_diffstar_u_params_galpop, mc_diffstar_u_params_singlegal
from diffstar.diffstarpop.param_utils import mc_select_diffstar_params
from pbt import gen
from pbt.core import check, close, prop_test

NG, NT = 5, 12
P = DEFAULT_DIFFSTAR_PARAMS._fields
RULE = "non-trivial: the halos of the population differ"


def build(r, ng, nt):
    halos = [subhalo(r) for _ in range(ng)]
    mah = [r.mah_params(True)[:4] for _ in range(ng)]
    return dict(p=bounded_pop(r), halos=halos, mah=mah, seed=r.seed(), t=r.tgrid(nt), new=[subhalo(r) for _ in range(ng)],
                newmah=[r.mah_params(True)[:4] for _ in range(ng)], keep=r.integer(0, ng - 1), **r.cosmology())


cases = gen.case_of(lambda r: build(r, NG, NT))


def _mah(case, halos, mah):
    return [[*m, h[1]] for m, h in zip(mah, halos)]


def _tab(par, pre=""):
    return np.stack([np.asarray(getattr(par, pre + k), float) for k in P], -1)


def _same(a, b, what, ctx, tol=None):
    close(a, b, what, rtol=tol or ctx.tol(1e-9, 1e-4), atol=ctx.tol(1e-10, 2e-5))


def _flags(fq, a, b, what):
    check(np.array_equal(a, b), f"{what}: quenched flags differ")


@prop_test(cases, quick=160, thorough=6000, mode=("f64", "f32"), rule=RULE)
def population_generators_agree(case, ctx):
    pn, k = pop_nt(case["p"], ctx.mode), key(case["seed"])
    sub = sub_arrays(case["halos"], ctx.mode)
    mah = mah_nt(_mah(case, case["halos"], case["mah"]), ctx.mode)
    t = gen.arr(case["t"], ctx.mode)
    kw = dict(lgt0=case["lgt0"], fb=case["fb"])
    rest = [sub[0], *sub[2:]]
    s = mc_diffstar_sfh_galpop(pn, mah, *rest, k, t, **kw)
    s2 = mc_diffstar_sfh_galpop(pn, mah, *rest, k, t, **kw)
    for a, b in zip(jax.tree_util.tree_leaves(s), jax.tree_util.tree_leaves(s2)):
        check(np.array_equal(a, b, equal_nan=False), "repeated call with the same key differs")
    check(s._fields == ("diffstar_params_ms", "diffstar_params_q", "sfh_ms", "sfh_q", "frac_q", "mc_is_q"), "fields of the SFH generator")
    p_ms, p_q, fq, isq = mc_diffstar_params_galpop(pn, *sub, k)
    u_ms, u_q, ufq, uisq = mc_diffstar_u_params_galpop(pn, *sub, k)
    for nm, par, u, sp in (("main-sequence", p_ms, u_ms, s.diffstar_params_ms), ("quenched", p_q, u_q, s.diffstar_params_q)):
        check(type(par)._fields == P, f"{nm} params are not diffstar params")
        want = _tab(par)
        check(want.shape == (len(case["halos"]), 8), f"{nm} params shape {want.shape}")
        _same(_tab(sp), want, f"{nm} params of mc_diffstar_sfh_galpop vs mc_diffstar_params_galpop", ctx)
        ng = len(want)
        some = range(ng) if ng <= NG else [0, ng // 2, ng - 1]
        bnd = [get_bounded_diffstar_params(type(u)(*[x[i] for x in u])) for i in some]
        _same(np.stack([_tab(b) for b in bnd]), want[list(some)], f"{nm} u_params do not bound to the params", ctx)
    for nm, f2, i2 in (("mc_diffstar_sfh_galpop", s.frac_q, s.mc_is_q), ("mc_diffstar_u_params_galpop", ufq, uisq)):
        _same(f2, fq, f"frac_q of {nm} vs mc_diffstar_params_galpop", ctx)
        _flags(fq, np.asarray(i2), np.asarray(isq), f"{nm} vs mc_diffstar_params_galpop")
    for nm, sfh, par in (("sfh_ms", s.sfh_ms, p_ms), ("sfh_q", s.sfh_q, p_q)):
        want = np.asarray(calc_sfh_galpop(par, mah, t, **kw), float)
        check(np.asarray(sfh).shape == (len(case["halos"]), len(t)), f"{nm} shape")
        close(np.log10(np.asarray(sfh, float)), np.log10(want), f"{nm} is not the SFH of the returned params (log10)", atol=ctx.tol(1e-8, 5e-3))
    # galaxy i is the single galaxy of the i-th key split from the population's key
    ks, ng = jax.random.split(k, len(case["halos"])), len(case["halos"])
    for i in sorted({0, case["keep"], ng - 1}):
        one = mc_diffstar_params_singlegal(pn, *[x[i] for x in sub], ks[i])
        what = f"galaxy {i} of {ng} is not the single galaxy of its key: "
        _same(_tab(one.diffstar_params_ms), _tab(p_ms)[i], what + "main-sequence params", ctx)
        _same(_tab(one.diffstar_params_q), _tab(p_q)[i], what + "quenched params", ctx)
        _same(float(one.frac_q), float(fq[i]), what + "frac_q", ctx)
        if abs(float(jax.random.uniform(jax.random.split(ks[i], 4)[3])) - float(one.frac_q)) > 1e-5:
            check(bool(one.mc_is_q) == bool(isq[i]), what + "flag")
    # only galaxy `keep` retains its inputs; its realization must not notice
    j = case["keep"]
    halos = [case["halos"][i] if i == j else case["new"][i] for i in range(len(case["halos"]))]
    mm = [case["mah"][i] if i == j else case["newmah"][i] for i in range(len(case["halos"]))]
    sub2 = sub_arrays(halos, ctx.mode)
    o = mc_diffstar_sfh_galpop(pn, mah_nt(_mah(case, halos, mm), ctx.mode), sub2[0], *sub2[2:], k, t, **kw)
    what = "galaxy's realization changed with the other galaxies' inputs: "
    _same(_tab(o.diffstar_params_ms)[j], _tab(p_ms)[j], what + "main-sequence params", ctx)
    _same(_tab(o.diffstar_params_q)[j], _tab(p_q)[j], what + "quenched params", ctx)
    check(bool(o.mc_is_q[j]) == bool(isq[j]), what + "flag")
    close(np.log10(np.asarray(o.sfh_q[j], float)), np.log10(np.asarray(s.sfh_q[j], float)), what + "sfh_q", atol=ctx.tol(1e-8, 5e-3))
    close(np.log10(np.asarray(o.sfh_ms[j], float)), np.log10(np.asarray(s.sfh_ms[j], float)), what + "sfh_ms", atol=ctx.tol(1e-8, 5e-3))
    # selection by flag
    sel = mc_select_diffstar_params(p_q, p_ms, isq)
    check(type(sel)._fields == P, "mc_select_diffstar_params fields")
    want = np.where(np.asarray(isq)[:, None], _tab(p_q), _tab(p_ms))
    check(np.array_equal(_tab(sel), want), "mc_select_diffstar_params does not select by flag")
    ctx.label("quenched %d" % int(np.sum(isq)))
    ctx.nontrivial(np.ptp(np.asarray(sub[0], float)) > 0)


@prop_test(cases, quick=220, thorough=8000, mode=("f64", "f32"), rule=RULE)
def single_galaxy_generators_agree(case, ctx):
    pn, k = pop_nt(case["p"], ctx.mode), key(case["seed"])
    i = case["keep"]
    sub = [x[0] for x in sub_arrays([case["halos"][i]], ctx.mode)]
    mah = mah_nt(_mah(case, case["halos"], case["mah"])[i], ctx.mode)
    t = gen.arr(case["t"], ctx.mode)
    kw = dict(lgt0=case["lgt0"], fb=case["fb"])
    s = mc_diffstar_sfh_singlegal(pn, mah, sub[0], *sub[2:], k, t, **kw)
    p = mc_diffstar_params_singlegal(pn, *sub, k)
    p2 = mc_diffstar_params_singlegal(pn, *sub, k)
    u = mc_diffstar_u_params_singlegal(pn, *sub, k)
    for a, b in zip(jax.tree_util.tree_leaves(p), jax.tree_util.tree_leaves(p2)):
        check(np.array_equal(a, b), "repeated call with the same key differs")
    for nm, par, uu, sp in (("main-sequence", p.diffstar_params_ms, u[0], s.diffstar_params_ms),
                            ("quenched", p.diffstar_params_q, u[1], s.diffstar_params_q)):
        _same(_tab(sp), _tab(par), f"{nm} params of mc_diffstar_sfh_singlegal vs mc_diffstar_params_singlegal", ctx)
        _same(_tab(get_bounded_diffstar_params(uu)), _tab(par), f"{nm} u_params do not bound to the params", ctx)
    for nm, f2, i2 in (("mc_diffstar_sfh_singlegal", s.frac_q, s.mc_is_q), ("mc_diffstar_u_params_singlegal", u[2], u[3])):
        _same(f2, p.frac_q, f"frac_q of {nm}", ctx)
        check(bool(i2) == bool(p.mc_is_q), f"{nm}: quenched flag differs")
    for nm, sfh, par in (("sfh_ms", s.sfh_ms, p.diffstar_params_ms), ("sfh_q", s.sfh_q, p.diffstar_params_q)):
        want = np.asarray(calc_sfh_singlegal(par, mah, t, **kw), float)
        check(np.asarray(sfh).shape == t.shape, f"{nm} shape")
        close(np.log10(np.asarray(sfh, float)), np.log10(want), f"{nm} is not the SFH of the returned params (log10)", atol=ctx.tol(1e-8, 5e-3))
    # the quenched fraction is a property of the halo: population and single galaxy agree
    pop = mc_diffstar_params_galpop(pn, *sub_arrays(case["halos"], ctx.mode), k)
    _same(float(pop[2][i]), float(p.frac_q), "frac_q of the population vs the single galaxy", ctx)
    # kernel used for centrals only
    if sub[2] == -1:
        a = kern.mc_diffstar_u_params_singlegal_kernel(pn, *sub, k)
        b = kern.mc_diffstar_u_params_singlegal_kernel_cen(pn, sub[0], sub[1], k)
        for x, y in zip(a[:2], b[:2]):
            _same(_tab(y, "u_"), _tab(x, "u_"), "centrals-only kernel vs general kernel: u_params", ctx)
        _same(b[2], a[2], "centrals-only kernel vs general kernel: frac_q", ctx)
        check(bool(a[3]) == bool(b[3]), "centrals-only kernel vs general kernel: flag")
        ctx.label("central")


@gen.case_of
def sel_cases(r):
    n = 6
    return dict(a=[r.diffstar_params() for _ in range(n)], b=[r.diffstar_params() for _ in range(n)], f=[r.bool() for _ in range(n)],
                kind=r.choice(["bool", "int", "list"]))


@prop_test(sel_cases, quick=150, thorough=4000, mode=("f64", "f32"), rule="non-trivial: both flag values occur")
def selection_by_flag(case, ctx):
    mk = lambda x: DEFAULT_DIFFSTAR_PARAMS._make(gen.arr(x, ctx.mode).T)
    a, b = mk(case["a"]), mk(case["b"])
    f = {"bool": np.array(case["f"]), "int": np.array(case["f"]).astype(int), "list": jax.numpy.array(case["f"])}[case["kind"]]
    out = mc_select_diffstar_params(a, b, f)
    want = np.where(np.array(case["f"])[:, None], _tab(a), _tab(b))
    check(type(out)._fields == P and np.array_equal(_tab(out), want), "mc_select_diffstar_params does not select by flag")
    ctx.nontrivial(len(set(case["f"])) == 2)


any_size("generators_agree_for_large_populations", population_generators_agree, build, dict(big_g=2500, big_t=800), quick=3)


@gen.case_of
def few(r):
    return build(r, r.integer(1, 4), NT)


@prop_test(few, quick=60, thorough=1500, mode="f64", rule="non-trivial: always (populations of one to four galaxies)")
def small_populations(case, ctx):
    population_generators_agree(case, ctx)
    ctx.nontrivial(True)


any_size("single_galaxy_generators_on_long_grids", single_galaxy_generators_agree, build, lambda r: dict(ng=r.size(300), nt=r.size(1500)), quick=2)
