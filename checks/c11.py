"""C11: quenched fractions are valid probabilities with the right dependences."""
import numpy as np

from checks.common import any_size
from checks.popcommon import bounded_pop, key, pop_nt, pop_r32, sub_arrays, subhalo
from diffstar.diffstarpop import mc_diffstar_params_galpop, mc_diffstar_params_singlegal
from diffstar.diffstarpop.defaults import DEFAULT_DIFFSTARPOP_PARAMS
from diffstar.diffstarpop.kernels.defaults_mgash import DEFAULT_SATQUENCHPOP_PARAMS
from diffstar.diffstarpop.kernels.satquenchpop_model import get_qprob_sat
from pbt import gen, ref
from pbt.core import check, close, leq, prop_test

NG = 8
SAT = DEFAULT_SATQUENCHPOP_PARAMS._fields
RULE = "non-trivial: the population has centrals and satellites with different quenched fractions"


def build(r, ng):
    halos = [subhalo(r, central=(i % 3 == 0) if i < 6 else None) for i in range(ng)]
    return dict(p=bounded_pop(r), halos=halos, seed=r.seed(), other=[r.uf(-6, 0), r.uf(10, 16), r.uf(-6, 12)],
                i=r.integer(0, ng - 1))


cases = gen.case_of(lambda r: build(r, NG))


def _frac(p, halos, seed, ctx):
    return np.asarray(mc_diffstar_params_galpop(pop_nt(p, ctx.mode), *sub_arrays(halos, ctx.mode), key(seed))[2], float)


@prop_test(cases, quick=300, thorough=10000, mode=("f64", "f32"), rule=RULE)
def fractions_follow_the_model(case, ctx):
    fq = _frac(case["p"], case["halos"], case["seed"], ctx)
    check(np.all((fq >= -ctx.tol(1e-14, 1e-6)) & (fq <= 1 + ctx.tol(1e-14, 1e-6))), lambda: f"frac_q outside [0, 1]: {fq}")
    h = np.array([[float(x) for x in row] for row in case["halos"]])
    hr = gen.r32(h, ctx.mode)
    p = pop_r32(case["p"], ctx.mode)
    want = ref.frac_q(p, hr[:, 0], hr[:, 1], h[:, 2], hr[:, 3], hr[:, 4], hr[:, 5])
    close(fq, want, "frac_q", atol=ctx.tol(1e-10, 2e-4))
    # centrals ignore infall information; satellite or central must not depend on the id value
    alt = [[a[0], a[1], -1, *case["other"]] if a[2] == -1 else [*a[:2], 31337, *a[3:]] for a in case["halos"]]
    close(_frac(case["p"], alt, case["seed"], ctx), fq, "frac_q after changing infall data of centrals / satellite ids",
          atol=ctx.tol(1e-12, 1e-6))
    # the fraction is not random
    close(_frac(case["p"], case["halos"], case["seed"] + 1, ctx), fq, "frac_q depends on the random key", atol=ctx.tol(1e-13, 1e-6))
    i = case["i"]
    a = sub_arrays([case["halos"][i]], ctx.mode)
    one = mc_diffstar_params_singlegal(pop_nt(case["p"], ctx.mode), *[x[0] for x in a], key(case["seed"]))
    close(float(one.frac_q), want[i], "frac_q of mc_diffstar_params_singlegal", atol=ctx.tol(1e-10, 2e-4))
    cen = h[:, 2] == -1
    ctx.label("satellites %d" % (~cen).sum())
    ctx.nontrivial(cen.any() and (~cen).any() and np.ptp(fq) > 1e-3)


@gen.case_of
def sat_cases(r):
    return dict(p=bounded_pop(r), lgmu=r.uf(-6.0, 0.5), lgmh=r.uf(10.0, 16.0), gyr=sorted(r.uf(-12.0, 14.0) for _ in range(12)),
                base=[r.uf(0.0, 1.0) for _ in range(12)])


@prop_test(sat_cases, quick=600, thorough=20000, mode=("f64", "f32"), rule="non-trivial: the fraction changes with time since infall")
def satellite_share_rises_to_its_plateau(case, ctx):
    p = case["p"]
    sp = DEFAULT_SATQUENCHPOP_PARAMS._make([gen.arr(p[k], ctx.mode) for k in SAT])
    n = 12
    lgmu, lgmh = gen.arr(np.full(n, case["lgmu"]), ctx.mode), gen.arr(np.full(n, case["lgmh"]), ctx.mode)
    base, gyr = gen.arr(case["base"], ctx.mode), gen.arr(case["gyr"], ctx.mode)
    q = np.asarray(get_qprob_sat(sp, lgmu, lgmh, gyr, base), float)
    tol = ctx.tol(1e-13, 1e-6)
    check(np.all((q >= -tol) & (q <= 1 + tol)), "satellite fraction outside [0, 1]")
    leq(base, q, "infall lowers the quenched fraction", atol=tol)
    b0 = gen.arr(np.full(n, case["base"][0]), ctx.mode)
    rise = np.asarray(get_qprob_sat(sp, lgmu, lgmh, gyr, b0), float)
    leq(rise[:-1], rise[1:], "satellite fraction falls with time since infall", atol=tol)
    want, plateau, delay = ref.sat_frac(pop_r32(p, ctx.mode), gen.r32(case["lgmu"], ctx.mode), gen.r32(case["lgmh"], ctx.mode),
                                        gen.r32(case["gyr"], ctx.mode), gen.r32(case["base"], ctx.mode))
    close(q, want, "satellite fraction", atol=ctx.tol(1e-10, 2e-4))
    far = gen.arr(np.full(n, 60.0), ctx.mode)
    late = np.asarray(get_qprob_sat(sp, lgmu, lgmh, far, base), float)
    early = np.asarray(get_qprob_sat(sp, lgmu, lgmh, -far, base), float)
    close(early, base.astype(float), "fraction long before infall is not the base fraction", atol=ctx.tol(1e-12, 1e-5))
    close(late, base + plateau * (1 - base.astype(float)), "late-time plateau", atol=ctx.tol(1e-10, 2e-4))
    ctx.nontrivial(np.ptp(rise) > 1e-4)


@gen.case_of
def mono(r):
    return dict(p=bounded_pop(r), logmp0=r.uf(9, 15), tpeak=r.uf(1, 14), gyr=sorted(r.uf(-6, 14) for _ in range(NG)),
                lgmu=r.uf(-5, 0.5), lgmh=r.uf(11, 15.5), seed=r.seed())


@prop_test(mono, quick=200, thorough=6000, mode="f64", rule="non-trivial: fractions of the satellites differ")
def population_satellites_rise_with_time_since_infall(case, ctx):
    halos = [[case["logmp0"], case["tpeak"], 5, case["lgmu"], case["lgmh"], g] for g in case["gyr"]]
    fq = _frac(case["p"], halos, case["seed"], ctx)
    leq(fq[:-1], fq[1:], "frac_q falls with time since infall", atol=1e-13)
    pre = _frac(case["p"], [[*h[:5], -200.0] for h in halos], case["seed"], ctx)
    leq(pre, fq, "infall lowers the quenched fraction", atol=1e-13)
    ctx.nontrivial(np.ptp(fq) > 1e-4)


any_size("fractions_of_large_populations", fractions_follow_the_model, build, lambda r: dict(ng=r.size()))
