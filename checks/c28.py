"""C28: every calibrated simulation model is complete, in bounds and usable."""
import jax.numpy as jnp
import numpy as np

from checks.popcommon import DEF, FIELDS, FITS_GAL, FITS_POP, PB, key, sub_arrays, subhalo
from checks.common import mah_nt
from diffstar.diffstarpop import (
    DEFAULT_DIFFSTARPOP_PARAMS,
    DEFAULT_DIFFSTARPOP_U_PARAMS,
    SIMULATION_FIT_PARAMS,
    DiffstarPopParams,
    DiffstarPopUParams,
    get_bounded_diffstarpop_params,
    get_unbounded_diffstarpop_params,
    mc_diffstar_sfh_galpop,
)
from diffstar.diffstarpop.kernels import params as kp
from pbt import gen, ref
from pbt.core import all_finite, check, close, prop_test

SIMS = list(FITS_POP)
NT, NG = 12, 6
REG = {
    "SIMULATION_FIT_PARAMS": (SIMULATION_FIT_PARAMS, None, FITS_POP),
    "Diffstarpopfits_mgash": (kp.DiffstarPop_Params_Diffstarpopfits_mgash, kp.DiffstarPop_UParams_Diffstarpopfits_mgash, FITS_POP),
    "Diffstarfits_mgash": (kp.DiffstarPop_Params_Diffstarfits_mgash, kp.DiffstarPop_UParams_Diffstarfits_mgash, FITS_GAL),
    "default": ({"default": DEFAULT_DIFFSTARPOP_PARAMS}, {"default": DEFAULT_DIFFSTARPOP_U_PARAMS}, {"default": DEF}),
}
ENTRIES = [(r, s) for r in REG for s in REG[r][2]]


def _x(p, names):
    return np.array([float(getattr(p, k)) for k in names])


@gen.case_of
def entries(r):
    reg, sim = r.choice(ENTRIES)
    return dict(reg=reg, sim=sim, other=r.integer(0, len(ENTRIES) - 1), used=r.bool(), perm=r.perm(4))


@prop_test(entries, quick=200, thorough=2000, mode=("f64", "f32"), rule="non-trivial: always; the 16 registry entries are each drawn in every order of access")
def registries(case, ctx):
    # names first: exactly the published simulations
    for name, (bd, ub, fits) in REG.items():
        if name != "default":
            check(set(bd) == set(fits), f"{name} lists {sorted(bd)}")
            check(ub is None or set(ub) == set(fits), f"unbounded {name} lists {sorted(ub or [])}")
    o_reg, o_sim = ENTRIES[case["other"]]
    if case["used"]:  # using another model first must not matter
        o = REG[o_reg][0][o_sim]
        get_unbounded_diffstarpop_params(o)
    reg, sim = case["reg"], case["sim"]
    bd, ub, fits = REG[reg]
    p = bd[sim]
    what = f"{reg}[{sim!r}]"
    check(tuple(p._fields) == FIELDS == tuple(DiffstarPopParams._fields), f"{what}: fields")
    x = _x(p, FIELDS)
    all_finite(x, what)
    exp = np.array([fits[sim][k] for k in FIELDS])
    for k, v, e in zip(FIELDS, x, exp):
        lo, hi = PB[k]
        check(lo < v < hi, f"{what}.{k} = {v} is outside ({lo}, {hi})")
        check(abs(v - e) <= ctx.tol(1e-9, 2e-6) * max(1.0, abs(e)), f"{what}.{k} = {v}, calibrated value {e}")
    w = np.array([PB[k][1] - PB[k][0] for k in FIELDS])
    tol = ctx.tol(1e-9, 1e-5)
    back = get_bounded_diffstarpop_params(get_unbounded_diffstarpop_params(p))
    close(_x(back, FIELDS) / w, x / w, f"{what}: bounded(unbounded(p))", atol=tol)
    if ub is not None:
        u = ub[sim]
        check(tuple(u._fields) == tuple("u_" + k for k in FIELDS), f"unbounded {what}: fields")
        ux = _x(u, u._fields)
        all_finite(ux, f"unbounded {what}")
        rt = get_bounded_diffstarpop_params(DiffstarPopUParams(*[gen.arr(v, ctx.mode) for v in ux]))
        # the module values are made at import, in the precision of the session
        close(_x(rt, FIELDS) / w, x / w, f"unbounded {what} does not map back to the bounded set", atol=ctx.tol(1e-7, 1e-4))
    if o_sim != sim and o_reg == reg:
        check(not np.allclose(_x(bd[o_sim], FIELDS), x), f"{reg}: {o_sim} and {sim} hold the same parameters")
    ctx.label(reg)


@gen.case_of
def populations(r):
    reg, sim = r.choice(ENTRIES)
    h = [subhalo(r) for _ in range(NG)]
    mah = []
    for x in h:
        m = r.mah_params()
        m[0], m[4] = x[0], x[1]
        mah.append(m)
    return dict(reg=reg, sim=sim, halos=h, mah=mah, t=r.tgrid(NT), seed=r.seed(), **r.cosmology())


@prop_test(populations, quick=200, thorough=10000, mode=("f64", "f32"), rule="non-trivial: both quenched and unquenched galaxies occur")
def every_model_generates(case, ctx):
    p = REG[case["reg"]][0][case["sim"]]
    sub = sub_arrays(case["halos"], ctx.mode)
    t = gen.arr(case["t"], ctx.mode)
    out = mc_diffstar_sfh_galpop(p, mah_nt(case["mah"], ctx.mode), sub[0], *sub[2:], key(case["seed"]), t,
                                 **{k: gen.arr(case[k], ctx.mode) for k in ("lgt0", "fb")})
    what = f"{case['reg']}[{case['sim']!r}]"
    ms, q, sms, sq, fq, mc = out[0], out[1], out[-4], out[-3], out[-2], out[-1]
    for s, nm in ((sms, "main-sequence"), (sq, "quenched")):
        check(np.shape(s) == (NG, NT), f"{what}: shape of {nm} SFH")
        all_finite(s, f"{what}: {nm} SFH")
        check(np.all(np.asarray(s, float) >= ref.SFR_MIN * (1 - 1e-6)), f"{what}: {nm} SFH below the floor")
    all_finite(fq, f"{what}: quenched fraction")
    check(np.all((np.asarray(fq) >= 0) & (np.asarray(fq) <= 1)), f"{what}: quenched fraction outside [0, 1]")
    for par in (ms, q):
        for k in ref.PNAMES:
            all_finite(getattr(par, k), f"{what}: drawn {k}")
    mc = np.asarray(mc).astype(bool)
    ctx.label(case["sim"])
    ctx.nontrivial(mc.any() and not mc.all())
