"""C08: DiffstarPop parameter bounding and override by name."""
from collections import namedtuple

import numpy as np

from checks.popcommon import DEF, FIELDS, K_BOUND, PB, pop_nt
from diffstar.diffstarpop import (
    DEFAULT_DIFFSTARPOP_PARAMS,
    DEFAULT_DIFFSTARPOP_U_PARAMS,
    DiffstarPopParams,
    DiffstarPopUParams,
    get_bounded_diffstarpop_params,
    get_unbounded_diffstarpop_params,
)
from diffstar.diffstarpop.param_utils import get_all_diffstarpop_u_params, get_all_params_from_varied
from pbt import gen, ref
from pbt.core import check, close, prop_test

N = len(FIELDS)
LO = np.array([PB[f][0] for f in FIELDS])
HI = np.array([PB[f][1] for f in FIELDS])
MID, WID = 0.5 * (LO + HI), HI - LO
U_FIELDS = tuple("u_" + f for f in FIELDS)


def _bounded(u):
    return ref.sigmoid(u, MID, K_BOUND, LO, HI)


@gen.case_of
def u_cases(r):
    s = r.choice([30.0, 100.0, 1e3, 1e5])
    return dict(u=[float(MID[i] + r.uf(-s, s)) for i in range(N)])


@prop_test(u_cases, quick=400, thorough=20000, mode=("f64", "f32"), rule="non-trivial: some value is beyond 100 of its centre")
def bounded_values_are_inside_their_own_bounds(case, ctx):
    u = gen.arr(case["u"], ctx.mode)
    p = get_bounded_diffstarpop_params(DiffstarPopUParams(*u))
    check(p._fields == FIELDS, "field names or order of the bounded params changed")
    x = np.array([float(v) for v in p])
    eps = ctx.tol(1e-14, 4e-7) * np.maximum(np.abs(LO), np.abs(HI))
    bad = [FIELDS[i] for i in np.flatnonzero((x < LO - eps) | (x > HI + eps) | ~np.isfinite(x))]
    check(not bad, f"outside their bounds: {bad[:5]}")
    close(x, _bounded(gen.r32(case["u"], ctx.mode)), "bounded value", rtol=ctx.tol(1e-12, 1e-5), atol=ctx.tol(1e-12, 1e-5))
    ctx.nontrivial(np.abs(np.array(case["u"]) - MID).max() > 100)


@gen.case_of
def p_cases(r):
    return dict(p=[float(LO[i] + WID[i] * r.uf(0.001, 0.999)) for i in range(N)], **{"is": [r.integer(0, N - 1) for _ in range(5)]},
                step=r.logf(0.01, 30.0), swap=r.perm(N))


@prop_test(p_cases, quick=250, thorough=15000, mode=("f64", "f32"), rule="non-trivial: always")
def unbounding_inverts_bounding(case, ctx):
    p = gen.arr(case["p"], ctx.mode)
    u = get_unbounded_diffstarpop_params(DiffstarPopParams(*p))
    check(u._fields == U_FIELDS, "field names or order of the unbounded params changed")
    uu = np.array([float(v) for v in u])
    check(np.all(np.isfinite(uu)), "unbounded params not finite")
    back = np.array([float(v) for v in get_bounded_diffstarpop_params(u)])
    close(back, gen.r32(case["p"], ctx.mode), "bound(unbound(p))", atol=ctx.tol(1e-12, 3e-5) * WID)
    u2 = np.array([float(v) for v in get_unbounded_diffstarpop_params(
        get_bounded_diffstarpop_params(DiffstarPopUParams(*gen.arr(uu, ctx.mode))))])
    if not ctx.f32:
        close(u2, uu, "unbound(bound(u))", rtol=1e-8, atol=1e-8)


@prop_test(p_cases, quick=200, thorough=6000, mode="f64", rule="non-trivial: always (metamorphic)")
def each_parameter_increases_and_moves_alone(case, ctx):
    u = np.array([float(v) for v in get_unbounded_diffstarpop_params(DiffstarPopParams(*case["p"]))])
    pa = np.array([float(x) for x in get_bounded_diffstarpop_params(DiffstarPopUParams(*u))])
    for i in case["is"]:
        v = u.copy()
        v[i] += case["step"]
        pb = np.array([float(x) for x in get_bounded_diffstarpop_params(DiffstarPopUParams(*v))])
        ctx.label(FIELDS[i].split("_")[0])
        check(pb[i] > pa[i], f"{FIELDS[i]} does not increase with its unbounded value")
        other = np.arange(N) != i
        check(np.array_equal(pa[other], pb[other]),
              lambda: f"changing {FIELDS[i]} moved {[FIELDS[k] for k in np.flatnonzero((pa != pb) & other)][:4]}")


@prop_test(p_cases, quick=10, thorough=120, mode="f64", rule="non-trivial: always (metamorphic)")
def bounding_goes_by_name(case, ctx):
    """Fields in another order: same result (each new order costs a compilation)."""
    u = np.array([float(v) for v in get_unbounded_diffstarpop_params(DiffstarPopParams(*case["p"]))])
    pa = np.array([float(x) for x in get_bounded_diffstarpop_params(DiffstarPopUParams(*u))])
    T = namedtuple("Shuffled", [U_FIELDS[k] for k in case["swap"]])
    ps = get_bounded_diffstarpop_params(T(*[u[k] for k in case["swap"]]))
    check(ps._fields == FIELDS, "field order of bounded params")
    close(np.array([float(x) for x in ps]), pa, "bounding by name when the input order differs", rtol=1e-12, atol=1e-13)
    T = namedtuple("Shuffled", [FIELDS[k] for k in case["swap"]])
    us = get_unbounded_diffstarpop_params(T(*[case["p"][k] for k in case["swap"]]))
    check(us._fields == U_FIELDS, "field order of unbounded params")
    close(np.array([float(x) for x in us]), u, "unbounding by name when the input order differs", rtol=1e-9, atol=1e-9)


@gen.case_of
def varied(r):
    k = r.choice([r.integer(1, 12), r.integer(1, 12), r.integer(1, 12), N, N - 1, r.integer(13, N)])
    idx = r.perm(N)[:k]
    if k == N and r.bool(0.2):
        idx = list(range(N))
    return dict(idx=idx, val=[r.uf(-50, 50) for _ in idx], pv=[float(LO[i] + WID[i] * r.uf(0.01, 0.99)) for i in idx])


@prop_test(varied, quick=90, thorough=1500, mode="f64", rule="non-trivial: at least two names overridden")
def overriding_by_name_changes_exactly_those(case, ctx):
    idx = case["idx"]
    T = namedtuple("Varied", [U_FIELDS[i] for i in idx])
    full = get_all_diffstarpop_u_params(T(*case["val"]))
    check(full._fields == U_FIELDS, "override changed the field names")
    want = np.array([float(v) for v in DEFAULT_DIFFSTARPOP_U_PARAMS])
    want[idx] = case["val"]
    close(np.array([float(v) for v in full]), want, "unbounded override by name", rtol=1e-13)
    T = namedtuple("Varied", [FIELDS[i] for i in idx])
    got = get_all_params_from_varied(T(*case["pv"]), DEFAULT_DIFFSTARPOP_PARAMS)
    want = np.array([DEF[f] for f in FIELDS])
    want[idx] = case["pv"]
    close(np.array([float(v) for v in got]), want, "override by name", rtol=1e-13)
    ctx.nontrivial(len(idx) >= 2)


@prop_test(varied, quick=40, thorough=200, mode="f64", rule="non-trivial: always")
def published_defaults(case, ctx):
    check(DEFAULT_DIFFSTARPOP_PARAMS._fields == FIELDS, "default field names")
    close(np.array([float(x) for x in DEFAULT_DIFFSTARPOP_PARAMS]), np.array([DEF[f] for f in FIELDS]), "defaults", rtol=1e-12)
    back = get_bounded_diffstarpop_params(DEFAULT_DIFFSTARPOP_U_PARAMS)
    close(np.array([float(x) for x in back]), np.array([DEF[f] for f in FIELDS]), "bounded default u-params",
          atol=1e-6 * WID)
