"""C07: Diffstar parameter bounding is an order-preserving bijection onto the bounds."""
import numpy as np

from checks.common import any_size
from diffstar import DiffstarParams, DiffstarUParams, get_bounded_diffstar_params, get_unbounded_diffstar_params
from diffstar import defaults as dd
from diffstar.kernels import main_sequence_kernels as mk
from diffstar.kernels import quenching_kernels as qk
from pbt import gen, ref
from pbt.core import check, close, leq, prop_test

NG = 8
U_NAMES = tuple("u_" + n for n in ref.PNAMES)
MID = np.array([np.mean(ref.BOUNDS[n]) for n in ref.PNAMES])
WID = np.array([np.ptp(ref.BOUNDS[n]) for n in ref.PNAMES])


def build_u(r, ng):
    rows = []
    for _ in range(ng):
        if r.bool():
            rows.append([float(m + r.uf(-3, 3) * w) for m, w in zip(MID, WID)])
        else:
            rows.append(r.u_params())
    return dict(u=rows)


def build_b(r, ng):
    # distance kept from the ends of each range, as a fraction of its width
    m = r.logf(1e-6, 2e-2)
    return dict(p=[r.diffstar_params(margin=m) for _ in range(ng)], m=m)


u_cases = gen.case_of(lambda r: build_u(r, NG))
b_cases = gen.case_of(lambda r: build_b(r, NG))


def _inside(p, ctx, what):
    eps = ctx.tol(1e-14, 1e-6)
    for j, n in enumerate(ref.PNAMES):
        lo, hi = ref.BOUNDS[n]
        x = np.asarray(p[j], float)
        check(np.all(np.isfinite(x)), f"{what}: {n} is not finite")
        tol = eps * max(abs(lo), abs(hi))
        check(np.all(x >= lo - tol) and np.all(x <= hi + tol),
              lambda: f"{what}: {n}={x!r} outside its bounds ({lo}, {hi})")
    drop, rejuv = np.asarray(p[6], float), np.asarray(p[7], float)
    leq(drop, rejuv, f"{what}: lg_rejuv below lg_drop", atol=3 * eps)


@prop_test(u_cases, quick=900, thorough=30000, mode=("f64", "f32"),
           rule="non-trivial: some parameter is in a saturated tail")
def bounded_values_stay_in_bounds(case, ctx):
    u = gen.arr(case["u"], ctx.mode)
    p = get_bounded_diffstar_params(DiffstarUParams(*u.T))
    check(type(p).__name__ == "DiffstarParams" and p._fields == ref.PNAMES, f"field names {p._fields}")
    for x in p:
        check(np.shape(x) == (len(u),), "bounded params have the wrong shape")
    _inside(p, ctx, "array of galaxies")
    want = ref.bounded(gen.r32(case["u"], ctx.mode).T)
    for n, a, b in zip(ref.PNAMES, p, want):
        close(a, b, f"bounded {n}", rtol=ctx.tol(1e-12, 1e-4), atol=ctx.tol(1e-12, 1e-5))
    one = get_bounded_diffstar_params(DiffstarUParams(*u[0]))
    _inside(one, ctx, "single galaxy")
    close(np.array([float(x) for x in one]), np.array([float(x[0]) for x in p]), "scalar vs array bounding",
          rtol=ctx.tol(1e-13, 1e-6), atol=ctx.tol(1e-14, 1e-6))
    for f, cols in ((mk, slice(0, 4)), (qk, slice(4, 8))):
        f = getattr(f, "_get_bounded_sfr_params_vmap" if f is mk else "_get_bounded_q_params_vmap", None)
        if f is not None:
            close(np.asarray(f(u[:, cols]), float), np.asarray(p, float).T[:, cols], "vectorised bounding",
                  rtol=ctx.tol(1e-12, 1e-6), atol=ctx.tol(1e-14, 1e-6))
    for name, j in (("_get_bounded_qt", 4), ("_get_bounded_lg_drop", 6)):
        f = getattr(qk, name, None)
        if f is not None:
            close(np.asarray(f(u[:, j]), float), np.asarray(p[j], float), f"{ref.PNAMES[j]} bounded on its own", rtol=ctx.tol(1e-13, 1e-6), atol=ctx.tol(1e-14, 1e-6))
    ctx.nontrivial((np.abs(np.array(case["u"]) - MID) > 2 * WID).any())


@prop_test(b_cases, quick=600, thorough=20000, mode=("f64", "f32"), rule="non-trivial: some parameter within 0.2 per cent of an end of its range")
def unbounding_then_bounding_is_identity(case, ctx):
    p = gen.arr(case["p"], ctx.mode)
    m = max(case["m"], ctx.tol(1e-6, 1e-4))
    lo, hi = np.array([ref.BOUNDS[n] for n in ref.PNAMES]).T
    p = np.clip(p, (lo + m * (hi - lo)).astype(p.dtype), (hi - m * (hi - lo)).astype(p.dtype))
    # keep lg_rejuv strictly inside (lg_drop, 0)
    p[:, 7] = np.clip(p[:, 7], p[:, 6] * (1 - m), p[:, 6] * m)
    near = (np.minimum(p[:, :7] - lo[:7], hi[:7] - p[:, :7]) < 0.002 * (hi - lo)[:7]).any()
    ctx.nontrivial(near)
    # unbounded values near an end are conditioned at 1/m
    utol = ctx.tol(1e-11, 1e-4) + ctx.tol(1e-14, 2e-6) / m
    u = get_unbounded_diffstar_params(DiffstarParams(*p.T))
    check(type(u).__name__ == "DiffstarUParams" and u._fields == U_NAMES, f"unbounded field names {u._fields}")
    for x in u:
        check(np.all(np.isfinite(np.asarray(x))), "unbounded params not finite for in-bounds params")
    back = get_bounded_diffstar_params(u)
    # f32: a value near a bound is recovered to rounding of the whole interval
    for n, a, b in zip(ref.PNAMES, back, p.T):
        w = ref.BOUNDS[n][1] - ref.BOUNDS[n][0]
        close(a, b, f"bound(unbound({n}))", atol=ctx.tol(1e-11, 2e-4) * w)
    one_u = get_unbounded_diffstar_params(DiffstarParams(*p[1]))
    close(np.array([float(x) for x in one_u]), np.array([float(x[1]) for x in u]), "scalar vs array unbounding",
          rtol=ctx.tol(1e-11, 1e-4), atol=utol)
    for f, cols in ((mk, slice(0, 4)), (qk, slice(4, 8))):
        f = getattr(f, "_get_unbounded_sfr_params_vmap" if f is mk else "_get_unbounded_q_params_vmap", None)
        if f is not None:
            close(np.asarray(f(p[:, cols]), float), np.asarray(u, float).T[:, cols], "vectorised unbounding",
                  rtol=ctx.tol(1e-11, 1e-4), atol=utol)
    f = getattr(qk, "_get_unbounded_lg_drop", None)
    if f is not None:
        close(np.asarray(f(p[:, 6]), float), np.asarray(u[6], float), "lg_drop unbounded on its own", rtol=ctx.tol(1e-11, 1e-4), atol=utol)


@gen.case_of
def round_cases(r):
    return dict(u=[[float(m + r.uf(-1.5, 1.5) * w) for m, w in zip(MID, WID)] for _ in range(NG)])


@prop_test(round_cases, quick=500, thorough=15000, mode="f64", rule="non-trivial: always")
def bounding_then_unbounding_is_identity(case, ctx):
    u = np.array(case["u"])
    p = get_bounded_diffstar_params(DiffstarUParams(*u.T))
    back = get_unbounded_diffstar_params(p)
    # |u - mid| < 1.5 widths = 6 e-folds: the inverse is conditioned at ~e^6
    for n, a, b in zip(ref.PNAMES, back, u.T):
        # lg_rejuv's interval shrinks with lg_drop: conditioning 1/|lg_drop|
        atol = 1e-8 / max(np.abs(np.asarray(p.lg_drop)).min(), 1e-3) if n == "lg_rejuv" else 1e-9
        close(a, b, f"unbound(bound(u_{n}))", rtol=1e-9, atol=atol)
    one = get_unbounded_diffstar_params(get_bounded_diffstar_params(DiffstarUParams(*u[2])))
    close(np.array([float(x) for x in one]), u[2], "scalar round trip", rtol=1e-6, atol=1e-6)


@gen.case_of
def mono_cases(r):
    u = [float(m + r.uf(-1.0, 1.0) * w) for m, w in zip(MID, WID)]
    return dict(u=u, j=r.integer(0, 7), step=r.logf(1e-3, 2.0))


@prop_test(mono_cases, quick=800, thorough=25000, mode="f64", rule="non-trivial: always (metamorphic)")
def each_parameter_increases_and_moves_alone(case, ctx):
    a = np.array(case["u"])
    b = a.copy()
    b[case["j"]] += case["step"]
    pa = np.array([float(x) for x in get_bounded_diffstar_params(DiffstarUParams(*a))])
    pb = np.array([float(x) for x in get_bounded_diffstar_params(DiffstarUParams(*b))])
    j = case["j"]
    ctx.label(ref.PNAMES[j])
    check(pb[j] > pa[j], lambda: f"{ref.PNAMES[j]} does not increase with its unbounded value: {pa[j]} -> {pb[j]}")
    for k in range(8):
        if k != j and not (j == 6 and k == 7):
            check(pa[k] == pb[k], f"{ref.PNAMES[k]} moved when only {ref.PNAMES[j]} changed")


@prop_test(mono_cases, quick=60, thorough=500, mode="f64", rule="non-trivial: always")
def documented_bounds_and_defaults(case, ctx):
    for d, want in ((dd.MS_PARAM_BOUNDS_PDICT, ref.MS_BOUNDS), (dd.Q_PARAM_BOUNDS_PDICT, ref.Q_BOUNDS)):
        check(list(d) == list(want), f"bounds dictionary keys {list(d)}")
        for k in want:
            check(tuple(float(x) for x in d[k]) == want[k], f"published bounds of {k}: {d[k]}")
    u = dd.DEFAULT_DIFFSTAR_U_PARAMS
    check(u._fields == U_NAMES and dd.DEFAULT_DIFFSTAR_PARAMS._fields == ref.PNAMES, "default field names")
    back = get_bounded_diffstar_params(u)
    close(np.array([float(x) for x in back]), np.array([float(x) for x in dd.DEFAULT_DIFFSTAR_PARAMS]),
          "bounded defaults", atol=1e-5)


any_size("bounding_of_large_populations", bounded_values_stay_in_bounds, build_u, lambda r: dict(ng=r.size(20_000)), mode=("f64", "f32"))
any_size("unbounding_of_large_populations", unbounding_then_bounding_is_identity, build_b, lambda r: dict(ng=r.size(20_000)), mode=("f64", "f32"))
