"""C22: the gradient-descent fallback reports its best step and its failures."""
import jax
import jax.numpy as jnp
import numpy as np

from checks import fitcommon as fc
from checks.fitcommon import fu
from diffstar.diffstarpop.utils import minimizer as pop_minimizer
from pbt import gen
from pbt.core import check, close, leq, prop_test

ND = 3


def quad(p, d):
    c, a, off, lo, hi, kind = d
    v = jnp.sum(a * (p - c) ** 2) + off + 0.2 * jnp.sum(jnp.sin(3 * p))
    out = (p[0] > hi) | (p[0] < lo)
    return jnp.where(out, jnp.where(kind > 0, jnp.inf, jnp.nan), v)


def root(p, d):
    """Finite loss with a NaN or infinite gradient at and beyond a wall."""
    c, a, off, lo, hi, kind = d
    return jnp.sum(a * (p - c) ** 2) + off + jnp.sqrt(jnp.maximum(hi - p[0], 0.0))


LOSS = {"quad": quad, "root": root}
VG = {k: jax.jit(jax.value_and_grad(f)) for k, f in LOSS.items()}


def _walk(f, p0, d, n, step):
    """Adam written out: the steps up to the first that is not finite, and how it ended."""
    m, v, x, rows = 0.0, 0.0, np.asarray(p0, float), []
    for i in range(n):
        val, g = (np.asarray(y, float) for y in VG[f](jnp.asarray(x), d))
        if not (np.isfinite(val) and np.all(np.isfinite(g)) and np.all(np.isfinite(x))):
            return rows, x
        rows.append(x)
        m, v = 0.9 * m + 0.1 * g, 0.999 * v + 0.001 * g * g
        x = x - step * (m / (1 - 0.9 ** (i + 1))) / (np.sqrt(v / (1 - 0.999 ** (i + 1))) + 1e-8)
    return rows, None


@gen.case_of
def adam(r):
    sc = r.choice([1.0, 1.0, 1.0, 1e4, 1e-3])
    wall = r.choice(["none", "none", "near", "near", "start"])
    p0 = r.floats(ND, -2, 2)
    c = r.floats(ND, -2, 2)
    hi = {"none": 1e3, "near": p0[0] + r.uf(0.0, 1.0) * max(0.05, abs(c[0] - p0[0])), "start": p0[0] - 0.1}[wall]
    lo = {"none": -1e3, "near": p0[0] - r.uf(0.0, 1.0) * max(0.05, abs(c[0] - p0[0])), "start": -1e3}[wall]
    return dict(f=r.choice(["quad", "quad", "root"]), p0=p0, c=c, a=[r.logf(0.1, 10) * sc for _ in range(ND)], off=r.choice([0.0, -3.0, 100.0, 2000.0]),
                lo=float(lo), hi=float(hi), kind=r.integer(0, 1), n=r.integer(1, 25), step=r.choice([0.01, 0.05, 0.3, 1.0]),
                warm=r.integer(0, 2), wn=r.integer(1, 10), wall=wall)


def _data(case, mode):
    return tuple(gen.arr(x, mode) for x in (case["c"], case["a"], case["off"], case["lo"], case["hi"], case["kind"]))


def _eval(case, p, mode):
    return float(LOSS[case["f"]](jnp.asarray(gen.arr(p, mode)), _data(case, mode)))


def _history(case, best, loss, larr, parr, ends, n, ctx, start=None):
    larr, parr = np.asarray(larr, float), np.asarray(parr, float)
    check(larr.ndim == 1 and parr.shape == (len(larr), ND), f"history shapes {larr.shape}, {parr.shape}")
    k = len(larr)
    check(k <= n, "more steps than requested")
    check((k == n) == bool(ends), f"fit_terminates={ends} after {k} of {n} steps")
    check(np.all(np.isfinite(larr)) and np.all(np.isfinite(parr)), "non-finite entries in the history")
    for i in range(k):
        if min(abs(parr[i, 0] - case["lo"]), abs(parr[i, 0] - case["hi"])) < 1e-5:
            continue  # the single-precision record of the parameters can be on the other side of the wall
        close(larr[i], _eval(case, parr[i], ctx.mode), f"recorded loss of step {i} is not the loss of its parameters", rtol=2e-5, atol=2e-4)
    if case["f"] == "root" and k:
        # beyond the wall one component of the gradient is undefined
        check(parr[:, 0].max() <= case["hi"] + 1e-5, "a step at which the gradient is not finite is part of the history")
    if k:
        j = int(np.argmin(larr))
        check(loss == larr[j] and np.array_equal(np.asarray(best, float), parr[j]), "not the parameters with the lowest recorded loss")
        if start is not None:
            close(parr[0], start, "first step does not start at the initial parameters", atol=1e-6)
    else:
        check(np.all(np.isfinite(np.asarray(best, float))) and np.isfinite(loss), "no steps: result is not finite")
        if start is not None:
            close(np.asarray(best, float), start, "no steps: parameters are not the initial ones", atol=1e-6)
    return k


@prop_test(adam, quick=110, thorough=3000, mode=("f64", "f32"), rule="non-trivial: the walk meets NaN or infinity, or the best step is not the last")
def adam_history(case, ctx):
    d = _data(case, ctx.mode)
    p0 = gen.arr(case["p0"], ctx.mode)
    keep = p0.copy()
    kw = dict(step_size=case["step"]) if case["step"] != 0.01 else {}  # the documented default
    kw = kw if case["warm"] == 0 else dict(kw, n_warmup=case["warm"], warmup_n_step=case["wn"])
    out = fu.jax_adam_wrapper_v2(LOSS[case["f"]], p0, d, case["n"], **kw)
    check(len(out) == 5, "return value")
    best, loss, larr, parr, ends = out
    start = np.asarray(p0, float) if case["warm"] == 0 else None
    k = _history(case, best, loss, larr, parr, ends, case["n"], ctx, start)
    check(np.array_equal(p0, keep), "initial parameters were modified")
    parr = np.asarray(parr, float)
    if k > 1 and start is not None:
        # Adam's first step has the requested size in every parameter with a gradient
        dp = np.abs(parr[1] - parr[0])
        leq(dp, np.full(ND, case["step"] * 1.001 + 1e-6), "first step exceeds the step size")
        check(dp.max() > 0.5 * case["step"] or dp.max() < 1e-3, "first step is much smaller than the step size")
    if case["warm"] and k:
        l0 = _eval(case, case["p0"], ctx.mode)
        if np.isfinite(l0):
            leq(larr[0], l0, "warm-up made the starting point worse", rtol=1e-5, atol=1e-3)
    if start is not None and ctx.mode == "f64":
        rows, end = _walk(case["f"], case["p0"], d, case["n"], case["step"])
        xs = np.array([q[0] for q in rows] + ([end[0]] if end is not None else []))
        if np.all(np.abs(xs - case["hi"]) > 1e-4) and np.all(np.abs(xs - case["lo"]) > 1e-4):
            check(k == len(rows), f"{k} of {case['n']} steps taken, NaN or infinity is met at step {len(rows)}")
            if k:
                close(parr, np.array(rows), "the steps are not those of Adam with the requested step size", rtol=1e-4, atol=1e-3 * case["step"])
    if k < case["n"] and k and start is not None:
        ctx.label("stopped at step %d" % min(k, 5))
    ctx.nontrivial(k < case["n"] or (k and int(np.argmin(larr)) != k - 1))


@gen.case_of
def fallback(r):
    c = dict(f="quad", p0=r.floats(ND, -2, 2), c=r.floats(ND, -2, 2), a=[r.logf(0.3, 3) for _ in range(ND)], off=r.choice([0.0, 50.0]),
             lo=-1e3, hi=1e3, kind=0, n=r.integer(3, 15))
    c["deriv"] = r.choice(["right", "right", "uphill", "uphill", "uphill"])
    c["wall"] = r.choice([False, True])
    if c["wall"] and c["deriv"] == "uphill":
        # Adam walks into the wall after a few steps (or starts beyond it)
        s = 1 if c["c"][0] > c["p0"][0] else -1
        gap = r.uf(-0.05, 0.12)
        if s > 0:
            c["hi"] = c["p0"][0] + gap
        else:
            c["lo"] = c["p0"][0] - gap
    return c


@prop_test(fallback, quick=70, thorough=2500, mode="f64", rule="non-trivial: L-BFGS-B fails and the fallback runs")
def driver_success_codes(case, ctx):
    d = _data(case, ctx.mode)
    import jax

    g = jax.grad(LOSS["quad"])
    sign = -1.0 if case["deriv"] == "uphill" else 1.0
    lf = lambda p, dd: float(LOSS["quad"](jnp.asarray(p), dd))
    deriv = lambda p, dd: sign * np.asarray(g(jnp.asarray(p), dd), float)
    fc.reset()
    p0 = np.array(case["p0"])
    p, loss, success = fu.minimizer(LOSS["quad"], deriv, p0, d, case["n"])
    check(len(fc.RUNS) == 1, "L-BFGS-B was not run exactly once")
    run = fc.RUNS[0]
    check(np.array_equal(run["x0"], p0), "L-BFGS-B did not start from the initial parameters")
    p = np.asarray(p, float)
    if run["success"] and np.isfinite(run["fun"]):
        check(success == 1, f"success {success} although L-BFGS-B succeeded")
        check(np.array_equal(p, run["x"]) and float(loss) == run["fun"], "not the L-BFGS-B solution")
    else:
        ctx.label("fallback")
        check(success in (0, -1), f"success {success} although L-BFGS-B failed")
        check(np.all(np.isfinite(p)) and np.isfinite(loss), "fallback result is not finite")
        l = lf(p, d)
        if np.isfinite(l):
            close(float(loss), l, "reported loss is not the loss of the returned parameters", rtol=2e-5, atol=2e-4)
        if not case["wall"]:
            check(success == 0, "fallback met no NaN but reports -1")
            leq(float(loss), lf(p0, d), "fallback result is worse than its start", rtol=1e-5, atol=1e-4)
        # with the same Adam call made directly, the code says whether it met NaN or infinity
        b = fu.jax_adam_wrapper_v2(LOSS["quad"], p0, d, case["n"], n_warmup=2)
        check((success == 0) == bool(b[4]), "success code does not say whether the fallback met NaN or infinity")
        close(p, np.asarray(b[0], float), "fallback parameters", atol=1e-6)
        ctx.label("code %d" % success)
    ctx.nontrivial(not (run["success"] and np.isfinite(run["fun"])))


@gen.case_of
def plain(r):
    return dict(f="quad", p0=r.floats(ND, -2, 2), c=r.floats(ND, -2, 2), a=[r.logf(0.3, 3) for _ in range(ND)], off=r.choice([0.0, 50.0, 5000.0]),
                lo=-1e3, hi=1e3, kind=0)


@prop_test(plain, quick=100, thorough=3000, mode="f64", rule="non-trivial: the start is not a minimum")
def population_driver(case, ctx):
    import jax

    d = _data(case, ctx.mode)
    g = jax.grad(LOSS["quad"])
    p0 = np.array(case["p0"])
    p, loss, success = pop_minimizer(LOSS["quad"], lambda p, dd: np.asarray(g(jnp.asarray(p), dd), float), p0, d)
    l0, l1 = _eval(case, p0, "f64"), _eval(case, p, "f64")
    close(float(loss), l1, "reported loss is not the loss of the returned parameters", rtol=1e-12)
    leq(l1, l0, "minimisation made the loss worse")
    gn = np.abs(np.asarray(g(jnp.asarray(p), d))).max()
    check(success == 1 and gn < 1e-2, f"success {success} with gradient {gn}")
    ctx.nontrivial(l1 < l0 - 1e-6)
