"""C19: DiffstarPop losses measure distance to the target and combine additively."""
import jax
import jax.numpy as jnp
import numpy as np

from checks import losscommon as lc
from checks.gradcommon import compare
from diffstar.diffstarpop.defaults import DEFAULT_DIFFSTARPOP_U_PARAMS
from diffstar.diffstarpop.loss_kernels import mstar_ssfr_loss_mgash_anyz as mod
from pbt import gen
from pbt.core import Skip, all_finite, check, close, prop_test

UPOP = DEFAULT_DIFFSTARPOP_U_PARAMS._fields


@gen.case_of
def cases(r):
    c = lc.draw(r, wide=True)
    return dict(a=c, b=dict(lc.draw(r, wide=True), p=c["p"]))


def _nt(u):
    return DEFAULT_DIFFSTARPOP_U_PARAMS._make([u[i] for i in range(len(UPOP))])


PARTS = dict(
    mstar=(mod.loss_mstar_kern_tobs, mod.loss_mstar_kern_tobs_grad_wrapper, mod.get_pred_mstar_data_wrapper),
    ssfr=(mod.loss_mstar_ssfr_kern_tobs, mod.loss_mstar_ssfr_kern_tobs_grad_wrapper, mod.get_pred_mstar_ssfr_data_wrapper),
    ssfr_sat=(mod.loss_mstar_ssfr_sat_kern_tobs, mod.loss_mstar_ssfr_sat_kern_tobs_grad_wrapper, mod.get_pred_mstar_ssfr_sat_data_wrapper),
)
_batch = {k: jax.jit(jax.vmap(lambda u, d, f=v[0]: f(_nt(u), d), in_axes=(0, None))) for k, v in PARTS.items()}


def _ready(c, ctx):
    w = lc.reference(c, ctx.mode)
    if w["raw"].min() < ctx.tol(1e-3, 0.03) or w["tot"].min() < ctx.tol(1e-5, 0.003):
        raise Skip  # no defined distribution (or one dominated by rounding) in some bin


RULE = "non-trivial: the loss is above 1e-3 and its gradient has more than five non-zero entries"


def _part(k):
    loss, wrap, pred = PARTS[k]

    def test(case, ctx):
        c = case["b"] if k == "ssfr_sat" else case["a"]
        _ready(c, ctx)
        u, d_m, d_s = lc.build(c, ctx.mode)
        d = d_m if k == "mstar" else d_s
        rt, at = ctx.tol(1e-9, 5e-3), ctx.tol(1e-12, 1e-5)
        p = np.asarray(pred(u, d), float)
        v = float(loss(_nt(u), d))
        tgt = np.asarray(d[-1], float)
        close(v, 1000 * np.mean((p - tgt) ** 2), f"{k} loss is not 1000 x mean squared difference", rtol=rt, atol=at)
        lw, g = wrap(u, d)
        close(float(lw), v, f"{k} gradient wrapper returns another loss value", rtol=rt, atol=at)
        g = np.asarray(g, float)
        check(g.shape == (len(UPOP),), f"{k} gradient shape {g.shape}")
        all_finite(g, f"{k} gradient")
        # zero exactly at the prediction, positive elsewhere
        eq = (*d[:-1], gen.arr(p, ctx.mode))
        check(abs(float(loss(_nt(u), eq))) < ctx.tol(1e-20, 1e-6), f"{k} loss is not zero when the target is the prediction")
        check(float(wrap(u, eq)[0]) < ctx.tol(1e-20, 1e-6), f"{k} wrapped loss is not zero when the target is the prediction")
        t2 = np.array(p)
        t2.flat[int(np.argmax(p))] += 0.01
        one = float(loss(_nt(u), (*d[:-1], gen.arr(t2, ctx.mode))))
        close(one, 1000 * 1e-4 / p.size, f"{k} loss for a target off in one bin by 0.01", rtol=ctx.tol(1e-8, 0.05))
        n = 99
        if not ctx.f32:
            n = compare(g[None], lambda X: np.asarray(_batch[k](X, d))[:, None], u, np.full(len(u), 1e-5), f"{k} loss", UPOP,
                        fscale=1e-6, scale=lambda f0: np.abs(f0) + 1e-3)
        ctx.nontrivial(v > 1e-3 and n > 5 and (np.abs(g) > 1e-8).sum() > 5)

    test.__name__ = k + "_loss_and_gradient_wrapper"
    return prop_test(cases, quick=70, thorough=3000, mode=("f64", "f32"), rule=RULE)(test)


for _k in PARTS:
    _part(_k)


def _combined(name, kern, wrap, n):
    batch = jax.jit(jax.vmap(lambda u, d: kern(_nt(u), *d), in_axes=(0, None)))

    def test(case, ctx):
        _ready(case["a"], ctx)
        _ready(case["b"], ctx)
        u, d_m, d_s = lc.build(case["a"], ctx.mode)
        _, _, d_s2 = lc.build(case["b"], ctx.mode)
        d = (d_m, d_s, d_s2)[:n]
        rt, at = ctx.tol(1e-9, 5e-3), ctx.tol(1e-12, 1e-5)
        parts = [float(PARTS[k][0](_nt(u), x)) for k, x in zip(PARTS, d)]
        want = sum(parts)
        close(float(kern(_nt(u), *d)), want, f"{name} kernel is not the sum of its parts", rtol=rt, atol=at)
        v, g = wrap(u, *d)
        close(float(v), want, f"{name} wrapper does not return the sum of its parts", rtol=rt, atol=at)
        g = np.asarray(g, float)
        check(g.shape == (len(UPOP),), f"{name} gradient shape {g.shape}")
        all_finite(g, f"{name} gradient")
        m = 99
        if not ctx.f32:
            m = compare(g[None], lambda X: np.asarray(batch(X, d))[:, None], u, np.full(len(u), 1e-5), name, UPOP,
                        fscale=1e-6, scale=lambda f0: np.abs(f0) + 1e-3)
        ctx.nontrivial(min(parts) > 1e-3 and m > 5)

    test.__name__ = name
    return prop_test(cases, quick=60, thorough=2500, mode="f64", rule=RULE)(test)


_combined("two_part_combined_loss", mod.loss_combined_kern, mod.loss_combined_wrapper, 2)
_combined("three_part_combined_loss", mod.loss_combined_3loss_kern, mod.loss_combined_3loss_wrapper, 3)
