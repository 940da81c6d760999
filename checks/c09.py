"""C09: quenching events have the documented timing and depth (observed as SFR ratios)."""
import numpy as np

from checks.common import lg, mah_nt, sfh_nt
from diffstar import calc_sfh_galpop, calc_sfh_singlegal
from diffstar.kernels.quenching_kernels import _quenching_kern, _quenching_kern_u_params
from pbt import gen, ref
from pbt.core import check, close, leq, prop_test

S = np.array([-1.4, -0.9, -0.6, -0.51, -0.49, -0.4, -0.3, -0.25, -0.2, -0.1, -0.02, 0.0,
              0.02, 0.1, 0.2, 0.25, 0.3, 0.4, 0.49, 0.51, 0.6, 0.9, 1.4])
MID = 11
RULE = "non-trivial: drop deeper than 0.05 dex and rejuvenation differs from the drop by more than 0.05 dex"


@gen.case_of
def cases(r):
    p = r.diffstar_params()
    p[:4] = [r.uf(11.2, 12.8), r.uf(-10.6, -9.2), r.uf(0.3, 2.5), r.uf(-2.5, -0.3)]
    # a halo that is massive early and stays put, so that SFRs are far above the floor
    mah = [r.uf(11.5, 13.0), r.uf(0.0, 0.5), r.uf(1.0, 3.0), r.uf(0.1, 0.8), r.uf_or([0.3, 14.0], 0.3, 14.0)]
    return dict(sfh=p, mah=mah, lgt0=float(np.log10(13.8)), fb=0.156, shift=r.uf(-0.4, 0.4))


def _tol(case, ctx):
    h = 10.0 ** gen.r32(case["sfh"][5], ctx.mode) / 12
    return ctx.tol(1e-9 + 1e-14 / h, 3e-4 + 4e-6 / h)


def _checks(lr, lgt, case, ctx, what):
    p = gen.r32(case["sfh"], ctx.mode)
    qt, dt, drop, rej = p[4], 10.0 ** p[5], p[6], p[7]
    tol = _tol(case, ctx)
    ok = np.isfinite(lr)
    s = (lgt - qt) / dt
    edge = ctx.tol(1e-9, 1e-5) / dt
    before = ok & (s < -0.5 - edge)
    after = ok & (s > 0.5 + edge)
    close(lr[before], np.zeros(before.sum()), f"{what}: SFR changed before the event (log10)", atol=tol)
    close(lr[after], np.full(after.sum(), rej), f"{what}: SFR after the event (log10)", atol=tol)
    if ok[MID]:
        close(lr[MID], drop, f"{what}: depth at lg_qt (log10)", atol=tol)
    leq(np.full(ok.sum(), drop), lr[ok], f"{what}: deeper than lg_drop", atol=tol)
    leq(lr[ok], np.zeros(ok.sum()), f"{what}: enhanced above the unquenched SFR", atol=tol)
    down = lr[:MID + 1][ok[:MID + 1]]
    up = lr[MID:][ok[MID:]]
    leq(down[1:], down[:-1], f"{what}: not falling before lg_qt", atol=tol)
    leq(up[:-1], up[1:], f"{what}: not rising after lg_qt", atol=tol)
    # symmetric shape: fallen fraction at -x plus recovered fraction at +x is one
    if abs(drop) > 0.05 and abs(rej - drop) > 0.05:
        fall = lr[:MID][::-1] / drop
        rise = (lr[MID + 1:] - drop) / (rej - drop)
        both = ok[:MID][::-1] & ok[MID + 1:]
        close((fall + rise)[both], np.ones(both.sum()), f"{what}: event not symmetric about lg_qt",
              atol=tol * (2 / abs(drop) + 2 / abs(rej - drop)))
        k = int(np.flatnonzero(S == -0.25)[0])
        if ok[k]:
            close(lr[k], 0.5 * drop, f"{what}: half depth a quarter of the duration before lg_qt", atol=3 * tol)


@prop_test(cases, quick=700, thorough=25000, mode=("f64", "f32"), rule=RULE)
def sfr_ratio_follows_the_event(case, ctx):
    p = gen.r32(case["sfh"], ctx.mode)
    lgt = p[4] + S * 10.0 ** p[5]
    t = gen.arr(10.0 ** lgt, ctx.mode)
    lgt = np.log10(t.astype(float))
    noq = list(case["sfh"])
    noq[6] = noq[7] = 0.0
    m = mah_nt(case["mah"], ctx.mode)
    kw = dict(lgt0=case["lgt0"], fb=case["fb"])
    base = lg(calc_sfh_singlegal(sfh_nt(noq, ctx.mode), m, t, **kw))
    q = lg(calc_sfh_singlegal(sfh_nt(case["sfh"], ctx.mode), m, t, **kw))
    usable = base > -9.0
    _checks(np.where(usable, q - base, np.nan), lgt, case, ctx, "calc_sfh_singlegal")
    pop = lg(calc_sfh_galpop(sfh_nt([case["sfh"], noq], ctx.mode), mah_nt([case["mah"]] * 2, ctx.mode), t, **kw))
    _checks(np.where(usable, pop[0] - pop[1], np.nan), lgt, case, ctx, "calc_sfh_galpop")
    ctx.label("usable times %d" % (4 * (usable.sum() // 4)))
    ctx.nontrivial(usable.sum() > 12 and p[6] < -0.05 and p[7] - p[6] > 0.05)


@prop_test(cases, quick=500, thorough=20000, mode=("f64", "f32"), rule=RULE)
def quenching_kernel_follows_the_event(case, ctx):
    p = gen.r32(case["sfh"], ctx.mode)
    lgt = gen.arr(p[4] + S * 10.0 ** p[5], ctx.mode)
    f = _quenching_kern(lgt, *gen.arr([p[4], 10.0 ** p[5], p[6], p[7]], ctx.mode))
    _checks(lg(f), lgt.astype(float), case, ctx, "_quenching_kern")
    ctx.nontrivial(p[6] < -0.05 and p[7] - p[6] > 0.05)


@gen.case_of
def u_cases(r):
    u = [r.uf(-3.0, 5.0), r.uf(-6.0, 3.0), r.uf(-6.0, 3.0), r.uf(-6.0, 3.0)]
    q = [float(x) for x in ref.bounded([0, 0, 0, 0, *u])[4:]]
    return dict(u=u, lgt=[q[0] + 10 ** q[1] * r.uf(-0.7, 0.7) for _ in range(16)] + [r.uf(-2.0, 2.3) for _ in range(8)])


@prop_test(u_cases, quick=500, thorough=20000, mode="f64", rule="non-trivial: some time is inside the event")
def unbounded_kernel_equals_model(case, ctx):
    u = case["u"]
    q = np.array([float(x) for x in ref.bounded([0, 0, 0, 0, *u])[4:]])
    lgt = np.array(case["lgt"])
    want = ref.lg_quench(lgt, *q)
    got = lg(_quenching_kern_u_params(lgt, *u))
    close(got, want, "_quenching_kern_u_params (log10)", atol=1e-9 + 1e-13 / 10 ** q[1])
    ctx.nontrivial((np.abs(lgt - q[0]) < 0.5 * 10 ** q[1]).any())
