"""Small synthetic loss data for the DiffstarPop losses (both checks C18 and C19)."""
import numpy as np

from checks.popcommon import bounded_pop, key, pop_nt
from diffstar.diffstarpop import get_unbounded_diffstarpop_params, mc_diffstar_params_galpop
from pbt import gen, ref

NO, NH = 3, 5  # observations, halos
NM, NS = 7, 6  # mass and sSFR bins
NZ, NK, NID = 2, 2, 3  # mixtures: redshifts, halo-mass bins per mixture, requested mass bins
NT = 20
DIMS = dict(NO=NO, NH=NH, NM=NM, NS=NS, NZ=NZ, NK=NK, NID=NID)


def large(r):
    nm = r.integer(4, 30)
    return dict(NO=r.integer(1, 6), NH=r.size(600), NM=nm, NS=r.integer(3, 20), NZ=r.integer(1, 5), NK=r.integer(1, 12), NID=r.integer(1, nm))


def edges(start, jit):
    """Bin edges from (first edge, width) and the relative width of each bin."""
    return start[0] + start[1] * np.concatenate([[0.0], np.cumsum(jit)])


def jitter(r, n):
    if r.bool(0.6):
        return [1.0] * n
    x = r.floats(n, 0.6, 1.5)
    return [v * n / sum(x) for v in x]


def mixture(r, NK=NK):
    """Abundances of the halo bins mixed into one redshift: common halos, only
    rare ones, or bins padded with zeros."""
    kind = r.choice(["common", "common", "rare", "mixed", "padded"])
    lo, hi = {"rare": (1e-12, 1e-6), "mixed": (1e-9, 100.0)}.get(kind, (0.1, 100.0))
    w = [r.logf(lo, hi) for _ in range(NK)]
    if kind == "padded":
        w[r.integer(0, NK - 1)] = 0.0
    return w


def draw(r, wide=False, **dims):
    NO, NH, NM, NS, NZ, NK, NID = {**DIMS, **dims}.values()

    def halo(c):
        logmp0 = r.uf(11.3, 14.8)
        if c:
            return [logmp0, -1, 0.0, 0.0, -100.0]
        return [logmp0, r.choice([3, 0, 99]), r.uf(-4, 0), r.uf(11, 15), r.uf(-3, 8)]

    kind = r.choice(["cen", "sat", "mix"])
    mk = lambda: halo(kind == "cen" or (kind == "mix" and r.bool()))
    mw, sw = r.uf(0.7, 0.9) if wide else r.uf(0.4, 0.8), r.uf(0.6, 0.9) if wide else r.uf(0.4, 0.9)
    mw, sw = mw * DIMS["NM"] / NM, sw * DIMS["NS"] / NS
    ids = r.perm(NM)[:NID]
    return dict(
        p=bounded_pop(r, style=r.choice(["near", "near", "near", "uniform"])),
        halos=[[mk() for _ in range(NH)] for _ in range(NO)],
        mah=[[[r.uf(0.0, 0.6), r.uf(1.5, 4.0), r.uf(0.1, 0.8), r.uf_or([14.0], 4.0, 14.0)] for _ in range(NH)] for _ in range(NO)],
        keys=[r.seed() for _ in range(NO)],
        tobs=[r.uf_or([13.7], 2.0, 13.7) for _ in range(NO)],
        mbins=[r.uf(6.5, 8.5), mw], sbins=[r.uf_or([-12.5], -13.0, -11.0), sw],
        ids=sorted(ids) if r.bool() else ids,
        mjit=jitter(r, NM), sjit=jitter(r, NS),
        nm=[mixture(r, NK) for _ in range(NZ)],
        ix=[[r.integer(0, NO - 1) for _ in range(NK)] for _ in range(NZ)],
        tm=[r.floats(NM, 0.0, 1.0) for _ in range(NO)],
        ts=[[r.floats(NS, 0.0, 1.0) for _ in range(NID)] for _ in range(NZ)],
        **r.cosmology(),
    )


def build(c, mode):
    """(u_params flat, loss_data_mstar, loss_data_ssfr)."""
    f = lambda x: gen.arr(x, mode)
    h = np.array(c["halos"], float)
    mah = np.concatenate([h[:, :, :1], np.array(c["mah"])], axis=2).transpose(0, 2, 1)  # (obs, 5, halos)
    mb = edges(c["mbins"], c["mjit"])
    sb = edges(c["sbins"], c["sjit"])
    keys = np.stack([np.asarray(key(s)) for s in c["keys"]])
    tm = np.array(c["tm"])
    tm = tm / tm.sum(1, keepdims=True)
    ts = np.array(c["ts"])
    ts = ts / ts.sum(2, keepdims=True)
    base = (f(mah), f(h[:, :, 0]), h[:, :, 1].astype(np.int64 if mode == "f64" else np.int32), f(h[:, :, 2]), f(h[:, :, 3]),
            f(h[:, :, 4]), keys, f(c["tobs"]), f(c["lgt0"]), f(c["fb"]))
    lo = np.array([[a, b] for a in mb[:-1] for b in sb[:-1]])
    hi = np.array([[a, b] for a in mb[1:] for b in sb[1:]])
    d_m = (*base, f(mb), f(tm))
    d_s = (*base, f(lo), f(hi), f(mb), f(sb), f(c["nm"]), np.array(c["ix"]), np.array(c["ids"]), f(ts))
    u = np.asarray(get_unbounded_diffstarpop_params(pop_nt(c["p"], mode)), np.float32 if mode == "f32" else float)
    return u, d_m, d_s


def reference(c, mode):
    """Predicted distributions from the model definition: (mstar, mstar counts before
    normalisation, ssfr, ssfr mass per row before normalisation, log masses)."""
    pn = pop_nt(c["p"], mode)
    NO, NH, NM, NS = len(c["halos"]), len(c["halos"][0]), len(c["mjit"]), len(c["sjit"])
    r64 = lambda x: gen.r32(x, mode)
    h = r64(np.array(c["halos"], float))
    mb = r64(edges(c["mbins"], c["mjit"]))
    sb = r64(edges(c["sbins"], c["sjit"]))
    pm, joint, raw, logsm = [], [], [], []
    for o in range(NO):
        mah = r64(np.concatenate([h[o, :, :1], np.array(c["mah"][o])], axis=1))
        f = lambda x: gen.arr(x, mode)
        par = mc_diffstar_params_galpop(pn, f(h[o, :, 0]), f(mah[:, 4]), h[o, :, 1].astype(int), f(h[o, :, 2]), f(h[o, :, 3]),
                                        f(h[o, :, 4]), key(c["keys"][o]))
        fq = np.asarray(par[2], float)
        t = np.logspace(-1, np.log10(float(f(c["tobs"][o]))), NT)
        lm, ls, w = [], [], []
        for pars, wt in ((par[0], 1 - fq), (par[1], fq)):
            x = np.stack([np.asarray(getattr(pars, k), float) for k in ref.PNAMES], 1)
            for i in range(NH):
                sfh = 10.0 ** ref.lg_sfh(x[i], mah[i], t, float(r64(c["lgt0"])), float(r64(c["fb"])))
                m = ref.cumul_mass(t, sfh)[-1]
                lm.append(np.log10(m))
                ls.append(max(np.log10(sfh[-1]) - np.log10(m), -12.0))
                w.append(wt[i])
        lm, ls, w = np.array(lm), np.array(ls), np.array(w)
        n = len(lm)
        sm, ss = np.diff(mb).mean(), np.diff(sb).mean()
        k = ref.ndhist(lm[:, None], np.full((n, 1), sm), w, mb[:-1, None], mb[1:, None])
        pm.append(k / k.sum() if k.sum() > 0 else k * np.nan)
        raw.append(k.sum())
        lo = np.array([[a, b] for a in mb[:-1] for b in sb[:-1]])
        hi = np.array([[a, b] for a in mb[1:] for b in sb[1:]])
        j = ref.ndhist(np.stack([lm, ls], 1), np.tile([sm, ss], (n, 1)), w, lo, hi)
        joint.append((j / j.sum() if j.sum() > 0 else j * np.nan).reshape(NM, NS))
        raw.append(j.sum())
        logsm.append(lm)
    joint = np.array(joint)
    mix = np.einsum("zmab,zm->zab", joint[np.array(c["ix"])], r64(c["nm"]))[:, np.array(c["ids"])]
    tot = mix.sum(2)
    with np.errstate(all="ignore"):
        return dict(mstar=np.array(pm), ssfr=mix / tot[:, :, None], tot=tot / r64(c["nm"]).sum(1)[:, None], raw=np.array(raw), logsm=np.array(logsm))
