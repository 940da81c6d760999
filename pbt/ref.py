"""Independent float64 numpy reference model (written from the documented model, not
calling the package)."""
import numpy as np

SFR_MIN = 1e-14
T_BIRTH = 1e-3
LN10 = np.log(10.0)

MS_BOUNDS = dict(lgmcrit=(9.0, 13.5), lgy_at_mcrit=(-12.0, -8.0), indx_lo=(0.0, 5.0), indx_hi=(-5.0, 0.0))
Q_BOUNDS = dict(lg_qt=(0.1, 2.0), qlglgdt=(-3.0, -0.01), lg_drop=(-3.0, 0.0), lg_rejuv=(-3.0, 0.0))
PNAMES = tuple(MS_BOUNDS) + tuple(Q_BOUNDS)
BOUNDS = {**MS_BOUNDS, **Q_BOUNDS}
MAH_NAMES = ("logm0", "logtc", "early_index", "late_index", "t_peak")


def f64(x):
    return np.asarray(x, dtype=np.float64)


def expit(x):
    x = f64(x)
    with np.errstate(over="ignore"):
        e = np.exp(-np.abs(x))
    return np.where(x >= 0, 1.0 / (1.0 + e), e / (1.0 + e))


def sigmoid(x, x0, k, lo, hi):
    return lo + (hi - lo) * expit(k * (f64(x) - x0))


# ---------------------------------------------------------------- halos
def log_mah(mah, t, lgt0):
    """mah: 5 numbers. t: array."""
    logm0, logtc, early, late, t_peak = [float(v) for v in mah]
    lt = np.log10(np.minimum(f64(t), t_peak))
    idx = sigmoid(lt, logtc, 3.5, early, late)
    return logm0 + idx * (lt - lgt0)


def dmhdt(mah, t, lgt0):
    logm0, logtc, early, late, t_peak = [float(v) for v in mah]
    t = f64(t)
    lt = np.log10(t)
    s = expit(3.5 * (lt - logtc))
    idx = early + (late - early) * s
    didx = (late - early) * 3.5 * s * (1 - s)
    lgm = logm0 + idx * (lt - lgt0)
    rate = 10.0**lgm * (idx + didx * (lt - lgt0)) / t / 1e9
    return np.where(t > t_peak, 0.0, rate)


# ---------------------------------------------------------------- SFH
def tw_cdf(y):
    """CDF of the triweight kernel with support (-3, 3)."""
    y = np.clip(f64(y), -3.0, 3.0)
    u = y / 3.0  # triweight pdf on (-1,1): 35/32 (1-u^2)^3
    return 0.5 + 35.0 / 32.0 * (u - u**3 + 3.0 * u**5 / 5.0 - u**7 / 7.0)


def lg_efficiency(lgm, lgmcrit, lgy, lo, hi):
    slope = sigmoid(lgm, lgmcrit, 9.0, lo, hi)
    return lgy + slope * (f64(lgm) - lgmcrit)


def lg_quench(lgt, lg_qt, qlglgdt, lg_drop, lg_rejuv):
    dt = 10.0**qlglgdt
    h = dt / 12.0
    y = (f64(lgt) - lg_qt) / h
    down = lg_drop * tw_cdf(y + 3.0)
    up = lg_drop + (lg_rejuv - lg_drop) * tw_cdf(y - 3.0)
    return np.where(y < 0, down, up)


def lg_sfh_ms(sfh_params, mah, t, lgt0, fb):
    lgm = log_mah(mah, t, lgt0)
    return np.log10(fb) + lgm + lg_efficiency(lgm, *[float(v) for v in sfh_params[:4]])


def lg_sfh(sfh_params, mah, t, lgt0, fb):
    """log10 of the floored SFR."""
    lg = lg_sfh_ms(sfh_params, mah, t, lgt0, fb)
    lg = lg + lg_quench(np.log10(f64(t)), *[float(v) for v in sfh_params[4:]])
    return np.maximum(lg, np.log10(SFR_MIN))


def cumul_mass(t, sfr):
    t = np.concatenate(([T_BIRTH], f64(t)))
    s = np.concatenate(([SFR_MIN], f64(sfr)))
    return np.cumsum(np.diff(t) * 0.5 * (s[1:] + s[:-1])) * 1e9


def dt_cells(t):
    """Widths of the cells bounded by the grid midpoints; the end cells mirror their
    neighbour: the first cell is symmetric about t[0]; the last extends past t[-1] by
    half of the last interior cell's width."""
    t = f64(t)
    n = t.size
    mid = 0.5 * (t[1:] + t[:-1])
    edges = np.empty(n + 1)
    edges[1:n] = mid
    edges[0] = t[0] - 0.5 * (t[1] - t[0])
    edges[n] = t[-1] + 0.5 * (edges[n - 1] - edges[n - 2])
    return np.diff(edges)


def fstar(t, mstar, delay):
    t, mstar = f64(t), f64(mstar)
    lo = np.interp(t - delay, t, mstar)
    return np.maximum((mstar - lo) / delay / 1e9, 0.0)


# ---------------------------------------------------------------- parameter bounding
def bounded(u):
    """8 unbounded -> 8 bounded diffstar params (arrays allowed)."""
    out = {}
    for name, val in zip(PNAMES, u):
        lo, hi = BOUNDS[name]
        if name == "lg_rejuv":
            out[name] = sigmoid(val, 0.5 * (lo + hi), 4.0 / (hi - lo), out["lg_drop"], hi)
        else:
            out[name] = sigmoid(val, 0.5 * (lo + hi), 4.0 / (hi - lo), lo, hi)
    return tuple(out[n] for n in PNAMES)


# ---------------------------------------------------------------- diffstarpop
CLIP = dict(
    mean_ulgm=(11.0, 13.0), mean_ulgy=(-13.0, -7.0), mean_ul=(-3.0, 5.0), mean_uh=(-5.0, 3.0),
    mean_uqt=(0.0, 2.0), mean_uqs=(-5.0, 2.0), mean_udrop=(-3.0, 2.0), mean_urej=(-10.0, 2.0),
    std_ulgm=(0.01, 1.0), std_ulgy=(0.01, 1.0), std_ul=(0.01, 3.0), std_uh=(0.01, 3.0),
    std_uqt=(0.01, 0.5), std_uqs=(0.01, 1.0), std_udrop=(0.01, 2.0), std_urej=(0.01, 2.0),
)


def clipped_line(x, x0, y0, m, ylo, yhi):
    y = y0 + m * (f64(x) - x0)
    a = y0 - ylo
    lo_b = ylo + 0.01 * a
    hi_b = yhi - 0.01 * (yhi - y0)
    lo = lo_b + (y - lo_b) * expit(2000.0 * (y - lo_b) / a)
    return lo + (hi_b - lo) * expit(2000.0 * (y - hi_b) / a)


def roll_line(x, xtp, ytp, lo, hi):
    return ytp + sigmoid(x, xtp, 3.0, lo, hi) * (f64(x) - xtp)


def pop_means_covs(p, lgm, tpeak):
    """p: dict of bounded diffstarpop params. lgm, tpeak: arrays (broadcast).
    Returns dict: frac_cen, frac_sat, mu_ms (4,), mu_q (8,), sd_ms (4,), sd_q (8,)."""

    def frac(kind):
        g = lambda s: p[f"frac_quench_{kind}_{s}"]
        s = expit(g("k_tpeak") * (f64(tpeak) - g("x0_tpeak")))
        x0 = g("x0_ylotpeak") + (g("x0_yhitpeak") - g("x0_ylotpeak")) * s
        ylo = g("ylo_ylotpeak") + (g("ylo_yhitpeak") - g("ylo_ylotpeak")) * s
        return sigmoid(lgm, x0, g("k"), ylo, g("yhi"))

    def line(kind, name, seq):
        base = f"{kind}_{name}_{seq}" if seq else f"{kind}_{name}"
        return clipped_line(lgm, 12.5, p[base + "_int"], p[base + "_slp"], *CLIP[f"{kind}_{name}"])

    def roll(base):
        return roll_line(lgm, *[p[f"{base}_{s}"] for s in ("xtp", "ytp", "lo", "hi")])

    dq = sigmoid(tpeak, p["delta_uqt_x0"], p["delta_uqt_k"], p["delta_uqt_ylo"], p["delta_uqt_yhi"])
    dq = dq + (f64(lgm) - 12.5) * p["delta_uqt_slope"]
    mu_ms = [roll("mean_ulgm_mseq"), roll("mean_ulgy_mseq"), line("mean", "ul", "mseq"), line("mean", "uh", "mseq")]
    mu_q = [
        roll("mean_ulgm_qseq"), roll("mean_ulgy_qseq"), line("mean", "ul", "qseq"), line("mean", "uh", "qseq"),
        roll("mean_uqt") + dq, line("mean", "uqs", ""), line("mean", "udrop", ""), line("mean", "urej", ""),
    ]
    sd_ms = [line("std", n, "mseq") for n in ("ulgm", "ulgy", "ul", "uh")]
    sd_q = [line("std", n, "qseq") for n in ("ulgm", "ulgy", "ul", "uh")]
    sd_q += [line("std", n, "") for n in ("uqt", "uqs", "udrop", "urej")]
    one = np.ones(np.broadcast(f64(lgm), f64(tpeak)).shape)
    st = lambda seq: np.array([v * one for v in seq])
    return dict(frac_cen=frac("cen") * one, frac_sat=frac("sat") * one, mu_ms=st(mu_ms), mu_q=st(mu_q),
                sd_ms=st(sd_ms), sd_q=st(sd_q))


def sat_frac(p, lgmu, lgmhost, gyr, base):
    lo = sigmoid(lgmu, p["qphi_lgmu_crit"], 2.0, p["lgmu_lo_mh_lo"], p["lgmu_hi_mh_lo"])
    hi = sigmoid(lgmu, p["qphi_lgmu_crit"], 2.0, p["lgmu_lo_mh_hi"], p["lgmu_hi_mh_hi"])
    plateau = sigmoid(lgmhost, p["qp_lgmh_crit"], 5.0, lo, hi)
    delay = sigmoid(lgmhost, p["td_lgmhc"], 5.0, p["td_mlo"], p["td_mhi"])
    share = plateau * expit(5.0 * (f64(gyr) - delay))
    return base + share * (1.0 - base), plateau, delay


def frac_q(p, lgm, tpeak, upid, lgmu, lgmhost, gyr):
    mc = pop_means_covs(p, lgm, tpeak)
    sat, _, _ = sat_frac(p, lgmu, lgmhost, gyr, mc["frac_sat"])
    return np.where(np.asarray(upid) == -1, mc["frac_cen"], sat)


# ---------------------------------------------------------------- histograms
def ndhist(data, sig, w, lo, hi):
    """data, sig: (n, d); w: (n,); lo, hi: (b, d)."""
    data, sig, w, lo, hi = map(f64, (data, sig, w, lo, hi))
    z_lo = (data[None] - lo[:, None]) / sig[None]
    z_hi = (data[None] - hi[:, None]) / sig[None]
    k = tw_cdf(z_lo) - tw_cdf(z_hi)
    return (k.prod(axis=2) * w[None]).sum(axis=1)
