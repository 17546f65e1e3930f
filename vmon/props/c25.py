"""Period searches report true maxima of what they computed, and the period

RULE: a case is one periodogram handed to the peak finder, or one noisy time
series with an injected sinusoid, periodic signal or box-shaped transit handed
to an estimator (limits, filters, uncertainties and other options vary); an
execution checks every reported peak against the arrays it was taken from and
against the injected signal; non-trivial when there is a peak.
"""

import numpy as np
from scipy.ndimage import gaussian_filter

from vmon import gen
from vmon.env import xo

CASES = {"quick": 36000, "thorough": 150000}
MIN = {"maximum": 500, "order": 200, "count": 200, "vertex": 500,
       "none": 30, "injected-sine": 60, "limits": 100, "injected-box": 40,
       "peak-info": 40, "injected-periodic": 30, "autocorrelation": 50,
       "untouched": 200, "periodogram": 60, "gaussian": 100,
       "filtered": 10, "transit-epoch": 40, "one-maximum": 10,
       "second-higher": 10, "bls-without-peak": 5}
ASSUMPTIONS = [
    "frequencies are resolved by their grid (f/df below 1e4) and the power is "
    "positive",
]


def run_case(rec, rng, i):
    [peaks, peaks, lomb, autocorr, bls][i % 5](rec, rng)


def parabola(f, p, i):
    """vertex and curvature of the log power through three points, centred"""
    x = f[i - 1: i + 2] - f[i]
    y = np.log(p[i - 1: i + 2])
    d1 = (y[0] - y[1]) / x[0]
    d2 = (y[2] - y[1]) / x[2]
    a = (d2 - d1) / (x[2] - x[0])
    b = d1 - a * x[0]
    dx = -b / (2 * a)
    return f[i] + dx, y[1] - b * b / (4 * a), -0.5 / a


def judge_peaks(rec, freq, power, got, max_peaks, weight=None):
    """the peaks of find_peaks for these arrays"""
    inner = np.arange(1, len(power) - 1)
    top = inner[(power[1:-1] > power[:-2]) & (power[1:-1] > power[2:])]
    want = min(len(top), max(1, max_peaks))
    rec.check("count", len(got) == want, got=len(got), want=want)
    idx = [q["index"] for q in got]
    rec.check("maximum", len(set(idx)) == len(idx) and set(idx) <= set(top),
              n=len(idx), got=idx)
    if not set(idx) <= set(top):
        return
    h = power[idx]
    rec.check("order", np.all(np.diff(h) <= 0), n=len(idx), got=h)
    left = np.setdiff1d(top, idx)
    rec.check("order", len(left) == 0 or len(idx) == 0
              or power[left].max() <= h.min())
    for q in got:
        i = q["index"]
        f0, lp, s2 = parabola(freq, power, i)
        df = np.min(np.abs(np.diff(freq[i - 1: i + 2])))
        cond = (np.max(np.abs(freq[i - 1: i + 2])) / df) ** 2
        curve = np.abs(np.log(power[i - 1: i + 2]) - np.log(power[i])).max()
        # rounding of the uncentred three point fit of the values
        e = 3e-14 * cond * (1 + np.abs(np.log(power[i])) / curve)
        if e > 1e-3:
            rec.event("ill-conditioned")
            continue
        rec.close("vertex", q["period"] * f0, 1.0, e + 1e-12)
        rec.close("vertex", q["period_uncert"] * f0**2 / np.sqrt(s2), 1.0,
                  10 * e + 1e-12)
        rec.close("vertex", q["log_power"], lp,
                  (10 * e + 1e-12) * (1 + abs(lp)) * (1 + curve))


def peaks(rec, rng):
    N = int(rng.integers(3, 400))
    kind = gen.pick(rng, ["noise", "gauss", "smooth", "plateau", "monotone"])
    f = np.cumsum(rng.uniform(0.5, 1.5, N)) if rng.random() < 0.5 else (
        np.arange(N) + 1.0)
    f = (f + rng.uniform(0, 100)) * 10 ** rng.uniform(-3, 2)
    if kind == "noise":
        p = rng.chisquare(2, N) + 1e-6
    elif kind == "plateau":
        p = rng.integers(1, 4, N).astype(float)
    elif kind == "monotone":
        p = np.sort(rng.uniform(0.1, 2, N))
        if rng.random() < 0.5:
            p = p[::-1].copy()
    elif kind == "smooth":
        p = np.exp(np.cumsum(rng.normal(size=N)) * 0.3)
    else:
        c = f[0] + (f[-1] - f[0]) * rng.uniform(0.1, 0.9)
        s = (f[-1] - f[0]) * rng.uniform(0.1, 0.5)
        A = rng.normal()
        p = np.exp(A - 0.5 * ((f - c) / s) ** 2)
    down = rng.random() < 0.3
    if down:
        f, p = f[::-1].copy(), p[::-1].copy()
    mp = int(gen.pick(rng, [0, 0, 1, 2, 5, 1000]))
    rec.ctx["config"] = dict(kind=kind, f=f, p=p, max_peaks=mp)
    f0, p0 = f.copy(), p.copy()
    any_peak = np.any((p[1:-1] > p[:-2]) & (p[1:-1] > p[2:]))
    if mp == 0 and not any_peak:
        rec.expect_raise("none", ValueError, lambda: xo.find_peaks(f, p))
        return
    with rec.product("find_peaks"):
        if mp == 0:
            got = xo.find_peaks(f, p)
            rec.check("single", isinstance(got, dict))
            got = [got]
        else:
            got = xo.find_peaks(f, p, max_peaks=mp)
            rec.check("list", isinstance(got, list))
            if not any_peak:
                rec.check("none", len(got) == 0)
    judge_peaks(rec, f, p, got, mp)
    if kind == "gauss" and got:
        g = got[0]
        df = np.min(np.abs(np.diff(f)))
        e = 1e-12 * (np.max(np.abs(f)) / df) ** 2 * (s / df) ** 2
        if e < 1e-2:
            rec.close("gaussian", g["period"] * c, 1.0, e + 1e-9)
            rec.close("gaussian", g["period_uncert"] * c**2 / s, 1.0,
                      10 * e + 1e-9)
            rec.close("gaussian", g["log_power"], A, 10 * e + 1e-9)
    rec.check("untouched", np.array_equal(f, f0) and np.array_equal(p, p0))
    rec.seen(f, p, mp, nontrivial=len(got) > 0,
             sample=dict(kind=kind, peaks=got))


def lomb(rec, rng):
    from astropy.timeseries import LombScargle

    N = int(rng.integers(60, 400))
    T = rng.uniform(20, 100)
    x = np.sort(rng.uniform(0, T, N)) + gen.pick(rng, [0.0, 2000.0])
    P = float(np.exp(rng.uniform(np.log(1.0), np.log(T / 4))))
    amp = 10 ** rng.uniform(-2, 3)
    y = amp * np.sin(2 * np.pi * x / P + rng.uniform(0, 6.3))
    y += rng.normal() * amp * 3
    err = gen.pick(rng, ["none", "vector"])
    s = 0.1 * amp * np.exp(rng.normal(size=N) * (0.7 if err != "none" else 0))
    y += s * rng.normal(size=N)
    yerr = None if err == "none" else s
    kw = {}
    lo, hi = 0.3, T
    if rng.random() < 0.7:
        kw["min_period"] = lo = P * rng.uniform(0.2, 0.8)
    if rng.random() < 0.7:
        kw["max_period"] = hi = P * rng.uniform(1.3, 5)
    if rng.random() < 0.3:
        kw["filter_period"] = fp = P * rng.uniform(0.5, 4)
    mp = 2
    if rng.random() < 0.5:
        kw["max_peaks"] = mp = int(rng.integers(1, 6))
    if rng.random() < 0.3:
        kw["samples_per_peak"] = int(rng.integers(5, 20))
    rec.ctx["config"] = dict(kw=kw, P=P, T=T, N=N, err=err)
    keep = [q.copy() for q in (x, y, s)]
    with rec.product("lomb_scargle_estimator"):
        r = xo.lomb_scargle_estimator(
            x, y, **dict(kw, **({} if yerr is None else dict(yerr=yerr))))
    freq, power = r["periodogram"]
    rec.check("untouched", all(np.array_equal(a, b)
                               for a, b in zip(keep, (x, y, s))))
    # the periodogram is the one of astropy, per observation
    ls = LombScargle(x, y, yerr)
    j = rng.choice(len(freq), 5)
    want = ls.power(freq[j], method="slow", normalization="psd") / N
    rec.close("periodogram", power[j], want,
              0.1 * np.abs(want) + 0.05 * np.max(power))
    df = freq[1] - freq[0] if len(freq) > 1 else 1 / T
    if "min_period" in kw:
        rec.check("limits", abs(freq.max() - 1 / lo) <= 0.51 * df,
                  got=1 / freq.max(), want=lo)
    if "max_period" in kw:
        rec.check("limits", abs(1 / freq.min() / hi - 1) < 1e-9,
                  got=1 / freq.min(), want=hi)
    filt = np.array(power)
    if "filter_period" in kw:
        rec.event("filtered")
        filt = power / np.sqrt(1 + (1 / (fp * freq)) ** 6)
    ok = np.all(filt > 0)
    if ok:
        judge_peaks(rec, freq, filt, r["peaks"], mp)
    if "filter_period" not in kw and r["peaks"]:
        best = r["peaks"][0]
        rec.check("injected-sine", abs(1 / best["period"] - 1 / P) < 0.5 / T,
                  got=best["period"], want=P)
    rec.seen(x, y, repr(kw), nontrivial=len(r["peaks"]) > 0,
             sample=dict(config=rec.ctx["config"], peaks=r["peaks"]))


def direct_acf(y):
    d = y - y.mean()
    n = len(d)
    full = np.correlate(d, d, mode="full")[n - 1:]
    return full / full[0]


def autocorr(rec, rng):
    N = int(rng.integers(100, 300))
    dt = rng.uniform(0.02, 0.5)
    x = np.arange(N) * dt + gen.pick(rng, [0.0, 100.0])
    if rng.random() < 0.5:
        x = x + dt * rng.uniform(-0.2, 0.2, N)
    T = x.max() - x.min()
    # sometimes the series holds not much more than one period
    short = rng.random() < 0.3
    P = float(T * (rng.uniform(0.35, 0.8) if short
                   else rng.uniform(0.07, 0.2)))
    y = np.sin(2 * np.pi * x / P + rng.uniform(0, 6.3))
    harm = gen.pick(rng, [0.0, 0.3, 0.3, 1.5])
    y += harm * np.cos(4 * np.pi * x / P)
    y = y * 10 ** rng.uniform(-2, 2) + rng.normal() * 100
    noise = rng.random() < 0.5
    if noise:
        y += np.std(y) * 0.05 * rng.normal(size=N)
    kw = {}
    mn = np.min(np.diff(x))
    if rng.random() < 0.7:
        kw["min_period"] = mn = P * rng.uniform(0.05, 0.2)
    mx = T
    if rng.random() < 0.7:
        kw["max_period"] = mx = P * gen.pick(rng, [0.5, 1.5, 2.5])
    os_, sm = 2.0, 2.0
    if rng.random() < 0.5:
        kw["oversample"] = os_ = rng.uniform(1, 4)
    if rng.random() < 0.3:
        kw["smooth"] = sm = rng.uniform(0.2, 2)
    rec.ctx["config"] = dict(kw=kw, P=P, T=T, N=N)
    keep = [x.copy(), y.copy()]
    with rec.product("autocorr_estimator"):
        r = xo.autocorr_estimator(x, y, **kw)
    tau, acor = r["autocorr"]
    rec.check("untouched", np.array_equal(x, keep[0])
              and np.array_equal(y, keep[1]))
    dx = np.min(np.diff(x)) / os_
    xx = np.arange(x.min(), x.max(), dx)
    want = gaussian_filter(direct_acf(np.interp(xx, x, y)), sm * mn / dx)
    rec.close("autocorrelation", tau, xx - x[0], 1e-9)
    rec.close("autocorrelation", acor, want, 1e-9)
    top = np.arange(1, len(acor) - 1)[
        (acor[1:-1] > acor[:-2]) & (acor[1:-1] > acor[2:])]
    top = top[tau[top] >= mn]
    pk = r["peaks"]
    rec.check("limits", len(pk) <= 1 and all(
        mn <= q["period"] <= mx for q in pk), got=pk)
    rec.event("one-maximum", int(len(top) == 1 and tau[top[0]] <= mx))
    rec.event("second-higher", int(
        len(top) > 1 and acor[top[1]] > acor[top[0]] and tau[top[1]] <= mx))
    if len(top) == 0 or tau[top[0]] > mx:
        rec.check("no-peak", len(pk) == 0, got=pk)
    elif pk:
        per = pk[0]["period"]
        # the first maximum, unless the second one is higher
        k = 1 if len(top) > 1 and acor[top[1]] > acor[top[0]] else 0
        rec.close("first-maximum", per, tau[top[k]], 1e-12 * T)
        if mx > 1.3 * P and not noise and mn < P / 3 and not short and (
                harm < 1):
            rec.check("injected-periodic", abs(per - P) < 0.15 * P
                      or abs(per - 2 * P) < 0.15 * P, got=per, want=P)
    else:
        k = 1 if len(top) > 1 and acor[top[1]] > acor[top[0]] else 0
        rec.check("no-peak", tau[top[k]] > mx, got=tau[top[k]], want=mx)
    rec.seen(x, y, repr(kw), nontrivial=len(pk) > 0,
             sample=dict(config=rec.ctx["config"], peaks=pk))


def bls(rec, rng):
    N = int(rng.integers(600, 1500))
    T = rng.uniform(20, 40)
    x = np.sort(rng.uniform(0, T, N)) + gen.pick(rng, [0.0, 1500.0, -700.0])
    P = float(rng.uniform(2.0, T / 5))
    dur = float(rng.uniform(0.15, 0.3))
    t0 = float(rng.uniform(0, P)) + x[0]
    depth = 10 ** rng.uniform(-3, 0)
    ph = np.mod(x - t0 + 0.5 * P, P) - 0.5 * P
    sig = 0.1 * depth
    y = np.where(np.abs(ph) < 0.5 * dur, -depth, 0.0) + sig * rng.normal(
        size=N)
    kw = {}
    if rng.random() < 0.8:
        kw["yerr"] = np.full(N, sig)
    if rng.random() < 0.8:
        kw["duration"] = gen.pick(rng, [dur, [0.7 * dur, dur]])
    a, b = None, None
    if rng.random() < 0.6:
        a = P * rng.uniform(0.6, 0.9)
        kw[gen.pick(rng, ["min_period", "minimum_period"])] = a
    if rng.random() < 0.6:
        b = min(P * rng.uniform(1.2, 1.8), T)
        kw[gen.pick(rng, ["max_period", "maximum_period"])] = b
    if rng.random() < 0.3:
        kw["objective"] = gen.pick(rng, ["snr", "likelihood"])
    if rng.random() < 0.3:
        kw["oversample"] = int(rng.integers(5, 15))
    narrow = rng.random() < 0.2
    if narrow:
        # so few periods that the power may have no maximum among them
        kw = {k: v for k, v in kw.items() if "period" not in k}
        a = P * rng.uniform(0.8, 1.1)
        b = a * rng.uniform(1.002, 1.02)
        kw.update(min_period=a, max_period=b)
    rec.ctx["config"] = dict(
        kw={k: v for k, v in kw.items() if k != "yerr"}, P=P, t0=t0, T=T, N=N,
        duration=dur, depth=depth)
    keep = [x.copy(), y.copy()]
    with rec.product("bls_estimator"):
        r = xo.bls_estimator(x, y, **kw)
    rec.check("untouched", np.array_equal(x, keep[0])
              and np.array_equal(y, keep[1]))
    pg = r["bls"]
    if a is not None:
        rec.check("limits", pg.period.min() >= a * (1 - 1e-9)
                  and pg.period.min() < a * 1.05, got=pg.period.min(), want=a)
    if b is not None:
        rec.check("limits", pg.period.max() <= b * (1 + 0.05)
                  and pg.period.max() > b * 0.95, got=pg.period.max(), want=b)
    judge = np.all(pg.power > 0)
    if judge:
        judge_peaks(rec, 1 / pg.period, pg.power, r["peaks"], 1)
    rec.check("peak-info", (r["peak_info"] is None) == (len(r["peaks"]) == 0))
    if not r["peaks"]:
        rec.event("bls-without-peak")
        q = pg.power
        rec.check("none", not np.any((q[1:-1] > q[:-2]) & (q[1:-1] > q[2:])))
        rec.seen(x, y, nontrivial=False)
        return
    ind = r["peaks"][0]["index"]
    info = r["peak_info"]
    for k in ("period", "power", "depth", "depth_err", "duration",
              "transit_time", "depth_snr", "log_likelihood"):
        rec.check("peak-info", k in info and info[k] == pg[k][ind], what=k)
    # two equal neighbours are not a peak, also when they are the highest
    m = int(np.argmax(pg.power))
    strict = 0 < m < len(pg.power) - 1 and pg.power[m] > max(
        pg.power[m - 1], pg.power[m + 1])
    if strict:
        # (several periods may share the highest power)
        rec.check("same-peak", pg.power[ind] == pg.power[m], got=ind, want=m)
    per = info["period"]
    # sampling of the periods: at least a few per resolution element
    df = np.max(np.abs(np.diff(1 / pg.period)))
    fine = df * T < 0.5 * dur / P
    if not narrow and strict and fine and a is not None and b is not None:
        rec.check("injected-box", abs(1 / per - 1 / P) < 2 * df + dur / P / T,
                  got=per, want=P)
        mid = np.mod(info["transit_time"] - t0 + 0.5 * P, P) - 0.5 * P
        # the epoch is counted from the centre of the data, at this period
        rec.check("injected-depth", 0.4 * depth < info["depth"] < 1.3 * depth,
                  got=info["depth"], want=depth)
    # the transit time is a time of the data: folded on it, the flux is low
    q = np.abs(np.mod(x - info["transit_time"] + 0.5 * per, per) - 0.5 * per)
    inn, out = q < 0.5 * info["duration"], q >= 0.5 * info["duration"]
    if not narrow and inn.sum() > 3 and out.sum() > 3:
        d = np.mean(y[out]) - np.mean(y[inn])
        rec.close("transit-epoch", d, info["depth"],
                  0.35 * abs(info["depth"]) + 3 * sig / np.sqrt(inn.sum()))
    rec.seen(x, y, sample=dict(config=rec.ctx["config"], info={
        k: float(v) for k, v in info.items()}))
