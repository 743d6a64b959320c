"""C21 YIN against the brute-force difference function; decisions at rounding distance are skipped."""
import numpy as np

import api
import monitor
import refs as R
import signals as S
from core import Skip

ID = "C21"
RULE = "case = compute_yin on a voiced, noisy, hostile or integer signal; every frame's pitch, rate and arg-min are judged against a brute-force evaluation of the definition (frames whose decision hangs on rounding are skipped); or compute_difference / compute_cmnd / get_pitch directly; periodic signals must report their period"
N = {"quick": 36000, "thorough": 288000}
MIN = {"oracle:pitch": 16000, "oracle:rate": 16000, "oracle:times": 2800, "oracle:difference": 720, "oracle:cmnd": 720, "oracle:get_pitch": 720, "oracle:period": 570, "oracle:silent": 960}


def scan(cm, err, tmin, tmax, thr):
    """-> (lag or 0, ambiguous)"""
    t = tmin
    while t < tmax:
        if not np.isnan(cm[t]) and abs(cm[t] - thr) <= err[t] and err[t] > 0:
            return 0, True
        if cm[t] < thr:
            while t + 1 < tmax:
                if abs(cm[t + 1] - cm[t]) <= err[t] + err[t + 1] and err[t] + err[t + 1] > 0:
                    return 0, True
                if not cm[t + 1] < cm[t]:
                    break
                t += 1
            return t, False
        t += 1
    return 0, False


def run(ctx, rng, i):
    m = i % 6
    if m == 0:
        f = api.util("frequencies.fundamental_frequencies", "compute_difference")
        w = int(rng.integers(2, 700))
        tm = int(rng.integers(1, w + 1))
        dt = S.pick(rng, [np.float64, np.float64, np.int16, np.float32, np.int32])
        x = (rng.standard_normal(w) * 10 ** rng.uniform(-2, 4)).astype(float)
        x = np.clip(x, -32000, 32000).astype(dt)
        if dt == np.int16 and rng.uniform() < 0.5:
            x = rng.integers(-32768, 32768, w).astype(dt)
        ctx.describe(fn="compute_difference", w=w, tau=tm, dtype=np.dtype(dt).name)
        d = np.asarray(ctx.call(f, S.pick(rng, [x, x, list(x)]), tm))
        xf = x.astype(float)
        want = np.array([np.sum((xf[: w - t] - xf[t:]) ** 2) for t in range(tm)])
        ctx.close(d, want, "difference", rtol=0, atol=1e-10 * max(np.sum(xf * xf), 1e-300))
        return
    if m == 1:
        tm = int(rng.integers(2, 400))
        d = np.abs(rng.standard_normal(tm)) * 10 ** rng.uniform(-3, 6)
        d[0] = 0
        f = api.util("frequencies.fundamental_frequencies", "compute_cmnd")
        cm = np.asarray(ctx.call(f, d.copy(), tm))
        want = np.r_[1.0, d[1:] * np.arange(1, tm) / np.cumsum(d[1:])]
        ctx.describe(fn="compute_cmnd", tau=tm, d1=float(d[1]))
        ctx.close(cm, want, "cmnd", rtol=1e-10)
        g = api.util("frequencies.fundamental_frequencies", "get_pitch")
        lo = int(rng.integers(0, tm))
        hi = int(rng.integers(lo, tm + 1))
        thr = float(S.pick(rng, [0.1, 0.5, 0.85, 1.0, 2.0]))
        if rng.uniform() < 0.5:  # exact equality with the threshold, plateaus
            want = rng.integers(0, 9, tm) / 4.0 if rng.uniform() < 0.6 else np.repeat(rng.integers(0, 9, tm) / 4.0, int(rng.integers(1, 5)))[:tm]
            thr = float(S.pick(rng, [0.25, 0.5, 1.0, 0.75]))
        lag, amb = scan(want, np.zeros(tm), lo, hi, thr)
        if not amb:
            p = ctx.call(g, want.copy(), lo, hi, thr) if rng.uniform() < 0.5 else ctx.call(g, cmdf=want.copy(), tau_min=lo, tau_max=hi, harmonic_threshold=thr)
            ctx.check(p == lag, "get_pitch", lambda: f"lag {p}, expected {lag} (range [{lo},{hi}), threshold {thr})")
        return
    fs = S.pick(rng, [8000, 11025, 16000, 22050, 44100])
    lo = float(S.pick(rng, [50, 50, 60, 80, 100.0, 133.3]))
    hi = float(S.pick(rng, [3000, 3000, 1000, 500, 800.5, fs / 2, fs * 0.75, fs]))
    thr = float(S.pick(rng, [0.1, 0.1, 0.1, 0.85, 0.3, 0.05]))
    wl = float(S.pick(rng, [0.03, 0.03, 0.04, 0.025, 0.05]))
    if int(fs / lo) > int(wl * fs):
        wl = 1.5 / lo
    wh = float(S.pick(rng, [0.015, 0.01, 0.02, wl]))
    if rng.uniform() < 0.01:  # very long frames and lags
        wl = float(S.pick(rng, [2100, 4100, 5000, 8200])) / fs
        wh = wl * 0.7
        lo = float(fs / rng.uniform(300, wl * fs * 0.9))
    if rng.uniform() < 0.06:  # the longest searched lag is the whole frame, or one less
        w = int(rng.integers(40, 900))
        wl, lo = (w + 0.5) / fs, fs / (w + float(S.pick(rng, [0.25, -0.5])))
        wh = float(S.pick(rng, [wl, wl / 2]))
        hi = max(hi, 4 * lo)
    wh = min(wh, wl)
    L, H = int(wl * fs), int(wh * fs)
    n = L + int(rng.integers(0, 12)) * H + int(S.pick(rng, [0, 1, int(rng.integers(0, H))]))
    per = None
    if m == 2:
        per = int(rng.integers(int(fs / hi) + 2, max(int(fs / hi) + 3, min(int(fs / lo) - 2, L // 2))))
        cyc = np.sin(2 * np.pi * np.arange(per) / per + rng.uniform(0, 6)) + (0.3 * np.sin(4 * np.pi * np.arange(per) / per + rng.uniform(0, 6)) if per > 8 else 0)
        x = np.resize(cyc, n) * 10.0 ** rng.uniform(-3, 4)
        k = f"periodic{per}"
    elif m == 3:
        x, k = S.hostile(rng, n, fs)
    else:
        x, k = S.regular(rng, n, fs, S.pick(rng, ["harmonic", "harmonic", "speechlike", "wav", "chirp", "white", "tone_noise"]))
        if rng.uniform() < 0.2:
            x = (x / np.abs(x).max() * 20000).astype(np.int16)
            k += ":int16"
    ctx.describe(fs=fs, n=n, win_len=wl, win_hop=wh, low=lo, high=hi, thr=thr, signal=k)
    arg = list(x) if rng.uniform() < 0.1 else x
    if (lo, hi, thr, wl, wh) == (50.0, 3000.0, 0.1, 0.03, 0.015):
        r = ctx.call(api.fn("compute_yin"), arg, fs)
    else:
        r = ctx.call(api.fn("compute_yin"), arg, fs, win_len=wl, win_hop=wh, low_freq=lo, high_freq=hi, harmonic_threshold=thr)
    ctx.check(len(r) == 4, "arity")
    pit, rate, arg, times = [np.asarray(v) for v in r]
    starts = np.arange(0, n - L, H)
    ctx.check(all(v.shape == starts.shape for v in (pit, rate, arg, times)), "count", lambda: f"{[v.shape for v in (pit, rate, arg, times)]}, expected {len(starts)}")
    if not len(starts):
        return
    ctx.close(times, starts / fs, "times", rtol=1e-12)
    xf = np.asarray(x, float)
    for j, s in enumerate(starts):
        fr = xf[s : s + L]
        d, cm, err, tmin, tmax = R.yin_frame(fr, fs, lo, hi, thr)
        if not fr.any():
            ctx.check(pit[j] == 0 and arg[j] == 0, "silent", f"silent frame {j}: pitch {pit[j]}, arg-min {arg[j]}")
            continue
        if not np.isfinite(cm).all() or not np.isfinite(err).all() or err.max() > 0.01:
            ctx.count("skipped-frames")
            continue
        lag, amb = scan(cm, err, tmin, tmax, thr)
        if amb:
            ctx.count("skipped-frames")
            continue
        want = fs / lag if lag else 0.0
        ctx.check(abs(pit[j] - want) <= 1e-9 * max(want, 1), "pitch", lambda: f"frame {j}: pitch {pit[j]} (lag {fs/pit[j] if pit[j] else 0}), expected {want} (lag {lag})")
        wr = cm[lag] if lag else cm.min()
        ctx.check(abs(rate[j] - wr) <= err.max() + 1e-9, "rate", lambda: f"frame {j}: harmonic rate {rate[j]}, expected {wr}")
        so = np.sort(cm)
        if len(so) > 1 and so[1] - so[0] > 2 * err.max() + 1e-12:
            am = int(np.argmin(cm))
            wa = fs / am if am > tmin else 0.0
            ctx.check(abs(arg[j] - wa) <= 1e-9 * max(wa, 1), "argmin", lambda: f"frame {j}: arg-min frequency {arg[j]}, expected {wa}")
    if per is not None and thr <= 0.3 and per >= 12:
        lag = np.round(np.where(pit > 0, fs / np.where(pit > 0, pit, 1), 0))
        ctx.check(np.all(lag == per), "period", lambda: f"signal of period {per} samples reported with lags {sorted(set(lag.tolist()))[:5]}")
