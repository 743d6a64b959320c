"""C20 dominant frequencies."""
import numpy as np
from scipy import signal as sps

import api
import refs as R
import signals as S
from core import Skip

ID = "C20"
RULE = "case = get_dominant_frequencies on a signal (noise, tones, harmonic, hostile) with random fs/nfft/window/butter options against the arg-max bin of the reference spectrum; frames with a near tie are skipped; pure tones must be within one bin"
N = {"quick": 160000, "thorough": 1280000}
MIN = {"oracle:bin": 83000, "oracle:tone": 3200, "oracle:count": 19000, "oracle:butter": 23000}


def run(ctx, rng, i):
    fs = S.pick(rng, S.FS + [96000])
    wl, wh, wt = S.window(rng, fs)
    L, H = S.lengths(wl, wh, fs)
    nfft = S.nfft_for(rng, L)
    n = S.nsamples(rng, L, H, 14)
    long = i % 401 == 7
    if long:  # many small frames
        L = int(rng.integers(24, 80))
        H = int(rng.integers(L // 2, L + 1))
        wl, wh, nfft = (L + 0.5) / fs, (H + (0.5 if H < L else 0.4)) / fs, int(S.pick(rng, [64, 128]))
        n = L + int(S.pick(rng, [511, 512, 999, int(rng.integers(300, 2200))])) * H
    kw = dict(nfft=nfft, win_len=wl, win_hop=wh, win_type=wt)
    tone = None
    m = i % 4
    if m == 0:
        tone = float(rng.uniform(0.02, 0.48) * fs)
        x = np.cos(2 * np.pi * tone / fs * np.arange(n) + rng.uniform(0, 6)) * 10.0 ** rng.uniform(-4, 4)
        k = "tone"
    elif m == 1 and rng.uniform() < 0.4:
        x, k = S.hostile(rng, n, fs)
    else:
        x, k = S.regular(rng, n, fs)
    if long and m != 0:
        x = np.asarray(x, float) + np.repeat(np.where(rng.uniform(size=n // (4 * H) + 1) < 0.4, 3.0, 0.0) * np.abs(x).max(), 4 * H)[:n]
        k += "+offsets"
    lo, up = 50, 3000
    if m == 3:
        lo, up = S.pick(rng, [(50, 3000), (100.0, 2500.0), (300, 3400), (1000, 2000), (800.0, 3000.0), (float(rng.uniform(200, 1000)), float(rng.uniform(1500, 3500)))])
        if up >= fs / 2:
            up = 0.45 * fs
        kw.update(butter_filter=True, lower_cutoff=lo, upper_cutoff=up)
    elif rng.uniform() < 0.3:
        kw.update(lower_cutoff=500, upper_cutoff=700)  # must be ignored without butter_filter
    if rng.uniform() < 0.2:
        kw["only_positive"] = bool(rng.uniform() < 0.5)
    if rng.uniform() < 0.15 and nfft == 512:
        kw.pop("nfft")
    ctx.describe(fs=fs, n=n, signal=k, tone=tone, **kw)
    got = np.asarray(ctx.call(api.fn("get_dominant_frequencies"), x, fs, **kw))
    T = R.frame_count(n, L, H)
    ctx.check(got.shape == (T,), "count", lambda: f"{got.shape} values for {T} frames")
    y = np.asarray(x, float)
    if m == 3:
        b, a = sps.butter(6, [lo * 2 / fs, up * 2 / fs], "band")
        y = sps.lfilter(b, a, y)
        if np.abs(sps.tf2zpk(b, a)[1]).max() >= 1:
            raise Skip("unstable filter")
    mag = np.abs(R.dft(R.frames(y, L, H) * R.win(wt, L), nfft))
    for t in range(T):
        ctx_key = "butter" if m == 3 else "bin"
        row = mag[t]
        top = np.sort(row)[::-1]
        if row.max() == 0:
            ctx.check(got[t] == 0, "silent", f"silent frame reported at {got[t]} Hz")
            continue
        if top[0] - top[1] < 1e-8 * top[0] or top[0] < 1e-140:
            ctx.count("tie-skipped")
            continue
        want = np.round(np.argmax(row) * fs / nfft, 3)
        ctx.check(abs(got[t] - want) <= 0.0011, ctx_key, lambda: f"frame {t}: {got[t]} Hz, strongest bin {int(np.argmax(row))} is {want} Hz (nfft={nfft}, fs={fs})")
        ctx.check(abs(got[t] * 1000 - round(got[t] * 1000)) < 1e-3, "rounded", f"{got[t]!r}")
    if tone is not None and L >= 32:
        # main lobe must fit: at least 6 periods from either band edge
        M = min(L, nfft)
        if tone > 8 * fs / M and tone < fs / 2 - 8 * fs / M and (nfft >= L):
            ctx.check(np.all(np.abs(got - tone) <= fs / nfft + 0.002), "tone", lambda: f"tone of {tone} Hz reported as {sorted(set(got.tolist()))[:4]} (bin width {fs/nfft})")
