"""C18 totality: finite features of the documented shape on every finite signal."""
import numpy as np

import api
import refs as R
import signals as S
from common import feat, first
from core import Skip, Violation

ID = "C18"
RULE = "case = one entry point on one degenerate signal (silence, zero runs, constants, impulses, alternating, clipped, full-scale integers, very quiet or loud, exactly one frame) under a random valid configuration, often with filters covering no bin; non-trivial when the call returned and shape and finiteness were judged"
N = {"quick": 50000, "thorough": 400000}
MIN = {"oracle:finite": 6000, "oracle:shape": 6000, "one-frame": 1800, "empty-filter": 290, "silent-frame": 900}
ASSUME = ["amplitudes from 1e-13 to 1e9; a dynamic range above 440 dB within one signal is not explored"]
ENTRIES = api.EXTRACTORS + ["get_dominant_frequencies", "compute_yin"]


def finite(ctx, name, res):
    for j, a in enumerate(api.arrays(res)):
        if a.dtype == object:
            ctx.fail("finite", f"{name} result {j} has dtype object")
        if not np.isfinite(a).all():
            ix = np.unravel_index(int(np.argmax(~np.isfinite(a))), a.shape)
            ctx.fail("finite", f"{name} result {j}: {int((~np.isfinite(a)).sum())} of {a.size} values not finite, first {a[ix]} at {tuple(int(v) for v in ix)}")
    ctx.ok("finite")


def signal(rng, n, fs, L):
    if rng.uniform() < 0.12:
        x, k = S.regular(rng, n, fs)
        return x, k
    if rng.uniform() < 0.15:  # two hostile halves
        # (without the 1e9 one: its 440 dB range to the faint one overflows the loudness law of rplp)
        kinds = [q for q in S.HOSTILE if q != "huge"]
        a, ka = S.hostile(rng, n, fs, S.pick(rng, kinds))
        b, kb = S.hostile(rng, n, fs, S.pick(rng, kinds))
        cut = int(rng.integers(0, n))
        return np.concatenate([np.asarray(a, float)[:cut], np.asarray(b, float)[cut:]]), ka + "+" + kb
    x, k = S.hostile(rng, n, fs)
    if rng.uniform() < 0.1 and k not in ("int16", "faint", "tiny", "huge"):
        dt = S.pick(rng, [np.float32, np.int16, np.int32])
        y = (np.asarray(x) * 1000).astype(dt)
        return y, k + ":" + np.dtype(dt).name
    return x, k


def run(ctx, rng, i):
    name = ENTRIES[i % len(ENTRIES)]
    if name in ("get_dominant_frequencies", "compute_yin"):
        fs = S.pick(rng, S.FS)
        wl, wh, wt = S.window(rng, fs)
        if name == "compute_yin":
            wl = max(wl, 0.025)
        L, H = S.lengths(wl, wh, fs)
        n = S.nsamples(rng, L, H, 12)
        x, k = signal(rng, n, fs, L)
        if name == "compute_yin" and rng.uniform() < 0.25:
            x, k = np.full(n, S.pick(rng, [10.0 ** rng.uniform(-5, 5), float(rng.integers(1, 40000)), 0.1, 0.3])), "constant"
        ctx.describe(entry=name, signal=k, n=n, fs=fs, wl=wl, wh=wh)
        if name == "compute_yin":
            lo = float(S.pick(rng, [50, 60, 80.0, 120]))
            r = ctx.call(api.fn(name), x, fs, win_len=wl, win_hop=wh, low_freq=lo, high_freq=float(S.pick(rng, [3000, 1000, 500.0])), harmonic_threshold=float(S.pick(rng, [0.1, 0.1, 0.85, 0.01])))
            k = len(range(0, n - L, H))
            ctx.check(len(r) == 4 and all(np.shape(a) == (k,) for a in r), "shape", lambda: f"{[np.shape(a) for a in r]}, expected 4 times {k}")
        else:
            r = ctx.call(api.fn(name), x, fs, nfft=S.nfft_for(rng, L), win_len=wl, win_hop=wh, win_type=wt, butter_filter=bool(rng.uniform() < 0.2 and fs > 7000))
            ctx.check(np.shape(r) == (R.frame_count(n, L, H),), "shape", lambda: f"{np.shape(r)}")
        finite(ctx, name, r)
        return
    c = api.sample(rng, name, post=True)
    c["normalize"] = None
    if "normalize" in c and name in api.SPECTRO + ["lpc", "cqt_spectrogram"]:
        c.pop("normalize")
    if name in api.FAMILY and rng.uniform() < 0.3:
        c["nfft"] = int(S.pick(rng, [64, 128, 33, 256]))
    L, H = api.dims(c)
    n = S.nsamples(rng, L, H, 12)
    x, k = signal(rng, n, c["fs"], L)
    fr = R.frame_count(n, L, H)
    if fr == 1:
        ctx.count("one-frame")
    if name in api.FAMILY and (api.ref_bank(api.FAMILY[name], c).max(axis=1) <= 0).any():
        ctx.count("empty-filter")
    if not np.asarray(x[:L], float).any() or not np.asarray(x[(fr - 1) * H : (fr - 1) * H + L], float).any():
        ctx.count("silent-frame")
    ctx.describe(entry=name, signal=k, n=n, frames=fr, **c)
    res = feat(ctx, name, x, c)
    a = api.arrays(res)
    if name in api.SPECTRO:
        want = [(fr, c["nfilts"]), (fr, c["nfft"] // 2 + 1)]
    elif name == "lpc":
        want = [(fr, c["order"]), (fr, 1)]
    elif name in ("lpcc", "plp", "rplp"):
        want = [(fr, c["order"])]
    elif name == "cqt_spectrogram":
        f, _, amb = R.cqt_freqs(c["fs"], c["low_freq"], c["high_freq"], c["nfft"], c["number_of_octaves"], c["number_of_bins_per_octave"], c["f0"], c["q_rate"])
        if amb:
            raise Skip("bin edge")
        want = [(len(f), fr)]
    else:
        want = [(fr, c["num_ceps"])]
    ctx.check([v.shape for v in a] == want, "shape", lambda: f"{name}: {[v.shape for v in a]}, expected {want}")
    finite(ctx, name, res)
