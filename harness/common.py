"""Pieces shared by the property modules."""
import numpy as np

import api
import refs as R
import signals as S
from core import Skip, Violation


def make(ctx, rng, name, max_frames=30, hostile=0.0, kinds=None, min_frames=1, long=0.008, **kw):
    """a configuration and a signal for entry point `name`; now and then with very many frames or very large sizes"""
    c = api.sample(rng, name, **kw)
    u = rng.uniform()
    frames = 0
    if u < long:
        frames = int(10 ** rng.uniform(2.0, 3.4 if name != "pncc" else 2.7))
        if rng.uniform() < 0.1 and name in api.SPECTRO + api.CEPS:
            frames = int(rng.integers(4000, 9000))
        if rng.uniform() < 0.5:  # block-wise processing would cut at round numbers
            frames = int(S.pick(rng, [64, 100, 128, 256, 500, 512, 1000, 1024, 2048] if name != "pncc" else [64, 100, 128, 256]))
            frames += int(S.pick(rng, [0, 0, 1, -1]))
        if u < long * 0.75:  # small frames
            L = int(rng.integers(16, 65))
            H = int(rng.integers(max(1, L // 6), L + 1))
            c["win"] = ((L + 0.5) / c["fs"], (H + (0.5 if H < L else 0.4)) / c["fs"], c["win"][2])
            if "order" in c:
                c["order"] = min(c["order"], L - 2)
            if "nfft" in c and not name.startswith("cq"):
                c["nfft"] = int(S.pick(rng, [64, 128, 65]))
        else:
            frames = min(frames, 700)
    elif u < 1.6 * long and "nfft" in c and not name.startswith("cq"):
        c["nfft"] = int(S.pick(rng, [4096, 8192, 4097, 2048]))
        if api.FAMILY[name] == "bark":
            c["nfft"] = 2048
            c["nfilts"] = min(c["nfilts"], 30)
        elif name != "pncc":
            c["nfilts"] = int(rng.integers(41, 201))
        if "num_ceps" in c:
            c["num_ceps"] = int(S.pick(rng, [min(13, c["nfilts"]), c["nfilts"]]))
        if "order" in c:
            c["order"] = min(c["order"], c["nfilts"])
    elif u < 4 * long and u > 2.5 * long and "nfilts" in c and name != "pncc":  # more filters than usual
        c["nfilts"] = int(rng.integers(31, 131))
        if api.FAMILY[name] == "bark":
            c["nfilts"] = min(c["nfilts"], 70)
        if "num_ceps" in c:
            c["num_ceps"] = int(S.pick(rng, [min(13, c["nfilts"]), c["nfilts"], int(rng.integers(1, c["nfilts"]))]))
    elif u < 2.5 * long and name in ("lpc", "lpcc"):
        c["order"] = int(min(S.pick(rng, [33, 48, 65]), api.dims(c)[0] - 2))
    L, H = api.dims(c)
    if frames:
        n = L + (frames - 1) * H + int(rng.integers(0, H))
    elif min_frames > 1:
        n = L + int(rng.integers(min_frames - 1, max(min_frames, max_frames))) * H + int(rng.integers(0, H))
    else:
        n = S.nsamples(rng, L, H, max_frames)
    if rng.uniform() < hostile:
        x, k = S.hostile(rng, n, c["fs"])
    else:
        x, k = S.regular(rng, n, c["fs"], S.pick(rng, kinds) if kinds else None)
    ctx.describe(entry=name, signal=k, n=n, frames=R.frame_count(n, L, H), **{a: b for a, b in c.items()})
    return x, c, k


def feat(ctx, name, x, c, **over):
    """call the entry point with configuration c"""
    return ctx.call(api.fn(name), x, **api.kwargs(c, **over))


def first(res):
    return res[0] if isinstance(res, tuple) else res


def pair_close(ctx, name, a, b, key, rtol=1e-6, rows=None):
    """two results of the same entry point that must agree"""
    A, B = api.arrays(a), api.arrays(b)
    if len(A) != len(B):
        raise Violation(key, f"{name}: {len(A)} results against {len(B)}")
    for i, (u, v) in enumerate(zip(A, B)):
        try:
            ctx.close(u, v, key, rtol=rtol)
        except Violation as e:
            raise Violation(key, f"{name} result {i}: {e.msg}")


def bank_has_empty(c, name):
    return bool((api.ref_bank(api.FAMILY[name], c).max(axis=1) <= 1e-9).any())


CQ_KEYS = ["fs", "low_freq", "high_freq", "nfft", "number_of_octaves", "number_of_bins_per_octave", "spectral_threshold", "f0", "q_rate"]


def cq_power(x, c):
    """reference constant-Q values of a signal -> (values, well conditioned?)

    Not well conditioned: bins whose kernel does not overlap the frame (their true value is 0 and the FFT
    returns rounding noise, whose logarithm is arbitrary), kernels at the threshold, bins at a band edge."""
    wl, wh, wt = c["win"]
    wf = R.windowed(x, c["fs"], wl, wh, wt, c["pre_emph"], c["pre_emph_coeff"])
    a = [c[q] for q in CQ_KEYS]
    args = (c["fs"], c["low_freq"], c["high_freq"], c["nfft"], c["number_of_octaves"], c["number_of_bins_per_octave"], wt, c["spectral_threshold"], c["f0"], c["q_rate"])
    want, ambr, amb = R.cqt(wf, *args)
    probe, _, _ = R.cqt(np.random.default_rng(5).standard_normal((1, c["nfft"])), *args)
    dead = (np.abs(probe[:, 0]) == 0)[:, None]
    p = np.abs(want)
    good = not amb and not ambr.any() and bool((dead | (p > 1e-7 * np.abs(wf).max(axis=1)[None, :])).all())
    return want, good


def cqt_is_noise(x, c):
    """every kernel misses the frames: all values are rounding noise around 0"""
    v, _ = cq_power(x, c)
    return v.size == 0 or np.abs(v).max() < 1e-5 * np.abs(np.asarray(x, float)).max()
