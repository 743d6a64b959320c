"""C16 constant-Q transform and CQCC against direct time-domain inner products."""
import numpy as np
from scipy.signal import resample

import api
import monitor
import refs as R
import signals as S
from common import make, feat, cq_power
from core import Skip

ID = "C16"
RULE = "case = cqt_spectrogram / cqcc / compute_constant_qtransform run against time-domain inner products of the reference windowed frames (bins at the sparsity threshold skipped), or a tone that must be strongest in its own bin; nested transforms inside cqcc are judged as well"
N = {"quick": 7200, "thorough": 57600}
MIN = {"oracle:cqt": 520, "oracle:shape": 860, "oracle:cqcc": 110, "oracle:tone-bin": 84, "oracle:resampled": 98}
KEYS = ["fs", "low_freq", "high_freq", "nfft", "number_of_octaves", "number_of_bins_per_octave", "win_type", "spectral_threshold", "f0", "q_rate"]


def ref(fr, a):
    return R.cqt(fr, a["fs"], a["low_freq"], a["high_freq"], a["nfft"], a["number_of_octaves"], a["number_of_bins_per_octave"], a["win_type"], a["spectral_threshold"], a["f0"], a["q_rate"])


def o_cqt(ctx, a, r):
    try:
        fr = np.asarray(a["frames"], float)
        if fr.ndim != 2 or len(fr) > 8:
            fr = fr[:8]
        want, ambr, amb = ref(fr, a)
    except (KeyError, TypeError, ValueError):
        return
    if amb:
        return
    r = np.asarray(r)[:, :8]
    if r.shape != want.shape:
        ctx.report("nested-cqt", f"transform of {fr.shape} frames has shape {r.shape}, expected {want.shape}")
        return
    sc = np.abs(fr).max(axis=1)[None, :]
    bad = ~(np.abs(r - want) <= 1e-9 * sc) & ~ambr[:, None]
    if bad.any():
        ctx.report("nested-cqt", f"entry {tuple(int(q[0]) for q in np.nonzero(bad))} differs from the inner product")
    else:
        ctx.ok("nested-cqt")


def setup(ctx):
    monitor.Spy(ctx, {"compute_constant_qtransform": [o_cqt]}, only=["compute_constant_qtransform"]).install()


def edges(rng, c):
    """put band edges and window lengths exactly on their limits"""
    u = rng.uniform()
    fs, nfft, o = c["fs"], c["nfft"], c["number_of_octaves"]
    d = dict(c)
    if u < 0.2:
        d["low_freq"] = c["f0"] * 2.0 ** int(rng.integers(0, o))
        d["high_freq"] = None
    elif u < 0.4:
        d["high_freq"] = c["f0"] * 2.0 ** int(rng.integers(0, o))
        d["low_freq"] = 0
        if d["high_freq"] > fs / 2:
            return c
    elif u < 0.5:
        d.update(number_of_bins_per_octave=1, q_rate=1.0, f0=fs / S.pick(rng, [nfft, nfft / 2, nfft / 4, 128.0, 64.0]), low_freq=0, high_freq=None)
    else:
        return c
    n = len(R.cqt_freqs(fs, d["low_freq"], d["high_freq"], nfft, o, d["number_of_bins_per_octave"], d["f0"], d["q_rate"])[0])
    if n < max(1, d.get("num_ceps", 1)) or n > 150:
        return c
    if d.get("dct_type") == 1 and n < 2:
        return c
    return d


def run(ctx, rng, i):
    m = i % 5
    if m == 4 and (i // 5) % 2 == 0:
        # a tone at a bin frequency is strongest in that bin
        fs = S.pick(rng, [8000, 16000, 22050, 44100])
        b = int(S.pick(rng, [6, 12, 24]))
        nfft = int(S.pick(rng, [1024, 2048]))
        f, Nk, amb = R.cqt_freqs(fs, 0, None, nfft, 7, b, 120, 1.0)
        if len(f) < 4 or amb:
            raise Skip("few bins")
        k = int(rng.integers(1, len(f) - 1))
        if f[k] > 0.45 * fs:
            raise Skip("near nyquist")
        x = np.sin(2 * np.pi * f[k] / fs * np.arange(nfft * 3) + rng.uniform(0, 6)) * 10 ** rng.uniform(-3, 3)
        w = (nfft + 0.5) / fs
        ctx.describe(entry="cqt_spectrogram", fs=fs, bins=b, nfft=nfft, tone=float(f[k]))
        out = np.asarray(ctx.call(api.fn("cqt_spectrogram"), x, fs=fs, pre_emph=False, window=api.window((w, w, "hamming")), nfft=nfft, number_of_bins_per_octave=b, spectral_threshold=0.0))
        ctx.check(out.shape[0] == len(f), "shape", lambda: f"{out.shape[0]} bins, expected {len(f)}")
        top = np.abs(out).argmax(axis=0)
        ctx.check(np.all(np.abs(top - k) <= 1), "tone-bin", lambda: f"tone in bin {k} is strongest in bins {sorted(set(top.tolist()))}")
        return
    if m == 3:
        f = api.util("utils.spectral", "compute_constant_qtransform")
        c = edges(rng, api.sample(rng, "cqt_spectrogram", small=True))
        a = {q: c[q] for q in KEYS if q in c}
        a["win_type"] = S.pick(rng, S.WINS)
        T = int(rng.integers(1, 6))
        L = int(S.pick(rng, [c["nfft"], c["nfft"] // 2, c["nfft"] + 7, int(rng.integers(5, 2 * c["nfft"]))]))
        fr = rng.standard_normal((T, L)) * 10 ** rng.uniform(-3, 3)
        ctx.describe(entry="compute_constant_qtransform", T=T, L=L, **a)
        got = np.asarray(ctx.call(f, S.pick(rng, [fr, list(fr)]), **a))
        if not np.isfinite(got).all():
            ctx.fail("cqt", "non-finite")
        want, ambr, amb = ref(fr, a)
        if amb:
            raise Skip("bin edge")
        ctx.check(got.shape == want.shape, "shape", lambda: f"{got.shape}, expected {want.shape}")
        ctx.close(got, want, "cqt", rtol=0, atol=1e-9 * np.abs(fr).max(), mask=~ambr[:, None])
        return
    name = "cqt_spectrogram" if m < 2 else "cqcc"
    x, c, k = make(ctx, rng, name, max_frames=12, hostile=0.15 if name == "cqt_spectrogram" else 0.0, small=True, post=rng.uniform() < 0.3)
    c = edges(rng, c)
    ctx.describe(**c)
    wl, wh, wt = c["win"]
    wf = R.windowed(x, c["fs"], wl, wh, wt, c["pre_emph"], c["pre_emph_coeff"])
    if name == "cqcc":
        c["resampling_ratio"] = float(S.pick(rng, [1.0, 1.0, 1.0, 0.5, 2.0, 0.75, 1.5]))
        if int(len(wf) * c["resampling_ratio"]) < 1:
            c["resampling_ratio"] = 1.0
        ctx.describe(resampling_ratio=c["resampling_ratio"])
    got = np.asarray(feat(ctx, name, x, c))
    a = dict({q: c[q] for q in KEYS if q in c}, win_type=wt)
    want, ambr, amb = ref(wf, a)
    if amb:
        raise Skip("bin edge")
    if name == "cqt_spectrogram":
        ctx.check(got.shape == want.shape, "shape", lambda: f"{got.shape}, expected {want.shape}")
        ctx.close(got, want, "cqt", rtol=0, atol=1e-9 * max(np.abs(wf).max(), 1e-300), mask=~ambr[:, None])
        return
    n = int(len(wf) * c["resampling_ratio"])
    ctx.check(got.shape == (n, c["num_ceps"]), "shape", lambda: f"{got.shape}, expected {(n, c['num_ceps'])}")
    if not cq_power(x, c)[1]:
        raise Skip("conditioning")
    p = np.abs(want)
    v = np.log(R.zh(p**2)).T
    if c["resampling_ratio"] != 1:
        v = resample(v, n)
    v = R.dct(v, c["dct_type"], c["num_ceps"])
    v = v * R.lifter_vec(v.shape[1], c.get("lifter"))[None, :]
    if c.get("normalize") and v.std() < 1e-6 * np.abs(v).max():
        raise Skip("zero variance")
    with np.errstate(all="ignore"):
        at = R.norm_atol(v, c.get("normalize"))
        v = R.normalize(v, c.get("normalize"))
    ctx.close(got, v, "cqcc" if c["resampling_ratio"] == 1 else "resampled", rtol=1e-6, atol=at)
