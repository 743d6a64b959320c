"""C06 triangular filter banks: reference bank plus independent invariants."""
import numpy as np

import api
import refs as R
import signals as S

ID = "C06"
RULE = "case = one mel / inverse mel / linear bank with random size, FFT length (even, odd), sampling rate and band; non-trivial when the bank has a non-zero weight"
N = {"quick": 160000, "thorough": 1280000}
MIN = {"oracle:bank": 19000, "oracle:range": 19000, "oracle:partition": 10000, "oracle:centres": 19000, "oracle:mirror": 980, "oracle:peak": 10000}


def args(rng):
    fs = S.pick(rng, S.FS + [96000, 10007])
    nfilts = int(S.pick(rng, [1, 2, 3, 13, 24, 26, 40, 80, 128, int(rng.integers(1, 100))]))
    nfft = int(S.pick(rng, [512, 512, 1024, 2048, 256, 64, 513, 401, 1000, 4096, int(S.pick(rng, [4097, 8191, 16384, 5000, 6001])), 2, 3, int(rng.integers(8, 3000))]))
    m = int(rng.integers(5))
    if m == 0:
        lo, hi = 0, None
    elif m == 1:
        lo, hi = S.band(rng, fs)
    elif m == 2:
        lo, hi = float(rng.uniform(0, fs * 0.45)), fs / 2
    elif m == 3:
        lo = float(rng.uniform(0, fs * 0.4))
        hi = float(rng.uniform(lo + 50, fs / 2))
    else:  # edges exactly on FFT bins
        a, b = sorted(rng.choice(np.arange(0, nfft // 2 + 1), 2, replace=False)) if nfft >= 8 else (0, nfft // 2)
        lo, hi = float(a * fs / nfft), float(b * fs / nfft)
        if hi - lo < 50 or hi > fs / 2:
            lo, hi = 0, None
    return fs, nfilts, nfft, lo, hi


def run(ctx, rng, i):
    fam = ["mel", "imel", "lin"][i % 3]
    fs, nfilts, nfft, lo, hi = args(rng)
    ap = S.pick(rng, S.MELS)
    sc = S.pick(rng, ["constant"] * 3 + S.SCALES)
    k = dict(nfilts=nfilts, nfft=nfft, fs=fs, low_freq=lo, high_freq=hi, scale=sc)
    if fam != "lin":
        k["conversion_approach"] = ap
    ctx.describe(bank=fam, **k)
    fb, cf = ctx.call(api.bank_fn(fam), **k)
    fb, cf = np.asarray(fb), np.asarray(cf)
    want, wc = R.tri_bank(fam, nfilts, nfft, fs, lo, hi, sc, ap)
    H = fs / 2 if hi is None else hi
    ctx.check(fb.shape == (nfilts, nfft // 2 + 1), "shape", f"{fb.shape} instead of {(nfilts, nfft // 2 + 1)}")
    ctx.check(bool(np.all(fb >= 0) and np.all(fb <= 1 + 1e-12)), "range", f"weights in [{fb.min()}, {fb.max()}]")
    ctx.close(fb, want, "bank", rtol=0, atol=1e-7)
    # returned centres
    ctx.close(cf, wc, "centres", rtol=1e-9)
    hz = cf if fam == "lin" else R.mel2hz(cf, ap)
    ctx.check(bool(np.all(hz > lo - 1e-6) and np.all(hz < H + 1e-6)), "centres-in-band", f"centres {hz.min()}..{hz.max()} outside [{lo}, {H}]")
    d = np.diff(cf)
    if fam != "imel" and nfilts > 1:
        ctx.check(bool(np.all(d > 0)) and np.allclose(d, d[0], rtol=1e-6), "equal-spacing", "centre spacing is not constant on the scale")
    # invariants on the matrix itself
    f = np.arange(nfft // 2 + 1) * fs / nfft
    if sc == "constant":
        inner = (f >= hz.min()) & (f <= hz.max())
        if nfilts > 1 and inner.any():
            s = fb[:, inner].sum(axis=0)
            ctx.check(bool(np.allclose(s, 1, atol=1e-7)), "partition", f"rows sum to {s.min()}..{s.max()} between the outer centres")
    out = (f < lo - 1e-6) | (f > H + 1e-6)
    ctx.check(not fb[:, out].any(), "support", "weight outside [low_freq, high_freq]")
    wid = max(np.max(np.diff(np.r_[lo, np.sort(hz), H])), 1e-9)
    if wid > 4 * fs / nfft and nfilts > 1:
        for j in range(nfilts):
            if fb[j].max() > 0:
                ctx.check(abs(f[np.argmax(fb[j])] - hz[j]) <= fs / nfft + 1e-6, "peak", f"row {j} peaks at {f[np.argmax(fb[j])]} Hz, centre {hz[j]} Hz")
                break
    if fam == "imel" and sc == "constant" and rng.uniform() < 0.6:
        # mirror images: a mel row sampled at lo+hi-f must equal the inverse mel row at f
        q = nfft * (lo + H) / fs
        if abs(q - round(q)) < 1e-9:
            q = int(round(q))
            mel, _ = ctx.call(api.bank_fn("mel"), **k)
            ks = np.arange(nfft // 2 + 1)
            ok = (q - ks >= 0) & (q - ks <= nfft // 2)
            ctx.close(fb[:, ks[ok]], np.asarray(mel)[:, q - ks[ok]], "mirror", rtol=0, atol=1e-7)
