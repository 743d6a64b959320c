"""C07 bark and gammatone banks against their published shapes."""
import numpy as np

import api
import refs as R
import signals as S

ID = "C07"
RULE = "case = one bark or gammatone bank with random size, FFT length, sampling rate, band, approach/order; entries that only rounding decides are masked; non-trivial when the bank has a non-zero weight"
N = {"quick": 40000, "thorough": 320000}
MIN = {"oracle:bark-bank": 2400, "oracle:bark-centres": 2400, "oracle:gamma-bank": 2400, "oracle:gamma-centres": 2400, "oracle:gamma-peak": 2400}


def run(ctx, rng, i):
    fs = S.pick(rng, S.FS)
    nfilts = int(S.pick(rng, [1, 2, 13, 24, 26, 40, int(rng.integers(2, 64))]))
    nfft = int(S.pick(rng, [512, 256, 64, 513, 401, 1000, 1024, int(rng.integers(16, 700))]))
    if rng.uniform() < (0.004 if i % 2 == 0 else 0.03):
        nfft = int(S.pick(rng, [2048, 4096, 2049, 3000]))
        nfilts = int(S.pick(rng, [4, 13, 24] if i % 2 == 0 else [24, 100, 200]))
    lo, hi = S.band(rng, fs)
    if rng.uniform() < 0.15:
        lo = float(rng.uniform(0.1, 0.3) * fs)
        hi = None if hi is not None and hi < lo + 200 else hi
    sc = S.pick(rng, ["constant"] * 3 + S.SCALES)
    k = dict(nfilts=nfilts, nfft=nfft, fs=fs, low_freq=lo, high_freq=hi, scale=sc)
    H = fs / 2 if hi is None else hi
    f = np.arange(nfft // 2 + 1) * fs / nfft
    if i % 2 == 0:
        ap = S.pick(rng, S.BARKS + ["Wang"] * 3)
        if ap == "Zwicker":
            k["low_freq"] = lo = float(max(lo, 30.0))
        k["conversion_approach"] = ap
        ctx.describe(bank="bark", **k)
        fb, cf = ctx.call(api.bank_fn("bark"), **k)
        fb, cf = np.asarray(fb, float), np.asarray(cf, float)
        want, c, amb = R.bark_bank(nfilts, nfft, fs, lo, hi, sc, ap)
        ctx.check(fb.shape == want.shape, "bark-shape", f"{fb.shape} instead of {want.shape}")
        ctx.check(bool(np.isfinite(fb).all() and (fb >= 0).all() and (fb <= 1).all()), "bark-range", "weights not in [0, 1]")
        ctx.close(cf, c, "bark-centres", rtol=1e-9, atol=1e-9)
        ctx.close(fb, want, "bark-bank", rtol=0, atol=1e-7, mask=~amb)
        ctx.count("masked", int(amb.sum()))
        far = (f < lo - 2 * fs / nfft) | (f > H + 2 * fs / nfft)
        ctx.check(not fb[:, far].any(), "bark-support", "weight outside the band")
        F = api.util("fbanks.bark_fbanks", "Fm")
        if F is not None and i % 4 == 0:
            for z in list(rng.uniform(-2, 3.5, 6)) + [-0.5, 0.5, 0.0, -1.2999, 2.4999, 2.5001, -1.3001]:
                c0 = float(rng.uniform(0, 20))
                v = float(ctx.call(F, c0 + z, c0))
                w = 0.0 if (z < -1.3 or z > 2.5) else 10 ** (2.5 * (z + 0.5)) if z < -0.5 else 1.0 if z < 0.5 else 10 ** (-(z - 0.5))
                ctx.check(abs(v - w) < 1e-6, "bark-shape-function", f"Fm at distance {z}: {v}, expected {w}")
            # distances that are exact in binary: the edges belong to the pieces as published
            for z in (2.5, 2.75, -0.5, 0.5, -1.5, 2.0, -1.25, 0.0):
                c0 = float(rng.integers(0, 20))
                v = float(ctx.call(F, c0 + z, c0))
                w = 0.0 if (z < -1.3 or z > 2.5) else 10 ** (2.5 * (z + 0.5)) if z < -0.5 else 1.0 if z < 0.5 else 10 ** (-(z - 0.5))
                ctx.check(abs(v - w) < 1e-12, "bark-shape-function", f"Fm at distance {z}: {v}, expected {w}")
    else:
        order = int(S.pick(rng, [4, 4, 4, 1, 2, 3]))
        if order != 4 or rng.uniform() < 0.3:
            k["order"] = order
        ctx.describe(bank="gammatone", **k)
        fb, cf = ctx.call(api.bank_fn("gamma"), **k)
        fb, cf = np.asarray(fb, float), np.asarray(cf, float)
        want, c = R.gamma_bank(nfilts, nfft, fs, lo, hi, sc, order)
        ctx.check(fb.shape == want.shape, "gamma-shape", f"{fb.shape} instead of {want.shape}")
        ctx.check(bool(np.isfinite(fb).all() and (fb >= 0).all()), "gamma-range", "negative or non-finite weight")
        ctx.close(cf, R.hz2erb(c), "gamma-centres", rtol=1e-9, atol=1e-8)
        ctx.check(bool(np.all(np.diff(cf) > 0)), "gamma-ascending", "centres not ascending")
        ctx.close(fb, want, "gamma-bank", rtol=0, atol=1e-7)
        ctx.close(fb.max(axis=1), R.gains(sc, nfilts)[:, 0], "gamma-peak", rtol=1e-9)
        # small weights matter in relative terms too (skirts of the filters)
        m = want > 1e-9
        ctx.close(fb, want, "gamma-skirt", rtol=1e-4, scale=want, mask=m)
        G = api.util("fbanks.gammatone_fbanks", "generate_center_frequencies")
        if G is not None and i % 4 == 1:
            ctx.close(ctx.call(G, lo, H, nfilts), c, "gamma-centre-function", rtol=1e-9, atol=1e-7)
