"""C09 spectrograms against the reference power model."""
import numpy as np

import api
import refs as R
import signals as S
from common import make, feat
from core import Skip

ID = "C09"
RULE = "case = one spectrogram call (mel, bark, erb, linear) on a random or degenerate signal and configuration, every energy and magnitude compared; non-trivial when the frame has energy"
N = {"quick": 48000, "thorough": 384000}
MIN = {"oracle:energies": 5800, "oracle:magnitudes": 5800, "oracle:energies-relative": 5600, "oracle:additive": 220, "oracle:tone": 610}


def run(ctx, rng, i):
    name = api.SPECTRO[i % 4]
    x, c, k = make(ctx, rng, name, hostile=0.25, max_nfilts=64)
    if i % 11 == 0:
        c["win"] = (c["win"][0], c["win"][1], S.pick(rng, S.WINS))
    bank = None
    if rng.uniform() < 0.25:
        bank = rng.uniform(0, 1, (c["nfilts"], c["nfft"] // 2 + 1)) * (rng.uniform(size=(c["nfilts"], c["nfft"] // 2 + 1)) < 0.4)
        ctx.describe(fbanks="random")
    r = api.Ref(name, x, c, bank)
    res = feat(ctx, name, x, c, **({"fbanks": bank} if bank is not None else {}))
    ctx.check(isinstance(res, tuple) and len(res) == 2, "results", "expected (spectrogram, magnitudes)")
    E, M = np.asarray(res[0]), np.asarray(res[1])
    if k != "silence" and not np.any(r.etot > 0):
        ctx.count("silent")
    mm = max(r.mag.max(), 1e-300)
    ctx.check(M.shape == r.mag.shape, "magnitude-shape", f"{M.shape} instead of {r.mag.shape}")
    ctx.close(np.abs(M), r.mag, "magnitudes", rtol=1e-9, scale=mm)
    ctx.check(E.shape == r.E.shape, "shape", f"{E.shape} instead of {r.E.shape}")
    ctx.check(bool((E >= 0).all()), "non-negative", "negative energy")
    emax = r.E.max(axis=1, keepdims=True)
    rowmax = np.maximum(np.maximum(emax, 1e-5 * np.sqrt(emax * r.etot[:, None])), 1e-30 * r.etot[:, None]) + 1e9 * r.enoise.max(axis=1, keepdims=True)
    ctx.close(E, r.E, "energies", rtol=1e-9, scale=rowmax, atol=1e-290)
    wmax = r.bank.max(axis=1)[None, :]
    m = (r.E > 1e-15 * r.etot[:, None] * np.maximum(wmax, 1e-300)) & (r.E > 1e-280) & (r.E >= 4e6 * r.enoise)
    if m.any():
        ctx.close(E, r.E, "energies-relative", rtol=1e-6, scale=r.E, mask=m)
    z = r.bank.max(axis=1) == 0
    if z.any():
        ctx.check(bool((E[:, z] <= 4 * r.enoise[:, z]).all()), "empty-filter", "an empty filter has energy")
    if rng.uniform() < 0.15 and bank is not None:
        # additive over a split of the bank
        cut = rng.uniform(size=bank.shape) < 0.5
        e1 = np.asarray(feat(ctx, name, x, c, fbanks=bank * cut)[0])
        e2 = np.asarray(feat(ctx, name, x, c, fbanks=bank * ~cut)[0])
        ctx.close(e1 + e2, E, "additive", rtol=1e-9, scale=rowmax, atol=1e-290)
    if rng.uniform() < 0.2 and c["nfft"] >= 256:
        # a stationary tone shows up in the filter whose band contains it
        L, H = api.dims(c)
        if L < 200 or c["nfft"] < L:
            raise Skip("short frame")
        hi = c["high_freq"] or c["fs"] / 2
        f = rng.uniform(max(c["low_freq"], 4 * c["fs"] / L), hi * 0.95)
        if f >= hi:
            raise Skip("narrow band")
        t = np.arange(L + 2 * H) / c["fs"]
        cc = dict(c, win=(c["win"][0], c["win"][1], "hanning"), pre_emph=False, scale="constant")
        E = np.asarray(feat(ctx, name, np.sin(2 * np.pi * f * t), cc)[0])
        B = api.ref_bank(api.FAMILY[name], cc)
        kb = int(round(f * c["nfft"] / c["fs"]))
        j = int(np.argmax(E[0]))
        lo_, hi_ = max(0, kb - int(np.ceil(4 * c["nfft"] / L))), kb + int(np.ceil(4 * c["nfft"] / L)) + 1
        if B[:, lo_:hi_].max() > 0.5:
            ctx.check(B[j, lo_:hi_].max() > 0, "tone", f"a {f:.1f} Hz tone appears in filter {j}, which does not cover it")
