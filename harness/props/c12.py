"""C12 predefined filter banks."""
import numpy as np

import api
import refs as R
import signals as S
from common import make, feat, pair_close, first
from core import Skip

ID = "C12"
RULE = "case = one extractor with an fbanks parameter: the described bank against none, a random matrix against the reference, changed bank parameters, permuted/zeroed/scaled rows; non-trivial when a pair was judged"
N = {"quick": 56000, "thorough": 448000}
MIN = {"oracle:same-bank": 2800, "oracle:params-ignored": 2800, "oracle:custom-bank": 2100, "oracle:rows": 600}


def layout(rng, b):
    m = int(rng.integers(5))
    if m == 0:
        return np.asfortranarray(b)
    if m == 1:
        return np.repeat(b, 2, axis=1)[:, ::2]
    if m == 2:
        b = b.copy()
        b.setflags(write=False)
        return b
    return b


def run(ctx, rng, i):
    name = api.BANKED[i % len(api.BANKED)]
    fam = api.FAMILY[name]
    kinds = ["white", "ar"] if name in ("plp", "rplp") else None
    x, c, k = make(ctx, rng, name, max_nfilts=30, small=True, kinds=kinds, post=rng.uniform() < 0.3, min_frames=2)
    m = (i // len(api.BANKED)) % 3
    c["normalize"] = c.get("normalize") if name not in api.SPECTRO else None
    if name in api.SPECTRO:
        c.pop("normalize", None)
    bk = {q: c[q] for q in ("nfilts", "nfft", "fs", "low_freq", "high_freq", "scale", "conversion_approach") if q in c}
    if m == 0:
        b, _ = ctx.call(api.bank_fn(fam), **bk)
        pair_close(ctx, name, feat(ctx, name, x, c, fbanks=layout(rng, b)), feat(ctx, name, x, c), "same-bank", rtol=1e-6)
        return
    # random non-negative bank, dense enough to be well conditioned
    rows = c["nfilts"]
    if rng.uniform() < 0.3:
        if name in api.SPECTRO + api.CEPS and rng.uniform() < 0.3:
            rows = int(rng.integers(2, 6))  # possibly fewer than the requested coefficients
            if c.get("dct_type") == 1:
                c["dct_type"] = 2
    if rows == c["nfilts"] and rng.uniform() < 0.3:
        rows = (lambda lo: int(rng.integers(lo, max(45, lo + 3))))(max(2, c.get("num_ceps", c.get("order", 1))))
    W = rng.uniform(0, 1, (rows, c["nfft"] // 2 + 1)) * np.exp(-((np.arange(c["nfft"] // 2 + 1)[None, :] - rng.uniform(0, c["nfft"] // 2, rows)[:, None]) ** 2) / (2 * (c["nfft"] / 16) ** 2))
    W = W * S.pick(rng, [1.0, 1.0, 7.5, 1e-3])
    u = rng.uniform()
    if u < 0.3:
        # triangles in any order: descending, shuffled, some covering no bin, zero at the band edges
        W = R.tri_bank(S.pick(rng, ["mel", "imel", "lin"]), max(2, rows), c["nfft"], c["fs"], 0, None, S.pick(rng, S.SCALES))[0][:rows]
        W = W[:: int(S.pick(rng, [1, -1]))].copy() if rng.uniform() < 0.7 else W[rng.permutation(rows)]
        W[:, [0, -1]] = 0
        if rng.uniform() < 0.3:
            W = W[:, ::-1].copy()
    elif u < 0.4 and name in api.SPECTRO:
        W = W * np.where(rng.uniform(size=W.shape) < 0.5, -1.0, 1.0)  # signed weights
    if rng.uniform() < 0.15:
        W = np.round(W / W.max() * float(S.pick(rng, [20, 20, 500, 60000])) + 0.6).astype(S.pick(rng, [int, np.int32, np.uint16]))
    elif rng.uniform() < 0.05 and m == 1:
        W = W.astype(np.float32)
    ctx.describe(fbanks=W.shape)
    Wl = layout(rng, W)
    a = feat(ctx, name, x, c, fbanks=Wl)
    if m == 1:
        c2 = dict(c)
        fs = c["fs"]
        c2["low_freq"] = float(rng.uniform(100, fs / 8))
        c2["high_freq"] = float(rng.uniform(fs / 4, fs / 2))
        c2["scale"] = S.pick(rng, S.SCALES)
        if rng.uniform() < 0.5:
            c2["nfilts"] = (lambda lo: int(rng.integers(lo, max(50, lo + 3))))(max(1, c.get("num_ceps", c.get("order", 1))))
        if fam in ("mel", "imel"):
            c2["conversion_approach"] = S.pick(rng, S.MELS)
        if fam == "bark":
            c2["conversion_approach"] = S.pick(rng, S.BARKS)
        pair_close(ctx, name, feat(ctx, name, x, c2, fbanks=Wl), a, "params-ignored", rtol=1e-9)
        if name in api.SPECTRO:
            p = rng.permutation(rows)
            z = int(rng.integers(rows))
            g = rng.uniform(0.1, 3, rows)
            W2 = (W * g[:, None])[p].copy()
            W2[z] = 0
            e = np.asarray(feat(ctx, name, x, c, fbanks=W2)[0])
            want = (np.asarray(a[0]) * g[None, :])[:, p]
            want[:, z] = 0
            ctx.close(e, want, "rows", rtol=1e-9)
        return
    if name in api.CEPS + api.SPECTRO:
        want, good, r = api.ref_static(name, x, c, bank=W)
        if name in api.SPECTRO:
            ctx.close(a[0], want, "custom-bank", rtol=1e-8)
        else:
            if not good.all():
                raise Skip("conditioning")
            with np.errstate(all="ignore"):
                pre = api.finish(want, r, dict(c, normalize=None))
                full = api.finish(want, r, c)
            if c.get("normalize") and (pre.size < 2 or pre.std() < 1e-6 * np.abs(pre).max()):
                raise Skip("zero variance")
            ctx.close(a, full, "custom-bank", rtol=1e-6)
    else:
        g = float(S.pick(rng, [2.0, 4.0, 0.5]))
        # no closed reference here (C15, C17 have one): scaling every row by g is scaling the power by g
        if name == "rplp":
            pair_close(ctx, name, feat(ctx, name, x, c, fbanks=W * g), a, "custom-bank", rtol=1e-5)
        else:
            y = np.asarray(x, float) * np.sqrt(g)
            if name == "pncc" and c["power"] != 2:
                c = dict(c, power=2)
                a = feat(ctx, name, x, c, fbanks=W)
            pair_close(ctx, name, feat(ctx, name, x, c, fbanks=W * g), feat(ctx, name, y, c, fbanks=W), "custom-bank", rtol=1e-5)
