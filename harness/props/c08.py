"""C08 scale option: row gains on banks and their effect in extractors."""
import numpy as np

import api
import refs as R
import signals as S
from common import make, feat, pair_close

ID = "C08"
RULE = "case = one bank under all three scales, or one extractor run with a scale against the run with the constant bank multiplied by the documented row gains; non-trivial when scale is not constant"
N = {"quick": 40000, "thorough": 320000}
MIN = {"oracle:row-gain": 4800, "oracle:centres-unchanged": 4800, "oracle:extractor-scale": 3000}


def gain(fam, sc, n):
    if fam == "imel":
        sc = {"ascendant": "descendant", "descendant": "ascendant"}.get(sc, sc)
    return R.gains(sc, n)


def run(ctx, rng, i):
    if i % 2 == 0:
        fam = ["mel", "imel", "lin", "bark", "gamma"][(i // 2) % 5]
        fs = S.pick(rng, S.FS)
        lo, hi = S.band(rng, fs)
        n = int(S.pick(rng, [1, 2, 24, 26, 40, int(rng.integers(1, 60))]))
        k = dict(nfilts=n, nfft=int(S.pick(rng, [64, 256, 512, 401])), fs=fs, low_freq=lo, high_freq=hi)
        ctx.describe(bank=fam, **k)
        b = api.bank_fn(fam)
        base, c0 = ctx.call(b, scale="constant", **k)
        d, c1 = ctx.call(b, **k)
        ctx.close(d, base, "default-constant", rtol=1e-12)
        for sc in ("ascendant", "descendant"):
            m, c = ctx.call(b, scale=sc, **k)
            ctx.close(m, np.asarray(base) * gain(fam, sc, n), "row-gain", rtol=1e-12)
            ctx.close(c, c0, "centres-unchanged", rtol=1e-12)
        g = api.util("utils.filters", "scale_fbank")
        if g is not None:
            for sc in S.SCALES:
                v = np.asarray(ctx.call(g, scale=sc, nfilts=n), float)
                ctx.check(v.size == n, "gain-size", f"{v.shape}")
                ctx.close(v.reshape(-1), R.gains(sc, n)[:, 0], "gain-vector", rtol=1e-12)
        return
    name = api.BANKED[(i // 2) % len(api.BANKED)]
    kinds = ["white", "ar"] if name in ("plp", "rplp") else None
    x, c, k = make(ctx, rng, name, max_nfilts=24, small=True, kinds=kinds, post=rng.uniform() < 0.4, min_frames=2)
    if "normalize" in c:
        c["normalize"] = None
    fam = api.FAMILY[name]
    c["scale"] = S.pick(rng, ["ascendant", "descendant", "ascendant", "descendant", "constant"])
    ctx.describe(scale=c["scale"])
    bk = {q: c[q] for q in ("nfilts", "nfft", "fs", "low_freq", "high_freq", "conversion_approach") if q in c}
    base, _ = ctx.call(api.bank_fn(fam), **bk)
    fb = np.asarray(base) * gain(fam, c["scale"], c["nfilts"])
    a = feat(ctx, name, x, c)
    b = feat(ctx, name, x, c, fbanks=fb, scale="constant")
    pair_close(ctx, name, a, b, "extractor-scale", rtol=1e-6)
