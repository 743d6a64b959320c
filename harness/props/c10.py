"""C10 cepstral pipelines against the reference pipeline."""
import numpy as np

import api
import refs as R
import signals as S
from common import make, feat

ID = "C10"
RULE = "case = one extractor (mfcc, imfcc, lfcc, bfcc, gfcc, ngcc, msrcc, psrcc) on a random or degenerate signal and configuration; frames whose energies are FFT rounding noise are masked; non-trivial when at least one frame was compared"
N = {"quick": 64000, "thorough": 512000}
MIN = {"oracle:coefficients": 7600, "oracle:shape": 7700, "frames-compared": 96000}


def run(ctx, rng, i):
    name = api.CEPS[i % len(api.CEPS)]
    big = rng.uniform() < 0.06
    x, c, k = make(ctx, rng, name, hostile=0.15, max_nfilts=128 if big else 40, max_frames=30)
    L, H = api.dims(c)
    v = np.asarray(feat(ctx, name, x, c))
    want, good, r = api.ref_static(name, x, c)
    ctx.check(v.shape == want.shape, "shape", f"{name}: {v.shape} instead of {want.shape}")
    ctx.check(v.dtype.kind == "f", "dtype", f"{name}: {v.dtype}")
    if name == "bfcc":
        # the loudness map underflows for very quiet bands: those frames are decided by C18 only
        good = good & (R.ipl(r.E)[:, :] > 1e-90).all(axis=1)
    good = good & (r.etot < 1e60) & ((r.etot > 1e-200) | (r.etot == 0))
    ctx.count("frames", len(good))
    ctx.count("frames-compared", int(good.sum()))
    if good.any():
        sc = np.maximum(np.abs(want).max(axis=1), 1.0 if name not in ("gfcc", "msrcc", "psrcc") else 0)[:, None]
        ctx.close(v[good], want[good], "coefficients", rtol=1e-6, scale=sc[good])
