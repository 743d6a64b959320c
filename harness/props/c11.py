"""C11 energy replacement, liftering, normalisation: order and formulas."""
import numpy as np

import api
import monitor
import refs as R
import signals as S
from common import make, feat
from core import Skip

ID = "C11"
RULE = "case = one extractor with random use_energy/lifter/normalize against the same extractor without them transformed by the reference, or a direct lifter/normalisation call on a random matrix; non-trivial when an option was active"
N = {"quick": 26000, "thorough": 208000}
MIN = {"oracle:tail": 2100, "oracle:energy": 680, "oracle:lifter": 1000, "oracle:normalize": 3900}
ENT = api.CEPS + ["pncc", "plp", "rplp", "lpcc", "cqcc"]


def o_l(ctx, a, r):
    try:
        x, l = np.asarray(a["ceps"], float), a["lift"]
        w = x * R.lifter_vec(x.shape[1], l)[None, :]
    except Exception:
        return
    if np.shape(r) != w.shape or not np.allclose(np.asarray(r, float), w, rtol=1e-9, atol=0, equal_nan=True):
        ctx.report("nested-lifter", f"lifter {l} on a {x.shape} matrix is not the documented weighting")
    else:
        ctx.ok("nested-lifter")


def o_n(ctx, a, r):
    try:
        x, t = np.asarray(a["x"], float), a["normalization_type"]
        with np.errstate(all="ignore"):
            w = R.normalize(x, t)
        if x.std() <= 1e-7 * np.abs(x).max() or not np.isfinite(w).all():
            return
    except Exception:
        return
    if np.shape(r) != w.shape or not np.allclose(np.asarray(r, float), w, rtol=1e-7, atol=1e-7 * np.abs(w).max()):
        ctx.report("nested-normalize", f"normalisation {t} on a {x.shape} matrix is not the documented formula")
    else:
        ctx.ok("nested-normalize")


def setup(ctx):
    monitor.Spy(ctx, {"lifter_ceps": [o_l], "normalize_ceps": [o_n]}, only=["lifter_ceps", "normalize_ceps"]).install()


def run(ctx, rng, i):
    if i % 3 == 0:
        n, m = int(rng.integers(1, 60)), int(S.pick(rng, [1, 2, 13, 20, 40, 100, int(rng.integers(1, 130))]))
        x = rng.standard_normal((n, m)) * 10 ** rng.uniform(-4, 4) + rng.uniform(-50, 50) * (rng.uniform() < 0.5)
        if rng.uniform() < 0.15:
            x = np.round(x).astype(int)
        if rng.uniform() < 0.15:
            x = np.asfortranarray(x)
        f = api.util("utils.cepstral", "lifter_ceps")
        l = S.pick(rng, [0, 1, 2, 3, 0.5, 6.7, 9, 10, 10.5, 11, 22, -1, -2, -3, -22, -13, -5, -40, -99, -101, -150, -1000, -2.5, -7.9, -int(rng.integers(1, 400)), float(rng.uniform(0.1, 10))])
        ctx.describe(shape=(n, m), lift=l)
        y = np.asarray(ctx.call(f, x, l))
        w = x * R.lifter_vec(m, l)[None, :]
        ctx.check(y.dtype != object, "lifter-dtype", "object array")
        ctx.close(y, w, "lifter", rtol=1e-9, scale=np.abs(w) + 1e-9 * np.abs(x).max())
        g = api.util("utils.cepstral", "normalize_ceps")
        x = np.asarray(x, float)
        if x.size > 1 and x.std() > 1e-6 * np.abs(x).max():
            for t in S.NORMS:
                ctx.close(ctx.call(g, x, t), R.normalize(x, t), "normalize", rtol=1e-9)
            ctx.close(ctx.call(g, x), R.normalize(x, "mvn"), "normalize-default", rtol=1e-9)
        return
    name = ENT[(i // 3) % len(ENT)]
    kinds = ["white", "ar", "speechlike"] if name in ("plp", "rplp", "lpcc") else None
    x, c, k = make(ctx, rng, name, max_nfilts=40, post=True, small=True, kinds=kinds, min_frames=3 if rng.uniform() < 0.8 else 1)
    if i % 17 == 0:
        x = x.copy()
        L, H = api.dims(c)
        x[: L + 1] = 0  # a silent first frame: energy floor
    elif i % 17 == 1 and name in api.CEPS:
        x = x * 10.0 ** -rng.uniform(6, 13)  # very quiet: energies around and below the machine epsilon
        c["use_energy"] = True
    off = {q: v for q, v in (("use_energy", False), ("lifter", None), ("normalize", None)) if q in c}
    if off == {q: c[q] for q in off}:
        c["lifter"] = 5
    ctx.describe(**{q: c[q] for q in off})
    base = np.asarray(feat(ctx, name, x, c, **off), float)
    r = None
    cc = dict(c)
    if cc.get("use_energy"):
        r = api.Ref(name, x, c)
    want = api.finish(base, r, dict(cc, normalize=None))
    got0 = np.asarray(feat(ctx, name, x, c, normalize=None))
    ctx.close(got0, want, "tail", rtol=1e-6, scale=np.maximum(np.abs(want), 1e-7 * np.abs(want).max()))
    if cc.get("use_energy"):
        ctx.close(got0[:, 0], want[:, 0], "energy", rtol=1e-7, scale=max(1.0, np.abs(want[:, 0]).max()))
    if c.get("normalize"):
        if want.size < 2 or not np.isfinite(want).all() or want.std() < 1e-6 * np.abs(want).max():
            raise Skip("zero variance")
        ctx.close(feat(ctx, name, x, c), R.normalize(want, c["normalize"]), "tail-normalize", rtol=1e-6, atol=R.norm_atol(want, c["normalize"]))
