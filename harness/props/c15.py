"""C15 PLP and RASTA-PLP."""
import numpy as np

import api
import monitor
import refs as R
import signals as S
from common import make, feat
from core import Skip, Violation

ID = "C15"
RULE = "case = plp/rplp of a signal against the reference chain (bark energies -> [RASTA] -> loudness -> inverse FFT -> LPC cepstrum) on well conditioned frames, or rasta_filter on a random matrix; every nested rasta_filter call is judged; gain and causality relations on rplp"
N = {"quick": 14000, "thorough": 112000}
MIN = {"oracle:rows": 20000, "oracle:rasta": 210, "oracle:rplp-gain": 210, "oracle:rplp-causal": 160, "oracle:band-independent": 210, "oracle:tail": 280}


def rasta_msg(x, r):
    x = np.asarray(x, float)
    want = R.rasta(x)
    r = np.asarray(r)
    if r.shape != want.shape:
        return f"rasta_filter shape {r.shape}, expected {want.shape}"
    if not np.isfinite(want).all():
        return None
    d = np.abs(r - want)
    if not (d <= 1e-9 * (1e-300 + np.abs(x).max()) * 10).all():
        ix = np.unravel_index(int(np.nanargmax(d)), d.shape)
        return f"rasta_filter{ix} of a {x.shape} matrix is {r[ix]!r}, expected {want[ix]!r}"
    return ""


def o_rasta(ctx, a, r):
    try:
        x = np.asarray(a["x"], float)
    except (KeyError, ValueError, TypeError):
        return
    if x.ndim != 2:
        return
    m = rasta_msg(x, r)
    if m:
        ctx.report("nested-rasta", m)
    elif m == "":
        ctx.ok("nested-rasta")


def setup(ctx):
    monitor.Spy(ctx, {"rasta_filter": [o_rasta]}, only=["rasta_filter"]).install()


def chain(name, x, c):
    """-> (rows, tolerance per row or nan, Ref)"""
    r = api.Ref(name, x, c)
    E = r.E
    if name == "rplp":
        E = np.exp(R.rasta(np.log(R.zh(E))))
    with np.errstate(all="ignore"):
        Lm = R.ipl(E)
    n = c["order"]
    t = np.abs(np.fft.ifft(Lm, c["nfft"]))
    out, tol = np.zeros((len(t), n)), np.full(len(t), np.nan)
    for i in range(len(t)):
        rr = R.autocorr(t[i], n - 1)
        a, e, cond = R.lpc_solve(rr)
        if a is None or cond > 1e8 or not e > 0 or not r.good[i] or rr[0] < 1e-120 or e < 1e-7 * rr[0]:
            continue
        out[i] = R.lpc_cepstrum(a, e, n)
        tol[i] = (1e-11 * cond + 1e-8) * (1 + np.abs(out[i]).max()) * max(1.0, 1e-3 * rr[0] / e)
    if name == "rplp" and not r.good.all():
        tol[:] = np.nan
    return out, tol, r


def run(ctx, rng, i):
    m = i % 4
    if m == 3 and (i // 4) % 2 == 0:
        f = api.util("utils.filters", "rasta_filter")
        T, B = int(S.pick(rng, [1, 2, 3, 4, 5, 6, int(rng.integers(7, 200))])), int(rng.integers(1, 40))
        x = rng.standard_normal((T, B)) * 10 ** rng.uniform(-3, 3) + rng.uniform(-20, 20)
        if rng.uniform() < 0.2:
            x = np.cumsum(x, axis=0)
        ctx.describe(fn="rasta_filter", T=T, B=B)
        if T < 5:
            try:
                y = f(x)
            except Exception:
                raise Skip("rasta short")
        else:
            y = ctx.call(f, x)
        msg = rasta_msg(x, y)
        if msg:
            ctx.fail("rasta", msg)
        ctx.ok("rasta")
        j = int(rng.integers(B))
        x2 = x.copy()
        x2[:, [q for q in range(B) if q != j]] = rng.standard_normal((T, B - 1))
        ctx.close(np.asarray(ctx.call(f, x2))[:, j], np.asarray(y)[:, j], "band-independent", rtol=1e-10)
        return
    name = "plp" if m in (0,) else "rplp"
    x, c, k = make(ctx, rng, name, max_frames=25, small=True, post=rng.uniform() < 0.25, min_frames=S.pick(rng, [1, 8]), kinds=["white", "ar", "harmonic", "speechlike", "pink", "chirp", "wav", "decay"])
    if rng.uniform() < 0.12 and "nfilts" in c:
        c["nfilts"] = int(rng.integers(41, 110))
        ctx.describe(nfilts=c["nfilts"])
    if rng.uniform() < 0.2:
        # level jumps of up to 160 dB between stretches of frames
        L, H = api.dims(c)
        lv = 10.0 ** rng.uniform(-5, 3, len(x) // (3 * H) + 1)
        x = x / np.abs(x).max() * np.repeat(lv, 3 * H)[: len(x)] if len(lv) * 3 * H >= len(x) else x
        ctx.describe(levels=True)
    if m == 3:
        # relations
        c = dict(c, lifter=None, normalize=None)
        got = np.asarray(feat(ctx, "rplp", x, c))
        _, tol, r = chain("rplp", x, c)
        ok = np.isfinite(tol)
        g = float(S.pick(rng, [2.0, 0.25, 3.7, 1e-3, 1000.0]))
        b = np.asarray(feat(ctx, "rplp", x * g, c))
        if ok.any():
            ctx.close(b, got, "rplp-gain", rtol=1e-5, mask=ok[:, None])
        L, H = api.dims(c)
        if len(got) > 2:
            t = int(rng.integers(1, len(got)))
            cut = (t - 1) * H + L  # frames 0..t-1 use samples < cut
            y = x.copy()
            y[cut:] = rng.standard_normal(len(y) - cut) * 50
            b = np.asarray(feat(ctx, "rplp", y, c))
            mk = ok.copy()
            mk[t:] = False
            if mk.any():
                ctx.close(b, got, "rplp-causal", rtol=1e-8, mask=mk[:, None])
        return
    got = np.asarray(feat(ctx, name, x, dict(c, lifter=None, normalize=None)))
    want, tol, r = chain(name, x, c)
    ctx.check(got.shape == want.shape, "shape", lambda: f"{got.shape}, expected {want.shape}")
    for j in np.flatnonzero(np.isfinite(tol)):
        if not np.abs(got[j] - want[j]).max() <= tol[j]:
            ctx.fail("rows", f"{name} frame {j}: {got[j][:4]}.., reference {want[j][:4]}.. (tolerance {tol[j]:.2g})")
        ctx.ok("rows")
    if c.get("lifter") or c.get("normalize"):
        full = np.asarray(feat(ctx, name, x, c))
        w = got * R.lifter_vec(got.shape[1], c.get("lifter"))[None, :]
        if c.get("normalize") and (w.std() < 1e-6 * np.abs(w).max()):
            raise Skip("zero variance")
        ctx.close(full, R.normalize(w, c.get("normalize")), "tail", rtol=1e-7, atol=R.norm_atol(w, c.get("normalize")))
