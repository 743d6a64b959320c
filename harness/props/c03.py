"""C03 framing: value oracle on every framing call (direct and nested), bounds sanitizer on strided views."""
import numpy as np

import api
import monitor
import refs as R
import signals as S
from common import make, feat, first
from core import Skip

ID = "C03"
RULE = "case = one framing call on a random signal length/dtype/layout/window (boundary lengths included), or one extractor run with the spies inside; non-trivial when at least one framing result was compared sample by sample or a row count was judged"
N = {"quick": 80000, "thorough": 640000}
MIN = {"oracle:frame-values": 2000, "oracle:rows": 3800}
_ctx = {}


def o_framing(ctx, a, r):
    try:
        sig = np.asarray(a["sig"])
        L, H = int(a["win_len"] * a["fs"]), int(a["win_hop"] * a["fs"])
        if sig.ndim == 2 and sig.shape[1] == 1:
            sig = sig[:, 0]
        if sig.ndim != 1 or len(sig) < L or H < 1 or len(sig) > 2000000:
            return
        fr, fl = r
        want = R.frames(sig, L, H)
    except (KeyError, TypeError, ValueError):
        return
    if int(fl) != L:
        ctx.report("frame-length", f"frame length {fl}, expected {L}")
    if np.shape(fr) != want.shape:
        ctx.report("frame-count", f"frames of shape {np.shape(fr)} for N={len(sig)} L={L} H={H}, expected {want.shape}")
    elif not np.array_equal(np.asarray(fr), want):
        bad = int(np.argmax(~(np.asarray(fr) == want).all(axis=1)))
        ctx.report("frame-values", f"frame {bad} does not hold samples {bad*H}..{bad*H+L-1} (N={len(sig)} L={L} H={H} dtype={sig.dtype})")
    else:
        ctx.ok("frame-values")


def setup(ctx):
    monitor.StrideSanitizer(ctx).install()
    monitor.Spy(ctx, {"framing": [o_framing]}, only=["framing", "stride_trick"]).install()


DT = [np.float64, np.float32, np.int16, np.int32, np.int64, np.uint8, np.int8, np.uint16, np.float16, np.complex128, bool]


def layout(rng, x):
    m = int(rng.integers(9))
    if m == 0:
        return np.repeat(x, 2)[::2], "strided"
    if m == 1:
        return x[::-1].copy()[::-1], "reversed"
    if m == 2:
        return x[:, None], "column"
    if m == 3:
        return list(x), "list"
    if m == 4:
        b = np.concatenate([x, x, x])
        return b[len(x) : 2 * len(x)], "slice"
    if m == 5:
        y = x.copy()
        y.setflags(write=False)
        return y, "readonly"
    if m == 6:
        return np.stack([x, x + 1], axis=1)[:, 0], "channel"
    if m == 7:
        return np.asfortranarray(np.stack([x, x], axis=1))[:, 1:], "fortran-column"
    return x, "plain"


def enormous(ctx, rng):
    """more samples than a single precision float or a 24 bit counter can number"""
    f = api.util("utils.preprocessing", "framing")
    n = (1 << 24) + int(rng.integers(1, 4000)) if rng.uniform() < 0.7 else (1 << 22) + int(rng.integers(1, 4000))
    L = int(rng.integers(1, 900))
    H = int(rng.integers(1, L + 1))
    if rng.uniform() < 0.5:  # one sample short of another frame
        H = min(L, int(S.pick(rng, [80, 160, 128, 7, 441])))
        n += (H - 1 - (n - L)) % H
    fs = 16000
    wl, wh = (L + 0.5) / fs, (H + (0.5 if H < L else 0.4)) / fs
    x = rng.integers(-128, 128, n, dtype=np.int8)
    ctx.describe(n=n, L=L, H=H, enormous=True)
    fr, fl = ctx.call(f, x, fs=fs, win_len=wl, win_hop=wh)
    k = (n - L) // H + 1
    ctx.check(int(fl) == L, "frame-length", f"{fl} instead of {L}")
    ctx.check(np.shape(fr) == (k, L), "frame-count", f"{np.shape(fr)} instead of {(k, L)}")
    rows = np.unique(np.r_[0, k - 1, k - 2 if k > 1 else 0, rng.integers(0, k, 200)])
    ctx.check(all(np.array_equal(fr[r], x[r * H : r * H + L]) for r in rows), "frame-values", "frames differ from the signal slices")


def run(ctx, rng, i):
    if i % 2501 == 2000:
        return enormous(ctx, rng)
    if i % 5 in (0, 1, 2):
        f = api.util("utils.preprocessing", "framing")
        fs = S.pick(rng, S.FS + [100, 1000, 96000, 44100, 11024.7, 22050.5, 16000.0, 8000.25])
        m = int(rng.integers(4))
        if m == 0:
            wl, wh, _ = S.window(rng, fs)
        else:
            L = int(rng.integers(1, 700)) if m < 3 else int(rng.integers(1, 12))
            H = int(rng.integers(1, L + 1))
            wl, wh = (L + float(rng.uniform(0.01, 0.99))) / fs, (H + float(rng.uniform(0.01, 0.99))) / fs
            if L == H:
                wh = wl
            elif wh > wl:
                wh = wl
        if rng.uniform() < 0.15:
            # durations whose product with fs lies just below or just above a whole number of samples
            wl = float(np.nextafter(wl, 9) if rng.uniform() < 0.3 else wl)
            wl, wh = round(max(1, int(wl * fs))) / fs, max(1, int(wh * fs)) / fs
            for _ in range(int(rng.integers(0, 3))):
                wl, wh = float(np.nextafter(wl, 0)), float(np.nextafter(wh, 0))
            if rng.uniform() < 0.5:
                wl = float(np.nextafter(wl, 9))
            wl = max(wl, wh)
        L, H = int(wl * fs), int(wh * fs)
        if L < 1 or H < 1:
            raise Skip("empty frame")
        k = int(rng.integers(1, 60))
        n = L + (k - 1) * H + int(S.pick(rng, [0, 0, H - 1, 1 % H, int(rng.integers(0, H))]))
        if i % 97 == 0:
            n += int(rng.integers(50000, 400000))
        dt = S.pick(rng, DT)
        x = (rng.standard_normal(n) * 50).astype(dt) if dt is not bool else rng.uniform(size=n) < 0.5
        sig, lay = layout(rng, x) if dt is not bool else (x, "plain")
        ctx.describe(fs=fs, L=L, H=H, n=n, dtype=np.dtype(dt).name, layout=lay, wl=wl, wh=wh)
        fr, fl = ctx.call(f, sig, fs=fs, win_len=wl, win_hop=wh)
        want = R.frames(x, L, H)
        ctx.check(int(fl) == L, "frame-length", f"{fl} instead of {L}")
        ctx.check(np.shape(fr) == want.shape, "frame-count", f"{np.shape(fr)} instead of {want.shape}")
        ctx.check(np.array_equal(np.asarray(fr), want), "frame-values", "frames differ from the signal slices")
        st = api.util("utils.preprocessing", "stride_trick")
        if st is not None and i % 3 == 0:
            b = ctx.call(st, sig, L, H)
            ctx.check(np.shape(b) == want.shape and np.array_equal(np.asarray(b), want), "stride-values", "stride_trick differs from the signal slices")
    elif i % 5 == 3 and i % 2 == 0:
        # multi-channel input is outside the contract, but must never be read out of bounds
        f = api.util("utils.preprocessing", "framing")
        x = rng.standard_normal((int(rng.integers(900, 3000)), 2))
        ctx.describe(stereo=x.shape)
        try:
            f(x, fs=8000, win_len=0.03, win_hop=0.01)
        except Exception:
            pass
        ctx.ok("rows")
    else:
        name = S.pick(rng, api.EXTRACTORS + ["get_dominant_frequencies"])
        if name == "get_dominant_frequencies":
            fs = S.pick(rng, S.FS)
            wl, wh, wt = S.window(rng, fs)
            L, H = S.lengths(wl, wh, fs)
            n = S.nsamples(rng, L, H)
            x, k = S.regular(rng, n, fs)
            ctx.describe(entry=name, fs=fs, wl=wl, wh=wh, n=n)
            r = ctx.call(api.fn(name), x, fs, win_len=wl, win_hop=wh, win_type=wt)
            ctx.check(len(r) == R.frame_count(n, L, H), "rows", f"{len(r)} values for {R.frame_count(n, L, H)} frames")
            return
        x, c, k = make(ctx, rng, name, max_nfilts=24, small=True, hostile=0.1, long=0.02)
        if rng.uniform() < 0.5 and x.dtype == float:
            x = layout(rng, x)[0]
        L, H = api.dims(c)
        res = feat(ctx, name, x, c)
        k = R.frame_count(len(x), L, H)
        rows = np.shape(first(res))[1 if name == "cqt_spectrogram" else 0]
        ctx.check(rows == k, "rows", f"{name}: {rows} feature rows for {k} frames (N={len(x)} L={L} H={H})")
