"""C04 pre-emphasis and windowing: value oracles direct and nested; option equivalences on every extractor."""
import numpy as np

import api
import monitor
import refs as R
import signals as S
from common import make, feat, first, pair_close
from core import Skip

ID = "C04"
RULE = "case = direct pre_emphasis/windowing call on random data, or an extractor run compared with the run on the already filtered / already windowed signal; non-trivial when at least one value oracle or option pair was judged"
N = {"quick": 24000, "thorough": 192000}
MIN = {"oracle:pre-emphasis": 1900, "oracle:windowing": 500, "oracle:pre_emph-option": 1200, "oracle:coeff-unused": 1200, "oracle:win_type-option": 1200}
ENTRIES = api.EXTRACTORS


def o_pre(ctx, a, r):
    try:
        x = np.asarray(a["sig"])
        c = a["pre_emph_coeff"]
        want = R.preemph(x, c).reshape(x.shape)
    except (KeyError, TypeError, ValueError, IndexError):
        return
    if np.shape(r) != want.shape or not np.allclose(r, want, rtol=1e-9, atol=1e-12 * np.abs(want).max()):
        ctx.report("pre-emphasis", f"nested pre_emphasis(coeff={c}) of a {x.dtype} signal is not x[t]-coeff*x[t-1]")
    else:
        ctx.ok("pre-emphasis")


def o_win(ctx, a, r):
    try:
        fr, L, t = np.asarray(a["frames"]), int(a["frame_len"]), a["win_type"]
        want = fr * R.win(t, L)
    except (KeyError, TypeError, ValueError):
        return
    if np.shape(r) != want.shape or not np.allclose(r, want, rtol=1e-9, atol=1e-12 * np.abs(want).max()):
        ctx.report("windowing", f"nested windowing({t}, {L}) is not frames * window")
    else:
        ctx.ok("windowing")


def setup(ctx):
    monitor.Spy(ctx, {"pre_emphasis": [o_pre], "windowing": [o_win]}, only=["pre_emphasis", "windowing"]).install()


def run(ctx, rng, i):
    m = i % 6
    if m == 0:
        f = api.util("utils.preprocessing", "pre_emphasis")
        n = int(S.pick(rng, [1, 2, 3, int(rng.integers(4, 5000)), int(rng.integers(5000, 120000))]))
        dt = S.pick(rng, [np.float64, np.float64, np.int16, np.int32, np.float32, np.uint8, np.int64, np.int8])
        x = (rng.standard_normal(n) * 100).clip(*{np.uint8: (0, 255), np.int8: (-128, 127)}.get(dt, (-1e9, 1e9))).astype(dt)
        if dt == np.int16 and rng.uniform() < 0.5:
            x = rng.integers(-32768, 32768, n).astype(dt)
        if dt in (np.int32, np.int64) and rng.uniform() < 0.5:
            x = rng.integers(-(1 << 30), 1 << 30, n).astype(dt)
        c = float(S.pick(rng, [0.97, 0.95, 0.5, 0.0, 1.0, -0.4, 1.3, rng.uniform(0, 1)]))
        if rng.uniform() < 0.2:
            c = int(round(c))
        lay = S.pick(rng, ["plain", "list", "strided", "col"])
        ctx.describe(fn="pre_emphasis", n=n, dtype=np.dtype(dt).name, coeff=c, layout=lay)
        arg = {"plain": x, "list": list(x), "strided": np.repeat(x, 3)[::3], "col": x[:, None]}[lay]
        y = np.asarray(ctx.call(f, arg, c) if rng.uniform() < 0.5 else ctx.call(f, sig=arg, pre_emph_coeff=c))
        if lay == "col":
            ctx.check(y.size == n, "pre-emphasis-shape", f"shape {y.shape}")
            y = y.reshape(-1)
        ctx.close(y, R.preemph(x, c), "pre-emphasis", rtol=1e-12 if dt != np.float32 else 1e-6)
    elif m == 1:
        f = api.util("utils.preprocessing", "windowing")
        L = int(S.pick(rng, [1, 2, 3, int(rng.integers(4, 600)), int(rng.integers(600, 4000))]))
        k = int(rng.integers(1, 12))
        t = S.pick(rng, S.WINS)
        dt = S.pick(rng, [np.float64, np.float32, np.int16, np.complex128, np.int32])
        fr = (rng.standard_normal((k, L)) * (1000 if dt != np.int32 else 3e8)).clip(-2e9, 2e9).astype(dt)
        if dt == np.complex128:
            fr = fr + 1j * rng.standard_normal((k, L))
        if rng.uniform() < 0.2:
            fr = fr[0]
        ctx.describe(fn="windowing", L=L, k=k, win=t, dtype=np.dtype(dt).name)
        y = ctx.call(f, fr, L, t) if rng.uniform() < 0.5 else ctx.call(f, frames=fr, frame_len=L, win_type=t)
        ctx.close(y, fr * R.win(t, L), "windowing", rtol=1e-11 if dt != np.float32 else 1e-6)
    elif m in (2, 3):
        name = ENTRIES[(i // 6) % len(ENTRIES)]
        kinds = ["white", "ar", "decay"] if name in ("lpc", "lpcc", "plp", "rplp") else None
        x, c, k = make(ctx, rng, name, max_nfilts=24, small=True, kinds=kinds)
        c = dict(c, pre_emph=True, pre_emph_coeff=float(S.pick(rng, [0.97, 0.9, 0.5, 0.3, 1.0, 0.0, -0.4, rng.uniform(0.05, 0.99)])))
        ctx.describe(pre_emph_coeff=c["pre_emph_coeff"], pre_emph=True)
        a = feat(ctx, name, x, c, pre_emph=S.pick(rng, [True, 1]))
        b = feat(ctx, name, R.preemph(x, c["pre_emph_coeff"]), c, pre_emph=S.pick(rng, [False, 0]))
        pair_close(ctx, name, a, b, "pre_emph-option", rtol=1e-5)
        d = feat(ctx, name, x, c, pre_emph=False)
        e = feat(ctx, name, x, c, pre_emph=False, pre_emph_coeff=0.123)
        pair_close(ctx, name, d, e, "coeff-unused", rtol=1e-9)
    else:
        name = S.pick(rng, [e for e in ENTRIES if e not in ("cqt_spectrogram", "cqcc")] + ["get_dominant_frequencies"])
        t = S.pick(rng, ["hanning", "bartlet", "kaiser", "blackman", "hamming"])
        if name == "get_dominant_frequencies":
            fs = S.pick(rng, S.FS)
            L = int(rng.integers(64, 400))
            x = rng.standard_normal(L * int(rng.integers(1, 6)))
            w = (L + 0.5) / fs
            ctx.describe(entry=name, fs=fs, L=L, win=t)
            base = S.pick(rng, ["hamming"])
            y = (x.reshape(-1, L) * (R.win(t, L) / R.win(base, L))).reshape(-1)
            a = ctx.call(api.fn(name), x, fs, nfft=512, win_len=w, win_hop=w, win_type=t)
            b = ctx.call(api.fn(name), y, fs, nfft=512, win_len=w, win_hop=w, win_type=base)
            ctx.close(a, b, "win_type-option", rtol=1e-9)
            return
        x, c, k = make(ctx, rng, name, max_nfilts=24, small=True, kinds=["white", "ar"])
        L, H = api.dims(c)
        wl = c["win"][0]
        n = max(1, len(x) // L)
        x = np.resize(x, n * L) + 1e-3 * rng.standard_normal(n * L)
        c = dict(c, win=(wl, wl, t), pre_emph=False)
        ctx.describe(win=c["win"], n=len(x), pre_emph=False)
        y = (x.reshape(-1, L) * (R.win(t, L) / R.win("hamming", L))).reshape(-1)
        a = feat(ctx, name, x, c)
        b = feat(ctx, name, y, dict(c, win=(wl, wl, "hamming")))
        pair_close(ctx, name, a, b, "win_type-option", rtol=1e-5)
