"""C19 locality: metamorphic monitors on edits, truncation, appending, delay and segmentation."""
import numpy as np

import api
import refs as R
import signals as S
from common import make, feat, first, bank_has_empty, cq_power
from core import Skip, Violation

ID = "C19"
RULE = "case = one extractor, one signal and one transformation outside a chosen set of frames (edit, truncate, append, delay by k hops, segment); the rows of the untouched frames are compared; non-trivial when at least one row was compared"
N = {"quick": 22000, "thorough": 176000}
MIN = {"oracle:edit": 460, "oracle:truncate": 510, "oracle:append": 520, "oracle:delay": 470, "oracle:segment": 390, "oracle:causal": 50, "oracle:poison": 250}
ENTRIES = api.FRAMEWISE + ["pncc", "rplp", "get_dominant_frequencies", "compute_yin"]


def rowview(name, res):
    """results as list of arrays with one row per frame"""
    a = api.arrays(res)
    if name == "cqt_spectrogram":
        return [a[0].T]
    return a


def same(ctx, name, A, B, key, tol, extra=""):
    for j, (u, v) in enumerate(zip(A, B)):
        if u.shape != v.shape:
            ctx.fail(key, f"{name} result {j}: {u.shape} rows against {v.shape} {extra}")
        if not u.size:
            continue
        u, v = u.reshape(len(u), -1), v.reshape(len(v), -1)
        sc = np.maximum(np.abs(v).max(axis=1, keepdims=True), 1e-300)
        bad = ~((np.abs(u - v) <= tol * sc) | (u == v))
        if bad.any():
            r = int(np.argmax(bad.any(axis=1)))
            ctx.fail(key, f"{name} result {j}: row {r} of {len(u)} compared rows differs: {u[r][:3]} against {v[r][:3]} {extra}")
    ctx.ok(key)


# these would solve a linear system with the poisoned frame, or mix the frames on request
NO_POISON = ("lpc", "lpcc", "plp", "rplp", "cqcc")


def noise(rng, n, x, poison=False):
    if poison:
        z = rng.standard_normal(n)
        z[rng.uniform(size=n) < float(S.pick(rng, [0.01, 0.5, 1.0]))] = S.pick(rng, [np.nan, np.inf, -np.inf])
        if n:
            z[int(S.pick(rng, [0, n - 1, int(rng.integers(n))]))] = np.nan
        return z
    a = np.abs(x).max() * float(S.pick(rng, [1.0, 1e-3, 100.0, 1e4]))
    return np.zeros(n) if rng.uniform() < 0.2 else rng.standard_normal(n) * a


def run(ctx, rng, i):
    name = ENTRIES[i % len(ENTRIES)]
    mode = ["edit", "truncate", "append", "delay", "segment"][(i // len(ENTRIES)) % 5]
    tol = 1e-7
    if name in ("get_dominant_frequencies", "compute_yin"):
        fs = S.pick(rng, S.FS)
        wl, wh, wt = S.window(rng, fs)
        if name == "compute_yin":
            wl = max(wl, 0.025)
        c = dict(fs=fs, win=(wl, wh, wt), pre_emph=False)
        L, H = api.dims(c)
        n = L + int(rng.integers(3, 12)) * H + int(rng.integers(0, H))
        x, k = S.regular(rng, n, fs, "white" if name == "get_dominant_frequencies" else "harmonic")
        if name == "compute_yin":
            call = lambda s: ctx.call(api.fn(name), s, fs, win_len=wl, win_hop=wh)[:3]
            nfr = lambda n: len(range(0, n - L, H))
        else:
            nf = S.nfft_for(rng, L)
            call = lambda s: ctx.call(api.fn(name), s, fs, nfft=nf, win_len=wl, win_hop=wh, win_type=wt)
            nfr = lambda n: R.frame_count(n, L, H)
        ctx.describe(entry=name, mode=mode, fs=fs, wl=wl, wh=wh, n=n)
        good = lambda s: None
    else:
        kinds = ["white", "ar", "speechlike", "decay"] if name in ("lpc", "lpcc", "plp", "rplp") else ["white", "ar", "speechlike", "decay", "harmonic", "pink", "wav", "chirp"]
        x, c, k = make(ctx, rng, name, max_frames=16, min_frames=4, small=True, kinds=kinds, post=rng.uniform() < 0.25)
        c.pop("normalize", None)
        if name == "cqcc":
            c["resampling_ratio"] = 1.0
        L, H = api.dims(c)
        u = rng.uniform()
        if u < 0.25 and name != "cqcc":
            # silent stretches: whole frames of zeros, and frames that are partly zero
            x = x.copy()
            a = int(rng.integers(0, len(x)))
            x[a : a + int(rng.integers(L, 4 * L))] = 0
            if rng.uniform() < 0.3:
                x[: L + int(rng.integers(0, L))] = 0
            ctx.describe(silent=True)
        elif u < 0.265:
            n = int(rng.integers(31000, 70000))
            x, _ = S.regular(rng, n, c["fs"], S.pick(rng, ["white", "ar"]))
            x = x + float(S.pick(rng, [0.0, 0.5])) * np.abs(x).max()
            ctx.describe(n=n)
        nfr = lambda n: R.frame_count(n, L, H)
        call = lambda s: feat(ctx, name, s, c)
        ctx.describe(mode=mode)

        def good(s):
            if name == "psrcc":
                return api.ref_static(name, s, c)[1]
            if name in api.CEPS:
                return api.Ref(name, s, c).good
            if name == "cqcc" and not cq_power(s, c)[1]:
                return np.zeros(nfr(len(s)), bool)
            return None

        if name in ("plp", "rplp", "lpc", "lpcc"):
            tol = 1e-5
    pre = 1 if c["pre_emph"] else 0
    A = rowview(name, call(x))
    T = nfr(len(x))
    for a in A:
        if len(a) != T:
            ctx.fail("rows", f"{name}: {len(a)} rows for {T} frames")
    g = good(x)
    rows = np.arange(T)
    lead = pre  # the first frame's first sample sees no predecessor
    look = {"pncc": 2, "rplp": 0}.get(name)
    key = mode
    # samples that are not numbers, outside the compared frames, must not reach them either
    poison = name not in NO_POISON and mode in ("edit", "append", "delay") and rng.uniform() < 0.15
    if mode == "edit":
        if look is None:
            t = int(rng.integers(0, T))
            y = x.copy()
            lo, hi = max(0, t * H - pre), t * H + L
            y[:lo] = noise(rng, lo, x, poison)
            y[hi:] = noise(rng, len(y) - hi, x, poison)
            # all frames fully inside [lo+pre, hi) or equal to t
            pairs = [(t, t)]
        else:
            t = int(rng.integers(0, T))
            hi = (t + look) * H + L
            y = x.copy()
            if hi < len(y):
                y[hi:] = noise(rng, len(y) - hi, x, poison)
            pairs = [(q, q) for q in range(t + 1)]
            key = "causal"
    elif mode == "truncate":
        t = int(rng.integers(0, T))
        cut = min(len(x), t * H + L + int(rng.integers(0, H)) + (1 if name == "compute_yin" else 0))
        y = x[:cut]
        pairs = [(q, q) for q in range(nfr(cut) - (look or 0))]
    elif mode == "append":
        m = int(S.pick(rng, [1, H - 1 or 1, H, int(rng.integers(1, 4 * L))]))
        y = np.concatenate([x, noise(rng, m, x, poison)])
        pairs = [(q, q) for q in range(T - (look or 0))]
    elif mode == "delay":
        if look is not None:
            raise Skip("recursive features are not shift invariant")
        k = int(rng.integers(1, 5))
        pfx = noise(rng, k * H, x, poison)
        if rng.uniform() < 0.5:
            pfx[-1] = 0.0
        y = np.concatenate([pfx, x])
        st = 0 if (not pre or pfx[-1] == 0) else 1
        pairs = [(q, q + k) for q in range(st, T)]
    else:
        if look is not None:
            raise Skip("recursive features are not shift invariant")
        a = int(rng.integers(0, T))
        b = int(rng.integers(a + 1, T + 1))
        y = x[a * H : min(len(x), (b - 1) * H + L + (1 if name == "compute_yin" else 0))]
        pairs = [(q, q - a) for q in range(a + (1 if pre and a else 0), b)]
    if name == "compute_yin" and nfr(len(y)) < 1:
        raise Skip("short")
    B = rowview(name, call(np.ascontiguousarray(y) if rng.uniform() < 0.8 else y))
    T2 = nfr(len(y))
    for u in B:
        if len(u) != T2:
            ctx.fail("rows", f"{name}: {len(u)} rows for {T2} frames after {mode}")
    g2 = good(y) if not poison else None
    if poison:
        ctx.describe(poison=True)
        ctx.ok("poison")
    pairs = [(p, q) for p, q in pairs if q < T2 and (g is None or g[p]) and (g2 is None or g2[q])]
    if not pairs:
        raise Skip("no comparable row")
    p, q = np.array(pairs).T
    same(ctx, name, [u[p] for u in A], [v[q] for v in B], key, tol, f"({mode}; frames {p[0]}..{p[-1]} of {T})")
