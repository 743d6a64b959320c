"""C26 representation independence."""
import numpy as np

import api
import refs as R
import signals as S
from common import make, feat, pair_close, cq_power, cqt_is_noise, bank_has_empty
from core import Skip
from props.c22 import stats

ID = "C26"
RULE = "case = one entry point on integer-valued samples as plain float64 and in another representation (list, tuple, column, strided/reversed/read-only/Fortran view, integer and float dtypes, big-endian), or with options given as numpy scalars; results must agree"
N = {"quick": 24000, "thorough": 192000}
MIN = {"oracle:same": 4800, "oracle:options": 620, "full-scale": 990}
ENTRIES = api.EXTRACTORS + ["get_dominant_frequencies", "compute_yin", "extract_feats"]
TOL = 1e-10
FRAMED = api.EXTRACTORS


def reps(rng, x, framed):
    """x: integer valued float64; -> (other, label)"""
    lo, hi = x.min(), x.max()
    o = ["list", "tuple", "strided", "reversed", "readonly", "fortran", "slice", "bigendian", "longdouble", "pylist-int"]
    if framed:
        o += ["column", "column", "column-int", "fcolumn"]
    for d in (">i2", ">i4", ">u2", ">f4", ">i8", "uint32", "uint64", "float16", "int8", "uint8", "int16", "int16", "int16", "int32", "int32", "int64", "uint16", "float32", "float32"):
        ok = np.abs(x).max() < 2**24 if d in ("float32", ">f4") else np.abs(x).max() <= 2048 if d == "float16" else np.iinfo(d).min <= lo and hi <= np.iinfo(d).max
        if ok:
            o.append(d)
    k = S.pick(rng, o)
    if k == "list":
        return [float(v) for v in x], k
    if k == "pylist-int":
        return [int(v) for v in x], k
    if k == "tuple":
        return tuple(float(v) for v in x), k
    if k == "strided":
        return np.repeat(x, 3)[::3], k
    if k == "reversed":
        return x[::-1].copy()[::-1], k
    if k == "readonly":
        y = x.copy()
        y.setflags(write=False)
        return y, k
    if k == "fortran":
        return np.asfortranarray(np.stack([x, -x], axis=1))[:, 0], k
    if k == "slice":
        return np.concatenate([x + 5, x, x - 9])[len(x) : 2 * len(x)], k
    if k == "bigendian":
        return x.astype(">f8"), k
    if k == "longdouble":
        return x.astype(np.longdouble), k
    if k == "column":
        return x[:, None].copy(), k
    if k == "fcolumn":
        return np.asfortranarray(np.stack([x, -x], axis=1))[:, :1], k
    if k == "column-int":
        return x.astype(np.int64)[:, None], k
    return x.astype(k), k


def ints(rng, n, fs):
    m = int(rng.integers(6))
    if m == 5:
        return rng.integers(*S.pick(rng, [(0, 2**16), (0, 2**16), (0, 2**32), (-(2**31), 2**31), (0, 2**40), (-(2**45), 2**45)]), n).astype(float), "wide"
    if m == 0:
        return rng.integers(-32768, 32768, n).astype(float), "full16"
    if m == 1:
        s = np.where((np.arange(n) // int(rng.integers(1, 30))) % 2 == 0, 32767.0, -32768.0)
        s[rng.uniform(size=n) < 0.2] = -32768
        return s, "square16"
    if m == 2:
        return rng.integers(0, 256, n).astype(float), "u8"
    if m == 3:
        return rng.integers(-128, 128, n).astype(float), "i8"
    x, k = S.regular(rng, n, fs)
    return np.round(x / np.abs(x).max() * 25000), k


def scalar(rng, v):
    if isinstance(v, bool) or v is None:
        return S.pick(rng, [v, int(v), np.bool_(v)]) if v is not None else v
    if isinstance(v, int):
        return S.pick(rng, [np.int64(v), np.int32(v), np.int16(v) if abs(v) < 32000 else np.int32(v)])
    if isinstance(v, float):
        return S.pick(rng, [np.float64(v), int(v) if v == int(v) else np.float64(v)])
    return v


def run(ctx, rng, i):
    name = ENTRIES[i % len(ENTRIES)]
    framed = name in FRAMED
    if framed:
        x0, c, k = make(ctx, rng, name, max_frames=8, small=True, kinds=["white"])
        x, k = ints(rng, len(x0), c["fs"])
        fs = c["fs"]
        call = lambda s, **o: ctx.call(api.fn(name), s, **api.kwargs(c, **o))
    else:
        fs = S.pick(rng, S.FS)
        wl, wh, wt = S.window(rng, fs)
        if name == "compute_yin":
            wl = max(wl, 0.025)
        L, H = S.lengths(wl, wh, fs)
        x, k = ints(rng, L + 1 + int(rng.integers(0, 6)) * H, fs)
        nf = S.nfft_for(rng, L)
        c = dict(fs=fs)
        if name == "extract_feats":
            call = lambda s, **o: ctx.call(api.fn(name), s, **dict(dict(fs=fs, nfft=nf), **o))
        elif name == "compute_yin":
            call = lambda s, **o: ctx.call(api.fn(name), s, **dict(dict(fs=fs, win_len=wl, win_hop=wh), **o))
        else:
            call = lambda s, **o: ctx.call(api.fn(name), s, **dict(dict(fs=fs, nfft=nf, win_len=wl, win_hop=wh, win_type=wt), **o))
    if name in api.FAMILY and name not in api.SPECTRO:
        r = api.Ref(name, x, c)
        if not r.good.all():
            raise Skip("conditioning")
        if name == "psrcc" and not api.ref_static(name, x, c)[1].all():
            raise Skip("phase rounding")
    if name == "cqcc" and not cq_power(x, c)[1]:
        raise Skip("conditioning")
    if name == "cqt_spectrogram" and cqt_is_noise(x, c):
        raise Skip("conditioning")
    tol = 1e-6
    if name in ("lpc", "lpcc", "plp", "rplp"):
        tol = 1e-5
        if k in ("square16",):
            x = x + rng.integers(-300, 300, len(x))
            x = np.clip(x, -32768, 32767)
    if np.abs(x).max() >= 32767:
        ctx.count("full-scale")
    if i % 5 == 4 and framed:
        o = {q: scalar(rng, v) for q, v in c.items() if q != "win" and rng.uniform() < 0.6}
        if rng.uniform() < 0.5:
            o["fs"] = S.pick(rng, [np.int64(fs), np.int32(fs), float(fs), np.float64(fs)])
        for q in ("nfft", "nfilts", "num_ceps", "order", "dct_type", "number_of_octaves", "number_of_bins_per_octave"):
            if q in o and isinstance(o[q], np.generic) and o[q].dtype == np.int16 and q == "nfft":
                o[q] = np.int64(o[q])
        ctx.describe(entry=name, data=k, options={q: type(v).__name__ for q, v in o.items()})
        pair_close(ctx, name, call(x, **o), call(x), "options", rtol=1e-7)
        return
    y, lab = reps(rng, x, framed)
    ctx.describe(entry=name, data=k, n=len(x), rep=lab)
    if lab in ("float32", ">f4"):
        if name in ("extract_feats",):
            tol = 1e-3
        if not framed and name == "get_dominant_frequencies":
            pass
    if framed and tol == 1e-6 and lab != "longdouble":
        # the window already makes everything float64: only the rounding of the linear algebra may differ
        tol = TOL
    if name == "compute_yin":
        # equal values give bit-identical float64 frames
        tol = 1e-9
    if name == "extract_feats":
        got, want = call(y), call(x)
        # differences are measured against the size of the sums, not of their possibly cancelled value
        sp = R.dft(np.asarray(x, float)[None, :], nf)[0]
        _, sc, amb = stats(fs, sp)
        noisy = np.abs(sp).min() < 1e-9 * np.abs(sp).max()
        ctx.check(set(got) == set(want), "same", lambda: f"{name}: entries {sorted(set(got) ^ set(want))} differ")
        for q in want:
            if q == "spectral_rolloff" and (amb or lab in ("float32", ">f4")) or q == "spectral_flatness" and noisy:
                continue
            lim = tol * max(sc.get(q, 0), abs(float(want[q])))
            if not abs(float(got[q]) - float(want[q])) <= lim:
                ctx.fail("same", f"{name}: {q} = {got[q]!r} against {want[q]!r}")
            ctx.ok("same")
        return
    pair_close(ctx, name, call(y), call(x), "same", rtol=tol)
