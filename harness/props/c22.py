"""C22 spectral statistics."""
import math

import numpy as np

import api
import refs as R
import signals as S
from core import Skip

ID = "C22"
RULE = "case = the spectral statistics of a random magnitude or complex spectrum, or extract_feats of a signal, against their definitions evaluated in extended precision; plus ranges and gain invariance"
N = {"quick": 160000, "thorough": 1280000}
MIN = {"oracle:value": 86000, "oracle:range": 19000, "oracle:gain": 67000, "oracle:combined": 120000}
SHAPE = ["spectral_skewness", "spectral_kurtosis", "spectral_entropy", "spectral_spread", "spectral_flatness", "spectral_rolloff", "spectral_centroid"]


def stats(fs, spec, k=0.85, p=2):
    m = np.abs(np.asarray(spec)).astype(np.longdouble)
    n = len(m)
    f = np.arange(n, dtype=np.longdouble) * (np.longdouble(fs) / 2 / (n - 1))
    tot = m.sum()
    c = lambda i: (m * f**i).sum() / tot
    mu1, mu2 = c(1), c(2)
    pm = m / tot
    cs = np.cumsum(m)
    j = int(np.argmax(cs >= k * cs[-1]))
    d = {}
    d["spectral_centroid"] = mu1
    d["spectral_skewness"] = (m * (f - mu1) ** 3).sum() / (tot * mu2**3)
    d["spectral_kurtosis"] = (m * (f - mu1) ** 4).sum() / (tot * mu2**4)
    d["spectral_entropy"] = -(pm * np.log(np.where(pm == 0, 1, pm))).sum() / math.log(n)
    d["spectral_spread"] = np.sqrt((m * (f - mu1) ** 2).sum() / tot)
    with np.errstate(all="ignore"):
        d["spectral_flatness"] = np.exp(np.mean(np.log(m))) / m.mean() if (m > 0).all() else np.longdouble(0)
    d["spectral_rolloff"] = j
    d["spectral_flux"] = (np.abs(np.diff(m)) ** p).sum() ** (1 / np.longdouble(p))
    d["spectral_mean"] = m.mean()
    d["spectral_rms"] = np.sqrt((m**2).mean())
    d["spectral_std"] = np.sqrt(((m - m.mean()) ** 2).mean())
    d["spectral_variance"] = ((m - m.mean()) ** 2).mean()
    amb = abs(cs[j] - k * cs[-1]) < 1e-9 * cs[-1] or (j > 0 and abs(cs[j - 1] - k * cs[-1]) < 1e-9 * cs[-1])
    # absolute scales: cancellation in the odd moment
    sc = {k: abs(float(v)) for k, v in d.items()}
    sc["spectral_skewness"] = float((m * np.abs(f - mu1) ** 3).sum() / (tot * mu2**3))
    sc["spectral_skewness"] += float(1e-6 * (fs / 2 / mu2) ** 3) if mu2 > 0 else 0
    sc["spectral_kurtosis"] += float(1e-6 * (fs / 2 / mu2) ** 4) if mu2 > 0 else 0
    sc["spectral_std"] = float(m.max())
    sc["spectral_variance"] = float(m.max() ** 2)
    sc["spectral_spread"] = fs / 2
    sc["spectral_entropy"] = 1
    sc["spectral_flux"] = float(np.sum(m))
    return d, sc, amb


def one(ctx, key, got, want, sc, name, tol):
    if isinstance(got, complex) or np.iscomplexobj(got):
        ctx.fail(key, f"{name} is complex: {got!r}")
    if np.ndim(got) != 0:
        ctx.fail(key, f"{name} is not a number: shape {np.shape(got)}")
    if not abs(float(got) - float(want)) <= tol * sc + 1e-300:
        ctx.fail(key, f"{name} = {got!r}, expected {float(want)!r}")
    ctx.ok(key)


def run(ctx, rng, i):
    fs = S.pick(rng, S.FS + [16000.0, 1000, 22050.5])
    if i % 2 == 0:
        n = int(S.pick(rng, [2, 3, 257, 129, int(rng.integers(4, 1500))]))
        if rng.uniform() < 0.03:
            n = int(S.pick(rng, [2049, 4097, 3000, 8193]))
        k = S.pick(rng, ["exp", "line", "flat", "ramp", "sparse", "complex", "counts"])
        s = rng.exponential(1.0, n)
        if k == "line":
            s = 1e-6 * s
            s[int(rng.integers(n))] = 1.0
        elif k == "flat":
            s = np.full(n, float(s[0]))
        elif k == "ramp":
            s = np.arange(1, n + 1) * 1.0
        elif k == "sparse":
            s = s * (rng.uniform(size=n) < 0.3)
            s[int(rng.integers(1, n))] = 1.0
        elif k == "complex":
            s = s * np.exp(1j * rng.uniform(0, 6.3, n))
        elif k == "counts":
            s = rng.integers(0, 5, n).astype(float)
            s[-1] = 1.0 + (-(s[:-1].sum() + 1)) % 8  # the total is a multiple of 8
        if k != "counts":
            s = s * 10.0 ** (rng.uniform(-4, 6) if rng.uniform() < 0.7 else rng.uniform(-14, 12))
        kk = float(S.pick(rng, [0.85, 0.85, 0.5, 0.95, 0.1, 0.99]))
        pp = int(S.pick(rng, [2, 2, 1, 3, 4, 5, 8]))
        ctx.describe(spectrum=k, bins=n, fs=fs, k=kk, p=pp)
        d, sc, amb = stats(fs, s, kk, pp)
        M = "features.spfeats"
        f = lambda q: api.util(M, q)
        sig = rng.standard_normal(50)
        one(ctx, "value", ctx.call(f("spectral_centroid"), fs, s), d["spectral_centroid"], fs, "spectral_centroid", 1e-9)
        o = int(rng.integers(1, 5))
        m = np.abs(s).astype(np.longdouble)
        fr = np.arange(n, dtype=np.longdouble) * (np.longdouble(fs) / 2 / (n - 1))
        one(ctx, "value", ctx.call(f("spectral_centroid"), fs, s, o) if rng.uniform() < 0.5 else ctx.call(f("spectral_centroid"), fs=fs, spectrum=s, i=o), (m * fr**o).sum() / m.sum(), float(fs) ** o, f"spectral_centroid order {o}", 1e-9)
        for q in ("spectral_skewness", "spectral_kurtosis", "spectral_spread"):
            if not np.isfinite(float(d[q])):
                continue
            one(ctx, "value", ctx.call(f(q), sig, fs, s), d[q], sc[q], q, 1e-7 if q != "spectral_spread" else 1e-6)
        en = ctx.call(f("spectral_entropy"), s)
        one(ctx, "value", en, d["spectral_entropy"], 1.0, "spectral_entropy", 1e-9)
        fl = ctx.call(f("spectral_flatness"), s)
        one(ctx, "value", fl, d["spectral_flatness"], max(sc["spectral_flatness"], 1e-12), "spectral_flatness", 1e-8)
        if k == "counts":
            # exactly representable sums and fractions: a tie is decided by the definition, not by rounding
            kk = float(S.pick(rng, [0.5, 0.25, 0.75, 1.0, 0.125]))
            j = int(np.argmax(np.cumsum(s) >= kk * s.sum()))
            one(ctx, "value", ctx.call(f("spectral_rolloff"), s, kk), j, 0, "spectral_rolloff", 0)
        elif not amb:
            one(ctx, "value", ctx.call(f("spectral_rolloff"), s, kk) if kk != 0.85 else ctx.call(f("spectral_rolloff"), s), d["spectral_rolloff"], 0, "spectral_rolloff", 0)
        one(ctx, "value", ctx.call(f("spectral_flux"), s, pp) if pp != 2 else ctx.call(f("spectral_flux"), s), d["spectral_flux"], sc["spectral_flux"], "spectral_flux", 1e-9)
        ctx.check(-1e-9 <= en <= 1 + 1e-9 and -1e-9 <= fl <= 1 + 1e-9, "range", lambda: f"entropy {en}, flatness {fl}")
        return
    nfft = int(S.pick(rng, [512, 512, 256, 1024, 400, 401, 64, int(rng.integers(8, 700)), int(rng.integers(2, 9))]))
    if rng.uniform() < 0.04:
        nfft = int(S.pick(rng, [2048, 4096, 8192, 4097]))
    n = int(S.pick(rng, [nfft, nfft // 2, 3 * nfft, int(rng.integers(5, 3000))]))
    x, k = S.regular(rng, max(n, 4), fs)
    if rng.uniform() < 0.15:
        x = (x / np.abs(x).max() * 20000).astype(np.int16)
    ctx.describe(entry="extract_feats", n=n, nfft=nfft, fs=fs, signal=k)
    got = ctx.call(api.fn("extract_feats"), x, fs, nfft) if nfft != 512 else ctx.call(api.fn("extract_feats"), x, fs)
    xf = np.asarray(x, float)
    sp = R.dft(xf[None, :], nfft)[0]
    d, sc, amb = stats(fs, sp)
    names = set(d)
    ctx.check(isinstance(got, dict) and set(got) == names, "keys", lambda: f"{sorted(got)}")
    floor = np.abs(sp).min() / np.abs(sp).max()
    for q in sorted(names):
        if q == "spectral_rolloff" and amb or q == "spectral_flatness" and floor < 1e-9:
            continue
        s0 = sc[q] if q not in ("spectral_centroid",) else fs / 2
        one(ctx, "combined", got[q], d[q], s0, q, 0 if q == "spectral_rolloff" else 1e-7)
    ctx.check(0 <= got["spectral_centroid"] <= fs / 2 * (1 + 1e-12) and -1e-9 <= got["spectral_entropy"] <= 1 + 1e-9 and -1e-9 <= got["spectral_flatness"] <= 1 + 1e-9, "range", lambda: f"{got}")
    g = float(S.pick(rng, [2.0, 0.25, 1024.0, 3.3, 1e-7, 1e9, 2.0**-40]))
    b = ctx.call(api.fn("extract_feats"), xf * g, fs, nfft)
    for q in SHAPE:
        if q == "spectral_rolloff" and amb or q == "spectral_flatness" and floor < 1e-9:
            continue
        one(ctx, "gain", b[q], got[q], max(sc[q], fs / 2 if q == "spectral_centroid" else 0), q + f" after gain {g}", 1e-7 if q != "spectral_rolloff" else 0)
