"""C05 frequency scales: formula, monotonicity and inverse oracles on direct and nested conversions."""
import numpy as np

import api
import monitor
import refs as R
import signals as S

ID = "C05"
RULE = "case = one (scale, approach) with random frequencies over 0..96 kHz (log- and uniformly spread, scale break points included), or a bank construction with spies on the converters; non-trivial when values were judged"
N = {"quick": 60000, "thorough": 480000}
MIN = {"oracle:formula": 6000, "oracle:round-trip-hz": 6000, "oracle:round-trip-scale": 6000, "oracle:monotone": 6000}

SC = [("mel", a) for a in S.MELS] + [("bark", a) for a in S.BARKS] + [("erb", "Glasberg")]
REF = {"mel": (R.hz2mel, R.mel2hz), "bark": (R.hz2bark, R.bark2hz), "erb": (lambda f, a: R.hz2erb(f), lambda e, a: R.erb2hz(e))}


LIM = {"int16": 32767, "uint16": 65535, "uint8": 255}


def fns(scale):
    return api.util("utils.converters", "hz2" + scale), api.util("utils.converters", scale + "2hz")


def _o(scale, fwd):
    arg = "f" if fwd else {"mel": "fm", "bark": "fb", "erb": "fe"}[scale]

    def o(ctx, a, r):
        if arg not in a or "approach" not in a:
            return
        try:
            x = np.asarray(a[arg], float)
            want = REF[scale][0 if fwd else 1](x, a["approach"])
        except Exception:
            return
        with np.errstate(all="ignore"):
            ok = np.shape(r) == np.shape(want) and np.allclose(np.asarray(r, float), want, rtol=1e-9, atol=1e-7, equal_nan=True)
        if not ok:
            ctx.report("nested-conversion", f"{'hz2' + scale if fwd else scale + '2hz'}({a[arg]!r}, {a['approach']}) = {r!r}, expected {want!r}")
        else:
            ctx.ok("nested-conversion")

    return o


def setup(ctx):
    orc = {}
    for s in ("mel", "bark", "erb"):
        orc["hz2" + s] = [_o(s, True)]
        orc[s + "2hz"] = [_o(s, False)]
    ctx.spy = monitor.Spy(ctx, orc, only=list(orc)).install()


def run(ctx, rng, i):
    if i % 6 == 5:
        fam = S.pick(rng, ["mel", "imel", "lin", "bark", "gamma"])
        fs = S.pick(rng, S.FS)
        lo, hi = S.band(rng, fs, low_pos=True)
        k = dict(nfilts=int(rng.integers(2, 30)), nfft=int(S.pick(rng, [64, 128, 257])), fs=fs, low_freq=lo, high_freq=hi)
        if fam == "bark":
            k["conversion_approach"] = S.pick(rng, S.BARKS)
        if fam in ("mel", "imel"):
            k["conversion_approach"] = S.pick(rng, S.MELS)
        ctx.describe(bank=fam, **k)
        ctx.call(api.bank_fn(fam), **k)
        return
    scale, ap = SC[i % len(SC)]
    fwd, inv = fns(scale)
    m = int(rng.integers(4))
    f = np.sort(rng.uniform(0, 96000, 24)) if m == 0 else np.sort(10 ** rng.uniform(0, 4.98, 24)) if m == 1 else np.sort(rng.uniform(0, 1500, 24)) if m == 2 else np.sort(rng.choice(np.arange(1, 48001), 24, replace=False)).astype(float)
    if m != 3 and rng.uniform() < 0.1:
        f[:4] = 10 ** rng.uniform(-5, -1, 4)  # the very low end
        f = np.sort(f)
    if rng.uniform() < 0.3 and ap != "Zwicker":
        f[0] = 0.0
    if ap == "Zwicker":
        f = np.maximum(f, 1.0)
    if ap == "Traunmueller" and rng.uniform() < 0.5:
        # around the two corrections of the scale
        br = np.array([1960 * 2.53 / (26.28 - 2.0), 1960 * 20.63 / (26.28 - 20.1)])
        f = np.sort(np.concatenate([br + d for d in (-3.0, -0.5, -1e-3, 1e-3, 0.5, 3.0)]))
    f = np.unique(f)
    kind = S.pick(rng, ["float", "float", "np64", "int", "npint", "int16", "uint16", "int32", "uint8"])
    if kind not in ("float", "np64"):
        if kind in LIM:
            f = f[f <= LIM[kind]]
            f = np.concatenate([f, LIM[kind] - rng.integers(0, min(LIM[kind], 3000), 6)])
        f = np.unique(np.round(f))
        if ap == "Zwicker":
            f = f[f >= 1]
    conv = {"float": float, "np64": np.float64, "int": int, "npint": np.int64}.get(kind) or getattr(np, kind)
    ctx.describe(scale=scale, approach=ap, type=kind, f0=float(f[0]), f1=float(f[-1]), m=m)
    default = {"mel": "Oshaghnessy", "bark": "Wang", "erb": "Glasberg"}[scale] == ap
    call = (lambda g, v: ctx.call(g, v)) if default and rng.uniform() < 0.5 else (lambda g, v: ctx.call(g, v, ap)) if rng.uniform() < 0.5 else (lambda g, v: ctx.call(g, v, approach=ap))
    b = np.array([float(call(fwd, conv(v))) for v in f])
    ctx.close(b, REF[scale][0](f, ap), "formula", rtol=1e-11, scale=np.abs(REF[scale][0](f, ap)) + 0.1)
    if ap not in ("Zwicker", "Tjomov", "Traunmueller"):  # scales through 0: also relatively exact at the low end
        ctx.close(b, REF[scale][0](f, ap), "formula-low", rtol=1e-7, scale=np.abs(REF[scale][0](f, ap)) + 1e-6)
    ctx.check(bool(np.all(np.diff(b) > 0)), "monotone", lambda: f"{scale}/{ap} is not strictly increasing on {f.tolist()}")
    h = np.array([float(call(inv, v)) for v in b])
    ctx.close(h, f, "round-trip-hz", rtol=1e-8, scale=f + 1.0)
    # the other direction, from the perceptual scale (integers included)
    hi = float(REF[scale][0](48000.0, ap))
    lo = float(REF[scale][0](20.0, ap))
    z = np.sort(rng.uniform(lo, hi, 16))
    if rng.uniform() < 0.3:
        z = np.unique(np.round(z))
        z = z[(z >= lo) & (z <= hi)]
    hz = np.array([float(call(inv, (int(v) if v == round(v) and rng.uniform() < 0.5 else float(v)))) for v in z])
    ctx.close(hz, REF[scale][1](z, ap), "inverse-formula", rtol=1e-9, scale=np.abs(hz) + 1.0)
    z2 = np.array([float(call(fwd, v)) for v in hz])
    ctx.close(z2, z, "round-trip-scale", rtol=1e-9, scale=np.abs(z) + 1.0)
    if rng.uniform() < 0.05:
        # large arrays of any shape, both ways
        shp = S.pick(rng, [(60,), (513,), (1000,), (4097,), (7, 30), (3, 5, 20), (1, 1), (1,), ()])
        g = np.asarray(10 ** rng.uniform(1.5, 4.6, shp))
        if rng.uniform() < 0.3 and g.ndim == 2:
            g = np.asfortranarray(g)
        w = REF[scale][0](g, ap)
        v = ctx.call(fwd, g, ap)
        ctx.check(np.shape(v) == shp, "array-shape", lambda: f"{np.shape(v)} for an array of {shp}")
        ctx.close(np.ravel(v), np.ravel(w), "array-formula", rtol=1e-11, scale=np.abs(np.ravel(w)) + 1e-3)
        v = ctx.call(inv, np.asarray(w), ap)
        ctx.check(np.shape(v) == shp, "array-shape", lambda: f"{np.shape(v)} for an array of {shp}")
        ctx.close(np.ravel(v), np.ravel(g), "array-round-trip", rtol=1e-8, scale=np.ravel(g) + 1.0)
    if rng.uniform() < 0.4:
        g = f.astype(getattr(np, kind)) if kind in ("int16", "uint16", "int32", "uint8") else f
        shape = (2, -1) if len(g) % 2 == 0 and rng.uniform() < 0.3 else (-1,)
        v = ctx.call(fwd, g.reshape(shape), ap)
        ctx.check(np.shape(v) == g.reshape(shape).shape, "array-shape", lambda: f"{np.shape(v)} for an array of {g.reshape(shape).shape}")
        ctx.close(np.ravel(v), REF[scale][0](f, ap), "array-formula", rtol=1e-11, scale=np.abs(b) + 0.1)
        v = ctx.call(inv, b, ap)
        ctx.close(np.ravel(v), f, "array-round-trip", rtol=1e-8, scale=f + 1.0)
