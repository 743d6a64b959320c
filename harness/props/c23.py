"""C23 deltas."""
import numpy as np

import api
import refs as R
import signals as S
from core import Skip

ID = "C23"
RULE = "case = deltas of a random matrix and window size (also wider than the matrix, even sizes, integer and strided matrices, chained) against the sliding weighted sum with replicated edges"
N = {"quick": 200000, "thorough": 1600000}
MIN = {"oracle:value": 24000, "oracle:row-independent": 4800, "oracle:linear": 4800, "oracle:constant": 4800, "oracle:ramp": 2700, "oracle:chained": 4800}


def run(ctx, rng, i):
    f = api.util("utils.cepstral", "deltas")
    r, n = int(S.pick(rng, [1, 2, 13, int(rng.integers(1, 50))])), int(S.pick(rng, [1, 2, 3, 9, int(rng.integers(1, 120)), int(rng.integers(1, 120))]))
    if i % 50 == 9:
        n = int(S.pick(rng, [400, 512, 999, 1000, 1024, 2048, int(rng.integers(120, 3000))]))
        r = min(r, 5)
    w = int(S.pick(rng, [9, 9, 1, 2, 3, 4, 5, 8, int(rng.integers(1, 40))]))
    if i % 500 == 77:
        w = int(S.pick(rng, [301, 1001, 5001, 4200]))
        r = min(r, 4)
    x = rng.standard_normal((r, n)) * 10 ** rng.uniform(-3, 3) + float(S.pick(rng, [0, 0, 100.0]))
    lay = S.pick(rng, ["c", "c", "f", "strided", "int", "f32", "transposed", "readonly"])
    a = {"c": x, "f": np.asfortranarray(x), "strided": np.repeat(x, 2, axis=1)[:, ::2], "int": np.round(x * float(S.pick(rng, [1, 1, 1e6, 1e9]))).astype(np.int64), "f32": x.astype(np.float32), "transposed": x.T.copy().T, "readonly": x.copy()}[lay]
    if lay == "readonly":
        a.setflags(write=False)
    x = np.asarray(a, float)
    h = w // 2
    ctx.describe(rows=r, cols=n, w=w, layout=lay, v=float(x[0, 0]))
    y = np.asarray(ctx.call(f, a) if w == 9 and rng.uniform() < 0.5 else (ctx.call(f, a, w) if rng.uniform() < 0.5 else ctx.call(f, x=a, w=w)))
    sc = np.abs(x).max() * (h * (h + 1) + 1)
    t = 1e-11 if lay != "f32" else 1e-5
    ctx.close(y, R.deltas(x, w), "value", rtol=0, atol=t * sc)
    m = i % 5
    if m == 0:
        j = int(rng.integers(r))
        x2 = rng.standard_normal((r, n)) * 1e3
        x2[j] = x[j]
        ctx.close(np.asarray(ctx.call(f, x2, w))[j], R.deltas(x, w)[j], "row-independent", rtol=0, atol=1e-11 * sc)
    elif m == 1:
        b = rng.standard_normal((r, n))
        s, u = rng.uniform(-3, 3, 2)
        ctx.close(ctx.call(f, s * x + u * b, w), s * R.deltas(x, w) + u * np.asarray(ctx.call(f, b, w)), "linear", rtol=0, atol=1e-10 * (sc + 10 * h * h + 1))
    elif m == 2:
        c = rng.uniform(-5, 5)
        ctx.close(ctx.call(f, np.full((r, n), c), w), np.zeros((r, n)), "constant", rtol=0, atol=1e-11 * (abs(c) + 1) * (h * h + h + 1))
    elif m == 3:
        sl = rng.uniform(-5, 5, r)[:, None]
        d = np.asarray(ctx.call(f, sl * np.arange(n)[None, :], w))
        if n > 2 * h:
            inner = d[:, h : n - h]
            want = np.broadcast_to(sl * sum(k * k for k in range(-h, h + 1)), inner.shape)
            ctx.close(inner, want, "ramp", rtol=0, atol=1e-10 * 5 * n * (h * h + h + 1))
        else:
            ctx.ok("ramp", 0)
    else:
        ctx.close(ctx.call(f, y, w), R.deltas(y, w), "chained", rtol=0, atol=max(t, 1e-10) * sc * (h * (h + 1) + 1))
