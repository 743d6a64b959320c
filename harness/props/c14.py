"""C14 LPCC."""
import numpy as np

import api
import monitor
import refs as R
import signals as S
from common import make, feat
from core import Skip, Violation

ID = "C14"
RULE = "case = lpcc of a signal judged frame by frame against the power series of -log A of the lpc model (spafe's own lpc and the reference model), or lpc2lpcc of a random stable polynomial; every nested lpc2lpcc call (plp, rplp, lpcc) is judged too"
N = {"quick": 60000, "thorough": 480000}
MIN = {"oracle:lpcc-rows": 35000, "oracle:lpcc-reference": 31000, "oracle:lpc2lpcc": 2400, "oracle:log-spectrum": 1100}


def judge(a, e, n, got):
    """None or message"""
    got = np.asarray(got, dtype=float)
    if got.shape != (n,):
        return f"{got.shape} cepstra, expected {n}"
    with np.errstate(all="ignore"):
        want = R.lpc_cepstrum(a, e, n)
    if not np.isfinite(want).all() or np.abs(want).max() > 1e12:
        return None
    bad = np.abs(got - want) > 1e-8 * (1 + np.abs(want).max())
    if bad.any():
        m = int(np.argmax(bad))
        return f"c[{m}] = {got[m]!r}, expected {want[m]!r} (p={len(a)-1}, nceps={n})"
    return ""


def o_nested(ctx, args, r):
    try:
        a, e, n = np.asarray(args["a"], float), float(args["e"]), int(args["nceps"])
    except (KeyError, TypeError, ValueError):
        return
    if a.ndim != 1 or a[0] != 1 or e < 0:
        return
    m = judge(a, e, n, r)
    if m:
        ctx.report("nested-lpc2lpcc", m)
    elif m == "":
        ctx.ok("nested-lpc2lpcc")


def setup(ctx):
    monitor.Spy(ctx, {"lpc2lpcc": [o_nested]}, only=["lpc2lpcc"]).install()


def stable(rng, p):
    poles = []
    while len(poles) < p:
        if p - len(poles) >= 2 and rng.uniform() < 0.8:
            z = rng.uniform(0.05, 0.98) * np.exp(1j * rng.uniform(0, np.pi))
            poles += [z, np.conj(z)]
        else:
            poles.append(rng.uniform(-0.98, 0.98))
    return np.real(np.poly(poles)) if p else np.array([1.0])


def run(ctx, rng, i):
    if i % 3 == 0:
        f = api.util("features.lpc", "lpc2lpcc")
        p = int(rng.integers(0, 20))
        n = int(S.pick(rng, [1, 2, max(1, p), p + 1, p + 2, int(rng.integers(1, 60))]))
        a = stable(rng, p)
        e = float(S.pick(rng, [0.0, 1.0, 10 ** rng.uniform(-12, 12)]))
        ctx.describe(fn="lpc2lpcc", p=p, nceps=n, e=e, a1=float(a[1]) if p else 0)
        arg = S.pick(rng, [a, list(a), a])
        c = ctx.call(f, arg, e, n) if rng.uniform() < 0.5 else ctx.call(f, a=arg, e=e, nceps=n)
        m = judge(a, e, n, c)
        if m:
            ctx.fail("lpc2lpcc", m)
        if m == "":
            ctx.ok("lpc2lpcc")
        if p and rng.uniform() < 0.5:
            # independent view: the cepstrum reproduces the log magnitude response of e / |A|^2
            a2 = np.real(np.poly([0.7 * z / max(abs(z), 1e-9) * min(abs(z), 0.95) for z in np.roots(a)]))
            n2 = 300
            c = np.asarray(ctx.call(f, a2, 2.5, n2), float)
            w = np.linspace(0, np.pi, 33)
            lhs = c[0] + 2 * np.cos(np.outer(w, np.arange(1, n2))) @ c[1:]
            rhs = np.log(2.5) - 2 * np.log(np.abs(np.polyval(a2[::-1], np.exp(-1j * w))))
            ctx.close(lhs, rhs, "log-spectrum", rtol=0, atol=1e-6)
        return
    name = "lpcc" if i % 6 < 5 else S.pick(rng, ["plp", "rplp"])
    x, c, k = make(ctx, rng, name, max_frames=14, hostile=0.3, small=True)
    got = feat(ctx, name, x, c)
    if name != "lpcc":
        return
    n = c["order"]
    wl, wh, wt = c["win"]
    wf = R.windowed(x, c["fs"], wl, wh, wt, c["pre_emph"], c["pre_emph_coeff"])
    ctx.check(np.shape(got) == (len(wf), n), "shape", lambda: f"{np.shape(got)}, expected {(len(wf), n)}")
    a, e = ctx.call(api.fn("lpc"), x, fs=c["fs"], order=n, pre_emph=c["pre_emph"], pre_emph_coeff=c["pre_emph_coeff"], window=api.window(c["win"]))
    a, e = np.asarray(a), np.asarray(e).reshape(-1)
    for j in range(len(wf)):
        m = judge(a[j], float(e[j]), n, got[j])
        if m:
            ctx.fail("lpcc-rows", f"frame {j}: {m}")
        if m == "":
            ctx.ok("lpcc-rows")
        r = R.autocorr(wf[j], n - 1)
        if r[0] < 1e-200:
            continue
        ar, er, cond = R.lpc_solve(r)
        if ar is None or cond > 1e7 or er <= 0:
            continue
        want = R.lpc_cepstrum(ar, er, n)
        tol = (1e-11 * cond + 1e-8) * (1 + np.abs(want).max()) * max(1.0, 1e-3 * r[0] / er)
        if np.abs(np.asarray(got[j]) - want).max() > tol:
            ctx.fail("lpcc-reference", f"frame {j}: {np.asarray(got[j])[:4]}.., reference {want[:4]}..")
        ctx.ok("lpcc-reference")
