"""C17 PNCC stages, direct and as nested in pncc, and the whole chain."""
import numpy as np

import api
import monitor
import refs as R
import signals as S
from common import make, feat
from core import Skip

ID = "C17"
RULE = "case = a PNCC stage on a random or adversarial (plateaus, zeros, steps, decays) power matrix against the published recursion, or pncc of a signal against the whole reference chain; every stage call nested in pncc is judged on the values it really received"
N = {"quick": 80000, "thorough": 640000}
MIN = {"oracle:medium": 1000, "oracle:asymmetric": 1000, "oracle:masking": 1000, "oracle:smoothing": 1000, "oracle:normalisation": 1000, "oracle:suppression": 1000, "oracle:chain": 2300, "oracle:lookahead": 1200}
MOD = "features.pncc"


def near_tie(a, b):
    """decisions a >= b that rounding could turn"""
    with np.errstate(all="ignore"):
        return np.abs(a - b) <= 1e-12 * (np.abs(a) + np.abs(b))


def alf(q, la, lb):
    return R.pn_alf(q, la, lb), np.zeros(q.shape, bool)


def mask(q, lt, mt):
    out = R.pn_mask(q, lt, mt)
    amb = np.zeros(q.shape, bool)
    peak = q[0].astype(float).copy()
    for m in range(1, len(q)):
        dec = lt * peak
        # q == dec exactly (e.g. both zero, where the two branches agree) is no ambiguity of the oracle
        amb[m] = near_tie(q[m], dec) & (np.abs(q[m] - mt * peak) > 1e-12 * np.abs(q[m])) & (q[m] != dec)
        peak = np.maximum(dec, q[m])
    return out, amb


def ans(q, thr):
    out, le, q0 = R.pn_ans(q, thr)
    _, a = mask(q0, 0.85, 0.2)
    amb = a | near_tie(q, 2 * le) & (q != 2 * le)
    return out, amb


def stage(name, a):
    """-> (expected, ambiguous entries, scale) for a stage call with bound arguments a"""
    if name == "medium_time_power_calculation":
        P = np.asarray(a["P"], float)
        return R.pn_medium(P, a["M"]), None, np.abs(P).max()
    if name == "asymmetric_lowpass_filtering":
        q = np.asarray(a["Q_tilde_in"], float)
        return alf(q, a["lm_a"], a["lm_b"])[0], None, np.abs(q).max()
    if name == "temporal_masking":
        q = np.asarray(a["Q_tilde_0"], float)
        w, amb = mask(q, a["lam_t"], a["myu_t"])
        return w, amb, np.abs(q).max()
    if name == "weight_smoothing":
        Rt, Q = np.asarray(a["R_tilde"], float), np.asarray(a["Q_tilde"], float)
        w = R.pn_smooth(Rt, Q, a["nfilts"], a["N"])
        return w, None, np.abs(w).max()
    if name == "mean_power_normalization":
        T = np.asarray(a["T"], float)
        w = R.pn_norm(T, a["lam_myu"], a["nfilts"], a["k"])
        return w, None, np.abs(w).max()
    q = np.asarray(a["Q_tilde"], float)
    w, amb = ans(q, a["threshold"])
    return w, amb, np.abs(q).max()


SHORT = {"medium_time_power_calculation": "medium", "asymmetric_lowpass_filtering": "asymmetric", "temporal_masking": "masking", "weight_smoothing": "smoothing", "mean_power_normalization": "normalisation", "asymmetric_noise_suppression_with_temporal_masking": "suppression"}


def judge(name, a, r):
    w, amb, sc = stage(name, a)
    r = np.asarray(r)
    if r.shape != w.shape:
        return f"{name}: shape {r.shape}, expected {w.shape}"
    with np.errstate(all="ignore"):
        bad = ~((np.abs(r - w) <= 1e-9 * sc) & (np.abs(r - w) <= 1e-6 * np.abs(w) + 1e-12 * sc) | (r == w) | (np.isnan(w) & np.isnan(r)))
    if amb is not None and amb.any():
        # decisions at a tie: only rows before the first one are judged
        bad[int(np.argmax(amb.any(axis=1))) :] = False
    if bad.any():
        ix = np.unravel_index(int(np.argmax(bad)), bad.shape)
        return f"{name}: entry {tuple(int(v) for v in ix)} of {r.shape} is {r[ix]!r}, expected {w[ix]!r}"
    return ""


def nested(name):
    def o(ctx, a, r):
        try:
            m = judge(name, a, r)
        except (KeyError, TypeError, ValueError, IndexError):
            return
        if m:
            ctx.report("nested-" + SHORT[name], m)
        else:
            ctx.ok("nested-" + SHORT[name])

    return o


def setup(ctx):
    monitor.Spy(ctx, {k: [nested(k)] for k in SHORT}, only=list(SHORT)).install()


def matrix(rng, T, Lc, kind=None):
    k = kind or S.pick(rng, ["exp", "exp", "steps", "decay", "zeros", "sine", "spikes", "const"])
    x = rng.exponential(1.0, (T, Lc))
    if k == "steps":
        x = x * np.repeat(10.0 ** rng.uniform(-4, 4, (T // 5 + 1, 1)), 5, axis=0)[:T]
    elif k == "decay":
        x = np.exp(-rng.uniform(0.02, 0.6) * np.arange(T))[:, None] * (0.5 + x)
    elif k == "zeros":
        x = x * (rng.uniform(size=x.shape) < 0.5)
        x[int(rng.integers(T)) :][:3] = 0
    elif k == "sine":
        x = 1.01 + np.sin(np.arange(T)[:, None] * rng.uniform(0.05, 1.5) + np.arange(Lc)[None, :]) + 1e-3 * x
    elif k == "spikes":
        x = 1e-3 * x
        x[rng.uniform(size=x.shape) < 0.1] *= 1e5
    elif k == "pow2":  # exact ties: powers of two, often repeated or exactly halved
        x = 2.0 ** rng.integers(-3, 4, (T, Lc))
        return x, k
    elif k == "const":
        x = np.full((T, Lc), float(x[0, 0]))
    return x * 10.0 ** rng.uniform(-3, 6), k


def chain(P, c):
    Q = R.pn_medium(P)
    Rt, amb = ans(Q, 0)
    St = R.pn_smooth(Rt, Q, P.shape[1])
    U = R.pn_norm(P * St, L=P.shape[1])
    return R.dct(U ** (1 / 15), c["dct_type"], c["num_ceps"]), amb.any()


def run(ctx, rng, i):
    m = i % 8
    if m < 5:
        name = list(SHORT)[(i // 8 * 5 + m) % 6]
        T, Lc = int(S.pick(rng, [1, 2, 3, 5, int(rng.integers(6, 60))])), int(rng.integers(2, 45)) if rng.uniform() < 0.9 else int(rng.integers(45, 140))
        x, k = matrix(rng, T, Lc)
        a = {}
        if name == "medium_time_power_calculation":
            a = dict(P=x, M=int(S.pick(rng, [2, 2, 1, 3, 0, 7])))
        elif name == "asymmetric_lowpass_filtering":
            la, lb = S.pick(rng, [(0.999, 0.5), (0.999, 0.5), (0.9, 0.3), (0.5, 0.999), (0.7, 0.7)])
            a = dict(Q_tilde_in=x, lm_a=la, lm_b=lb)
        elif name == "temporal_masking":
            lt, mt = S.pick(rng, [(0.85, 0.2), (0.85, 0.2), (0.5, 0.4), (0.97, 0.1), (0.5, 0.25), (1.0, 0.5), (0.25, 0.125)])
            if lt in (0.5, 1.0, 0.25):
                x, k = matrix(rng, T, Lc, "pow2")
            a = dict(Q_tilde_0=x, lam_t=lt, myu_t=mt)
        elif name == "weight_smoothing":
            y, _ = matrix(rng, T, Lc)
            if k == "zeros":
                y = np.where(x == 0, 0, y)
            a = dict(R_tilde=y, Q_tilde=x, nfilts=Lc, N=int(S.pick(rng, [4, 4, 1, 0, 2, 50])))
        elif name == "mean_power_normalization":
            a = dict(T=x, lam_myu=S.pick(rng, [0.999, 0.999, 0.9, 0.5]), nfilts=Lc, k=S.pick(rng, [1, 1, 2, 0.5]))
        else:
            a = dict(Q_tilde=x, threshold=S.pick(rng, [0, 0, 0.5 * float(np.median(x)), -0.1 * float(np.median(x)), -float(x.max())]))
        f = api.util(MOD, name)
        ctx.describe(fn=name, T=T, channels=Lc, data=k, **{q: v for q, v in a.items() if not isinstance(v, np.ndarray)})
        r = ctx.call(f, **a) if rng.uniform() < 0.5 else ctx.call(f, *a.values())
        msg = judge(name, a, r)
        if msg:
            ctx.fail(SHORT[name], msg)
        ctx.ok(SHORT[name])
        return
    x, c, k = make(ctx, rng, "pncc", max_frames=25, small=True, hostile=0.1 if m == 5 else 0.0, min_frames=5 if m == 7 else 1)
    if m == 7:
        got = np.asarray(feat(ctx, "pncc", x, c))
        L, H = api.dims(c)
        n = len(got)
        if n < 4:
            raise Skip("short")
        t = int(rng.integers(0, n - 3))
        cut = (t + 2) * H + L
        y = x.copy()
        y[cut:] = rng.standard_normal(len(y) - cut) * np.abs(x).max() * float(S.pick(rng, [1.0, 30.0]))
        b = np.asarray(feat(ctx, "pncc", y, c))
        ctx.close(b[: t + 1], got[: t + 1], "lookahead", rtol=1e-7)
        return
    got = np.asarray(feat(ctx, "pncc", x, c))
    ctx.check(np.isfinite(got).all(), "finite")
    if k in S.HOSTILE:
        return
    r = api.Ref("pncc", x, c)
    P = (r.mag ** c["power"] / c["nfft"]) @ r.bank.T
    want, amb = chain(P, c)
    if amb or not r.good.all():
        raise Skip("tie or conditioning")
    d = np.zeros_like(want)
    for _ in range(2):
        w2, amb2 = chain(P * (1 + 1e-11 * rng.standard_normal(P.shape)), c)
        if amb2:
            raise Skip("tie or conditioning")
        d = np.maximum(d, np.abs(w2 - want))
    tol = 1e-6 * np.abs(want).max() + 30 * d.max()
    if tol > 1e-3 * np.abs(want).max():
        raise Skip("tie or conditioning")
    ctx.close(got, want, "chain", rtol=0, atol=tol)
