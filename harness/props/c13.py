"""C13 LPC: every returned predictor is judged against the normal equations of its own windowed frame."""
import numpy as np

import api
import refs as R
import signals as S
from common import make, feat
from core import Skip

ID = "C13"
RULE = "case = one lpc call; every frame's coefficients and error are judged against the autocorrelation of the reference windowed frame (residual of the normal equations, error, optimality against random perturbations, minimum phase); non-trivial when at least one frame was judged"
N = {"quick": 80000, "thorough": 640000}
MIN = {"oracle:normal-equations": 34000, "oracle:error-term": 34000, "oracle:optimal": 28000, "oracle:coefficients": 32000, "oracle:minimum-phase": 28000, "oracle:silent": 2700, "oracle:ar-recovery": 1400}


def judge(ctx, wf, a_mat, e_mat, order, rng):
    ctx.check(np.shape(a_mat) == (len(wf), order), "shape", lambda: f"coefficients {np.shape(a_mat)}, expected {(len(wf), order)}")
    ctx.check(np.size(e_mat) == len(wf) and np.shape(e_mat)[0] == len(wf), "shape", lambda: f"errors {np.shape(e_mat)}, expected one per frame ({len(wf)})")
    a_mat, e_vec = np.asarray(a_mat), np.asarray(e_mat).reshape(-1)
    rows = range(len(wf)) if len(wf) <= 12 else sorted(set([0, 1, len(wf) - 2, len(wf) - 1]) | set(int(v) for v in rng.integers(0, len(wf), 8)))
    for i in rows:
        r = R.autocorr(wf[i], order - 1)
        a, e = a_mat[i], e_vec[i]
        if not (np.isfinite(a).all() and np.isfinite(e)):
            ctx.fail("finite", f"frame {i}: a={a}, e={e}, r0={r[0]}")
        ctx.check(a[0] == 1.0, "leading-one", f"frame {i}: a[0] = {a[0]}")
        if r[0] < 1e-200:
            if r[0] == 0:
                ctx.check(np.all(a[1:] == 0) and e == 0, "silent", f"silent frame {i}: a={a[:4]}.., e={e}")
            continue
        p = order - 1
        if p:
            T = R.levinson_matrix(r[: p + 1])[:p, :p]
            res = T @ a[1:] + r[1:]
            tol = 1e-6 * r[0] * max(1.0, np.abs(a).max() * 1e-3)
            ctx.check(np.abs(res).max() <= tol, "normal-equations", lambda: f"frame {i}: residual {np.abs(res).max():.3g} of the normal equations with r0={r[0]:.3g}")
        else:
            ctx.ok("normal-equations")
        want = float(r @ a)
        ctx.check(abs(e - abs(want)) <= 1e-7 * r[0] * max(1.0, np.abs(a).max() * 1e-3), "error-term", lambda: f"frame {i}: error {e!r}, residual energy of the returned predictor {want!r} (r0={r[0]:.6g})")
        ctx.check(-1e-9 * r[0] <= e <= r[0] * (1 + 1e-9), "error-range", lambda: f"frame {i}: error {e!r} outside [0, frame energy {r[0]!r}]")
        ref, eref, cond = R.lpc_solve(r)
        if ref is not None and cond < 1e8:
            ctx.close(a, ref, "coefficients", rtol=1e-12 * cond + 1e-9)
            ctx.check(abs(e - eref) <= (1e-12 * cond + 1e-9) * r[0], "minimal-error", lambda: f"frame {i}: error {e!r}, minimal {eref!r}")
            if p:
                z = np.abs(np.roots(a)).max() if np.any(a[1:] != 0) else 0.0
                ctx.check(z < 1 + 1e-6, "minimum-phase", lambda: f"frame {i}: largest root {z}")
                # no other predictor has a smaller residual energy
                Tf = np.block([[np.array([[r[0]]]), r[None, 1:]], [r[1:, None], T]])
                d = np.r_[0.0, rng.standard_normal(p)] * 10.0 ** rng.uniform(-3, 0)
                E0, E1 = a @ Tf @ a, (a + d) @ Tf @ (a + d)
                ctx.check(E1 >= E0 - 1e-9 * r[0] * (1 + np.abs(a).max() ** 2), "optimal", lambda: f"frame {i}: another predictor has residual energy {E1} < {E0}")


def run(ctx, rng, i):
    if i % 20 == 0:
        fs = 16000
        k = int(rng.integers(1, 3))
        poles = []
        for _ in range(k):
            rr, th = rng.uniform(0.4, 0.92), rng.uniform(0.3, 2.8)
            poles += [rr * np.exp(1j * th), rr * np.exp(-1j * th)]
        A = np.real(np.poly(poles))
        from scipy.signal import lfilter

        x = lfilter([1.0], A, rng.standard_normal(17000)) * float(S.pick(rng, [1.0, 1e3]))
        ctx.describe(entry="lpc", ar=len(A) - 1, poles=[abs(p) for p in poles])
        a, e = ctx.call(api.fn("lpc"), x, fs=fs, order=len(A), pre_emph=False, window=api.window((0.5, 0.25, "hamming")))
        for row in np.asarray(a):
            ctx.check(np.abs(row - A).max() < 0.3, "ar-recovery", lambda: f"model {A}, recovered {row}")
        return
    x, c, k = make(ctx, rng, "lpc", max_frames=20, hostile=0.35)
    if rng.uniform() < 0.08:
        c["order"] = int(api.dims(c)[0] + rng.integers(0, 4)) if api.dims(c)[0] < 40 else c["order"]
        ctx.describe(order=c["order"])
    wl, wh, wt = c["win"]
    wf = R.windowed(x, c["fs"], wl, wh, wt, c["pre_emph"], c["pre_emph_coeff"])
    a, e = feat(ctx, "lpc", x, c)
    judge(ctx, wf, a, e, c["order"], rng)
