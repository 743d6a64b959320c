"""C24 rejection of invalid parameters and acceptance of boundary values."""
import numpy as np

import api
import refs as R
import signals as S
from common import make, feat, first
from core import Skip, Violation

ID = "C24"
RULE = "case = one entry point with exactly one parameter made invalid (must raise ParameterError, unknown names any error), or set to a boundary value (must return finite features of the right shape); the remaining options and the signal are random and valid"
N = {"quick": 120000, "thorough": 960000}
MIN = {"oracle:rejects-low_freq": 1600, "oracle:rejects-high_freq": 2600, "oracle:rejects-nfilts": 1200, "oracle:rejects-window": 2500, "oracle:rejects-name": 2800, "oracle:boundary": 4000, "oracle:error-type": 7900}
FAMS = ["mel", "imel", "lin", "bark", "gamma"]


def invalid(ctx, key, what, fn, *a, typed=True, **k):
    from spafe.utils.exceptions import ParameterError

    try:
        fn(*a, **k)
    except ParameterError:
        ctx.ok("rejects-" + key)
        ctx.ok("error-type")
        return
    except Exception as e:
        if typed:
            ctx.fail("rejects-" + key, f"{what}: raised {type(e).__name__}: {e} instead of ParameterError")
        ctx.ok("rejects-" + key)
        return
    ctx.fail("rejects-" + key, f"{what}: accepted")


def run(ctx, rng, i):
    m = i % 7
    if m == 0 or (m == 1 and i % 2):
        fam = FAMS[(i // 7) % 5]
        fs = S.pick(rng, S.FS)
        a = dict(nfilts=int(rng.integers(2, 40)), nfft=int(S.pick(rng, [512, 256, 1024, 401])), fs=fs, low_freq=float(rng.uniform(50, 200)), high_freq=float(rng.uniform(fs / 4, fs / 2)), scale=S.pick(rng, S.SCALES))
        if fam in ("mel", "imel"):
            a["conversion_approach"] = S.pick(rng, S.MELS)
        if fam == "bark":
            a["conversion_approach"] = S.pick(rng, S.BARKS)
        k = int(rng.integers(4))
        if rng.uniform() < 0.1 and k != 3:
            a["nfilts"] = 1
        f = api.bank_fn(fam)
        if k == 0:
            a["low_freq"] = S.pick(rng, [-1, -0.5, -1e-9, -300.0])
            ctx.describe(bank=fam, **a)
            invalid(ctx, "low_freq", f"{fam} bank with low_freq={a['low_freq']}", f, **a)
        elif k == 1:
            a["high_freq"] = S.pick(rng, [fs / 2 + 1, fs / 2 + 1e-6, float(fs), fs * 0.75])
            ctx.describe(bank=fam, **a)
            invalid(ctx, "high_freq", f"{fam} bank with high_freq={a['high_freq']}, fs={fs}", f, **a)
        elif k == 2:
            a["scale"] = S.pick(rng, ["ascending", "Constant", "", "desc"])
            ctx.describe(bank=fam, **a)
            invalid(ctx, "name", f"{fam} bank with scale={a['scale']!r}", f, typed=False, **a)
        else:
            if a.get("conversion_approach") != "Zwicker":
                a["low_freq"] = S.pick(rng, [0, 0.0])
            a["high_freq"] = S.pick(rng, [fs / 2, fs / 2, None])
            if a["high_freq"] and a["high_freq"] == int(a["high_freq"]) and rng.uniform() < 0.3:
                a["high_freq"] = int(a["high_freq"])
            ctx.describe(bank=fam, **a)
            b, c = ctx.call(f, **a)
            ctx.check(np.shape(b) == (a["nfilts"], a["nfft"] // 2 + 1) and np.isfinite(b).all(), "boundary", lambda: f"{fam} bank: shape {np.shape(b)}")
        return
    name = api.EXTRACTORS[(i // 7) % len(api.EXTRACTORS)]
    x, c, k = make(ctx, rng, name, max_frames=6, small=True, hostile=0.15, post=rng.uniform() < 0.3)
    c.pop("normalize", None) if rng.uniform() < 0.7 else None
    fs = c["fs"]
    f = api.fn(name)
    cq = name in ("cqt_spectrogram", "cqcc")
    if m == 1:
        if name not in api.BANKED:
            raise Skip("no low_freq check")
        c["low_freq"] = S.pick(rng, [-1, -0.5, -1e-9, -300.0])
        ctx.describe(low_freq=c["low_freq"])
        if rng.uniform() < 0.2:
            c["high_freq"] = None
        invalid(ctx, "low_freq", f"{name} with low_freq={c['low_freq']}", f, x, **api.kwargs(c))
    elif m == 2:
        if name in ("lpc", "lpcc"):
            raise Skip("no bands")
        c["high_freq"] = S.pick(rng, [fs / 2 + 1, fs / 2 + 1e-6, float(fs), fs * 0.75])
        ctx.describe(high_freq=c["high_freq"])
        invalid(ctx, "high_freq", f"{name} with high_freq={c['high_freq']}, fs={fs}", f, x, **api.kwargs(c))
    elif m == 3:
        key = "num_ceps" if name in api.CEPS + ["pncc"] else "order" if name in ("plp", "rplp") else None
        if key is None:
            raise Skip("no cepstra")
        c[key] = int(S.pick(rng, [13, 13, 2, 24]))
        c["nfilts"] = int(S.pick(rng, [c[key] - 1, max(1, c[key] // 2), 1]))
        if rng.uniform() < 0.3:
            c["fbanks"] = rng.uniform(0, 1, (c["nfilts"], c["nfft"] // 2 + 1))
        ctx.describe(nfilts=c["nfilts"], **{key: c[key]})
        invalid(ctx, "nfilts", f"{name} with nfilts={c['nfilts']} and {key}={c[key]}", f, x, **api.kwargs(c))
    elif m == 4:
        wl, wh, wt = c["win"]
        wl2 = min(wl, wh)
        c["win"] = (wl2, wl2 * float(S.pick(rng, [1.0001, 1.5, 3.0, 10.0])), wt)
        ctx.describe(win=c["win"])
        invalid(ctx, "window", f"{name} with win_len {c['win'][0]} < win_hop {c['win'][1]}", f, x, **api.kwargs(c))
        if rng.uniform() < 0.2:
            invalid(ctx, "window", "get_dominant_frequencies with win_len < win_hop", api.fn("get_dominant_frequencies"), x, fs, win_len=c["win"][0], win_hop=c["win"][1])
    elif m == 5:
        opts = ["win"]
        if name in api.BANKED:
            opts.append("scale")
        if api.FAMILY.get(name) in ("mel", "imel"):
            opts.append("mel")
        if name in api.CEPS + ["pncc", "plp", "rplp", "lpcc", "cqcc"]:
            opts.append("norm")
        o = S.pick(rng, opts)
        if o == "win":
            c["win"] = (*c["win"][:2], S.pick(rng, ["hann", "rect", "Hamming", "bartlett", ""]))
        elif o == "scale":
            c["scale"] = S.pick(rng, ["ascending", "Constant", "none"])
        elif o == "mel":
            c["conversion_approach"] = S.pick(rng, ["Slaney", "lindsay", "Wang"])
        else:
            c["normalize"] = S.pick(rng, ["MVN", "l2", "mvn "])
        ctx.describe(option=o, win=c["win"], scale=c.get("scale"), normalize=c.get("normalize"), conversion_approach=c.get("conversion_approach"))
        invalid(ctx, "name", f"{name} with unknown {o}", f, x, typed=False, **api.kwargs(c))
    else:
        c.pop("normalize", None)
        wl, wh, wt = c["win"]
        if name in api.BANKED or cq:
            if c.get("conversion_approach") != "Zwicker":
                c["low_freq"] = S.pick(rng, [0, 0.0])
            if not cq:
                c["high_freq"] = S.pick(rng, [fs / 2, None, fs / 2])
        if name in api.CEPS + ["pncc"]:
            c["num_ceps"] = c["nfilts"]
        if name in ("plp", "rplp"):
            c["nfilts"] = c["order"] = int(rng.integers(2, 18))
        if rng.uniform() < 0.6:
            wh = wl
        L, H = S.lengths(wl, wh, fs)
        n = L + int(rng.integers(0, 4)) * H
        c["win"] = (wl, wh, wt)
        x, k = S.regular(rng, n, fs)
        ctx.describe(win=c["win"], low_freq=c.get("low_freq"), high_freq=c.get("high_freq"), n=n, signal=k, nfilts=c.get("nfilts"))
        r = feat(ctx, name, x, c)
        a = api.arrays(r)[0]
        T = R.frame_count(n, L, H)
        ctx.check(a.shape[1 if name == "cqt_spectrogram" else 0] == T and np.isfinite(a).all(), "boundary", lambda: f"{name}: shape {a.shape} for {T} frames, finite {np.isfinite(a).all()}")
        if name in api.CEPS + ["pncc", "plp", "rplp"]:
            ctx.check(a.shape[1] == c["nfilts"], "boundary", lambda: f"{name}: {a.shape[1]} coefficients, expected {c['nfilts']}")
