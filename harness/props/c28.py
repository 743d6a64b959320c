"""C28 defaults, no-op values and argument order."""
import numpy as np

import api
import refs as R
import signals as S
from common import pair_close, cq_power, cqt_is_noise
from core import Skip, Violation

ID = "C28"
RULE = "case = one entry point called with a random subset of its options left out against the call with every documented default written out; or by position against by keyword with non-default values; or with a documented no-op value against without; results must agree"
N = {"quick": 26000, "thorough": 208000}
MIN = {"oracle:omitted": 4900, "oracle:positional": 4100, "oracle:no-op": 1500, "oracle:banks": 1600}

_T = [("fs", 16000)]
_PRE = [("pre_emph", True), ("pre_emph_coeff", 0.97)]
_NOPRE = [("pre_emph", False), ("pre_emph_coeff", 0.97)]
_W = [("window", "W")]
_B = [("nfft", 512), ("low_freq", 0), ("high_freq", "HF"), ("scale", "constant")]
_NF = [("nfilts", 24)]
_END = [("dct_type", 2), ("use_energy", False), ("lifter", None), ("normalize", None), ("fbanks", "FB")]


def _c(a):
    return [("conversion_approach", a)]


_CQ = [("number_of_octaves", 7), ("number_of_bins_per_octave", 24)]
_CQE = [("spectral_threshold", 0.005), ("f0", 120), ("q_rate", 1.0)]
_NC = [("num_ceps", 13)]
DEF = {
    "mel_spectrogram": _T + _PRE + _W + _NF + _B + [("fbanks", "FB")] + _c("Oshaghnessy"),
    "bark_spectrogram": _T + _NOPRE + _W + _NF + _B + [("fbanks", "FB")] + _c("Wang"),
    "erb_spectrogram": _T + _PRE + _W + _NF + _B + [("fbanks", "FB")] + _c("Glasberg"),
    "linear_spectrogram": _T + _PRE + _W + _NF + _B + [("fbanks", "FB")],
    "mfcc": _T + _NC + _PRE + _W + _NF + _B + _END + _c("Oshaghnessy"),
    "imfcc": _T + _NC + _PRE + _W + _NF + _B + _END + _c("Oshaghnessy"),
    "lfcc": _T + _NC + _PRE + _W + _NF + _B + _END,
    "bfcc": _T + _NC + _PRE + _W + [("nfilts", 26)] + _B + _END + _c("Wang"),
    "gfcc": _T + _NC + _PRE + _W + _NF + _B + _END + _c("Glasberg"),
    "ngcc": _T + _NC + _PRE + _W + _NF + _B + _END + _c("Glasberg"),
    "msrcc": _T + _NC + _PRE + _W + _NF + _B + [("gamma", -1 / 7)] + _END + _c("Oshaghnessy"),
    "psrcc": _T + _NC + _PRE + _W + [("nfilts", 26)] + _B + [("gamma", -1 / 7)] + _END + _c("Oshaghnessy"),
    "pncc": _T + _NC + _PRE + [("power", 2)] + _W + _NF + _B + [("dct_type", 2), ("lifter", None), ("normalize", None), ("fbanks", "FB")] + _c("Glasberg"),
    "plp": _T + [("order", 13)] + _NOPRE + _W + _NF + _B + [("lifter", None), ("normalize", None), ("fbanks", "FB")] + _c("Wang"),
    "rplp": _T + [("order", 13)] + _NOPRE + _W + _NF + _B + [("lifter", None), ("normalize", None), ("fbanks", "FB")] + _c("Wang"),
    "lpc": _T + [("order", 13)] + _PRE + _W,
    "lpcc": _T + [("order", 13)] + _PRE + _W + [("lifter", None), ("normalize", None)],
    "cqt_spectrogram": _T + _PRE + _W + [("nfft", 512), ("low_freq", 0), ("high_freq", "HF")] + _CQ + _CQE,
    "cqcc": _T + _NC + _PRE + _W + [("nfft", 512), ("low_freq", 0), ("high_freq", "HF"), ("dct_type", 2), ("lifter", None), ("normalize", None)] + _CQ + [("resampling_ratio", 1.0)] + _CQE,
}
NAMES = list(DEF)


def explicit(name, given, rng=None):
    """every option of the entry point: the given values, else the documented defaults written out"""
    d = dict(DEF[name])
    d.update(given)
    if d["window"] == "W":
        d["window"] = api.window((0.025, 0.01, "hamming"))
    if d.get("high_freq") == "HF" or "high_freq" in d and d["high_freq"] is None:
        d["high_freq"] = d["fs"] / 2
    if d.get("fbanks") == "FB" if isinstance(d.get("fbanks"), str) else False:
        bk = {q: d[q] for q in ("nfilts", "nfft", "fs", "low_freq", "high_freq", "scale", "conversion_approach") if q in d}
        d["fbanks"] = api.bank_fn(api.FAMILY[name])(**bk)[0]
    return d


def pick_given(rng, name, x_fs):
    """random non-default values for a random subset of the options"""
    g = {}
    d = dict(DEF[name])
    p = float(S.pick(rng, [0.0, 0.2, 0.5]))
    opt = dict(pre_emph=S.pick(rng, [True, False]), pre_emph_coeff=S.pick(rng, [0.9, 0.5]), nfilts=S.pick(rng, [20, 30, 40]), nfft=S.pick(rng, [1024, 256]), low_freq=S.pick(rng, [50, 120.0]), high_freq=S.pick(rng, [3000.0, 3900]), scale=S.pick(rng, ["ascendant", "descendant"]), dct_type=S.pick(rng, [1, 3]), use_energy=True, lifter=S.pick(rng, [3, -22, 0]), normalize=S.pick(rng, ["mvn", "ms", "mn"]), num_ceps=S.pick(rng, [5, 9, 20]), order=S.pick(rng, [5, 9]), gamma=S.pick(rng, [0.5, -0.3]), power=1, window=api.window((0.03, 0.015, S.pick(rng, S.WINS))), number_of_octaves=5, number_of_bins_per_octave=12, spectral_threshold=0.002, f0=float(S.pick(rng, [150.0, 400.0, 900.0])), q_rate=0.7, resampling_ratio=1.5)
    if api.FAMILY.get(name) in ("mel", "imel"):
        opt["conversion_approach"] = "Lindsay"
    if api.FAMILY.get(name) == "bark":
        opt["conversion_approach"] = S.pick(rng, ["Schroeder", "Tjomov"])
    for q in d:
        if q in opt and rng.uniform() < p:
            g[q] = opt[q]
    if x_fs != 16000 or rng.uniform() < 0.3:
        g["fs"] = x_fs
    return g


def cq_ok(name, x, d):
    if name not in ("cqcc", "cqt_spectrogram"):
        return True
    w = d["window"]
    if not len(R.cqt_freqs(d["fs"], d["low_freq"], d["high_freq"], d["nfft"], d["number_of_octaves"], d["number_of_bins_per_octave"], d["f0"], d["q_rate"])[0]):
        return False
    if name == "cqt_spectrogram":
        return not cqt_is_noise(x, dict(d, win=(w.win_len, w.win_hop, w.win_type)))
    c = dict(d, win=(w.win_len, w.win_hop, w.win_type))
    return cq_power(x, c)[1] and len(R.cqt_freqs(d["fs"], d["low_freq"], d["high_freq"], d["nfft"], d["number_of_octaves"], d["number_of_bins_per_octave"], d["f0"], d["q_rate"])[0]) >= 3


def sig(rng, fs):
    n = int(fs * rng.uniform(0.04, 0.16))
    return S.regular(rng, n, fs, S.pick(rng, ["white", "ar", "speechlike"]))[0]


def stages(ctx, rng):
    """the stage functions: options left out, by keyword and by position"""
    P = np.abs(rng.standard_normal((12, 6))) + 0.1
    w128, w80 = np.abs(rng.standard_normal((2, 3, 128))) + 0.1, np.abs(rng.standard_normal((4, 80))) + 0.1
    s, x = np.abs(rng.standard_normal(65)), rng.standard_normal(64)
    cm = np.r_[1.0, rng.uniform(0, 0.5, 60)]
    fr = rng.standard_normal((2, 400))
    pn, sf = "features.pncc", "features.spfeats"
    T = [
        (pn, "medium_time_power_calculation", [P], dict(M=2)),
        (pn, "asymmetric_lowpass_filtering", [P], dict(lm_a=0.999, lm_b=0.5)),
        (pn, "temporal_masking", [P], dict(lam_t=0.85, myu_t=0.2)),
        (pn, "weight_smoothing", list(w128), dict(nfilts=128, N=4)),
        (pn, "mean_power_normalization", [w80], dict(lam_myu=0.999, nfilts=80, k=1)),
        (pn, "asymmetric_noise_suppression_with_temporal_masking", [P], dict(threshold=0)),
        (sf, "spectral_centroid", [16000, s], dict(i=1)),
        (sf, "spectral_rolloff", [s], dict(k=0.85)),
        (sf, "spectral_flux", [s], dict(p=2)),
        ("frequencies.fundamental_frequencies", "get_pitch", [cm, 2, 60], dict(harmonic_threshold=0.1)),
        ("utils.spectral", "compute_constant_qtransform", [fr], dict(fs=16000, low_freq=0, high_freq=None, nfft=512, number_of_octaves=7, number_of_bins_per_octave=12, win_type="hamming", spectral_threshold=0.0054, f0=120, q_rate=1.0)),
    ]
    hk = dict(nfilts=24, nfft=512, fs=16000, low_freq=0, high_freq=None, scale="constant", fb_type="mel", conversion_approach="Oshaghnessy")
    T.append(("fbanks.mel_fbanks", "mel_filter_banks_helper", [], hk))
    mod, nm, args, d = T[int(rng.integers(len(T)))]
    f = api.util(mod, nm)
    if f is None:
        return
    ctx.describe(stage=nm)
    full = ctx.call(f, *args, **d)
    sub = {q: v for q, v in d.items() if rng.uniform() < 0.4}
    pair_close(ctx, nm, ctx.call(f, *args, **sub), full, "omitted", rtol=1e-12)
    pair_close(ctx, nm, ctx.call(f, *args), full, "omitted", rtol=1e-12)
    pair_close(ctx, nm, ctx.call(f, *args, *d.values()), full, "positional", rtol=1e-12)


def run(ctx, rng, i):
    m = i % 8
    if m == 7:
        fam = ["mel", "imel", "lin", "bark", "gamma"][(i // 8) % 5]
        d = dict(nfilts=24, nfft=512, fs=16000, low_freq=0, high_freq=None, scale="constant")
        a = {"mel": "Oshaghnessy", "imel": "Oshaghnessy", "bark": "Wang", "gamma": "Glasberg"}.get(fam)
        order = list(d)
        if fam == "gamma":
            d["order"] = 4
        if a:
            d["conversion_approach"] = a
        order = list(d)
        o = dict(nfilts=int(rng.integers(2, 40)), nfft=int(S.pick(rng, [256, 1024])), fs=int(S.pick(rng, [8000, 44100, 11025, 12345, 22051, 48000, 96000, 192000])), low_freq=float(rng.uniform(20, 100)), high_freq=3500.0, scale=S.pick(rng, ["ascendant", "descendant"]))
        g = {q: v for q, v in o.items() if rng.uniform() < 0.4}
        ctx.describe(bank=fam, given=sorted(g))
        f = api.bank_fn(fam)
        full = dict(d, **g)
        full["high_freq"] = full["high_freq"] or full["fs"] / 2
        A, B, C = ctx.call(f, **g), ctx.call(f, **full), ctx.call(f, *[full[q] for q in order])
        for k in (0, 1):
            ctx.close(A[k], B[k], "banks", rtol=1e-12)
            ctx.close(C[k], B[k], "banks", rtol=1e-12)
        return
    if m == 6:
        k = (i // 8) % 4
        if k == 0:
            fs = int(S.pick(rng, [8000, 16000, 22050, 11025, 44100, 96000]))
            x = sig(rng, fs)
            f = api.fn("get_dominant_frequencies")
            d = dict(butter_filter=False, lower_cutoff=50, upper_cutoff=3000, nfft=512, win_len=0.025, win_hop=0.01, win_type="hamming", only_positive=True)
        elif k == 1:
            fs = int(S.pick(rng, [8000, 16000, 16000, 44100, 96000] if i % 5 == 0 else [8000, 16000]))
            x = S.regular(rng, int(fs * 0.1), fs, "harmonic")[0]
            f = api.fn("compute_yin")
            d = dict(win_len=0.03, win_hop=0.015, low_freq=50, high_freq=3000, harmonic_threshold=0.1)
        elif k == 2:
            fs = int(S.pick(rng, [8000, 16000]))
            x = sig(rng, fs)
            f = api.fn("extract_feats")
            d = dict(nfft=512)
        else:
            from spafe.utils.preprocessing import SlidingWindow

            a, b = SlidingWindow(), SlidingWindow(0.03, 0.02, "kaiser")
            ctx.describe(fn="SlidingWindow", i=i)
            ctx.check((a.win_len, a.win_hop, a.win_type) == (0.025, 0.01, "hamming"), "omitted", lambda: f"{a}")
            ctx.check((b.win_len, b.win_hop, b.win_type) == (0.03, 0.02, "kaiser"), "positional", lambda: f"{b}")
            fr_ = api.util("utils.preprocessing", "framing")
            for fs in (None, int(S.pick(rng, [8000, 44100, 48000, 96000, 192000]))):
                x = rng.standard_normal(1000 if fs is None else int(fs * 0.06))
                g = {} if fs is None else dict(fs=fs)
                u, v = ctx.call(fr_, x, **g), ctx.call(fr_, x, g.get("fs", 16000), 0.025, 0.01)
                ctx.close(u[0], v[0], "omitted")
                ctx.check(u[1] == v[1], "omitted", lambda: f"frame length {u[1]} {v[1]}")
                v = ctx.call(fr_, sig=x, fs=g.get("fs", 16000), win_len=0.025, win_hop=0.01)
                ctx.close(u[0], v[0], "positional")
            x = rng.standard_normal(50)
            ctx.close(ctx.call(api.util("utils.preprocessing", "pre_emphasis"), x), ctx.call(api.util("utils.preprocessing", "pre_emphasis"), x, 0.97), "omitted")
            fr = rng.standard_normal((3, 40))
            ctx.close(ctx.call(api.util("utils.preprocessing", "windowing"), fr, 40), ctx.call(api.util("utils.preprocessing", "windowing"), fr, 40, "hamming"), "omitted")
            z = rng.standard_normal((6, 13))
            cep = "utils.cepstral"
            ctx.close(ctx.call(api.util(cep, "normalize_ceps"), z), ctx.call(api.util(cep, "normalize_ceps"), z, "mvn"), "omitted")
            ctx.close(ctx.call(api.util(cep, "lifter_ceps"), z), ctx.call(api.util(cep, "lifter_ceps"), z, 3), "omitted")
            ctx.close(ctx.call(api.util(cep, "deltas"), z), ctx.call(api.util(cep, "deltas"), z, 9), "omitted")
            cv = "utils.converters"
            for nm, dv in (("hz2mel", "Oshaghnessy"), ("mel2hz", "Oshaghnessy"), ("hz2bark", "Wang"), ("bark2hz", "Wang"), ("hz2erb", "Glasberg"), ("erb2hz", "Glasberg")):
                q = float(rng.uniform(1, 20))
                ctx.close(ctx.call(api.util(cv, nm), q), ctx.call(api.util(cv, nm), q, dv), "omitted", rtol=1e-12)
            stages(ctx, rng)
            return
        ctx.describe(entry=f.__name__, fs=fs, n=len(x))
        sub = {q: v for q, v in d.items() if rng.uniform() < 0.5}
        B = ctx.call(f, x, fs, **d)
        pair_close(ctx, f.__name__, ctx.call(f, x, fs, **sub), B, "omitted", rtol=1e-12)
        pair_close(ctx, f.__name__, ctx.call(f, x, fs, *d.values()), B, "positional", rtol=1e-12)
        pair_close(ctx, f.__name__, ctx.call(f, sig=x, fs=fs, **d), B, "positional", rtol=1e-12)
        return
    name = NAMES[(i // 8) % len(NAMES)]
    f = api.fn(name)
    fs = int(S.pick(rng, [8000, 16000, 16000, 22050, 44100, 11025, 12345, 48000, 96000]))
    x = sig(rng, fs)
    g = pick_given(rng, name, fs)
    if "num_ceps" in dict(DEF[name]) and "nfilts" in dict(DEF[name]):
        if g.get("num_ceps", 13) > g.get("nfilts", dict(DEF[name])["nfilts"]):
            g["num_ceps"] = 5
    full = explicit(name, g)
    fsx = full["fs"]
    x = x if g.get("fs", 16000) == fs else S.regular(rng, int(16000 * 0.1), 16000, "white")[0]
    if not cq_ok(name, x, full):
        raise Skip("conditioning")
    lab = sorted(g)
    rtol = 1e-6
    ctx.describe(entry=name, given=lab, fs=fsx, n=len(x))
    if name in ("plp", "rplp", "lpc", "lpcc"):
        rtol = 1e-5
    B = ctx.call(f, x, **full)
    if m < 4:
        # leave out a random subset of what is at its default
        keep = {q: v for q, v in full.items() if q in g or (rng.uniform() < S.pick(rng, [0.0, 0.0, 0.5]))}
        if not any(q in keep for q in ("window",)) and False:
            pass
        ctx.describe(passed=sorted(keep), mode="omitted")
        pair_close(ctx, name, ctx.call(f, x, **keep), B, "omitted", rtol=rtol)
    elif m == 4 or (m == 5 and i % 16 < 8):
        order = [q for q, _ in DEF[name]]
        k = int(rng.integers(1, len(order) + 1))
        fullp = dict(full)
        if rng.uniform() < 0.5 and "fbanks" in fullp:
            fullp["fbanks"] = None
        pos = [fullp[q] for q in order[:k]]
        rest = {q: fullp[q] for q in order[k:]}
        ctx.describe(mode="positional", k=k)
        pair_close(ctx, name, ctx.call(f, x, *pos, **rest), B, "positional", rtol=rtol)
    else:
        ctx.describe(mode="no-op")
        base = {q: v for q, v in full.items() if q not in ("lifter", "normalize")}
        B0 = ctx.call(f, x, **base)
        if "lifter" in full:
            for v in (0, None, 11, 25, 10.5):
                pair_close(ctx, name, ctx.call(f, x, **dict(base, lifter=v)), B0, "no-op", rtol=rtol)
        P = ctx.call(f, x, **dict(base, pre_emph=False))
        pair_close(ctx, name, ctx.call(f, x, **dict(base, pre_emph=True, pre_emph_coeff=0.0)), P, "no-op", rtol=rtol)
        pair_close(ctx, name, ctx.call(f, x, **dict(base, pre_emph=False, pre_emph_coeff=0.5)), P, "no-op", rtol=rtol)
        if "resampling_ratio" in full:
            b2 = {q: v for q, v in base.items() if q != "resampling_ratio"}
            pair_close(ctx, name, ctx.call(f, x, **dict(b2, resampling_ratio=1)), ctx.call(f, x, **b2), "no-op", rtol=rtol)
        if "normalize" in full:
            pair_close(ctx, name, ctx.call(f, x, **dict(base, normalize=None)), B0, "no-op", rtol=rtol)
        if "fbanks" in full:
            pair_close(ctx, name, ctx.call(f, x, **dict(base, fbanks=None)), B0, "no-op", rtol=rtol)
