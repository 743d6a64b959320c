"""Random public calls as data (module, function, positional, keyword arguments) and near-identical variants of them."""
import copy
import importlib

import numpy as np

import api
import refs as R
import signals as S
from common import bank_has_empty, cq_power

FB = {"mel": "spafe.fbanks.mel_fbanks:mel_filter_banks", "imel": "spafe.fbanks.mel_fbanks:inverse_mel_filter_banks", "lin": "spafe.fbanks.linear_fbanks:linear_filter_banks", "bark": "spafe.fbanks.bark_fbanks:bark_filter_banks", "gamma": "spafe.fbanks.gammatone_fbanks:gammatone_filter_banks"}
UTIL = ["framing", "windowing", "pre_emphasis", "deltas", "lifter_ceps", "normalize_ceps", "rasta_filter", "zero_handling", "hz2mel", "mel2hz", "hz2bark", "bark2hz", "hz2erb", "erb2hz", "lpc2lpcc", "medium_time_power_calculation", "asymmetric_lowpass_filtering", "temporal_masking", "weight_smoothing", "mean_power_normalization", "scale_fbank", "compute_difference", "compute_cmnd", "get_pitch", "asymmetric_noise_suppression_with_temporal_masking", "generate_center_frequencies", "intensity_power_law", "compute_constant_qtransform", "Fm", "stride_trick", "spectral_entropy", "spectral_centroid", "spectral_flux", "spectral_skewness", "spectral_kurtosis", "spectral_spread", "spectral_flatness", "spectral_rolloff"]
_UM = {}
for _m, _n in {"spafe.utils.preprocessing": ["framing", "windowing", "pre_emphasis", "zero_handling", "stride_trick"], "spafe.utils.cepstral": ["deltas", "lifter_ceps", "normalize_ceps"], "spafe.utils.filters": ["rasta_filter", "scale_fbank"], "spafe.utils.converters": ["hz2mel", "mel2hz", "hz2bark", "bark2hz", "hz2erb", "erb2hz"], "spafe.features.lpc": ["lpc2lpcc"], "spafe.features.pncc": ["medium_time_power_calculation", "asymmetric_lowpass_filtering", "temporal_masking", "weight_smoothing", "mean_power_normalization", "asymmetric_noise_suppression_with_temporal_masking"], "spafe.frequencies.fundamental_frequencies": ["compute_difference", "compute_cmnd", "get_pitch"], "spafe.features.spfeats": ["spectral_entropy", "spectral_centroid", "spectral_flux", "spectral_skewness", "spectral_kurtosis", "spectral_spread", "spectral_flatness", "spectral_rolloff"], "spafe.fbanks.gammatone_fbanks": ["generate_center_frequencies"], "spafe.features.bfcc": ["intensity_power_law"], "spafe.utils.spectral": ["compute_constant_qtransform"], "spafe.fbanks.bark_fbanks": ["Fm"], }.items():
    for _f in _n:
        _UM[_f] = _m


def resolve(mod, name):
    return getattr(importlib.import_module(mod), name)


class Call:
    """one public call; .perform() runs it on the argument objects held here"""

    def __init__(self, mod, name, args, kw):
        self.mod, self.name, self.args, self.kw = mod, name, list(args), dict(kw)

    def perform(self):
        return resolve(self.mod, self.name)(*self.args, **self.kw)

    def label(self):
        return self.name

    def clone(self):
        return copy.deepcopy(self)

    def arrays(self):
        return [a for a in list(self.args) + list(self.kw.values()) if isinstance(a, np.ndarray)]


def extractor(rng, name=None, frames=6):
    """a well conditioned extractor call"""
    for _ in range(20):
        nm = name or S.pick(rng, api.EXTRACTORS)
        c = api.sample(rng, nm, max_nfilts=24, small=True, post=rng.uniform() < 0.4)
        if c.get("conversion_approach") == "Zwicker":
            c["conversion_approach"] = "Wang"
        c.pop("normalize", None)
        L, H = api.dims(c)
        x, k = S.regular(rng, L + int(rng.integers(0, frames)) * H + int(rng.integers(0, H)), c["fs"], S.pick(rng, ["white", "ar", "speechlike"]))
        if nm in ("psrcc", "msrcc") and bank_has_empty(c, nm):
            continue
        if nm not in ("psrcc", "cqcc", "rplp") and rng.uniform() < 0.15:
            # runs of exact zeros: the special cases of the extractors
            x[: int(S.pick(rng, [len(x), len(x) // 2, min(len(x), L)]))] = 0
            if rng.uniform() < 0.3:
                x = x[::-1].copy()
        if nm == "psrcc" and not api.ref_static(nm, x, c)[1].all():
            continue
        if nm == "cqcc" and not cq_power(x, c)[1]:
            continue
        kw = api.kwargs(c)
        if nm in api.BANKED and rng.uniform() < 0.3:
            kw["fbanks"] = rng.uniform(0.1, 1, (c["nfilts"], c["nfft"] // 2 + 1))
        return Call(api.fn(nm).__module__, nm, [x], kw)
    return bank(rng)


def bank(rng, fam=None):
    fam = fam or S.pick(rng, list(FB))
    m, f = FB[fam].split(":")
    fs = S.pick(rng, S.FS)
    lo, hi = S.band(rng, fs)
    kw = dict(nfilts=int(rng.integers(2, 30)) if rng.uniform() < 0.92 or fam == "bark" else int(rng.integers(40, 150)), nfft=int(S.pick(rng, [256, 512, 257])), fs=fs, low_freq=lo, high_freq=hi, scale=S.pick(rng, S.SCALES))
    if fam in ("mel", "imel"):
        kw["conversion_approach"] = S.pick(rng, S.MELS)
    if fam == "bark":
        kw["conversion_approach"] = S.pick(rng, ["Wang", "Schroeder", "Tjomov"])
    if fam == "gamma":
        kw["order"] = int(S.pick(rng, [4, 4, 1, 2, 3]))
    return Call(m, f, [], kw)


def util(rng, name=None):
    c = _util(rng, name)
    for j, a in enumerate(c.args):
        if isinstance(a, np.ndarray):
            u = rng.uniform()
            if u < 0.15:
                c.args[j] = np.asfortranarray(a)
            elif u < 0.25:
                c.args[j] = np.repeat(a, 2, axis=-1)[..., ::2]
            elif u < 0.3 and a.dtype == float and c.name in LISTS:
                c.args[j] = a.tolist()
    return c


LISTS = ("framing", "pre_emphasis", "stride_trick", "compute_difference")


def _util(rng, name=None):
    n = name or S.pick(rng, UTIL)
    m = _UM[n]
    T, B = int(rng.integers(6, 25)), int(rng.integers(3, 16))
    X = np.abs(rng.standard_normal((T, B))) + 0.1
    v = rng.standard_normal(int(rng.integers(500, 1500)))
    if n == "framing":
        return Call(m, n, [v], dict(fs=16000, win_len=0.02, win_hop=float(S.pick(rng, [0.01, 0.02, 0.005]))))
    if n == "windowing":
        return Call(m, n, [X], dict(frame_len=B, win_type=S.pick(rng, S.WINS)))
    if n == "pre_emphasis":
        return Call(m, n, [v], dict(pre_emph_coeff=float(S.pick(rng, [0.97, 0.5, 0.0, 1.0, rng.uniform(-1, 1)]))))
    if n == "deltas":
        return Call(m, n, [X], dict(w=int(S.pick(rng, [9, 3, 5, 1, 2, 8, 15, 31]))))
    if n == "lifter_ceps":
        return Call(m, n, [X], dict(lift=S.pick(rng, [3, 1, -22, -5, 2.5])))
    if n == "normalize_ceps":
        return Call(m, n, [X], dict(normalization_type=S.pick(rng, S.NORMS)))
    if n in ("rasta_filter", "zero_handling", "intensity_power_law"):
        if n != "rasta_filter" and rng.uniform() < 0.5:
            X[rng.uniform(size=X.shape) < 0.3] = 0
        return Call(m, n, [X], {})
    if n == "medium_time_power_calculation":
        return Call(m, n, [X], dict(M=int(S.pick(rng, [2, 1, 3, 0, 6]))))
    if n == "asymmetric_lowpass_filtering":
        return Call(m, n, [X], dict(zip(("lm_a", "lm_b"), S.pick(rng, [(0.999, 0.5), (0.9, 0.3), (0.5, 0.999), (0.7, 0.7)]))))
    if n == "temporal_masking":
        return Call(m, n, [X], dict(lam_t=float(S.pick(rng, [0.85, 0.5, 0.97])), myu_t=float(S.pick(rng, [0.2, 0.4, 0.9]))))
    if n == "asymmetric_noise_suppression_with_temporal_masking":
        return Call(m, n, [X], dict(threshold=float(S.pick(rng, [0, 0.3]))))
    if n == "compute_cmnd":
        return Call(m, n, [np.r_[0.0, np.abs(v[:B]) + 0.1], B + 1], {})
    if n == "get_pitch":
        return Call(m, n, [np.r_[1.0, np.abs(v[:40])], 3, 40], dict(harmonic_threshold=0.1))
    if n == "generate_center_frequencies":
        return Call(m, n, [float(rng.uniform(0, 300)), float(rng.uniform(3000, 8000)), B], {})
    if n == "compute_constant_qtransform":
        return Call(m, n, [rng.standard_normal((3, 512))], dict(fs=8000, nfft=1024, number_of_octaves=4, number_of_bins_per_octave=8, win_type=S.pick(rng, S.WINS), spectral_threshold=0.0054, f0=200.0, q_rate=1.0, low_freq=0.0, high_freq=3900.0))
    if n == "Fm":
        return Call(m, n, [float(rng.uniform(0, 20)), float(rng.uniform(0, 20))], {})
    if n == "stride_trick":
        return Call(m, n, [v, int(rng.integers(1, 300)), int(rng.integers(1, 200))], {})
    if n in ("spectral_skewness", "spectral_kurtosis", "spectral_spread"):
        return Call(m, n, [v, 16000, np.fft.rfft(v)], {})
    if n == "spectral_rolloff":
        return Call(m, n, [np.fft.rfft(v)], dict(k=float(S.pick(rng, [0.85, 0.5, 0.99]))))
    if n in ("hz2mel", "mel2hz"):
        return Call(m, n, [float(rng.uniform(1, 4000)) if rng.uniform() < 0.5 else rng.uniform(1, 4000, B)], dict(approach=S.pick(rng, S.MELS)))
    if n in ("hz2bark", "bark2hz"):
        return Call(m, n, [float(rng.uniform(1, 20)) if rng.uniform() < 0.5 else rng.uniform(1, 20, B)], dict(approach=S.pick(rng, S.BARKS)))
    if n in ("hz2erb", "erb2hz"):
        return Call(m, n, [float(rng.uniform(1, 20)) if rng.uniform() < 0.5 else rng.uniform(1, 20, B)], {})
    if n == "lpc2lpcc":
        return Call(m, n, [np.r_[1.0, rng.uniform(-0.1, 0.1, B)], float(rng.uniform(0.1, 3)), int(rng.integers(1, 30))], {})
    if n == "weight_smoothing":
        return Call(m, n, [X, np.abs(rng.standard_normal((T, B))) + 0.1], dict(nfilts=B, N=int(S.pick(rng, [4, 2, 0, 1, 30]))))
    if n == "mean_power_normalization":
        return Call(m, n, [X], dict(nfilts=B, lam_myu=float(S.pick(rng, [0.999, 0.9, 0.5])), k=S.pick(rng, [1, 2, 0.5])))
    if n == "scale_fbank":
        return Call(m, n, [], dict(scale=S.pick(rng, S.SCALES), nfilts=B))
    if n == "compute_difference":
        return Call(m, n, [v, int(rng.integers(2, 300))], {})
    if n == "spectral_centroid":
        return Call(m, n, [16000, np.abs(v)], dict(i=int(rng.integers(1, 4))))
    if n == "spectral_flux":
        return Call(m, n, [np.fft.rfft(v)], dict(p=int(S.pick(rng, [2, 1, 3]))))
    return Call(m, n, [np.fft.rfft(v) if rng.uniform() < 0.5 else np.abs(v)], {})


def other(rng):
    n = S.pick(rng, api.OTHERS)
    fs = S.pick(rng, [8000, 16000])
    x, k = S.regular(rng, int(fs * rng.uniform(0.05, 0.12)), fs, S.pick(rng, ["harmonic", "white", "speechlike"]))
    if n == "get_dominant_frequencies":
        kw = dict(nfft=int(S.pick(rng, [512, 1024, 64, 100, 4096])), only_positive=bool(rng.uniform() < 0.8), butter_filter=bool(rng.uniform() < 0.4), lower_cutoff=50.0, upper_cutoff=3000.0, win_len=0.025, win_hop=0.01, win_type=S.pick(rng, S.WINS))
    elif n == "compute_yin":
        kw = dict(win_len=0.03, win_hop=float(S.pick(rng, [0.015, 0.03, 0.01])), low_freq=float(S.pick(rng, [50.0, 80.0])), high_freq=float(S.pick(rng, [3000.0, 500.0])), harmonic_threshold=float(S.pick(rng, [0.1, 0.3, 0.05])))
    else:
        kw = dict(nfft=int(S.pick(rng, [512, 1024, 64, 100, 33, 2048])))
    return Call(api.fn(n).__module__, n, [x, fs], kw)


def any_call(rng):
    c = _any_call(rng)
    if c.args and c.name in api.EXTRACTORS + api.OTHERS and rng.uniform() < 0.08:
        c.args[0] = c.args[0].tolist()
    return c


def _any_call(rng):
    u = rng.uniform()
    if u < 0.6:
        return extractor(rng)
    if u < 0.75:
        return bank(rng)
    if u < 0.9:
        return util(rng)
    return other(rng)


def failing(rng):
    """a call that must be refused"""
    m = int(rng.integers(8))
    if m == 0:
        c = bank(rng)
        c.kw["low_freq"] = -1.0
    elif m == 1:
        c = bank(rng)
        c.kw["high_freq"] = c.kw["fs"] * 0.51
    elif m == 2:
        c = bank(rng)
        c.kw["scale"] = "no such scale"
    elif m == 3:
        c = util(rng, "normalize_ceps")
        c.kw["normalization_type"] = "no such normalization"
    elif m == 4:
        c = util(rng, "windowing")
        c.kw["win_type"] = "no such window"
    elif m == 5:
        c = util(rng, "hz2mel")
        c.kw["approach"] = "no such approach"
    else:
        c = extractor(rng)
        if c.name not in api.EXTRACTORS:
            c.kw["low_freq"] = -1.0
            return c
        f = int(rng.integers(5))
        if f == 0:
            c.kw["window"].win_hop = c.kw["window"].win_len * 2
        elif f == 1 and "num_ceps" in c.kw and "nfilts" in c.kw:
            c.kw["num_ceps"] = c.kw["nfilts"] + 1
        elif f == 2 and "high_freq" in c.kw:
            c.kw["high_freq"] = c.kw["fs"] * 0.6
            c.kw.pop("fbanks", None)
        elif f == 3 and c.name in api.BANKED:
            c.kw["fbanks"] = np.ones((c.kw["nfilts"], 3))
        else:
            c.kw["window"].win_type = "no such window"
    return c


STEP = {
    "f0": lambda a: a * 1.01, "q_rate": lambda a: a * 0.97, "number_of_octaves": lambda a: a - 1, "number_of_bins_per_octave": lambda a: a - 1,
    "resampling_ratio": lambda a: 1.5 if a == 1.0 else 1.0, "power": lambda a: 1.7 if a == 2 else 2, "butter_filter": lambda a: not a, "lower_cutoff": lambda a: a + 100.0, "upper_cutoff": lambda a: a - 300.0,
    "win_len": lambda a: a * 1.03, "win_hop": lambda a: a * 0.93, "harmonic_threshold": lambda a: a * 2.5, "M": lambda a: a + 1, "N": lambda a: a + 1, "lm_a": lambda a: a - 0.1, "lm_b": lambda a: a - 0.1,
    "lam_t": lambda a: a - 0.1, "myu_t": lambda a: a + 0.1, "lam_myu": lambda a: a - 0.1, "k": lambda a: a * 0.5, "threshold": lambda a: a + 0.2, "i": lambda a: a % 3 + 1, "p": lambda a: a + 1, "fs": lambda a: a + 1000,
}


def variant(rng, c):
    """the same call with one thing changed (often only slightly)"""
    v = c.clone()
    opts = []
    for q, a in v.kw.items():
        if q in ("pre_emph_coeff", "low_freq", "high_freq", "gamma", "window", "scale", "lifter", "lift", "win_type", "conversion_approach", "approach", "dct_type", "use_energy", "pre_emph", "fbanks", "nfft", "nfilts", "num_ceps", "order", "spectral_threshold", "w", "normalization_type") or q in STEP:
            opts.append(q)
    arr = [i for i, a in enumerate(v.args) if isinstance(a, np.ndarray)]
    if arr and (not opts or rng.uniform() < 0.4):
        a = v.args[arr[0]]
        m = int(rng.integers(4))
        if m == 0 and a.ndim == 1 and a.dtype == float:
            a[int(rng.integers(0, min(300, len(a))))] += 3.0 * (np.abs(a).max() or 1)
        elif m == 1 and a.ndim == 1 and a.dtype == float and c.name != "lpc2lpcc":
            a[len(a) // 3 : len(a) // 3 + 50] = a[len(a) // 3 : len(a) // 3 + 50][::-1]
        elif c.name == "lpc2lpcc":
            a[1:] *= 0.5
        else:
            a *= 1.5
        return v, "data"
    if not opts:
        return v, "same"
    q = S.pick(rng, opts)
    a = v.kw[q]
    if q == "pre_emph_coeff":
        v.kw[q] = a + float(S.pick(rng, [0.004, -0.02]))
    elif q == "low_freq":
        v.kw[q] = (a or 0) + float(S.pick(rng, [0.4, 13.0, 1e-3]))
    elif q == "high_freq":
        fs = v.kw.get("fs", 16000)
        v.kw[q] = (a or fs / 2) - float(S.pick(rng, [0.4, 90.0, 1e-3]))
    elif q == "gamma":
        v.kw[q] = a + 0.01
    elif q == "spectral_threshold":
        v.kw[q] = a + 0.0003
    elif q == "window":
        w = v.kw[q]
        if rng.uniform() < 0.5:
            w.win_type = S.pick(rng, [t for t in S.WINS if t != w.win_type])
        else:
            w.win_hop = min(w.win_len, w.win_hop * 1.3)
    elif q == "scale":
        v.kw[q] = S.pick(rng, [t for t in S.SCALES if t != a])
    elif q in ("lifter", "lift"):
        v.kw[q] = S.pick(rng, [3, 2, -11, -22])
    elif q == "win_type":
        v.kw[q] = S.pick(rng, [t for t in S.WINS if t != a])
    elif q == "normalization_type":
        v.kw[q] = S.pick(rng, [t for t in S.NORMS if t != a])
    elif q in ("conversion_approach", "approach"):
        if a in S.MELS:
            v.kw[q] = S.pick(rng, [t for t in S.MELS if t != a])
        elif a in S.BARKS and (v.kw.get("low_freq") or "low_freq" not in v.kw):
            v.kw[q] = S.pick(rng, [t for t in ("Wang", "Schroeder", "Tjomov") if t != a])
    elif q == "dct_type":
        v.kw[q] = 3 if a == 2 else 2
    elif q in ("use_energy", "pre_emph"):
        v.kw[q] = not a
    elif q == "fbanks":
        if a is not None:
            v.kw[q] = a[::-1].copy() if rng.uniform() < 0.5 else a * 1.7
    elif q == "nfft":
        if v.kw.get("fbanks") is None:
            v.kw[q] = a + int(S.pick(rng, [2, 64]))
    elif q == "nfilts":
        if v.kw.get("fbanks") is None and "nfilts" in v.kw and c.name not in ("weight_smoothing", "mean_power_normalization"):
            v.kw[q] = a + 1
    elif q in STEP:
        v.kw[q] = STEP[q](a)
    elif q == "order" and c.name == "gammatone_filter_banks":
        v.kw[q] = a % 4 + 1
    elif q in ("num_ceps", "order"):
        v.kw[q] = max(1, a - 1)
    elif q == "w":
        v.kw[q] = a + 2
    return v, q


def same_result(a, b, rtol=1e-6):
    """None or a message"""
    A, B = api.arrays(a), api.arrays(b)
    if len(A) != len(B):
        return f"{len(A)} results against {len(B)}"
    for j, (u, v) in enumerate(zip(A, B)):
        if u.shape != v.shape:
            return f"result {j} has shape {u.shape} against {v.shape}"
        if u.dtype == object or v.dtype == object:
            return f"result {j} has dtype object"
        if not u.size:
            continue
        with np.errstate(all="ignore"):
            sc = np.abs(v[np.isfinite(v)]).max() if np.isfinite(v).any() else 1.0
            bad = ~((u == v) | (np.abs(u - v) <= rtol * sc) | (np.isnan(u) & np.isnan(v)))
        if bad.any():
            ix = np.unravel_index(int(np.argmax(bad)), u.shape)
            return f"result {j} differs at {tuple(int(k) for k in ix)}: {u[ix]!r} against {v[ix]!r} ({int(bad.sum())} of {u.size} entries)"
    return None
