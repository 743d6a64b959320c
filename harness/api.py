"""The public entry points of spafe, valid configurations for them, and reference results."""
import importlib

import numpy as np

import refs as R
import signals as S
from core import Skip

_M = {
    "mel_spectrogram": "mfcc", "mfcc": "mfcc", "imfcc": "mfcc",
    "bark_spectrogram": "bfcc", "bfcc": "bfcc",
    "erb_spectrogram": "gfcc", "gfcc": "gfcc",
    "linear_spectrogram": "lfcc", "lfcc": "lfcc",
    "ngcc": "ngcc", "msrcc": "msrcc", "psrcc": "psrcc", "pncc": "pncc",
    "plp": "rplp", "rplp": "rplp", "lpc": "lpc", "lpcc": "lpc",
    "cqt_spectrogram": "cqcc", "cqcc": "cqcc", "extract_feats": "spfeats",
}
SPECTRO = ["mel_spectrogram", "bark_spectrogram", "erb_spectrogram", "linear_spectrogram"]
CEPS = ["mfcc", "imfcc", "lfcc", "bfcc", "gfcc", "ngcc", "msrcc", "psrcc"]
FRAMEWISE = SPECTRO + CEPS + ["plp", "lpc", "lpcc", "cqt_spectrogram", "cqcc"]
EXTRACTORS = FRAMEWISE + ["pncc", "rplp"]
BANKED = SPECTRO + CEPS + ["pncc", "plp", "rplp"]
OTHERS = ["get_dominant_frequencies", "compute_yin", "extract_feats"]
FAMILY = {"mel_spectrogram": "mel", "mfcc": "mel", "msrcc": "mel", "psrcc": "mel", "imfcc": "imel", "lfcc": "lin", "linear_spectrogram": "lin", "bark_spectrogram": "bark", "bfcc": "bark", "plp": "bark", "rplp": "bark", "erb_spectrogram": "gamma", "gfcc": "gamma", "ngcc": "gamma", "pncc": "gamma"}


def fn(name):
    if name == "get_dominant_frequencies":
        m = "spafe.frequencies.dominant_frequencies"
    elif name == "compute_yin":
        m = "spafe.frequencies.fundamental_frequencies"
    else:
        m = "spafe.features." + _M[name]
    return getattr(importlib.import_module(m), name)


def util(mod, name):
    """a helper that a refactoring might legitimately move: None if it is gone"""
    try:
        return getattr(importlib.import_module("spafe." + mod), name, None)
    except ImportError:
        return None


def bank_fn(fam):
    m, f = {"mel": ("mel_fbanks", "mel_filter_banks"), "imel": ("mel_fbanks", "inverse_mel_filter_banks"), "lin": ("linear_fbanks", "linear_filter_banks"), "bark": ("bark_fbanks", "bark_filter_banks"), "gamma": ("gammatone_fbanks", "gammatone_filter_banks")}[fam]
    return getattr(importlib.import_module("spafe.fbanks." + m), f)


def window(t):
    from spafe.utils.preprocessing import SlidingWindow

    return SlidingWindow(*t)


# ------------------------------------------------------------------ configurations
def sample(rng, name, max_nfilts=40, post=False, small=False, fs=None, regular_bands=False):
    """a valid random configuration: dict of plain values; 'win' is the (len, hop, type) triple"""
    fs = fs or S.pick(rng, S.FS)
    c = dict(fs=fs)
    wl, wh, wt = S.window(rng, fs, small)
    c["win"] = (wl, wh, wt)
    L, H = S.lengths(wl, wh, fs)
    c["pre_emph"] = bool(rng.uniform() < 0.6)
    c["pre_emph_coeff"] = float(S.pick(rng, [0.97, 0.95, 0.9, 0.5, 1.0, 0.0, -0.3, 0.63, rng.uniform(-1, 1.2)]))
    if name in ("lpc", "lpcc"):
        c["order"] = int(min(S.pick(rng, [1, 2, 5, 9, 13, 13, 17, 24]), max(1, L - 2)))
    elif name in ("cqt_spectrogram", "cqcc"):
        for _ in range(60):
            nfft = int(S.pick(rng, [512, 1024, 2048, 1025, 400]))
            b = int(S.pick(rng, [6, 12, 24, 24, int(rng.integers(1, 49))]))
            f0 = float(S.pick(rng, [120, 120, 60, 200.0, 28, 55.3, rng.uniform(20, 900)]))
            q = float(S.pick(rng, [1.0, 1.0, 0.7, 0.5, rng.uniform(0.3, 1.5)]))
            o = int(S.pick(rng, [7, 5, 3, 9, int(rng.integers(1, 11))]))
            lo, hi = S.band(rng, fs)
            n = len(R.cqt_freqs(fs, lo, hi, nfft, o, b, f0, q)[0])
            if 2 <= n <= 120:
                break
        else:
            nfft, b, f0, q, o, lo, hi = 2048, 12, 120.0, 0.5, 7, 0.0, None
            n = len(R.cqt_freqs(fs, lo, hi, nfft, o, b, f0, q)[0])
        c.update(nfft=nfft, number_of_bins_per_octave=b, f0=f0, q_rate=q, number_of_octaves=o, low_freq=lo, high_freq=hi, spectral_threshold=float(S.pick(rng, [0.005, 0.005, 0.0, 0.0054, 0.02, rng.uniform(0, 0.05)])))
        if name == "cqcc":
            c["num_ceps"] = int(rng.integers(1, min(n, 25) + 1))
            c["dct_type"] = int(S.pick(rng, [2, 2, 2, 1, 3, 4]))
            c["resampling_ratio"] = 1.0
    else:
        nf = int(S.pick(rng, [24, 26, 13, 20, int(rng.integers(2, max_nfilts + 1)), int(rng.integers(2, max_nfilts + 1))]))
        c["nfft"] = S.nfft_for(rng, L)
        if small:
            c["nfft"] = min(c["nfft"], 1024)
        if FAMILY[name] == "bark" and c["nfft"] > 1100:
            c["nfft"] = 1024
        c["nfilts"] = nf
        c["low_freq"], c["high_freq"] = S.band(rng, fs)
        c["scale"] = S.pick(rng, S.SCALES)
        if FAMILY[name] in ("mel", "imel"):
            c["conversion_approach"] = S.pick(rng, S.MELS)
        elif FAMILY[name] == "bark":
            c["conversion_approach"] = S.pick(rng, S.BARKS + ["Wang"] * 4)
            if c["conversion_approach"] == "Zwicker":
                c["low_freq"] = float(rng.uniform(60, 300))
        elif FAMILY[name] == "gamma":
            c["conversion_approach"] = "Glasberg"
        nc = int(S.pick(rng, [min(13, nf), nf, 1, int(rng.integers(1, nf + 1))]))
        if name in CEPS + ["pncc"]:
            c["num_ceps"] = nc
            c["dct_type"] = int(S.pick(rng, [2, 2, 2, 2, 1, 3, 4]))
        if name in ("plp", "rplp"):
            c["order"] = max(1, min(nc, 17))
        if name in ("msrcc", "psrcc"):
            c["gamma"] = float(S.pick(rng, [-1 / 7, -1 / 7, 1 / 3, 0.5, -0.3, 1.0, rng.uniform(-0.5, 0.9)]))
        if name == "pncc":
            c["power"] = S.pick(rng, [2, 2, 2, 1, 1.5, 3, 2.5, 4])
        if name in CEPS:
            c["use_energy"] = False
    if post and name in CEPS + ["pncc", "plp", "rplp", "lpcc", "cqcc"]:
        if name in CEPS:
            c["use_energy"] = bool(rng.uniform() < 0.5)
        c["lifter"] = S.pick(rng, [None, 0, 3, 1, 0.7, 2.5, 10, 11, 22, -22, -7, -13, -2, -40, -300])
        c["normalize"] = S.pick(rng, [None, None] + S.NORMS)
    return c


def kwargs(c, **over):
    k = {a: b for a, b in c.items() if a != "win"}
    k["window"] = window(c["win"])
    k.update(over)
    return k


def dims(c):
    return S.lengths(c["win"][0], c["win"][1], c["fs"])


# ------------------------------------------------------------------ reference results
def ref_bank(fam, c, use_spafe_if_ambiguous=True):
    a = c.get("conversion_approach")
    args = (c["nfilts"], c["nfft"], c["fs"], c["low_freq"], c["high_freq"], c["scale"])
    if fam in ("mel", "imel", "lin"):
        return R.tri_bank(fam, *args, approach=a or "Oshaghnessy")[0]
    if fam == "gamma":
        return R.gamma_bank(*args)[0]
    w, _, amb = R.bark_bank(*args, approach=a or "Wang")
    if amb.any() and use_spafe_if_ambiguous:
        got = bank_fn("bark")(nfilts=c["nfilts"], nfft=c["nfft"], fs=c["fs"], low_freq=c["low_freq"], high_freq=c["high_freq"], scale=c["scale"], conversion_approach=a or "Wang")[0]
        if np.shape(got) == w.shape:
            w = np.where(amb, got, w)
    return w


class Ref:
    """reference spectra of one signal under one configuration"""

    def __init__(self, name, x, c, bank=None):
        self.name, self.c = name, c
        wl, wh, wt = c["win"]
        self.wf = R.windowed(x, c["fs"], wl, wh, wt, c.get("pre_emph", False), c.get("pre_emph_coeff", 0.97))
        if "nfft" in c:
            self.X = R.dft(self.wf, c["nfft"])
            self.mag = np.abs(self.X)
            self.P = self.mag**2 / c["nfft"]
            self.etot = self.P.sum(axis=1)
        if name in FAMILY:
            self.bank = ref_bank(FAMILY[name], c) if bank is None else np.asarray(bank, float)
            self.E = self.P @ self.bank.T
            self.zero = self.E == 0
            # conditioning: rows (frames) all of whose energies stand clear of FFT rounding noise
            wsum = self.bank.max(axis=1)[None, :]
            with np.errstate(all="ignore"):
                clear = self.E > 1e-18 * self.etot[:, None] * np.maximum(wsum, 1e-300)
            structural = (self.bank.max(axis=1) == 0)[None, :] | (self.etot == 0)[:, None]
            self.good = (clear | structural).all(axis=1)
            self.enoise = np.zeros_like(self.E)
            if bank is None and FAMILY[name] in ("mel", "imel", "lin"):
                # filters whose energy is decided by the rounding of weights at their edges
                werr = R.tri_noise(FAMILY[name], c["nfilts"], c["nfft"], c["fs"], c["low_freq"], c["high_freq"], c.get("conversion_approach") or "Oshaghnessy")
                self.enoise = self.P @ werr.T
                self.good &= (self.E >= 4e6 * self.enoise).all(axis=1)


def ref_static(name, x, c, bank=None):
    """features before energy/lifter/normalisation -> (values, mask of well conditioned frames, Ref)"""
    r = Ref(name, x, c, bank)
    if name in SPECTRO:
        return r.E, np.ones(len(r.E), bool), r
    nc, dt = c["num_ceps"], c["dct_type"]
    good = r.good
    if name in ("mfcc", "imfcc", "lfcc", "ngcc"):
        v = np.log(R.zh(r.E))
    elif name == "gfcc":
        v = np.cbrt(r.E)
    elif name == "msrcc":
        v = R.zh(r.E) ** c["gamma"]
    elif name == "bfcc":
        v = np.log(R.zh(R.ipl(r.E)))
    elif name == "psrcc":
        ph = np.degrees(np.angle(r.X))
        used = r.bank.max(axis=0) > 0
        with np.errstate(all="ignore"):
            near = (np.abs(r.X.imag) <= 1e-9 * np.abs(r.X)) | (np.minimum(r.mag, 1e3 * np.abs(r.X.imag)) < 1e-9 * r.mag.max(axis=1, keepdims=True))
        # phase of exactly real bins and of numerically empty bins is decided by rounding
        near &= ~((r.X.real < 0) & (r.X.imag == 0) & (r.mag >= 1e-9 * r.mag.max(axis=1, keepdims=True)))
        good = ~(near & used[None, :]).any(axis=1)
        ph = np.where(ph < 0, ph + 360, ph)
        s = ph @ r.bank.T
        with np.errstate(all="ignore"):
            v = s ** c["gamma"]
        inf = np.isinf(v)
        if inf.any():
            v = np.where(inf, np.max(np.where(inf, 0, v), axis=1, keepdims=True), v)
    else:
        raise KeyError(name)
    return R.dct(v, dt, nc), good, r


def finish(v, r, c, use_energy=None):
    """energy -> lifter -> normalise"""
    v = v.copy()
    if c.get("use_energy"):
        v[:, 0] = np.log(R.zh(r.etot))
    v = v * R.lifter_vec(v.shape[1], c.get("lifter"))[None, :]
    return R.normalize(v, c.get("normalize"))


def arrays(res):
    """the result of an entry point as a list of arrays"""
    if isinstance(res, dict):
        return [np.asarray(res[k]) for k in sorted(res)]
    if isinstance(res, tuple):
        return [np.asarray(a) for a in res]
    return [np.asarray(res)]
