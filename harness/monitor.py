"""Instrumentation: spies around the public functions of spafe, installed from outside in every namespace
that refers to them, so that calls nested inside extractors are observed like direct ones."""
import functools
import importlib
import inspect
import pkgutil

import numpy as np

# public functions of the library (names a user can import); helpers added later are not monitored
PUBLIC = {
    "spafe.features.mfcc": ["mel_spectrogram", "mfcc", "imfcc"],
    "spafe.features.bfcc": ["intensity_power_law", "bark_spectrogram", "bfcc"],
    "spafe.features.gfcc": ["erb_spectrogram", "gfcc"],
    "spafe.features.lfcc": ["linear_spectrogram", "lfcc"],
    "spafe.features.ngcc": ["ngcc"],
    "spafe.features.msrcc": ["msrcc"],
    "spafe.features.psrcc": ["psrcc"],
    "spafe.features.pncc": ["medium_time_power_calculation", "asymmetric_lowpass_filtering", "temporal_masking", "weight_smoothing", "mean_power_normalization", "asymmetric_noise_suppression_with_temporal_masking", "pncc"],
    "spafe.features.rplp": ["plp", "rplp"],
    "spafe.features.lpc": ["lpc", "lpc2lpcc", "lpcc"],
    "spafe.features.cqcc": ["cqt_spectrogram", "cqcc"],
    "spafe.features.spfeats": ["spectral_centroid", "spectral_skewness", "spectral_kurtosis", "spectral_entropy", "spectral_spread", "spectral_flatness", "spectral_rolloff", "spectral_flux", "extract_feats"],
    "spafe.fbanks.mel_fbanks": ["mel_filter_banks", "inverse_mel_filter_banks"],
    "spafe.fbanks.linear_fbanks": ["linear_filter_banks"],
    "spafe.fbanks.bark_fbanks": ["Fm", "bark_filter_banks"],
    "spafe.fbanks.gammatone_fbanks": ["generate_center_frequencies", "compute_gain", "gammatone_filter_banks"],
    "spafe.frequencies.dominant_frequencies": ["get_dominant_frequencies"],
    "spafe.frequencies.fundamental_frequencies": ["compute_difference", "compute_cmnd", "get_pitch", "compute_yin"],
    "spafe.utils.cepstral": ["normalize_ceps", "lifter_ceps", "deltas"],
    "spafe.utils.converters": ["hz2erb", "erb2hz", "hz2bark", "bark2hz", "hz2mel", "mel2hz"],
    "spafe.utils.filters": ["rasta_filter", "scale_fbank"],
    "spafe.utils.preprocessing": ["zero_handling", "pre_emphasis", "stride_trick", "framing", "windowing"],
    "spafe.utils.spectral": ["compute_constant_qtransform"],
}


SCALARS = {int, float, bool, str, complex, type(None), np.float64, np.float32, np.int64, np.int32, np.bool_}


def _freeze(v):
    if isinstance(v, np.ndarray):
        return ("a", v.dtype.str, v.shape, v.copy())
    if isinstance(v, list):
        return ("l", len(v), [_freeze(e) for e in v] if len(v) < 64 else list(v))
    if hasattr(v, "win_len") and hasattr(v, "__dict__"):
        return ("w", dict(v.__dict__))
    if isinstance(v, (int, float, complex, str, np.generic)):
        return ("s", repr(v))
    return None


def _same(v, f):
    if f is None:
        return True
    if f[0] == "a":
        return v.dtype.str == f[1] and v.shape == f[2] and (v.tobytes() == f[3].tobytes())
    if f[0] == "l":
        if len(v) != f[1]:
            return False
        if len(v) < 64:
            return all(_same(a, b) for a, b in zip(v, f[2]))
        return v == f[2] if not isinstance(v[0], np.ndarray) else all(np.array_equal(a, b) for a, b in zip(v, f[2]))
    if f[0] == "s":
        return repr(v) == f[1]
    return dict(v.__dict__) == f[1]


def arrays_in(v, depth=0):
    if isinstance(v, np.ndarray):
        yield v
    elif isinstance(v, (list, tuple)) and depth < 2 and len(v) < 4096:
        for e in v:
            yield from arrays_in(e, depth + 1)
    elif isinstance(v, dict):
        for e in v.values():
            yield from arrays_in(e, depth + 1)


class Spy:
    def __init__(self, ctx, oracles=None, purity=False, only=None):
        self.ctx, self.oracles, self.purity = ctx, oracles or {}, purity
        self.only = set(only) if only else None
        self.active = True
        self.saved = []

    def wrap(self, f, name):
        sig = inspect.signature(f)
        orcs = self.oracles.get(name, [])
        ctx = self.ctx

        @functools.wraps(f)
        def w(*a, **k):
            if not self.active:
                return f(*a, **k)
            ctx.count("call:" + name)
            need = self.purity or orcs
            if need and not orcs and all(type(v) in SCALARS for v in a) and all(type(v) in SCALARS for v in k.values()):
                return f(*a, **k)  # nothing that could be modified
            fa = [_freeze(v) for v in a] if need else None
            fk = {q: _freeze(v) for q, v in k.items()} if need else None
            try:
                r = f(*a, **k)
            except Exception:
                if self.purity:
                    changed = [str(i) for i, v in enumerate(a) if not _same(v, fa[i])] + [q for q, v in k.items() if not _same(v, fk[q])]
                    if changed:
                        ctx.report("mutated-argument", f"{name} modified its argument(s) {changed} before it raised")
                raise
            if need:
                changed = [str(i) for i, v in enumerate(a) if not _same(v, fa[i])] + [q for q, v in k.items() if not _same(v, fk[q])]
                if self.purity:
                    if changed:
                        ctx.report("mutated-argument", f"{name} modified its argument(s) {changed}")
                    ctx.count("oracle:args-unchanged")
                if orcs and not changed:
                    try:
                        b = sig.bind(*a, **k)
                        b.apply_defaults()
                    except TypeError:
                        b = None
                    if b is not None:
                        self.active = False
                        try:
                            for o in orcs:
                                o(ctx, dict(b.arguments), r)
                        finally:
                            self.active = True
            return r

        w.__wrapped_by_vp__ = f
        return w

    def install(self):
        import spafe

        mods = [importlib.import_module(m.name) for m in pkgutil.walk_packages(spafe.__path__, "spafe.")]
        for mn, names in PUBLIC.items():
            try:
                m = importlib.import_module(mn)
            except ImportError:
                continue
            for n in names:
                if self.only is not None and n not in self.only:
                    continue
                f = getattr(m, n, None)
                if not inspect.isfunction(f):
                    continue
                w = self.wrap(f, n)
                for mm in mods:
                    for k, v in list(vars(mm).items()):
                        if v is f:
                            self.saved.append((mm, k, f))
                            setattr(mm, k, w)
        return self

    def remove(self):
        for m, k, f in self.saved:
            setattr(m, k, f)
        self.saved = []


class StrideSanitizer:
    """checks every strided view against the memory that was really allocated behind it"""

    def __init__(self, ctx):
        self.ctx = ctx

    def install(self):
        st = np.lib.stride_tricks
        orig = st.as_strided
        ctx = self.ctx
        try:
            from numpy.lib.array_utils import byte_bounds
        except ImportError:
            byte_bounds = np.byte_bounds

        def checked(x, shape=None, strides=None, *a, **k):
            r = orig(x, shape, strides, *a, **k)
            root = np.asanyarray(x)
            while isinstance(root.base, np.ndarray):
                root = root.base
            ctx.count("oracle:stride-bounds")
            if r.size and root.size:
                lo, hi = byte_bounds(root)
                l2, h2 = byte_bounds(r)
                if l2 < lo or h2 > hi:
                    ctx.report("out-of-bounds", f"strided view of shape {r.shape} strides {r.strides} covers {h2-hi} bytes past the end / {lo-l2} bytes before the start of the signal buffer ({hi-lo} bytes)")
            return r

        st.as_strided = checked
        import sys

        for m in list(sys.modules.values()):
            if m is not None and getattr(m, "__name__", "").startswith("spafe"):
                for kk, v in list(vars(m).items()):
                    if v is orig:
                        setattr(m, kk, checked)
        return self
