"""Workload generation: signals and configurations."""
import os

import numpy as np

FS = [8000, 11025, 16000, 16000, 22050, 44100, 48000, 12345, 32000, 8000, 16000, 44100, 22050, 96000, 7999, 24000, 4000]
WINS = ["hanning", "bartlet", "kaiser", "blackman", "hamming"]
BARKS = ["Tjomov", "Schroeder", "Terhardt", "Zwicker", "Traunmueller", "Wang"]
MELS = ["Oshaghnessy", "Lindsay"]
SCALES = ["constant", "ascendant", "descendant"]
NORMS = ["mvn", "ms", "vn", "mn"]
_WAV = {}


def wav(repo):
    if "x" not in _WAV:
        try:
            from scipy.io.wavfile import read

            fs, x = read(os.path.join(repo, "tests", "data", "test.wav"))
            _WAV["x"] = np.asarray(x, float) if x.ndim == 1 else np.asarray(x[:, 0], float)
        except Exception:
            _WAV["x"] = None
    return _WAV["x"]


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


REGULAR = ["white", "pink", "harmonic", "chirp", "speechlike", "tone_noise", "decay", "wav", "ar"]


def regular(rng, n, fs, kind=None):
    """broadband signals without exact zeros or numerically empty bands (every oracle is well conditioned)"""
    kind = kind or pick(rng, REGULAR)
    t = np.arange(n) / fs
    w = rng.standard_normal(n)
    if kind == "white":
        x = w
    elif kind == "pink":
        f = np.fft.rfft(w)
        f /= np.sqrt(np.arange(1, len(f) + 1))
        x = np.fft.irfft(f, n) if n > 1 else w
        x = x / (np.abs(x).max() + 1e-300) + 1e-3 * w
    elif kind == "harmonic":
        f0 = rng.uniform(60, 400)
        x = sum(np.sin(2 * np.pi * k * f0 * t + rng.uniform(0, 6)) / k for k in range(1, 12) if k * f0 < fs / 2)
        x = x + 1e-2 * w
    elif kind == "chirp":
        f1 = rng.uniform(50, fs / 3)
        x = np.sin(2 * np.pi * (50 * t + (f1 - 50) * t * t / (2 * max(t[-1], 1e-9)))) + 1e-2 * w
    elif kind == "speechlike":
        env = 0.05 + np.abs(np.sin(2 * np.pi * rng.uniform(1, 6) * t + rng.uniform(0, 6))) ** 2
        f0 = rng.uniform(80, 250)
        x = env * (np.sign(np.sin(2 * np.pi * f0 * t)) + 0.2 * w)
    elif kind == "tone_noise":
        x = np.sin(2 * np.pi * rng.uniform(0.01, 0.45) * fs * t) + 3e-2 * w
    elif kind == "decay":
        x = np.exp(-np.minimum(t * rng.uniform(0.5, 10), 14)) * w
    elif kind == "wav":
        import core

        v = wav(core.REPO)
        if v is None or len(v) < 400:
            x = w
        else:
            o = int(rng.integers(0, len(v)))
            x = np.resize(np.roll(v, -o), n) / 3000.0 + 1e-3 * w
    else:  # ar
        from scipy.signal import lfilter

        r, th = rng.uniform(0.5, 0.97), rng.uniform(0.1, 3.0)
        x = lfilter([1.0], [1, -2 * r * np.cos(th), r * r], w)
    amp = pick(rng, [1.0, 1.0, 1.0, 1.0, 30.0, 3000.0, 1e-3, 1e5])
    return np.ascontiguousarray(x, dtype=float) * amp, kind


HOSTILE = ["silence", "dc", "impulse", "zeros_lead", "zeros_trail", "zeros_gap", "alternate", "clipped", "int16", "tiny", "huge", "tone", "square", "one_sample", "ramp", "negdc", "faint", "bursts"]


def hostile(rng, n, fs, kind=None):
    kind = kind or pick(rng, HOSTILE)
    w = rng.standard_normal(n)
    t = np.arange(n) / fs
    x = np.zeros(n)
    if kind == "dc":
        x[:] = rng.uniform(0.1, 5)
    elif kind == "negdc":
        x[:] = -rng.uniform(0.1, 5)
    elif kind == "impulse":
        x[int(rng.integers(n))] = rng.uniform(0.1, 1000)
    elif kind == "one_sample":
        x[int(pick(rng, [0, n - 1]))] = 1.0
    elif kind == "zeros_lead":
        x = w.copy()
        x[: int(n * rng.uniform(0.1, 0.95))] = 0
    elif kind == "zeros_trail":
        x = w.copy()
        x[int(n * rng.uniform(0.05, 0.9)) :] = 0
    elif kind == "zeros_gap":
        x = w.copy()
        a = int(n * rng.uniform(0.1, 0.4))
        x[a : a + int(n * 0.5)] = 0
    elif kind == "alternate":
        x = np.where(np.arange(n) % 2 == 0, 1.0, -1.0) * rng.uniform(0.1, 100)
    elif kind == "clipped":
        x = np.clip(w * 10, -1, 1)
    elif kind == "int16":
        x = rng.integers(-32768, 32768, n).astype(np.int16)
    elif kind == "tiny":
        x = w * 1e-9
    elif kind == "huge":
        x = w * 1e9
    elif kind == "tone":
        x = np.sin(2 * np.pi * rng.uniform(0.005, 0.49) * fs * t)
    elif kind == "square":
        x = np.where((np.arange(n) // max(1, int(rng.integers(1, 80)))) % 2 == 0, 1.0, -1.0)
    elif kind == "ramp":
        x = np.linspace(-1, 1, n)
    elif kind == "faint":
        x = w * 1e-13
    elif kind == "bursts":
        x = w * (rng.uniform(size=n) < 0.01)
    return x, kind


def window(rng, fs, small=False):
    """(win_len, win_hop, win_type) in seconds with hop <= len and at least 8/1 samples"""
    m = int(rng.integers(7))
    if m <= 2:
        wl, wh = pick(rng, [(0.025, 0.01), (0.03, 0.015), (0.02, 0.01), (0.016, 0.008), (0.032, 0.016)])
    elif m == 3:
        wl = wh = pick(rng, [0.02, 0.025, 0.01])
    elif m == 4:
        wl = float(rng.uniform(0.01, 0.04))
        wh = float(rng.uniform(0.3, 1.0) * wl)
    elif m == 5:
        L, H = int(rng.integers(16, 500)), 0
        H = int(rng.integers(max(1, L // 4), L + 1))
        wl, wh = (L + 0.5) / fs, (H + 0.5) / fs
        if rng.uniform() < 0.15:  # hops of a few samples
            wh = (int(rng.integers(1, 5)) + 0.5) / fs
        if wh > wl:
            wh = wl
    else:
        wl = pick(rng, [0.05, 0.064, 0.04])
        wh = pick(rng, [0.01, 0.02, 0.025])
    if small:
        wl = min(wl, 0.03)
        wh = min(wh, wl)
    return wl, wh, pick(rng, WINS)


def lengths(wl, wh, fs):
    return int(wl * fs), int(wh * fs)


def nsamples(rng, L, H, max_frames=30):
    k = pick(rng, [1, 1, 2, 3, int(rng.integers(4, max_frames)), int(rng.integers(4, max_frames))])
    n = L + (k - 1) * H
    if rng.uniform() < 0.7:
        n += int(rng.integers(0, H))
    return n


def nfft_for(rng, L, odd=True):
    p2 = 1 << int(np.ceil(np.log2(max(L, 2))))
    c = [p2, p2, 512, 512, 1024, p2 * 2, max(32, p2 // 2), 256, max(32, L)]
    if odd:
        c += [p2 + 1, max(33, L | 1), 401]
    return int(pick(rng, c))


def band(rng, fs, low_pos=False):
    lo = 0.0 if rng.uniform() < 0.5 and not low_pos else float(rng.uniform(20, fs * 0.1))
    hi = None if rng.uniform() < 0.35 else (fs / 2 if rng.uniform() < 0.4 else float(rng.uniform(max(lo * 2, fs * 0.2), fs / 2)))
    u = rng.uniform()
    if u < 0.08:  # narrow or high bands
        lo = float(rng.uniform(0.1, 0.35) * fs)
        hi = pick(rng, [None, fs / 2, float(rng.uniform(lo * 1.15, fs / 2))])
    elif u < 0.11:
        hi = float(rng.uniform(max(lo * 1.5, 0.05 * fs), 0.2 * fs))
    if rng.uniform() < 0.2:
        lo = int(lo)
        hi = int(hi) if hi is not None else None
    return lo, hi
