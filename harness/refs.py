"""Independent reference model of the documented behaviour (plain numpy, written from the formulas)."""
import numpy as np
from scipy.signal import lfilter

EPS = np.finfo(float).eps


# ---------------------------------------------------------------- framing
def frame_count(n, L, H):
    return (n - L) // H + 1


def frames(x, L, H):
    x = np.asarray(x)
    x = x[:, 0] if x.ndim == 2 and x.shape[1] == 1 else x
    return np.stack([x[i * H : i * H + L] for i in range(frame_count(len(x), L, H))])


def win(name, L):
    if L == 1:
        return {"hanning": np.hanning, "bartlet": np.bartlett, "blackman": np.blackman, "hamming": np.hamming}.get(name, lambda m: np.kaiser(m, 14))(1)
    n = np.arange(L)
    c = 2 * np.pi * n / (L - 1)
    if name == "hanning":
        return 0.5 - 0.5 * np.cos(c)
    if name == "hamming":
        return 0.54 - 0.46 * np.cos(c)
    if name == "blackman":
        return 0.42 - 0.5 * np.cos(c) + 0.08 * np.cos(2 * c)
    if name == "bartlet":
        return 1 - np.abs(2.0 * n / (L - 1) - 1)
    if name == "kaiser":
        return np.i0(14 * np.sqrt(np.maximum(0, 1 - (2.0 * n / (L - 1) - 1) ** 2))) / np.i0(14.0)
    raise KeyError(name)


def preemph(x, c):
    x = np.asarray(x)
    x = x[:, 0] if x.ndim == 2 and x.shape[1] == 1 else x
    x = x.astype(float)
    y = x.copy()
    y[1:] -= c * x[:-1]
    return y


def windowed(x, fs, wl, wh, wt, pre=False, coeff=0.97):
    x = preemph(x, coeff) if pre else np.asarray(x).astype(float)
    L, H = int(wl * fs), int(wh * fs)
    return frames(x, L, H) * win(wt, L)


def dft(w, nfft):
    """one-sided DFT of the frames, zero-padded or cut to nfft"""
    w = np.asarray(w, float)
    if w.shape[1] > nfft:
        w = w[:, :nfft]
    elif w.shape[1] < nfft:
        w = np.concatenate([w, np.zeros((w.shape[0], nfft - w.shape[1]))], axis=1)
    return np.fft.rfft(w, axis=1)[:, : nfft // 2 + 1]


def zh(x):
    return np.where(np.asarray(x) == 0, EPS, x)


# ---------------------------------------------------------------- scales
def hz2mel(f, a="Oshaghnessy"):
    f = np.asarray(f, float)
    return 2595.0 * np.log10(1 + f / 700.0) if a == "Oshaghnessy" else 2410.0 * np.log10(1 + f / 625.0)


def mel2hz(m, a="Oshaghnessy"):
    m = np.asarray(m, float)
    return 700.0 * (10 ** (m / 2595.0) - 1) if a == "Oshaghnessy" else 625.0 * (10 ** (m / 2410.0) - 1)


ERB_A = 1000 * np.log(10) / (24.7 * 4.37)


def hz2erb(f):
    return ERB_A * np.log10(1 + np.asarray(f, float) * 0.00437)


def erb2hz(e):
    return (10 ** (np.asarray(e, float) / ERB_A) - 1) / 0.00437


def hz2bark(f, a="Wang"):
    f = np.asarray(f, float)
    with np.errstate(divide="ignore"):
        if a == "Wang":
            return 6 * np.arcsinh(f / 600)
        if a == "Tjomov":
            return 6.7 * np.arcsinh((f + 20) / 600)
        if a == "Schroeder":
            return 7 * np.arcsinh(f / 650)
        if a == "Terhardt":
            return 13.3 * np.arctan(0.75 * f / 1000)
        if a == "Zwicker":
            return 8.7 + 14.2 * np.log10(f / 1000)
    z = 26.81 * f / (1960 + f) - 0.53
    return np.where(z < 2, z + 0.15 * (2 - z), np.where(z > 20.1, z + 0.22 * (z - 20.1), z))


def bark2hz(b, a="Wang"):
    b = np.asarray(b, float)
    if a == "Wang":
        return 600 * np.sinh(b / 6)
    if a == "Tjomov":
        return 600 * np.sinh(b / 6.7) - 20
    if a == "Schroeder":
        return 650 * np.sinh(b / 7)
    if a == "Terhardt":
        return 1000 / 0.75 * np.tan(b / 13.3)
    if a == "Zwicker":
        return 1000 * 10 ** ((b - 8.7) / 14.2)
    z = np.where(b < 2, (b - 0.3) / 0.85, np.where(b > 20.1, (b + 4.422) / 1.22, b))
    return 1960 * (z + 0.53) / (26.28 - z)


# ---------------------------------------------------------------- filter banks
def gains(scale, n):
    i = np.arange(1, n + 1) / n
    return {"constant": np.ones(n), "ascendant": i, "descendant": i[::-1]}[scale][:, None]


def tri_bank(kind, nfilts, nfft, fs, lo=0, hi=None, scale="constant", approach="Oshaghnessy"):
    """kind: mel | imel | lin -> (bank, centre frequencies on the scale)"""
    hi = fs / 2 if not hi else hi
    if kind == "lin":
        pts = np.linspace(lo, hi, nfilts + 2)
    else:
        pts = mel2hz(np.linspace(hz2mel(lo, approach), hz2mel(hi, approach), nfilts + 2), approach)
        pts[0], pts[-1] = lo, hi
    f = np.arange(nfft // 2 + 1) * (fs / nfft)
    if kind == "imel":
        mir = lo + hi - pts[::-1]
        rows = []
        for j in range(nfilts):  # row j of the inverse bank mirrors row j of the mel bank
            k = nfilts - 1 - j
            rows.append(_tri(f, mir[k], mir[k + 1], mir[k + 2]))
        bank = np.array(rows)
        cent = hz2mel(lo + hi - pts[1:-1], approach)
        g = {"ascendant": "descendant", "descendant": "ascendant", "constant": "constant"}[scale]
        return bank * gains(g, nfilts), cent
    bank = np.array([_tri(f, pts[j], pts[j + 1], pts[j + 2]) for j in range(nfilts)])
    return bank * gains(scale, nfilts), (pts[1:-1] if kind == "lin" else hz2mel(pts[1:-1], approach))


def _tri(f, a, c, b):
    return np.maximum(0, np.minimum((f - a) / (c - a), (b - f) / (b - c)))


def tri_noise(kind, nfilts, nfft, fs, lo=0, hi=None, approach="Oshaghnessy"):
    """bound on the rounding error of every weight (nfilts x bins): matters for bins at the edge of a narrow filter"""
    hi = fs / 2 if not hi else hi
    if kind == "lin":
        pts = np.linspace(lo, hi, nfilts + 2)
    else:
        pts = mel2hz(np.linspace(hz2mel(lo, approach), hz2mel(hi, approach), nfilts + 2), approach)
        pts[0], pts[-1] = lo, hi
        if kind == "imel":
            pts = (lo + hi - pts[::-1])
    f = np.arange(nfft // 2 + 1) * (fs / nfft)
    out = []
    for j in range(nfilts):
        a, c, b = pts[j : j + 3]
        slope = max(1 / (c - a), 1 / (b - c))
        err = 1e-15 * (hi if kind == "imel" else max(b, 0.3 * hi)) * slope
        raw = np.minimum((f - a) / (c - a), (b - f) / (b - c))
        out.append(np.where(raw > -100 * err, err, 0.0))
    return np.array(out[::-1] if kind == "imel" else out)


def bark_bank(nfilts, nfft, fs, lo=0, hi=None, scale="constant", approach="Wang"):
    """-> (bank, centres, ambiguous) where ambiguous marks entries decided by rounding only"""
    hi = fs / 2 if not hi else hi
    c = np.linspace(float(hz2bark(lo, approach)), float(hz2bark(hi, approach)), nfilts)
    e0 = (nfft + 1) * float(bark2hz(c[0], approach)) / fs
    e1 = (nfft + 1) * float(bark2hz(c[-1], approach)) / fs
    k = np.arange(nfft // 2 + 1)
    z = hz2bark(k * fs / (nfft + 1), approach)[None, :] - c[:, None]
    with np.errstate(all="ignore"):
        w = np.where(z < -0.5, 10 ** (2.5 * (z + 0.5)), np.where(z < 0.5, 1.0, 10 ** (-(z - 0.5))))
    w[(z < -1.3) | (z > 2.5)] = 0
    amb = (np.abs(z + 1.3) < 1e-7) | (np.abs(z - 2.5) < 1e-7)
    inside = (k >= np.floor(e0)) & (k < np.floor(e1))
    for e in (e0, e1):
        if abs(e - round(e)) < 1e-6:
            amb[:, [kk for kk in (round(e) - 1, round(e)) if 0 <= kk < len(k)]] = True
    w = np.where(inside[None, :], w, 0.0)
    return w * gains(scale, nfilts), c, amb


def gamma_bank(nfilts, nfft, fs, lo=0, hi=None, scale="constant", order=4):
    hi = fs / 2 if not hi else hi
    q, bw = 9.26449, 24.7
    c = q * bw
    m = np.arange(1, nfilts + 1)
    cf = ((hi + c) * ((lo + c) / (hi + c)) ** (m / nfilts) - c)[::-1]
    erb = ((cf / q) ** order + bw**order) ** (1 / order)
    k = np.exp(1.019 * 2 * np.pi * erb / fs)
    z = np.exp(2j * np.pi * np.arange(nfft // 2 + 1) / nfft)
    th = 2 * np.pi * cf / fs
    bank = []
    for j in range(nfilts):
        num = np.ones_like(z)
        for s in (np.sqrt(3 + 2**1.5), -np.sqrt(3 + 2**1.5), np.sqrt(3 - 2**1.5), -np.sqrt(3 - 2**1.5)):
            num = num * (z - (np.cos(th[j]) + s * np.sin(th[j])) / k[j])
        p = np.exp(1j * th[j]) / k[j]
        h = np.abs(num) / np.abs((z - p) * (z - np.conj(p))) ** 4
        bank.append(h / h.max())
    return np.array(bank) * gains(scale, nfilts), cf


# ---------------------------------------------------------------- DCT and tails
def dct_matrix(N, t):
    """orthonormal DCT: rows = coefficients"""
    n = np.arange(N)
    k = n[:, None]
    if t == 2:
        M = np.cos(np.pi * k * (2 * n + 1) / (2 * N)) * np.sqrt(2 / N)
        M[0] /= np.sqrt(2)
    elif t == 3:
        M = dct_matrix(N, 2).T
    elif t == 4:
        M = np.cos(np.pi * (2 * k + 1) * (2 * n + 1) / (4 * N)) * np.sqrt(2 / N)
    else:
        M = np.cos(np.pi * k * n / (N - 1)) * np.sqrt(2 / (N - 1))
        M[0] /= np.sqrt(2)
        M[-1] /= np.sqrt(2)
        M[:, 0] /= np.sqrt(2)
        M[:, -1] /= np.sqrt(2)
    return M


def dct(x, t, num):
    return (np.asarray(x, float) @ dct_matrix(x.shape[1], t).T)[:, :num]


def lifter_vec(n, lift):
    if not lift or lift > 10:
        return np.ones(n)
    k = np.arange(n, dtype=float)
    if lift > 0:
        v = k**lift
        v[0] = 1.0
        return v
    L = int(-lift)
    return 1 + (L / 2.0) * np.sin(np.pi * (k + 1) / L)


def normalize(x, kind):
    if not kind:
        return x
    if kind == "mvn":
        return (x - x.mean(axis=0)) / x.std()
    if kind == "ms":
        return x - x.mean(axis=0)
    if kind == "vn":
        return x / x.std()
    return (x - x.mean()) / (x.max() - x.min())


def norm_atol(x, kind):
    """rounding of the subtracted mean: identical rows leave nothing but that"""
    a = 1e-11 * np.abs(x).max() if x.size and kind else 0.0
    return a / x.std() if kind in ("mvn", "vn") else a / (x.max() - x.min()) if kind == "mn" else a


def deltas(x, w):
    x = np.asarray(x, float)
    h = w // 2
    y = np.zeros_like(x)
    n = x.shape[1]
    for k in range(-h, h + 1):
        ix = np.clip(np.arange(n) + k, 0, n - 1)
        y += k * x[:, ix]
    return y


def ipl(w):
    """equal loudness / intensity law as used by bfcc and plp"""
    e = (w**2 + 56.8e6) * w**4 / ((w**2 + 6.3e6) * (w**2 + 0.38e9) * (w**6 + 9.58e26))
    return e ** (1 / 3)


# ---------------------------------------------------------------- LPC
def autocorr(x, order):
    x = np.asarray(x, float)
    n = len(x)
    return np.array([np.dot(x[: n - k], x[k:]) if k < n else 0.0 for k in range(order + 1)])


def levinson_matrix(r):
    p = len(r) - 1
    return r[np.abs(np.arange(p)[:, None] - np.arange(p)[None, :])]


def lpc_solve(r):
    """-> a (with leading 1), error, condition number"""
    p = len(r) - 1
    if p == 0 or r[0] == 0:
        return np.r_[1.0, np.zeros(p)], float(r[0]), 1.0
    R = levinson_matrix(r)
    cond = np.linalg.cond(R)
    if not np.isfinite(cond) or cond > 1e13:
        return None, None, np.inf
    a = np.r_[1.0, np.linalg.solve(R, -r[1:])]
    return a, float(r @ a), cond


def lpc_cepstrum(a, e, n):
    """c0 = log e, c[m] = power series of -log A(z); by series division of -A'/A"""
    a = np.asarray(a, float)
    A = np.zeros(n + 1)
    m = min(len(a), n + 1)
    A[:m] = a[:m]
    # z d/dz(-log A) = -(sum m a_m z^m)/A  = sum m c_m z^m
    num = -np.arange(n + 1) * A
    q = np.zeros(n + 1)
    for i in range(n + 1):
        q[i] = (num[i] - np.dot(q[:i], A[i:0:-1])) / A[0]
    c = np.zeros(n)
    c[0] = np.log(e if e != 0 else EPS)
    for i in range(1, n):
        c[i] = q[i] / i
    return c


def rasta(x):
    """RASTA band-pass along axis 0, first four frames reset, direct difference equation"""
    x = np.asarray(x, float)
    n = len(x)
    y = np.zeros_like(x)
    b = np.array([0.2, 0.1, 0.0, -0.1, -0.2])
    ext = np.concatenate([np.repeat(x[:1], 4, axis=0), x])  # steady state before the first frame
    prev = np.zeros(x.shape[1])
    for t in range(4, n):
        v = sum(b[k] * ext[t + 4 - k] for k in range(5))
        # in the IIR stage the recursive part starts at frame 4 with no output history
        y[t] = v + 0.94 * prev
        prev = y[t]
    return y


# ---------------------------------------------------------------- constant Q
def cqt_freqs(fs, lo, hi, nfft, octaves, bins, f0, q_rate):
    hi = fs / 2 if not hi else hi
    f = f0 * 2.0 ** (np.arange(octaves * bins) / bins)
    q = q_rate / (2 ** (1 / bins) - 1)
    exact = np.arange(octaves * bins) % bins == 0  # f0 * 2^m is exact: the band edges are closed there
    near = ((np.abs(f - lo) < 1e-9 * f) & ~(exact & (f == lo))) | ((np.abs(f - hi) < 1e-9 * f) & ~(exact & (f == hi)))
    amb = bool(near.any())
    f = f[(f >= lo) & (f <= hi)]
    r = q * fs / f
    if bins > 1 or q_rate != 1 or not np.all(r * f == fs):  # one bin per octave: Q is exactly 1
        amb = amb or bool(np.any(np.abs(r - np.round(r)) < 1e-9 * r))
    N = np.ceil(r).astype(int)
    return f[N <= nfft], N[N <= nfft], amb


def cqt(wframes, fs, lo, hi, nfft, octaves, bins, wt, thr, f0, q_rate):
    """-> (bins x frames), sensitivity per bin (kernel entries whose magnitude is at the threshold), ambiguous"""
    f, N, amb = cqt_freqs(fs, lo, hi, nfft, octaves, bins, f0, q_rate)
    x = np.asarray(wframes, float)
    x = x[:, :nfft] if x.shape[1] > nfft else np.concatenate([x, np.zeros((len(x), nfft - x.shape[1]))], axis=1)
    out = np.zeros((len(f), len(x)), complex)
    amb_rows = np.zeros(len(f), bool)
    X = None
    for k in range(len(f)):
        s = (nfft - N[k]) // 2
        a = np.zeros(nfft, complex)
        a[s : s + N[k]] = win(wt, N[k]) / N[k] * np.exp(2j * np.pi * f[k] / fs * np.arange(N[k]))
        K = np.fft.fft(a)
        m = np.abs(K)
        drop = m <= thr
        amb_rows[k] = bool(np.any(np.abs(m - thr) < 1e-12)) and thr > 0
        if not drop.any():
            out[k] = x @ np.conj(a)
        else:
            a2 = np.fft.ifft(np.where(drop, 0, K))
            out[k] = x @ np.conj(a2)
    return out, amb_rows, amb


# ---------------------------------------------------------------- PNCC stages
def pn_medium(P, M=2):
    n = len(P)
    return np.array([P[max(0, m - M) : min(n, m + M + 1)].sum(axis=0) / (2 * M + 1) for m in range(n)])


def pn_alf(q, la=0.999, lb=0.5):
    """-> out, margin (distance of each decision from the switching point, relative)"""
    out = np.zeros_like(q, dtype=float)
    out[0] = 0.9 * q[0]
    for m in range(1, len(q)):
        lam = np.where(q[m] >= out[m - 1], la, lb)
        out[m] = lam * out[m - 1] + (1 - lam) * q[m]
    return out


def pn_mask(q, lt=0.85, mt=0.2):
    peak = q[0].astype(float).copy()
    out = np.zeros_like(q, dtype=float)
    out[0] = q[0]
    for m in range(1, len(q)):
        dec = lt * peak
        out[m] = np.where(q[m] >= dec, q[m], mt * peak)
        peak = np.maximum(dec, q[m])
    return out


def pn_ans(q, threshold=0):
    le = pn_alf(q)
    d = q - le
    q0 = np.where(d < threshold, 0.0, d)
    qf = pn_alf(q0)
    tm = pn_mask(q0)
    return np.where(q >= 2 * le, tm, qf), le, q0


def pn_smooth(R, Qt, L, N=4):
    Qt = zh(Qt)
    ratio = R / Qt
    out = np.zeros_like(R, dtype=float)
    for l in range(R.shape[1]):
        a, b = max(l - N, 0), min(l + N, L - 1)
        out[:, l] = ratio[:, a : b + 1].sum(axis=1) / (b - a + 1)
    return out


def pn_norm(T, lam=0.999, L=80, k=1):
    mu = np.zeros(len(T))
    mu[0] = 1e-4
    for m in range(1, len(T)):
        mu[m] = lam * mu[m - 1] + (1 - lam) / L * T[m, :L].sum()
    return k * T / mu[:, None]


# ---------------------------------------------------------------- YIN
def yin_frame(x, fs, lo, hi, thr):
    """-> pitch, rate, argmin frequency, ambiguous"""
    x = np.asarray(x, float)
    w = len(x)
    tmin, tmax = int(fs / hi), int(fs / lo)
    d = np.array([np.sum((x[: w - t] - x[t:]) ** 2) for t in range(tmax)])
    e = float(np.sum(x * x))
    noise = 1e-11 * e * w ** 0.5
    c = np.cumsum(d[1:])
    with np.errstate(all="ignore"):
        cm = np.r_[1.0, d[1:] * np.arange(1, tmax) / c]
        err = np.r_[0.0, (noise * np.arange(1, tmax)) * (1 / c + d[1:] / c**2)] if tmax > 1 else np.zeros(1)
    return d, cm, err, tmin, tmax
