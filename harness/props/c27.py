"""C27 plots: the figure that results is inspected through matplotlib's own objects."""
import numpy as np

import api
import refs as R
import signals as S
from core import Skip

ID = "C27"
RULE = "case = one plotting helper on random data and options under the Agg backend with show() intercepted; the figure's lines, images, ticks, limits, labels and size are read back and compared with the data passed in"
N = {"quick": 3600, "thorough": 28800}
MIN = {"oracle:fbank-lines": 4500, "oracle:second-axis": 1200, "oracle:features-image": 290, "oracle:spectrogram-image": 290, "oracle:labels": 430, "oracle:unmodified": 720, "oracle:shown": 430}


def preload():
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa


def word(rng):
    return "".join(S.pick(rng, list("abcdefg hij")) for _ in range(int(rng.integers(1, 12)))).strip() or "t"


def image_rows(ax, im):
    """image data with row 0 at the bottom of the axes"""
    a = np.asarray(im.get_array(), float)
    up = (im.origin == "lower")
    y0, y1 = ax.get_ylim()
    ext = im.get_extent()
    if ext[3] < ext[2]:
        up = not up
    if y1 < y0:
        up = not up
    return a if up else a[::-1]


def run(ctx, rng, i):
    import matplotlib.pyplot as plt
    from spafe.utils import vis

    plt.close("all")
    shows = []
    orig = plt.show
    plt.show = lambda *a, **k: shows.append((a, k))
    try:
        _run(ctx, rng, i, vis, plt, shows)
    finally:
        plt.show = orig
        plt.close("all")


def fig_of(ctx, plt, shows):
    ctx.check(len(shows) == 1, "shown", f"show() called {len(shows)} times")
    nums = plt.get_fignums()
    ctx.check(len(nums) == 1, "one-figure", f"{len(nums)} figures")
    return plt.figure(nums[0])


def same(ctx, a, b, what):
    ctx.check(np.array_equal(a, b), "unmodified", f"{what} was modified")


def run_size(ctx, fig, size):
    ctx.check(np.allclose(fig.get_size_inches(), size), "size", lambda: f"{fig.get_size_inches()} instead of {size}")


def _run(ctx, rng, i, vis, plt, shows):
    m = i % 3
    kw = {}
    title, yl, xl = word(rng), word(rng), word(rng)
    size = (float(rng.integers(3, 15)), float(rng.integers(2, 8)))
    if m == 0:
        fs = S.pick(rng, [8000, 16000, 44100])
        nf, nfft = int(rng.integers(1, 30)) if rng.uniform() < 0.8 else int(rng.integers(40, 130)), int(S.pick(rng, [64, 256, 512]))
        fb = rng.uniform(0, 1, (nf, nfft // 2 + 1))
        if rng.uniform() < 0.5:
            fb = R.tri_bank("mel", max(nf, 2), nfft, fs)[0]
        if rng.uniform() < 0.3:  # weights are not always in [0, 1]
            fb = fb * float(S.pick(rng, [3.0, 0.2, 0.01, 500.0, -1.0]))
        ref = np.linspace(0, fs / 2, nfft // 2 + 1)
        if rng.uniform() < 0.3:  # reference frequencies are whatever the caller passes
            ref = np.sort(rng.uniform(50, fs / 2, nfft // 2 + 1)) if rng.uniform() < 0.5 else np.linspace(fs / 20, fs / 3, nfft // 2 + 1)
        cen = rng.uniform(0, fs / 2, len(fb))
        typ = S.pick(rng, ["mel", "bark", "gamma", "lin", "mel"])
        showc = bool(rng.uniform() < 0.4)
        x2 = word(rng)
        ctx.describe(fn="show_fbanks", nfilts=len(fb), nfft=nfft, fs=fs, fb_type=typ, centers=showc)
        k0 = (fb.copy(), cen.copy(), ref.copy())
        a = dict(title=title, ylabel=yl, x1label=xl, x2label=x2, figsize=size, fb_type=typ, show_center_freqs=showc)
        defaults = rng.uniform() < 0.2
        if defaults:
            a = dict(fb_type=typ, show_center_freqs=showc)
            if rng.uniform() < 0.4:
                a, typ, showc = {}, "mel", True
            title, yl, xl, x2, size = "Mel filter banks", "Weight", "Frequency / Hz", "Frequency / mel", (12, 5)
        ctx.call(vis.show_fbanks, fb, cen, ref, **a)
        fig = fig_of(ctx, plt, shows)
        for p, q, w in zip(k0, (fb, cen, ref), ("fbanks", "center_freqs", "ref_freqs")):
            same(ctx, p, q, w)
        axs = [ax for ax in fig.axes]
        ctx.check(len(axs) == 2, "axes", f"{len(axs)} axes")
        main = [ax for ax in axs if len(ax.lines) >= len(fb)]
        ctx.check(len(main) == 1, "fbank-lines", f"lines per axes {[len(ax.lines) for ax in axs]} for {len(fb)} filters")
        main = main[0]
        other = [ax for ax in axs if ax is not main][0]
        ys = [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)) for l in main.lines][: len(fb)]
        for j in range(len(fb)):
            ctx.check(np.array_equal(ys[j][0], ref) and np.array_equal(ys[j][1], fb[j]), "fbank-lines", f"line {j} is not filter {j} against the reference frequencies")
        ctx.check((main.get_title(), main.get_ylabel(), main.get_xlabel(), other.get_xlabel()) == (title, yl, xl, x2), "labels", lambda: f"{(main.get_title(), main.get_ylabel(), main.get_xlabel(), other.get_xlabel())}")
        fig.canvas.draw()
        ctx.check(np.allclose(main.get_xlim(), other.get_xlim()), "axis-bounds", lambda: f"{main.get_xlim()} / {other.get_xlim()}")
        conv = {"mel": R.hz2mel, "bark": R.hz2bark, "gamma": R.hz2erb}.get(typ, lambda v: v)
        tk = other.get_xticks()
        lb = [t.get_text().replace("\u2212", "-") for t in other.get_xticklabels()]
        ctx.check(len(tk) == len(lb) and len(tk) >= 2, "second-axis", f"{len(tk)} ticks, {len(lb)} labels")
        for t, s in zip(tk, lb):
            lo, hi = min(main.get_xlim()), max(main.get_xlim())
            if t < 0 or t > fs / 2:
                continue
            ctx.check(abs(float(s) - float(conv(t))) <= 0.0501, "second-axis", lambda: f"tick at {t} Hz labelled {s}, expected {float(conv(t)):.1f} ({typ})")
        if showc:
            n = sum(len(getattr(cc, "get_segments", lambda: [])()) for ax in axs for cc in ax.collections)
            pos = sorted(float(s[0][0]) for ax in axs for cc in ax.collections if hasattr(cc, "get_segments") for s in cc.get_segments())
            ctx.check(len(pos) == len(cen) and np.allclose(pos, sorted(cen)), "centre-lines", f"{n} centre lines for {len(cen)} centres")
            txt = sorted((t.get_position()[0], t.get_text()) for ax in axs for t in ax.texts)
            ctx.check(len(txt) == len(cen) and np.allclose([t[0] for t in txt], sorted(cen)), "centre-labels", f"{len(txt)} labels for {len(cen)} centres, or not at the centres")
            ctx.check(all(f"{p:.1f}" in t for p, t in txt), "centre-labels", lambda: f"labels {txt[:3]}")
        else:
            ctx.check(not any(ax.texts or [q for q in ax.collections if hasattr(q, "get_segments")] for ax in axs), "centre-lines", "centre frequencies drawn although not asked for")
        run_size(ctx, fig, size)
    elif m == 1:
        T, D = int(rng.integers(1, 60)), int(rng.integers(1, 30))
        if rng.uniform() < 0.1:
            T = int(S.pick(rng, [512, 1024, 2000, 2500, 5000, 10001]))
        elif rng.uniform() < 0.05:
            D = int(S.pick(rng, [64, 128, 257]))
        F = rng.standard_normal((T, D)) * 10 ** rng.uniform(-3, 3)
        ctx.describe(fn="show_features", T=T, D=D)
        k0 = F.copy()
        cm = S.pick(rng, ["jet", "viridis", "gray"])
        dflt = rng.uniform() < 0.2
        if dflt:
            ctx.call(vis.show_features, F, title, yl, xl)
            size, cm = (14, 4), "jet"
        else:
            ctx.call(vis.show_features, F, title, yl, xl, figsize=size, cmap=cm)
        fig = fig_of(ctx, plt, shows)
        same(ctx, k0, F, "feats")
        ax = [a for a in fig.axes if a.images]
        ctx.check(len(ax) == 1 and len(ax[0].images) == 1, "features-image", "no single image")
        ax = ax[0]
        im = ax.images[0]
        ctx.check(np.array_equal(image_rows(ax, im), k0.T), "features-image", lambda: f"image of shape {np.shape(im.get_array())} does not show the {T}x{D} features with coefficient 0 at the bottom")
        x0, x1 = ax.get_xlim()
        ctx.check(x0 < x1, "features-order", "frames run backwards")
        ctx.check((ax.get_title(), ax.get_ylabel(), ax.get_xlabel()) == (title, yl, xl), "labels", lambda: f"{(ax.get_title(), ax.get_ylabel(), ax.get_xlabel())}")
        ctx.check(im.get_cmap().name == cm, "cmap", im.get_cmap().name)
        run_size(ctx, fig, size)
    else:
        Fq, T = int(rng.integers(2, 60)), int(rng.integers(2, 60))
        if rng.uniform() < 0.1:
            Fq, T = int(S.pick(rng, [129, 513, 1025])), int(S.pick(rng, [300, 1100]))
        P = rng.exponential(1.0, (Fq, T)) * 10.0 ** rng.uniform(-4, S.pick(rng, [6, 6, 12]), (Fq, 1))
        kind = S.pick(rng, ["pos", "pos", "complex", "zeros", "negative", "all-zero"])
        if kind == "complex":
            P = P * np.exp(1j * rng.uniform(0, 6, P.shape))
        elif kind == "zeros":
            P[rng.uniform(size=P.shape) < 0.3] = 0
        elif kind == "negative":
            P = P * np.sign(rng.standard_normal(P.shape))
        elif kind == "all-zero":
            P = np.zeros((Fq, T))
        dbf = float(S.pick(rng, [80.0, 80.0, 60.0, 120.0, 20.0, 96.5, 150.0, 200.0, 300, 5]))
        xmin, xmax, ymin, ymax = float(rng.uniform(0, 1)), float(rng.uniform(2, 5)), float(rng.uniform(0, 100)), float(rng.uniform(4000, 8000))
        cb = bool(rng.uniform() < 0.5)
        ctx.describe(fn="show_spectrogram", F=Fq, T=T, data=kind, dbf=dbf, colorbar=cb)
        k0 = P.copy()
        a = dict(dbf=dbf, xlabel=xl, ylabel=yl, title=title, figsize=size, colorbar=cb, cmap=S.pick(rng, ["jet", "viridis"]))
        if rng.uniform() < 0.2:
            a = dict(colorbar=cb)
            if rng.uniform() < 0.5:
                a, cb = {}, True
            dbf, xl, yl, title, size = 80.0, "Time (s)", "Frequency (Hz)", "Mel spectrogram (dB)", (14, 4)
        ctx.call(vis.show_spectrogram, P, 16000, xmin, xmax, ymin, ymax, **a)
        fig = fig_of(ctx, plt, shows)
        same(ctx, k0, P, "spectrogram")
        ax = [q for q in fig.axes if q.images]
        ctx.check(len(ax) >= 1, "spectrogram-image", "no image")
        ax = ax[0]
        im = ax.images[0]
        mag = np.abs(k0)
        want = 10 * np.log10(np.maximum(1e-10, mag) / max(1e-10, mag.max()))
        want = np.maximum(want, want.max() - dbf)
        got = image_rows(ax, im)
        ctx.check(got.shape == want.shape and np.allclose(got, want, atol=1e-6), "spectrogram-image", lambda: f"image does not show 10*log10(|S|/max) clipped to {dbf} dB")
        ctx.check(np.allclose(im.get_extent(), (xmin, xmax, ymin, ymax)), "extent", lambda: f"{im.get_extent()} instead of {(xmin, xmax, ymin, ymax)}")
        ctx.check((ax.get_title(), ax.get_ylabel(), ax.get_xlabel()) == (title, yl, xl), "labels", lambda: f"{(ax.get_title(), ax.get_ylabel(), ax.get_xlabel())}")
        ctx.check((len(fig.axes) > 1) == cb, "colorbar", f"{len(fig.axes)} axes with colorbar={cb}")
        run_size(ctx, fig, size)
