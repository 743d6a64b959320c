"""C01 purity: histories of near-identical calls against the same calls in freshly forked processes."""
import copy
import os
import pickle
import random
import signal
import struct
import sys
import warnings

import numpy as np

import api
import calls as K
import monitor
import signals as S
from core import Skip, Violation

ID = "C01"
RULE = "case = a history of about ten public calls built from one base call and variants of it that differ in one argument, with in-place edits of the same array objects, scribbling over earlier results, failing calls and array re-creation in between; every result is compared with the same call in a process forked before any call; monitors watch every nested public call for modified arguments; non-trivial when at least one result was compared"
N = {"quick": 2700, "thorough": 28800}
MIN = {"oracle:history-independent": 6000, "oracle:no-shared-memory": 6000, "oracle:globals": 6000, "oracle:args-unchanged": 5000, "repeat": 4500, "inplace": 1300, "oracle:special-args": 500}

_srv = {}


def _serve(r, w):
    """pristine process: forks one child per requested call"""
    import resource

    while True:
        h = _read(r, 8)
        if h is None:
            os._exit(0)
        data = _read(r, struct.unpack("q", h)[0])
        pr, pw = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        out = (True, pickle.loads(data).perform())
                    b = pickle.dumps(out)
                except Exception as e:
                    b = pickle.dumps((False, f"{type(e).__name__}: {e}"))
                os.close(pr)
                off = 0
                while off < len(b):
                    off += os.write(pw, b[off : off + 65536])
            finally:
                os._exit(0)
        os.close(pw)
        chunks = []
        while True:
            c = os.read(pr, 1 << 20)
            if not c:
                break
            chunks.append(c)
        os.close(pr)
        os.waitpid(pid, 0)
        b = b"".join(chunks)
        os.write(w, struct.pack("q", len(b)))
        off = 0
        while off < len(b):
            off += os.write(w, b[off : off + 65536])


def _read(fd, n):
    b = b""
    while len(b) < n:
        c = os.read(fd, min(1 << 20, n - len(b)))
        if not c:
            return None
        b += c
    return b


def fresh(call):
    b = pickle.dumps(call)
    b = struct.pack("q", len(b)) + b
    off = 0
    while off < len(b):
        off += os.write(_srv["w"], b[off : off + 65536])
    n = _read(_srv["r"], 8)
    ok, res = pickle.loads(_read(_srv["r"], struct.unpack("q", n)[0]))
    return ok, res


def start_server():
    a, b = os.pipe(), os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(a[1])
        os.close(b[0])
        _serve(a[0], b[1])
    os.close(a[0])
    os.close(b[1])
    _srv.update(w=a[1], r=b[0])


def setup(ctx):
    start_server()
    monitor.Spy(ctx, purity=True).install()


def globals_state():
    st = np.random.get_state()
    mpl = sys.modules.get("matplotlib")
    rc = {k: v for k, v in dict.items(mpl.rcParams) if k != "backend"} if mpl is not None else None
    return (dict(np.geterr()), st[1].tobytes(), st[2:], hash(random.getstate()), list(warnings.filters), os.getcwd(), str(np.get_printoptions()), dict(os.environ), sys.getrecursionlimit(), sys.getswitchinterval(), (sys.gettrace(), sys.getprofile()), signal.getsignal(signal.SIGINT), repr(rc))


def changed_globals(g0):
    g = globals_state()
    return [n for n, a, b in zip(("numpy error settings", "numpy random state", "numpy random position", "random state", "warning filters", "cwd", "print options", "environment", "recursion limit", "switch interval", "trace", "signal handlers", "matplotlib settings"), g, g0) if a != b]


def out_arrays(r):
    return list(monitor.arrays_in(r))


def plots(ctx, rng):
    """the plotting helpers draw and leave everything else alone"""
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    from spafe.utils import vis

    plt.close(plt.figure())
    k = int(rng.integers(3))
    X = np.abs(rng.standard_normal((int(rng.integers(3, 12)), int(rng.integers(9, 30))))) + 0.01
    fc = np.linspace(50, 4000, len(X))
    fr = np.linspace(0, 4000, X.shape[1])
    args = [X, fc, fr]
    keep = [a.copy() for a in args]
    g0 = globals_state()
    ctx.describe(plot=["show_fbanks", "show_spectrogram", "show_features"][k], shape=X.shape)
    if k == 0:
        ctx.call(vis.show_fbanks, X, fc, fr, fb_type=S.pick(rng, ["mel", "bark", "gamma", "lin"]), show_center_freqs=bool(rng.uniform() < 0.5))
    elif k == 1:
        ctx.call(vis.show_spectrogram, X, 8000, 0, 1, 0, 4000, dbf=float(S.pick(rng, [80.0, 20.0])), colorbar=bool(rng.uniform() < 0.5))
    else:
        ctx.call(vis.show_features, X, "t", "y", "x")
    d = changed_globals(g0)
    plt.close("all")
    ctx.check(not d, "globals", f"plotting changed {d}")
    ctx.check(all(np.array_equal(a, b) for a, b in zip(args, keep)), "args-unchanged", "a plotting helper modified its arguments")


def direct(ctx, rng, n):
    """single utility calls in many layouts: arguments, results, global state, and the same call again"""
    for _ in range(n):
        c = K.util(rng)
        keep = c.clone()
        g0 = globals_state()
        ctx.describe(direct=c.name)
        res = ctx.call(c.perform)
        d = changed_globals(g0)
        if d:
            raise Violation("globals", f"{c.name} changed {d}")
        for a, b in zip(c.args + list(c.kw.values()), keep.args + list(keep.kw.values())):
            if not monitor._same(a, monitor._freeze(b)):
                raise Violation("args-unchanged", f"{c.name} modified its argument")
        outs = out_arrays(res)
        for o in outs:
            for a in c.arrays():
                if np.shares_memory(o, a):
                    raise Violation("no-shared-memory", f"{c.name} returned memory of its argument")
        first = copy.deepcopy(res)
        for o in outs:
            if o.flags.writeable and o.dtype.kind in "fc":
                o[...] = np.nan
        keep_it = isinstance(res, (dict, list)) and not outs
        if isinstance(res, (dict, list)) and not keep_it:
            res.clear()
        again = ctx.call(c.perform)
        if keep_it:
            m = K.same_result(res, first)
            if again is res or m:
                raise Violation("no-shared-memory", f"{c.name} called a second time changed what the first call had returned: {m or 'same object'}")
        m = K.same_result(again, first)
        if m:
            raise Violation("history-independent", f"{c.name} called a second time (the first result was overwritten): {m}")
        ctx.ok("direct")


def special(ctx, rng):
    """signals with signed zeros, subnormals, NaN and infinities: whatever the call answers, it leaves them alone"""
    for _ in range(10):
        c = K.extractor(rng) if rng.uniform() < 0.8 else K.other(rng)
        if not c.args or not isinstance(c.args[0], np.ndarray) or c.args[0].dtype != float:
            continue
        x = c.args[0]
        for v in [[-0.0], [np.nan], [np.inf, -np.inf], [5e-324, -1e-310], [1e300, -1e300], [-0.0, np.nan, np.inf, 5e-324]][int(rng.integers(6))]:
            x[rng.uniform(size=len(x)) < float(S.pick(rng, [0.002, 0.2, 1.0]))] = v
        if "pre_emph" in c.kw:
            c.kw["pre_emph"] = bool(rng.uniform() < 0.5)
        if rng.uniform() < 0.3 and "fbanks" in c.kw:
            c.kw["fbanks"][0, :2] = [-0.0, np.nan]
        keep = c.clone()
        ctx.describe(special=c.name)
        g0 = globals_state()
        try:
            c.perform()
        except Exception:
            ctx.count("special-refused")
        d = changed_globals(g0)
        if d:
            raise Violation("globals", f"{c.name} changed {d}")
        for a, b in zip(c.args + list(c.kw.values()), keep.args + list(keep.kw.values())):
            if not monitor._same(a, monitor._freeze(b)):
                raise Violation("args-unchanged", f"{c.name} modified its argument (special float values)")
        ctx.ok("special-args")


def run(ctx, rng, i):
    # a recognisable front entry: moving any general filter to the front becomes visible
    warnings.simplefilter("ignore", ResourceWarning)
    if i % 29 == 28:
        return plots(ctx, rng)
    if i % 29 == 14:
        return special(ctx, rng)
    direct(ctx, rng, 12)
    long = i % 10 == 9
    base = K.any_call(rng) if not long else K.bank(rng) if rng.uniform() < 0.5 else K.util(rng)
    mode = i % 3
    pool = [base]
    notes = []
    for _ in range(int(rng.integers(2, 5)) if not long else 12):
        v, what = K.variant(rng, pool[int(rng.integers(len(pool)))] if rng.uniform() < 0.3 else base)
        pool.append(v)
        notes.append(what)
    if rng.uniform() < 0.4:
        pool.append(K.any_call(rng))
    ctx.describe(base=base.name, variants=notes, calls=[c.name for c in pool], mode=["clones", "shared-objects", "recreated"][mode], i=i)
    ref = []
    for c in pool:
        ok, r = fresh(c)
        if not ok:
            if c is not base:
                ref.append(None)
                continue
            raise Violation("exception", f"{c.name} raised {r}")
        ref.append(r)
    seq = [int(v) for v in rng.integers(0, len(pool), 8 if not long else 70)]
    seq = [0, 1] + seq + [0, 1, 0]
    live = [c.clone() for c in pool]
    held = []
    kept = []
    seen = set()
    for step, k in enumerate(seq):
        if ref[k] is None:
            continue
        if rng.uniform() < 0.15:
            bad = K.failing(rng)
            g0 = globals_state()
            try:
                bad.perform()
            except Exception:
                pass
            d = changed_globals(g0)
            if d:
                raise Violation("globals", f"{bad.name} (refused call) changed {d}")
            ctx.ok("globals-after-error")
        if mode == 0:
            c = live[k]
        elif mode == 1:
            # the objects of call 0 carry the values of call k (same id, same buffer, other content)
            c = pool[k].clone()
            for j, a in enumerate(c.args):
                o = live[0].args[j] if j < len(live[0].args) else None
                if isinstance(a, np.ndarray) and isinstance(o, np.ndarray) and o.shape == a.shape and o.dtype == a.dtype:
                    o[...] = a
                    c.args[j] = o
                    ctx.count("inplace")
            for q, a in c.kw.items():
                o = live[0].kw.get(q)
                if isinstance(a, np.ndarray) and isinstance(o, np.ndarray) and o.shape == a.shape and o.dtype == a.dtype:
                    o[...] = a
                    c.kw[q] = o
                elif hasattr(a, "win_len") and hasattr(o, "win_len"):
                    o.win_len, o.win_hop, o.win_type = a.win_len, a.win_hop, a.win_type
                    c.kw[q] = o
        else:
            c = pool[k].clone()  # fresh objects every time: addresses get reused
        g0 = globals_state()
        try:
            res = c.perform()
        except Exception as e:
            raise Violation("history-independent", f"step {step}: {c.name} raised {type(e).__name__}: {e} after a history of calls, but works in a fresh process")
        d = changed_globals(g0)
        if d:
            raise Violation("globals", f"{c.name} changed {d}")
        ctx.ok("globals")
        m = K.same_result(res, ref[k])
        if m:
            raise Violation("history-independent", f"step {step} of {seq}: {c.name} (variant {k}, {notes[k-1] if 0 < k <= len(notes) else 'base'}) {m} (in this history / in a fresh process)")
        ctx.ok("history-independent")
        if k in seen:
            ctx.count("repeat")
        seen.add(k)
        outs = out_arrays(res)
        for o in outs:
            for a in c.arrays():
                if np.shares_memory(o, a):
                    raise Violation("no-shared-memory", f"{c.name} returned memory of its argument")
            for other in held:
                if np.may_share_memory(o, other) and np.shares_memory(o, other):
                    raise Violation("no-shared-memory", f"{c.name} returned memory of an earlier result")
        ctx.ok("no-shared-memory")
        # scribble over what this call returned (kept alive) and over its arguments
        for o in outs:
            if o.flags.writeable and o.dtype.kind in "fc" and rng.uniform() < 0.7:
                o[...] = np.nan
            held.append(o)
        for name, obj, snap in kept:
            if obj is res or K.same_result(obj, snap):
                raise Violation("no-shared-memory", f"{c.name} changed what an earlier call of {name} had returned")
        if isinstance(res, (dict, list)):
            if outs or rng.uniform() < 0.5:
                res.clear()
            else:
                kept.append((c.name, res, copy.deepcopy(res)))
                ctx.count("kept-results")
        if mode == 2 and rng.uniform() < 0.5:
            for a in c.arrays():
                if a.flags.writeable and a.dtype.kind == "f":
                    a[...] = 7.0
        held = held[-12:]
