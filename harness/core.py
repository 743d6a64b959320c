"""Runner: drives a property's workload in worker processes under monitors.

A property module provides
    ID, TITLE_RULE (what a case is / what makes it non-trivial), N = {"quick": n, "thorough": n}
    MIN = {counter: minimum for a conclusive quick run}
    run(ctx, rng, i)      one case: exercise spafe, let the oracles watch
Case i of a run is a pure function of (VERIF_SEED, property id, tier-independent index i), which is
also what a replay file records.
"""
import ctypes
import faulthandler
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
EVID = os.environ.get("VP_EVIDENCE", os.path.join(VERIF, "evidence"))
CPU_LIMIT = 150.0  # CPU seconds for one case (normal cases need < 2)
MAX_VIOLATIONS = 6


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(f"{key}: {msg}")
        self.key, self.msg = key, msg


class Skip(Exception):
    """The case turned out to be outside what the oracle can decide."""


class CpuLimit(BaseException):
    pass


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.ndarray):
        return f"<array {o.dtype} {o.shape}>"
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    if hasattr(o, "win_len") and hasattr(o, "win_hop"):
        return [o.win_len, o.win_hop, o.win_type]
    return repr(o)[:200]


class Ctx:
    """What the monitors observed in one worker (counters) and in the current case (description)."""

    def __init__(self):
        self.counters = {}
        self.distinct = set()
        self.samples = []
        self.desc = {}
        self.pending = []
        self.judged = 0

    # -- bookkeeping -------------------------------------------------------
    def begin(self):
        self.desc, self.pending, self.judged = {}, [], 0

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def describe(self, **kw):
        self.desc.update(kw)

    # -- verdicts ----------------------------------------------------------
    def ok(self, oracle, n=1):
        """an oracle evaluated to 'holds' on a non-trivial observation"""
        self.judged += n
        self.count("oracle:" + oracle, n)

    def report(self, key, msg):
        """violation seen inside a monitor (nested in the code under test): recorded, raised at the end"""
        self.pending.append((key, msg))

    def fail(self, key, msg):
        raise Violation(key, msg)

    def check(self, cond, key, msg=""):
        if not cond:
            raise Violation(key, msg() if callable(msg) else msg)
        self.ok(key)

    def call(self, fn, *a, **k):
        """a call that must succeed"""
        if fn is None:
            raise Skip("helper is gone")  # an internal helper that was legitimately moved
        try:
            return fn(*a, **k)
        except (Violation, Skip):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(
                "exception",
                f"{getattr(fn, '__name__', fn)} raised {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})",
            )

    def close(self, got, want, key, rtol=1e-7, atol=0.0, scale=None, mask=None):
        """got == want up to rtol*scale + atol; scale defaults to max |want|"""
        got, want = np.asarray(got), np.asarray(want)
        if got.dtype == object:
            raise Violation(key, "result has dtype object")
        if got.shape != want.shape:
            raise Violation(key, f"shape {got.shape}, expected {want.shape}")
        if got.size == 0:
            return
        if mask is not None:
            mask = np.broadcast_to(mask, got.shape)
            if not mask.any():
                return
            got, want = got[mask], want[mask]
        if scale is None:
            fin = np.abs(want[np.isfinite(want)])
            scale = fin.max() if fin.size else 1.0
        else:
            scale = np.broadcast_to(scale, mask.shape)[mask] if mask is not None and np.ndim(scale) else scale
        with np.errstate(all="ignore"):
            same = (got == want) | (np.isnan(got) & np.isnan(want))
            bad = ~same & ~(np.abs(got - want) <= rtol * scale + atol)
        if bad.any():
            ix = np.unravel_index(int(np.argmax(bad)), got.shape)
            raise Violation(
                key,
                f"{int(bad.sum())}/{bad.size} entries differ; first at {tuple(int(v) for v in ix)}: got {got[ix]!r}, expected {want[ix]!r} (max |diff| {np.nanmax(np.abs(got-want)[bad]):.3g})",
            )
        self.ok(key)


def _digest(desc):
    return hashlib.md5(json.dumps(jsonable(desc), sort_keys=True).encode()).hexdigest()[:12]


def case_rng(seed, pid, i):
    return np.random.default_rng([int(seed) & 0x7FFFFFFF, zlib.crc32(pid.encode()), int(i)])


def run_case(prop, ctx, seed, i):
    """returns None or (key, msg)"""
    ctx.begin()
    rng = case_rng(seed, prop.ID, i)
    np.random.seed((seed * 7919 + i) % (2**31))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            prop.run(ctx, rng, i)
    except Violation as v:
        return (v.key, v.msg)
    except Skip as s:
        ctx.count("skipped:" + str(s)[:60])
        if ctx.pending:
            return ctx.pending[0]
        return None
    except CpuLimit:
        return ("non-termination", f"case used more than {CPU_LIMIT} s of CPU time")
    except (ValueError, TypeError, IndexError, KeyError, AttributeError, ArithmeticError) as e:
        # the oracles read every result of documented form (no such case on the unchanged tree): this one is not
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return ("unreadable-result", f"the oracle could not interpret the result: {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})")
    if ctx.pending:
        return ctx.pending[0]
    if ctx.judged:
        ctx.distinct.add(_digest(ctx.desc) if ctx.desc else str(i))
        if len(ctx.samples) < 2 and ctx.desc:
            ctx.samples.append(dict(case=i, **jsonable(ctx.desc)))
    return None


def _on_prof(signum, frame):
    raise CpuLimit()


def _worker(prop, seed, n, nxt, stop, progress, slot, out):
    faulthandler.enable()
    signal.signal(signal.SIGPROF, _on_prof)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    ctx = Ctx()
    viol, errs, done = [], [], 0
    try:
        if hasattr(prop, "setup"):
            prop.setup(ctx)
        while not stop.value:
            with nxt.get_lock():
                i = nxt.value
                nxt.value += 1
            if i >= n:
                break
            progress[slot] = i
            signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
            try:
                v = run_case(prop, ctx, seed, i)
            except CpuLimit:
                v = ("non-termination", "CPU limit")
            except Exception:
                errs.append((i, traceback.format_exc()))
                v = None
                if len(errs) > 3:
                    break
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            done += 1
            if v is not None:
                viol.append(dict(case=i, key=v[0], msg=v[1], desc=jsonable(ctx.desc)))
                with stop.get_lock():
                    pass
                if len(viol) >= 2:
                    stop.value = 1
                    break
        progress[slot] = -1
    except BaseException:
        errs.append((-1, traceback.format_exc()))
    with open(out, "wb") as f:
        pickle.dump(dict(counters=ctx.counters, distinct=ctx.distinct, samples=ctx.samples, viol=viol, errs=errs, done=done), f)


def import_spafe():
    """import every spafe module from REPO's sources, ignoring any cached bytecode of it"""
    import importlib, pkgutil
    import scipy.signal, scipy.fftpack, scipy.linalg, scipy.sparse, scipy.stats, scipy.stats.mstats, typing_extensions  # noqa

    sys.dont_write_bytecode = True
    prefix, sys.pycache_prefix = sys.pycache_prefix, os.path.join(tempfile.gettempdir(), "vp_no_such_cache")
    sys.path.insert(0, REPO)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        spafe = importlib.import_module("spafe")
        for m in pkgutil.walk_packages(spafe.__path__, "spafe."):
            importlib.import_module(m.name)
    sys.pycache_prefix = prefix


def load_known():
    """known-findings file: 'open: property=<id> key=<key> ...' lines suppress exactly that key"""
    known = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("open: "):
                parts = dict(t.split("=", 1) for t in line.split()[1:3])
                known[(parts["property"], parts["key"])] = line.strip()
    return known


def main(prop, tier, seed, replay=None, jobs=8, n_override=None, start=0):
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    import_spafe()
    import spafe

    if not os.path.abspath(spafe.__file__).startswith(os.path.abspath(REPO) + os.sep):
        print(f"harness error: spafe imported from {spafe.__file__}, not from {REPO}")
        return 3
    if hasattr(prop, "preload"):
        prop.preload()

    if replay:
        rec = json.load(open(replay))
        signal.signal(signal.SIGPROF, _on_prof)
        ctx = Ctx()
        if hasattr(prop, "setup"):
            prop.setup(ctx)
        v = run_case(prop, ctx, rec["seed"], rec["case"])
        print(json.dumps(jsonable(ctx.desc)))
        if v:
            print(f"{v[0]}: {v[1]}")
            print(f"VIOLATION property={prop.ID} replay={replay}")
            return 1
        print("replay: property held")
        return 0

    n = n_override or prop.N[tier]
    jobs = min(jobs, getattr(prop, "JOBS", jobs))
    mpctx = mp.get_context("fork")
    nxt, stop = mpctx.Value("q", start), mpctx.Value("i", 0)
    progress = mpctx.Array("q", [-1] * 64, lock=False)
    tmp = tempfile.mkdtemp(prefix="vp_")
    outs, procs, crashed, errs = [], {}, [], []
    slot = 0

    def spawn():
        nonlocal slot
        out = os.path.join(tmp, f"{slot}.pkl")
        outs.append(out)
        p = mpctx.Process(target=_worker, args=(prop, seed, n + start, nxt, stop, progress, slot, out))
        p.start()
        procs[p] = slot
        slot += 1

    sys.stdout.flush()
    for _ in range(jobs):
        spawn()
    while procs:
        for p in list(procs):
            p.join(0.05)
            if p.is_alive():
                continue
            s = procs.pop(p)
            if p.exitcode != 0 or not os.path.exists(os.path.join(tmp, f"{s}.pkl")):
                sig = -(p.exitcode or 0)
                if sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
                    crashed.append(dict(case=int(progress[s]), key="crash", msg=f"interpreter died with signal {sig}", desc={}))
                    if slot < 60 and not stop.value and len(crashed) < 3:
                        spawn()
                else:
                    errs.append((int(progress[s]), f"worker ended with code {p.exitcode}"))
    counters, distinct, samples, viol, done = {}, set(), [], list(crashed), len(crashed)
    for o in outs:
        if os.path.exists(o):
            r = pickle.load(open(o, "rb"))
            for k, v in r["counters"].items():
                counters[k] = counters.get(k, 0) + v
            distinct |= r["distinct"]
            samples += r["samples"]
            viol += r["viol"]
            errs += r["errs"]
            done += r["done"]
            os.unlink(o)
    os.rmdir(tmp)
    known = load_known()
    viol.sort(key=lambda v: v["case"])
    listed = [v for v in viol if (prop.ID, v["key"]) in known]
    viol = [v for v in viol if (prop.ID, v["key"]) not in known]

    floor = {} if (n_override or viol or counters.get("skipped:helper is gone")) else prop.MIN
    low = {k: (counters.get(k, 0), m) for k, m in floor.items() if counters.get(k, 0) < m}
    ev = dict(
        property=prop.ID,
        tier=tier,
        seed=int(seed),
        level="exploration",
        coverage=dict(
            evaluations=int(done),
            distinct_nontrivial=len(distinct),
            rule=prop.RULE,
            samples=samples[:6] or [{"note": "no case was judged"}],
            observed={k: int(v) for k, v in sorted(counters.items())},
        ),
        assumptions=getattr(prop, "ASSUME", []) + ["numpy, scipy and the Python interpreter are trusted", "sampled inputs: holds on the executions observed, not proved for all"],
        wall_s=round(time.time() - t0, 2),
        violations=len(viol),
    )
    with open(os.path.join(EVID, prop.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop.ID} {tier} seed={seed}: {done} cases, {len(distinct)} distinct non-trivial, {sum(v for k, v in counters.items() if k.startswith('oracle:'))} oracle verdicts, {sum(v for k, v in counters.items() if k.startswith('call:'))} monitored calls, {ev['wall_s']} s")
    for v in listed:
        print(f"KNOWN-FINDING: property={prop.ID} {v['key']} {v['msg']}")
    if viol:
        rd = os.path.join(EVID, "replays")
        os.makedirs(rd, exist_ok=True)
        for v in viol[:MAX_VIOLATIONS]:
            path = os.path.join(rd, f"{prop.ID}-{seed}-{v['case']}.json")
            json.dump(dict(property=prop.ID, seed=int(seed), **v), open(path, "w"), indent=1)
            print(f"  case {v['case']}: {v['key']}: {v['msg'][:600]}")
            print(f"VIOLATION property={prop.ID} replay={path}")
        return 1
    if errs:
        for i, e in errs[:3]:
            print(f"harness error in case {i}:\n{e}")
        return 3
    if low:
        print(f"INCONCLUSIVE: monitors observed too little: {low}")
        return 2
    return 0
