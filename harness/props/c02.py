"""C02 thread safety: seeded interleavings of concurrent calls in a fresh process against the same calls run alone."""
import dis
import os
import pickle
import random
import resource
import select
import sys
import threading
import time
import warnings
import zlib

import numpy as np

import calls as K
import core
import signals as S
from core import Skip, Violation
from props import c01

ID = "C02"
RULE = "case = 2 to 6 threads, each making 1 to 4 calls out of a pool (the same call, one function with several signals, variants that share signal, window and filter bank objects, or a mix), run first thing in a freshly forked process; three quarters of the cases under a seeded scheduler that lets one thread run at a time and hands over at random lines or bytecodes of spafe, one quarter free running with a microsecond switch interval and random yields; every result, read after all threads ended, is compared with the same call alone in another fresh process; non-trivial when threads were actually interleaved inside spafe"
N = {"quick": 1600, "thorough": 12800}
MIN = {"oracle:concurrent-equals-alone": 2200, "switches": 5000, "interleaved-cases": 180}
ROOT = os.path.join(os.path.abspath(core.REPO), "spafe") + os.sep


def setup(ctx):
    c01.start_server()


ATOM = (type(None), bool, int, float, complex, str, bytes, tuple, frozenset, type(sys), type(lambda: 0), type(len), np.ufunc)


def shared(v):
    """may two threads meet in this object?"""
    if isinstance(v, type):
        return (v.__module__ or "").startswith("spafe") and any(isinstance(q, (dict, list, set, bytearray, np.ndarray)) for k, q in vars(v).items() if not k.startswith("__"))
    if isinstance(v, type(lambda: 0)):
        return False
    if isinstance(v, dict) and v and all(isinstance(q, str) for q in v.values()):
        return False  # a table of texts
    return not isinstance(v, ATOM) and not (type(v).__module__ or "").startswith("typing")


def hot_code(frame):
    """does this code use state that outlives the call (module globals, closures, mutable defaults, attributes of functions)?"""
    co, g = frame.f_code, frame.f_globals
    for ins in dis.get_instructions(co):
        if ins.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
            return True
        if ins.opname in ("LOAD_GLOBAL", "LOAD_NAME") and ins.argval in g:
            v = g[ins.argval]
            if shared(v) or isinstance(v, type(lambda: 0)) and v.__dict__ and (v.__module__ or "").startswith("spafe"):
                return True
    if any(n in frame.f_locals and shared(frame.f_locals[n]) and not isinstance(frame.f_locals[n], np.ndarray) for n in co.co_freevars):
        return True
    f = g.get(co.co_name)
    return isinstance(f, type(lambda: 0)) and any(shared(d) for d in (f.__defaults__ or ()) + tuple((f.__kwdefaults__ or {}).values()))


class Sched:
    """one thread runs at a time; a running thread hands over at trace points chosen by the seed"""

    def __init__(self, k, seed, p, free, opcodes):
        self.r = random.Random(seed)
        self.p, self.free, self.opcodes = p, free, opcodes
        self.sem = [threading.Semaphore(0) for _ in range(k)]
        self.alive = list(range(k))
        self.points = self.switches = 0
        self.trace_hash = 0
        self.stalled = False
        self.last = None
        self.hot = {}
        self.hot_points = 0

    def wait(self, t):
        seen = self.points
        while not self.sem[t].acquire(timeout=0.5):
            if self.free:
                return
            if self.points == seen:  # the running thread is blocked (a lock held by a paused one): let everybody run
                self.stalled = self.free = True
                for s in self.sem:
                    s.release()
                return
            seen = self.points

    def start(self, t):
        if not self.free:
            self.wait(t)

    def go(self):
        if not self.free:
            self.sem[self.r.choice(self.alive)].release()

    def point(self, t, where, hot=False):
        self.points += 1
        p = self.p
        if hot:
            self.hot_points += 1
            p = max(p, 0.25)
        if self.free:
            if self.last != t:
                self.last = t
                self.switches += 1
                self.trace_hash = zlib.crc32(b"%d:%d" % (t, where), self.trace_hash)
            if self.r.random() < p:
                time.sleep(0)
            return
        if self.switches < 3000 and self.r.random() < p:
            n = self.r.choice(self.alive)
            if n != t:
                self.switches += 1
                self.trace_hash = zlib.crc32(b"%d:%d" % (n, where), self.trace_hash)
                self.sem[n].release()
                self.wait(t)

    def end(self, t):
        self.alive.remove(t)
        if not self.free and self.alive:
            self.sem[self.r.choice(self.alive)].release()

    def tracer(self, t):
        seen = {}

        def local(frame, event, arg):
            n = seen[frame.f_code] = seen.get(frame.f_code, 0) + 1
            if n > 2500:  # a hot loop: enough handovers were possible here
                return None
            if event in ("line", "opcode", "return"):
                self.point(t, frame.f_lineno or 0, self.hot.get(frame.f_code, False))
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(ROOT):
                if seen.get(frame.f_code, 0) > 2500:
                    return None
                co = frame.f_code
                if co not in self.hot:
                    self.hot[co] = hot_code(frame)
                if self.opcodes or self.hot[co]:
                    frame.f_trace_opcodes = True
                self.point(t, frame.f_lineno or 0, self.hot[co])
                return local
            return None

        return glob


def concurrent(pool, plan, seed, p, free, opcodes):
    """runs in the forked child: results[thread] = [(ok, result)]"""
    k = len(plan)
    sc = Sched(k, seed, p, free, opcodes)
    out = [[] for _ in range(k)]
    if free:
        sys.setswitchinterval(1e-6)
        bar = threading.Barrier(k)

    def body(t):
        sc.start(t)
        try:
            if free:
                bar.wait()
            sys.settrace(sc.tracer(t))
            try:
                for c in plan[t]:
                    try:
                        out[t].append((True, pool[c].perform()))
                    except Exception as e:
                        out[t].append((False, f"{type(e).__name__}: {e}"))
            finally:
                sys.settrace(None)
        finally:
            sc.end(t)

    th = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(k)]
    for x in th:
        x.start()
    sc.go()
    for x in th:
        x.join()
    return out, sc.points, sc.switches, sc.trace_hash, sc.stalled, sc.hot_points


def in_child(*a):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (100, 100))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                b = pickle.dumps(concurrent(*a))
            off = 0
            while off < len(b):
                off += os.write(w, b[off : off + 65536])
        except BaseException as e:
            sys.stderr.write(f"c02 child: {type(e).__name__}: {e}\n")
        finally:
            os._exit(0)
    os.close(w)
    chunks, t0, hung = [], time.time(), False
    while True:
        if select.select([r], [], [], 5)[0]:
            c = os.read(r, 1 << 20)
            if not c:
                break
            chunks.append(c)
        elif time.time() - t0 > 60:
            cpu = _cpu(pid)
            time.sleep(5)
            if _cpu(pid) - cpu < 3 and not select.select([r], [], [], 0)[0]:  # blocked, not slow
                hung = True
                os.kill(pid, 9)
                break
            if time.time() - t0 > 300:
                os.kill(pid, 9)
                break
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if hung:
        raise Violation("deadlock", "the threads block each other for ever")
    sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
    if sig in (11, 7, 6, 8, 4):
        raise Violation("crash", f"interpreter died with signal {sig} under concurrent calls")
    if sig or not chunks:
        raise Skip("the concurrent run did not finish")
    return pickle.loads(b"".join(chunks))


def _cpu(pid):
    f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
    return int(f[11]) + int(f[12])


def share(base, v, what):
    """let the variant use the very same argument objects where it does not differ"""
    if what != "data":
        for j, (a, b) in enumerate(zip(base.args, v.args)):
            if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and (a == b).all():
                v.args[j] = a
    for q in ("window", "fbanks"):
        if q != what and q in v.kw and v.kw[q] is not None and q in base.kw:
            v.kw[q] = base.kw[q]


def run(ctx, rng, i):
    mode = ["same", "signals", "variants", "mixed", "banks"][i % 5]
    base = (K.bank(rng) if i % 10 < 5 or rng.uniform() < 0.5 else K.util(rng)) if mode == "banks" else K.any_call(rng)
    pool, notes = [base], []
    if mode == "signals":
        for _ in range(int(rng.integers(1, 4))):
            c = base.clone()
            if c.arrays() and c.name != "lpc2lpcc" and isinstance(c.args[0], np.ndarray) and c.args[0].dtype == float:
                a = c.args[0]
                c.args[0] = rng.permutation(a.ravel()).reshape(a.shape) if rng.uniform() < 0.5 else a[::-1].copy()
                share(base, c, "data")
            else:
                c, w = K.variant(rng, base)
                share(base, c, w)
            pool.append(c)
    elif mode in ("variants", "banks"):
        for _ in range(int(rng.integers(1, 4)) if mode != "banks" or i % 2 else int(rng.integers(4, 9))):
            c, w = K.variant(rng, pool[-1] if rng.uniform() < 0.5 else base)
            notes.append(w)
            share(base, c, w)
            pool.append(c)
    elif mode == "mixed":
        for _ in range(int(rng.integers(1, 4))):
            pool.append(K.any_call(rng))
    ref, hot, todo = {}, 0, 1
    while todo:
        todo -= 1
        seen = hot
        t0 = time.time()
        hot += attempt(ctx, rng, i, mode, pool, notes, ref)
        if seen:
            SPENT[0] += time.time() - t0
        if hot and not seen and SPENT[0] < 100:
            # code that keeps state between calls was executed: look harder, with more keys for it
            for _ in range(6):
                c, w = K.variant(rng, pool[int(rng.integers(len(pool)))])
                share(base, c, w)
                pool.append(c)
            todo = 6
            ctx.count("cases-with-shared-state")


SPENT = [0.0]  # time of this worker on extra attempts
STALLS = [0]  # schedules given up because the code synchronises by itself: then let the threads run freely


def attempt(ctx, rng, i, mode, pool, notes, ref):
    k = int(rng.integers(2, 7))
    plan = [[int(c) for c in rng.integers(0, len(pool), int(rng.integers(1, 5 if len(pool) < 5 else 12)))] for _ in range(k)]
    free, opcodes = rng.uniform() < (0.25 if STALLS[0] < 12 else 0.95), rng.uniform() < 0.3
    p = float(np.exp(rng.uniform(np.log(0.005), np.log(0.6))))
    seed = int(rng.integers(1 << 30))
    ctx.describe(mode=mode, calls=[c.name for c in pool], variants=notes, threads=k, plan=plan, free_running=bool(free), opcodes=bool(opcodes), p=round(p, 4), i=i)
    out, points, switches, h, stalled, hot = in_child(pool, plan, seed, p, bool(free), bool(opcodes))
    ctx.count("points", points)
    ctx.count("switches", switches)
    ctx.count("stalled-schedules", int(stalled))
    STALLS[0] += int(stalled)
    ctx.count("points-at-shared-state", hot)
    if switches >= 2:
        ctx.count("interleaved-cases")
        ctx.describe(interleaving=f"{h:08x}")
    for t in range(k):
        for j, c in enumerate(plan[t]):
            if c not in ref:
                ref[c] = c01.fresh(pool[c])
            ok0, want = ref[c]
            ok, got = out[t][j]
            who = f"thread {t} call {j}: {pool[c].name}"
            if not ok0:
                continue
            if not ok:
                raise Violation("exception", f"{who} raised {got} with other threads running, but not alone")
            m = K.same_result(got, want)
            if m:
                raise Violation("corrupted", f"{who} with other threads running: {m}")
            if switches >= 2:
                ctx.ok("concurrent-equals-alone")
    return hot
