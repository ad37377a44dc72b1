"""Run / search / shrink / report.  One integer (VERIF_SEED) decides everything.

A *plan* is a JSON value: the model configuration, the operation list, the faults and the schedule of
one simulated run.  `prop.gen(rng, i)` draws a plan from a PRNG derived from (property, seed, i);
`prop.run(plan, ctx)` is a pure function of the plan and of the code under test.  Every run executes
in its own forked child, so nothing one run leaves behind can reach another.
"""
import copy
import hashlib
import json
import os
import pickle
import random
import resource
import select
import signal
import sys
import time
import traceback
from collections import Counter

from . import env

PY = "/opt/venv/bin/python"


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, cls, detail=""):
        super().__init__(f"{cls}: {detail}")
        self.cls = cls
        self.detail = str(detail)[:2000]


class SutError(Exception):
    """The code under test raised where the plan injected nothing."""

    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


class Ctx:
    """Per-run recorder: event log (digest), fault and probe counters, distinct-state measure."""

    def __init__(self, keep_log=False, known_keys=()):
        self.known_keys = set(known_keys)
        self.h = hashlib.sha256()
        self.n_events = 0
        self.keep = keep_log
        self.lines = []
        self.faults = Counter()
        self.probes = Counter()
        self.sim_time = 0.0
        self.marks = []
        self.known = Counter()
        self.nontrivial = False

    def log(self, *parts):
        s = " ".join(str(p) for p in parts)
        self.h.update(s.encode())
        self.h.update(b"\n")
        self.n_events += 1
        if self.keep:
            self.lines.append(s)

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def mark(self, s):
        """Contributes to the 'distinct interleavings / states' measure of this run."""
        self.marks.append(str(s))

    def violate(self, cls, detail="", key=None):
        """Report a violation; one that known_findings.json lists under `key` is only counted."""
        if key is not None and key in self.known_keys:
            self.known[key] += 1
            return
        raise Violation(cls, detail)

    def digest(self):
        return self.h.hexdigest()[:24]

    def shape(self):
        return hashlib.sha256("|".join(self.marks).encode()).hexdigest()[:16]


def thash(*tensors):
    """Content hash of tensors (NaN-safe, bitwise)."""
    import torch

    h = hashlib.sha256()
    for t in tensors:
        if t is None:
            h.update(b"none")
            continue
        if isinstance(t, torch.Tensor):
            t = t.detach().cpu().contiguous()
            h.update(str((tuple(t.shape), str(t.dtype))).encode())
            h.update(t.numpy().tobytes())
        else:
            h.update(repr(t).encode())
    return h.hexdigest()[:16]


ON_RESET = []


def reset_world(seed):
    """Put every ambient generator and global switch into a state that is a function of the plan."""
    import numpy as np
    import torch

    random.seed(seed)
    np.random.seed(seed % 2**32)
    torch.manual_seed(seed)
    torch.set_grad_enabled(True)
    torch.set_default_dtype(torch.float32)
    for f in ON_RESET:
        f()


_known = None


def known_findings():
    global _known
    if _known is None:
        p = os.path.join(env.VERIF, "known_findings.json")
        _known = json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}
    return _known


def known_keys(pid):
    return [f["key"] for f in known_findings()["findings"] if f["property"] == pid]


def plan_rng(prop_id, seed, i):
    return random.Random(f"{prop_id}:{seed}:{i}")


def _raised_by_repo(e):
    """Where in the code under test an exception was raised that no plan asked for (None: the harness is to blame)."""
    if type(e).__name__.startswith("Injected") or isinstance(e, MemoryError):
        return None
    tb = traceback.extract_tb(e.__traceback__)
    sim = os.path.join(env.VERIF, "sim") + os.sep
    last = max((i for i, f in enumerate(tb) if f.filename.startswith(env.REPO + os.sep)), default=None)
    if last is None or any(f.filename.startswith(sim) for f in tb[last + 1 :]):
        return None
    return f"{os.path.relpath(tb[last].filename, env.REPO)}:{tb[last].name}"


def execute(prop, plan, keep_log=False):
    """Run one plan in this process.  Returns a JSON-able result."""
    ctx = Ctx(keep_log, known_keys(prop.ID))
    res = {"violation": None, "error": None}
    try:
        reset_world(int(plan.get("seed", 0)))
        ctx.log("plan", json.dumps(plan, sort_keys=True))
        try:
            prop.run(copy.deepcopy(plan), ctx)
        except SutError as e:
            exc = e.exc
            tb = traceback.extract_tb(exc.__traceback__)
            where = [f for f in tb if f.filename.startswith(env.REPO)]
            loc = f" in {os.path.relpath(where[-1].filename, env.REPO)}:{where[-1].name}" if where else ""
            raise Violation(f"unexpected-exception:{type(exc).__name__}", f"{str(exc)[:500]}{loc}")
        except Violation:
            raise
        except Exception as e:
            loc = _raised_by_repo(e)
            if loc is None:
                raise
            raise Violation(f"unexpected-exception:{type(e).__name__}", f"{str(e)[:500]} in {loc}") from e
    except Violation as v:
        res["violation"] = {"cls": v.cls, "detail": v.detail}
        ctx.log("VIOLATION", v.cls)
    except BaseException as e:  # harness trouble: never a verdict
        res["error"] = "".join(traceback.format_exception(e))[-4000:]
    res.update(
        digest=ctx.digest(),
        events=ctx.n_events,
        faults=dict(ctx.faults),
        probes=dict(ctx.probes),
        sim_time=ctx.sim_time,
        shape=ctx.shape(),
        known=dict(ctx.known),
        nontrivial=bool(ctx.nontrivial),
    )
    if keep_log:
        res["log"] = ctx.lines
    return res


def _read_all(fd, pid, deadline):
    buf = b""
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            return None
        r, _, _ = select.select([fd], [], [], min(left, 5.0))
        if not r:
            continue
        c = os.read(fd, 1 << 16)
        if not c:
            return buf
        buf += c


CPU_S = int(os.environ.get("SIM_CPU_S", "80"))  # processor time, so that a busy machine changes nothing


def out_of_time(status):
    return os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGXCPU


def no_progress():
    return {"cls": "no-progress", "detail": f"a run that takes a few seconds is still going on after {CPU_S} s of processor time"}


def reap(pid):
    """Wait for a simulated process."""
    if out_of_time(os.waitpid(pid, 0)[1]):
        v = no_progress()
        raise Violation(v["cls"], v["detail"])


def run_isolated(prop, plan, timeout=300.0):
    """execute() in a forked child.  Hang or death of the child is an error, never a pass."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CPU, (CPU_S, CPU_S + 5))
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            res = execute(prop, plan)
            data = json.dumps(res).encode()
            off = 0
            while off < len(data):
                off += os.write(w, data[off:])
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.close(w)
    data = _read_all(r, pid, time.monotonic() + timeout)
    os.close(r)
    if data is None:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return {"violation": None, "error": f"run exceeded {timeout}s wall time", "hang": True}
    _, st, ru = os.wait4(pid, 0)
    if os.environ.get("SIM_RUSAGE"):
        sys.stderr.write(f"cpu {ru.ru_utime + ru.ru_stime:.1f} {ru.ru_maxrss >> 10}\n")
    if not data and out_of_time(st):
        return {"violation": no_progress(), "error": None, "digest": "no-progress", "events": 0, "faults": {}, "probes": {}, "sim_time": 0, "shape": "no-progress", "known": {}, "nontrivial": False}
    if not data:
        return {"violation": None, "error": f"run died without a result (wait status {st})"}
    return json.loads(data)


def worker(prop, seed, indices, out_fd, soft_deadline):
    for i in indices:
        if time.monotonic() > soft_deadline:
            break
        plan = prop.gen(plan_rng(prop.ID, seed, i), i)
        plan.setdefault("prop", prop.ID)
        res = run_isolated(prop, plan)
        res["i"] = i
        _write_big(out_fd, pickle.dumps(res))
        if res.get("error") or res.get("violation"):
            break


def _write_big(fd, rec):
    data = len(rec).to_bytes(4, "big") + rec
    off = 0
    while off < len(data):
        off += os.write(fd, data[off:])


def sweep(prop, seed, n, jobs, soft_s):
    """Run plans 0..n-1 over `jobs` worker processes.  Results do not depend on `jobs`."""
    deadline = time.monotonic() + soft_s
    procs = []
    for w in range(jobs):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                worker(prop, seed, range(w, n, jobs), wr, deadline)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(wr)
        procs.append([pid, r, b""])
    results, open_fds = [], {p[1]: p for p in procs}
    while open_fds:
        rs, _, _ = select.select(list(open_fds), [], [], 10.0)
        for fd in rs:
            p = open_fds[fd]
            c = os.read(fd, 1 << 16)
            if not c:
                os.close(fd)
                del open_fds[fd]
                continue
            p[2] += c
            while len(p[2]) >= 4:
                ln = int.from_bytes(p[2][:4], "big")
                if len(p[2]) < 4 + ln:
                    break
                results.append(pickle.loads(p[2][4 : 4 + ln]))
                p[2] = p[2][4 + ln :]
    bad = []
    for p in procs:
        _, st = os.waitpid(p[0], 0)
        if st != 0:
            bad.append(st)
    results.sort(key=lambda r: r["i"])
    return results, bad


# ---------------------------------------------------------------- shrinking


def _same(res, cls):
    return bool(res.get("violation")) and res["violation"]["cls"].split("|")[0] == cls.split("|")[0]


def shrink(prop, plan, cls, budget_s=45.0, max_runs=250):
    """Delta-debug the plan: fewer operations, fewer faults, smaller numbers, same violation class."""
    t_end = time.monotonic() + budget_s
    n = 0

    def ok(p):
        nonlocal n
        if n >= max_runs or time.monotonic() > t_end:
            return False
        n += 1
        return _same(run_isolated(prop, p, timeout=60), cls)

    best = copy.deepcopy(plan)
    list_keys = [k for k in ("ops", "schedule", "faults", "threads") if isinstance(best.get(k), list)]
    changed = True
    while changed and n < max_runs and time.monotonic() < t_end:
        changed = False
        for key in list_keys:
            size = max(1, len(best[key]) // 2)
            while size >= 1:
                j = 0
                while j < len(best[key]):
                    cand = copy.deepcopy(best)
                    del cand[key][j : j + size]
                    if len(cand[key]) >= getattr(prop, "MIN_OPS", 0) and ok(cand):
                        best, changed = cand, True
                    else:
                        j += size
                size //= 2
        for j, op in enumerate(best.get("ops", [])):
            if isinstance(op, dict) and op.get("fault"):
                cand = copy.deepcopy(best)
                cand["ops"][j].pop("fault")
                if ok(cand):
                    best, changed = cand, True
        for cand in getattr(prop, "simplify", lambda p: [])(best):
            if ok(cand):
                best, changed = cand, True
                break
    return best, n
