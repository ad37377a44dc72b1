"""C16  Results are never lost or mixed up: own directory per run, errors kept and re-raised, newest checkpoint loaded.

Runs of the experiment scripts are simulated as forked process lives on a scratch disk.  At chosen file
system steps the simulator fails the call (disk full, I/O error, permission), kills the process, or lets
another run with the same names act in between.
"""
import builtins
import errno
import json
import os
import shutil
import tempfile
import time
import types

from .. import env
from ..core import Violation, reap

ID = "C16"
N_QUICK = 1800
N_THOROUGH = 40000
RULE = "a run counts when at least two lives used the same names, or a life met a fault, and every file was accounted for afterwards"
MEASURE = "distinct sequences of (operation, fault kind, step, outcome) traces"
REAL = ["make_results_dir, save_args, catch_exception, catch_kb_interrupt, ensure_dir, mkdir_p, generate_run_base_dir, load_from_checkpoint", "os, shutil on a scratch directory"]
STUBS = ["disk faults, process death, directory listing order, clock (time stamps of checkpoints and runs)", "the checkpoint loader passed in by the caller"]
ASSUMPTIONS = ["creating a directory is atomic", "checkpoints have distinct modification times"]
PROBES = ["own directory", "killed", "disk fault", "overlapped", "error kept", "interrupt kept", "error while reporting", "shared directory", "checkpoint", "ensure", "run base", "file in the way"]
TIME_UNIT = "file system steps"
PRELOAD = ("exp_utils",)
MIN_OPS = 0

ENDS = ("none", "ok", "error", "error", "interrupt")


def gen_life(rng, peer=True):
    t = rng.random()
    op = {"id": rng.randrange(10**9), "kind": "run" if t < 0.75 else rng.choice(["ensure", "base"]), "end": rng.choice(ENDS), "keep": rng.random() < 0.2,
          "files": rng.randint(1, 3), "tag": rng.choice(["t", "t", "t", "u", None]), "debug": rng.random() < 0.15, "exp": rng.choice(["e", "e", "f"]), "events": [],
          "msg": rng.choice(["boom", "CUDA error: out of memory", "", "multi\nline", "ünïcode", "bad name \udcff"]), "exc": rng.choice(["Boom", "Boom", "none", "two", "key", "stop", "assert"]), "ts": rng.choice([None, 0, 10**9, rng.randrange(2 * 10**9)]),
          "sub": rng.choice([[], ["a"], ["a", "b"]]), "depth": rng.randint(0, 3), "block": rng.choice([None, None, 0, 1, 2])}
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        e = {"at": rng.randint(1, 9), "kind": rng.choice(["kill", "oserror", "oserror"] + (["peer", "peer", "peer"] if peer else [])), "errno": rng.choice(["ENOSPC", "EIO", "EACCES"])}
        if e["kind"] == "peer":
            e["peer"] = gen_life(rng, peer=False)
            if rng.random() < 0.7:
                e["peer"].update(kind=op["kind"], tag=op["tag"], exp=op["exp"], debug=op["debug"], keep=False, ts=op["ts"], sub=op["sub"], events=[])
            if e["peer"]["keep"]:
                # a run that asked to share the directory moves it when it fails: that is what it asked for
                e["peer"]["end"] = "ok"
        op["events"].append(e)
    return op


def gen(rng, i):
    return {"seed": rng.randrange(1 << 30), "lives": [gen_life(rng) for _ in range(rng.randint(1, 4))],
            "ckpt": {"n": rng.randint(1, 6), "times": [rng.randrange(1, 2 * 10**9) for _ in range(6)], "order": rng.randrange(1 << 30)} if rng.random() < 0.5 else None}


class Life:
    def __init__(self, base, op, fd):
        self.base, self.op, self.fd = os.path.realpath(base), op, fd
        self.events = {e["at"]: e for e in reversed(op["events"])}
        self.n, self.fired, self.peers, self.busy = 0, [], [], False

    def report(self, d):
        d.update(fired=self.fired, peers=self.peers, steps=self.n, id=self.op["id"])
        os.write(self.fd, json.dumps(d).encode() + b"\n")

    def step(self, what):
        self.n += 1
        e = self.events.pop(self.n, None)
        if e is None:
            return
        if e["kind"] == "kill":
            self.fired.append(["kill", self.n, what])
            self.out["end"] = "killed"
            self.report(self.out)
            os._exit(9)
        if e["kind"] == "peer":
            self.fired.append(["peer", self.n, what])
            self.peers.append(life(self.base, e["peer"]))
            return
        self.fired.append(["oserror", self.n, what])
        code = getattr(errno, e["errno"])
        raise OSError(code, os.strerror(code) + " (simulated)")

    def inside(self, p):
        p = os.path.realpath(p)
        if not (p + os.sep).startswith(self.base + os.sep):
            self.out["end"] = "escape"
            self.out["what"] = p
            self.report(self.out)
            os._exit(9)

    def install(self, e):
        def wrap(mod, name, contain=()):
            real = REAL_FN[(mod.__name__, name)]

            def f(*a, **kw):
                if self.busy:
                    return real(*a, **kw)
                for j in contain:
                    if j < len(a):
                        self.inside(a[j])
                try:
                    self.step(name)
                except OSError:
                    if name == "rmtree" and (kw.get("ignore_errors") or (len(a) > 1 and a[1])):
                        return None  # such a call never reports its errors; it just leaves things behind
                    raise
                self.busy = True
                try:
                    return real(*a, **kw)
                finally:
                    self.busy = False

            setattr(mod, name, f)

        for n, c in (("makedirs", (0,)), ("mkdir", (0,)), ("rename", (0, 1)), ("replace", (0, 1)), ("rmdir", (0,)), ("unlink", (0,)), ("remove", (0,))):
            wrap(os, n, c)
        for n, c in (("move", (0, 1)), ("rmtree", (0,)), ("copytree", (1,))):
            wrap(shutil, n, c)

        def op(path, mode="r", *a, **kw):
            if not self.busy and any(c in mode for c in "wax+"):
                self.step("open")
                self.inside(path)
            return builtins.open(path, mode, *a, **kw)

        e.open = op


REAL_FN = {(m.__name__, n): getattr(m, n) for m, ns in ((os, ("makedirs", "mkdir", "rename", "replace", "rmdir", "unlink", "remove")), (shutil, ("move", "rmtree", "copytree")))
           for n in ns}


def restore():
    for (m, n), f in REAL_FN.items():
        setattr({"os": os, "shutil": shutil}[m], n, f)


class Boom(Exception):
    pass


def failure(op):
    """The error a run ends with: ordinary ones, ones without or with several arguments."""
    m = op["msg"]
    return {"Boom": lambda: Boom(m), "none": lambda: Boom(), "two": lambda: Boom(3, m), "key": lambda: KeyError(), "stop": lambda: StopIteration(),
            "assert": lambda: AssertionError(m)}[op["exc"]]()


def refuses(fn, path):
    """Does a directory helper report that a file is in the way?"""
    try:
        fn(path)
    except OSError as x:
        return True if "simulated" not in str(x) else None
    return os.path.isdir(path)


def life(base, op):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            restore()
            e = env.import_root("exp_utils")
            L = Life(base, op, w)
            L.out = {"end": "?", "dir": None, "phase": "start"}
            L.install(e)
            try:
                body(e, L, op, base)
                L.out["end"] = "done"
            except OSError as x:
                L.out.update(end="oserror", error=f"{type(x).__name__}: {x}"[:300], injected="simulated" in str(x))
            except BaseException as x:
                L.out.update(end="error", error=f"{type(x).__name__}: {x}"[:300])
            L.report(L.out)
        except BaseException as x:
            try:
                os.write(w, json.dumps({"end": "harness", "error": repr(x)}).encode() + b"\n")
            except BaseException:
                pass
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        buf += c
    os.close(r)
    reap(pid)
    lines = buf.decode().strip().splitlines()
    return json.loads(lines[0]) if lines else {"end": "harness", "error": "no report"}


def body(e, L, op, base):
    out = L.out
    if op["kind"] == "ensure":
        path = os.path.join(base, "ens", *["d%d" % k for k in range(op["depth"])], "file.csv")
        out["phase"] = "ensure"
        e.ensure_dir(path)
        e.mkdir_p(os.path.join(base, "mk", *["d%d" % k for k in range(op["depth"])]))
        if op["block"] is not None:
            # a file is where a directory is needed
            L.busy = True
            top = os.path.join(base, "blocked%d" % op["id"])
            os.makedirs(top, exist_ok=True)
            with open(os.path.join(top, "file"), "w") as f:
                f.write("x")
            L.busy = False
            deeper = ["d%d" % k for k in range(op["block"])]
            out["refused"] = [refuses(e.mkdir_p, os.path.join(top, "file", *deeper)), refuses(lambda p: e.ensure_dir(os.path.join(p, "x.csv")), os.path.join(top, "file", *deeper))]
        out["dirs"] = [os.path.dirname(path), os.path.join(base, "mk", *["d%d" % k for k in range(op["depth"])])]
        return
    if op["kind"] == "base":
        out["phase"] = "base"
        now = 1234567890 if op["ts"] is None else op["ts"]
        real = e.time.time
        e.time.time = lambda: now
        try:
            d = e.generate_run_base_dir(os.path.join(base, "runs"), timestamp=op["ts"], tag=op["tag"], sub_dirs=list(op["sub"]), debug=op["debug"])
        finally:
            e.time.time = real
        want = time.strftime("%y%m%d_%H%M", time.localtime(now)) + ("" if op["tag"] is None else "_" + op["tag"]) + ("_debug" if op["debug"] else "")
        want = os.path.join(base, "runs", want, *op["sub"])
        out["base_ok"] = os.path.normpath(d) == os.path.normpath(want) and os.path.isdir(d) and d.endswith("/")
        out["base_dir"] = [d, want]
        return
    out["phase"] = "make"
    d = e.make_results_dir(base, op["exp"], op["tag"], "data", debug=op["debug"], remove_if_exists=not op["keep"])
    # from here on the harness acts as the experiment; its own writes are not steps
    L.busy = True
    out["dir"] = d
    out["fresh"] = os.path.isdir(d) and os.listdir(d) == []
    out["isdir"] = os.path.isdir(d)
    for k in range(op["files"]):
        with open(os.path.join(d, f"{op['id']}-{k}.txt"), "w") as f:
            f.write(f"{op['id']}:{k}")
    L.busy = False
    out["phase"] = "args"
    args = types.SimpleNamespace(id=op["id"], name=op["msg"], values=[1, 2.5, None, True])
    if not op["keep"]:
        try:
            e.save_args(d, args)
            out["args"] = True
        except OSError as x:
            if "simulated" not in str(x):
                raise
            out["args"] = False
    out["phase"] = "end"
    if op["end"] == "error":
        err = failure(op)
        try:
            try:
                raise err
            except type(err) as x:
                e.catch_exception(d, x)
            out["raised"] = None
        except BaseException as x:
            out["raised"] = "same" if x is err else ascii(f"{type(x).__name__}: {x}")
    elif op["end"] == "interrupt":
        e.catch_kb_interrupt(d)
    out["phase"] = "done"


def find(base):
    """Every marker file on the disk: name -> list of (directory, content)."""
    got = {}
    for root, _, files in os.walk(base):
        for f in files:
            with open(os.path.join(root, f)) as fh:
                got.setdefault(f, []).append((root, fh.read()))
    return got


def run(plan, ctx):
    base = tempfile.mkdtemp(prefix="sim-c16-")
    tz = os.environ.get("TZ")
    try:
        done = []
        for i, op in enumerate(plan["lives"]):
            r = life(base, op)
            seen = settle(base, op, r, f"life {i}", ctx, [])
            done += seen
            account(base, done, ctx, f"after life {i}")
            ctx.log(i, op["kind"], op["end"], r["end"], r.get("fired"), norm(base, r.get("dir")))
            ctx.mark((op["kind"], op["end"], op["keep"], r["end"], [f[:2] for f in r.get("fired", [])], [p["end"] for p in r.get("peers", [])]))
            ctx.sim_time += r.get("steps", 0)
        own = [norm(base, r["dir"]) for o, r in done if r.get("dir") and not o["keep"]]
        if len(done) > 1 or any(r.get("fired") for _, r in done):
            ctx.nontrivial = True
        if plan["ckpt"]:
            checkpoints(base, plan["ckpt"], ctx)
    finally:
        restore()
        shutil.rmtree(base)


def norm(base, p):
    return None if p is None else os.path.relpath(p, base)


def settle(base, op, r, what, ctx, acc):
    """Check one life's own report; returns [(op, report)] including its peers."""
    if r["end"] == "harness":
        raise RuntimeError(f"{what}: {r['error']}")
    if r["end"] == "escape":
        raise Violation("touches-other-files", f"{what}: {r['what']}")
    injected = [f for f in r["fired"] if f[0] != "peer"]
    for f in injected:
        ctx.fault(f[0])
        ctx.probe("killed" if f[0] == "kill" else "disk fault")
    k = 0
    for e in op["events"]:
        if e["kind"] == "peer" and k < len(r["peers"]):
            pass
    peers = []
    fired_at = [f[1] for f in r["fired"] if f[0] == "peer"]
    byat = {}
    for e in op["events"]:
        byat.setdefault(e["at"], e)
    for at, pr in zip(fired_at, r["peers"]):
        ctx.fault("overlap")
        ctx.probe("overlapped")
        peers += settle(base, byat[at]["peer"], pr, what + " overlapping", ctx, acc)
    if r["end"] in ("oserror", "error") and not injected:
        raise Violation("fails-without-fault", f"{what} ({op['kind']}, {r['phase']}): {r['error']}")
    if r["end"] == "error":
        raise Violation(f"unexpected-exception", f"{what} ({op['kind']}, {r['phase']}): {r['error']}")
    if op["kind"] == "ensure" and r["end"] == "done":
        ctx.probe("ensure")
        if False in r.get("refused", []):
            raise Violation("error-hidden", f"{what}: no error for a directory whose path leads through a file (mkdir_p, ensure_dir refused: {r['refused']})")
        if r.get("refused"):
            ctx.probe("file in the way")
        for d in r["dirs"]:
            if not os.path.isdir(d):
                raise Violation("directory-missing", f"{what}: {norm(base, d)} does not exist")
    if op["kind"] == "base" and r["end"] == "done":
        ctx.probe("run base")
        if not r["base_ok"]:
            raise Violation("run-directory-name", f"{what}: {r['base_dir']}")
    if op["kind"] == "run" and r.get("dir"):
        d = r["dir"]
        want = os.path.join(base, "simple-einet", op["exp"], "data")
        if not r["isdir"] or not d.endswith("/") or os.path.dirname(os.path.normpath(d)) != want:
            raise Violation("results-directory", f"{what}: {norm(base, d)} (exists: {r['isdir']})")
        name = os.path.basename(os.path.normpath(d))
        tag = ("unnamed" if op["tag"] is None else op["tag"]) + ("_debug" if op["debug"] else "")
        if not name.startswith(tag):
            raise Violation("results-directory", f"{what}: {name} for tag {tag}")
        if op["keep"]:
            ctx.probe("shared directory")
            if name != tag:
                raise Violation("results-directory", f"{what}: {name} instead of the existing {tag}")
        else:
            ctx.probe("own directory")
            if not r["fresh"]:
                raise Violation("directory-not-fresh", f"{what}: {name} already held files of another run")
        if op["end"] == "error" and r["phase"] == "done":
            ctx.probe("error kept")
            late = [f for f in injected]
            if late:
                ctx.probe("error while reporting")
            if r["raised"] != "same":
                raise Violation("original-error-lost", f"{what}: {r['raised']} instead of the caught error (faults {r['fired']})")
        if op["end"] == "interrupt" and r["phase"] == "done":
            ctx.probe("interrupt kept")
    return [(op, r)] + peers


def account(base, done, ctx, what):
    """Every file every run has written is still there, unchanged, once, and where it belongs."""
    got = find(base)
    dirs = {}
    for op, r in done:
        if op["kind"] != "run" or not r.get("dir"):
            continue
        for k in range(op["files"]):
            f = f"{op['id']}-{k}.txt"
            if r["end"] == "killed" and r["phase"] == "make":
                continue
            places = got.get(f, [])
            if len(places) != 1 or places[0][1] != f"{op['id']}:{k}":
                raise Violation("results-lost", f"{what}: file {k} of the run in {norm(base, r['dir'])} is there {len(places)} times; outcome {r['end']}, faults {r.get('fired')}")
            where = places[0][0]
            if not op["keep"]:
                dirs.setdefault(where, set()).add(op["id"])
            clean = not [x for x in r["fired"] if x[0] == "oserror"] and r["end"] == "done"
            rel = norm(base, where).split(os.sep)
            last = os.path.basename(os.path.normpath(r["dir"]))
            if clean and op["end"] in ("error", "interrupt") and not op["keep"]:
                mark = "_error" if op["end"] == "error" else "_interrupted"
                # the name may be taken by an earlier run; then a number follows
                if not any(p.startswith(last + mark) for p in rel):
                    raise Violation("not-marked", f"{what}: files of a run that ended with {op['end']} are in {norm(base, where)}")
            if clean and op["end"] == "error" and k == 0 and not op["keep"]:
                p = os.path.join(where, "error.txt")
                txt = open(p, errors="replace").read() if os.path.exists(p) else ""
                want = op["msg"].strip().split("\udcff")[0].strip() if op["exc"] in ("Boom", "two", "assert") else ""
                if (want not in txt and repr(want)[1:-1] not in txt) or "Traceback" not in txt:
                    raise Violation("error-not-recorded", f"{what}: error.txt in {norm(base, where)} holds {txt[:80]!r}")
            if r.get("args") and k == 0:
                p = os.path.join(where, "args.json")
                try:
                    a = json.load(open(p))
                except (OSError, ValueError) as x:
                    raise Violation("arguments-lost", f"{what}: {x}")
                if a.get("id") != op["id"] or a.get("name") != op["msg"] or a.get("values") != [1, 2.5, None, True]:
                    raise Violation("arguments-lost", f"{what}: args.json of another run or altered: {a}")
    for d, ids in dirs.items():
        if len(ids) > 1:
            raise Violation("runs-mixed", f"{what}: {norm(base, d)} holds files of {len(ids)} runs")


def checkpoints(base, c, ctx):
    import random

    e = env.import_root("exp_utils")
    d = os.path.join(base, "run", "tb", "version_0", "checkpoints")
    os.makedirs(d)
    times = list(dict.fromkeys(c["times"]))[: c["n"]]
    style = random.Random(c["order"] + 77)
    names = [f"epoch={k}-step={k * 10}.ckpt" for k in range(len(times))]
    for k in range(len(names)):
        # what Lightning writes next to the numbered ones
        t = style.random()
        if t < 0.15:
            names[k] = f"epoch=0-step={k * 10}-v{k + 1}.ckpt"
        elif t < 0.25 and "last.ckpt" not in names:
            names[k] = "last.ckpt"
        elif t < 0.3:
            names[k] = f"best-{k}.ckpt"
    for n, t in zip(names, times):
        p = os.path.join(d, n)
        with open(p, "w") as f:
            f.write(n)
        os.utime(p, (t, t))
    real = e.os.listdir
    best = names[times.index(max(times))]
    args = object()
    got = []
    try:
        for k in range(3):
            def listing(path, k=k):
                out = sorted(real(path))
                random.Random(c["order"] + k).shuffle(out)
                return out

            e.os.listdir = listing
            seen = []
            try:
                m = e.load_from_checkpoint(os.path.join(base, "run"), load_fn=lambda checkpoint_path, args: seen.append((checkpoint_path, args)) or "model", args=args)
            except Exception as x:
                raise Violation("checkpoint-not-loaded", f"{type(x).__name__}: {x}")
            if m != "model" or len(seen) != 1 or seen[0][1] is not args:
                raise Violation("checkpoint-not-loaded", f"{m} {len(seen)}")
            got.append(os.path.basename(seen[0][0]))
    finally:
        e.os.listdir = real
    ctx.probe("checkpoint")
    ctx.fault("clock", 1)
    if set(got) != {best}:
        raise Violation("not-the-newest-checkpoint", f"loaded {got}, the newest of {dict(zip(names, times))} is {best}")
    ctx.log("ckpt", got)


def simplify(plan):
    for j in range(len(plan["lives"])):
        yield {**plan, "lives": plan["lives"][:j] + plan["lives"][j + 1 :]}
    if plan["ckpt"]:
        yield {**plan, "ckpt": None}
    for j, lf in enumerate(plan["lives"]):
        for k in range(len(lf["events"])):
            lives = list(plan["lives"])
            lives[j] = {**lf, "events": lf["events"][:k] + lf["events"][k + 1 :]}
            yield {**plan, "lives": lives}
