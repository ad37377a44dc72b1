"""C15  A data set download is complete or absent, whatever crashes in between.

Every process life is a forked child.  The simulator plays git, rm and the network, counts every file
system and subprocess step, and at chosen steps kills the process (no clean-up code runs), fails the call,
interrupts it, or lets another process do the same download from start to end.
"""
import errno
import json
import os
import shlex
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from ..core import Violation, reap

ID = "C15"
N_QUICK = 1400
N_THOROUGH = 30000
RULE = "a run counts when at least one life was killed, failed or overlapped another before a later life loaded the data"
MEASURE = "distinct sequences of (life outcome, fault kind, step) traces"
REAL = ["maybe_download_debd", "load_debd", "get_datasets for the binary density-estimation data sets", "os, shutil, tempfile on a scratch directory"]
STUBS = ["git, rm, mv and the network (simulated in the scratch directory; partial clones, failing exit codes, torn files)", "process death (os._exit in a forked child)"]
ASSUMPTIONS = ["renaming a directory is atomic and durable; git itself reports failure by its exit code", "the default branch differs from the pinned revision"]
PROBES = ["killed", "call failed", "git failed", "interrupted", "overlapped", "recovered", "partial clone", "torn file", "fresh", "already there"]
TIME_UNIT = "file system and process steps"
MIN_OPS = 0

NAME = "nltcs"
NF = 16
PIN = "80a4906dcf3b3463370f904efa42c21e8295e85c"


def gen(rng, i):
    lives = []
    for _ in range(rng.randint(1, 4)):
        ev = []
        for _ in range(rng.randint(0, 2)):
            ev.append({"at": rng.randint(1, 14), "kind": rng.choice(["kill", "kill", "oserror", "git", "interrupt", "peer", "peer"]),
                       "errno": rng.choice(["ENOSPC", "EIO", "EACCES"]), "partial": rng.randint(0, 3), "half": rng.random() < 0.5,
                       "peer": {"at": rng.randint(1, 14), "kind": rng.choice(["none", "none", "kill", "git"]), "partial": rng.randint(0, 3), "errno": "EIO"}})
        lives.append({"events": ev, "via": rng.choice(["load", "load", "datasets"])})
    return {"seed": rng.randrange(1 << 30), "lives": lives, "rows": rng.randint(1, 6), "mkdir": rng.random() < 0.5, "deep": rng.random() < 0.3}


# ---------------------------------------------------------------- contents


def rows(part, rev, n):
    """Every file of every revision is different."""
    lo = {"train": 0, "valid": 100, "test": 200}[part] + (0 if rev == "pinned" else 1000)
    return [[((lo + r) >> b) & 1 if b < 12 else (lo + r + b) % 2 for b in range(NF)] for r in range(n + len(part) % 3)]


def write_file(path, data, torn=False):
    with open(path, "w") as f:
        lines = [",".join(map(str, r)) + "\n" for r in data]
        if torn:
            lines = lines[: len(lines) // 2] + [lines[len(lines) // 2][: NF]]
        f.writelines(lines)


def half_done(name, a):
    """What rmtree or copytree has done when the process dies half way."""
    files = sorted(os.path.join(d, f) for d, _, fs in os.walk(a[0]) for f in fs)
    for f in files[: (len(files) + 1) // 2]:
        if name == "rmtree":
            _real[(os, "unlink")](f)
        else:
            dst = os.path.join(a[1], os.path.relpath(f, a[0]))
            _real[(os, "makedirs")](os.path.dirname(dst), exist_ok=True)
            with open(f, "rb") as i, open(dst, "wb") as o:
                o.write(i.read())


# ---------------------------------------------------------------- one process life


class Life:
    def __init__(self, plan, scratch, data_dir, events, fd):
        self.plan, self.scratch, self.data_dir, self.fd = plan, os.path.realpath(scratch), data_dir, fd
        self.events = {e["at"]: e for e in reversed(events) if e["kind"] != "none"}
        self.n, self.fired, self.git_fail, self.notes = 0, [], None, []
        self.busy = False

    def die(self):
        self.fired.append(["kill", self.n])
        self.report({"end": "killed"})
        os._exit(9)

    def report(self, d):
        d.update(fired=self.fired, steps=self.n, notes=self.notes)
        os.write(self.fd, json.dumps(d).encode() + b"\n")

    def inside(self, path):
        p = os.path.realpath(os.path.join(os.getcwd(), path))
        if not (p + os.sep).startswith(self.scratch + os.sep) or p == self.scratch:
            self.report({"end": "escape", "what": str(path)})
            os._exit(9)
        return p

    def step(self, what):
        """Before every file system or subprocess effect."""
        self.n += 1
        e = self.events.pop(self.n, None)
        if e is None:
            return
        k = e["kind"]
        if k == "kill":
            self.die()
        self.fired.append([k, self.n])
        if k == "oserror":
            code = getattr(errno, e["errno"])
            raise OSError(code, os.strerror(code) + " (simulated)")
        if k == "interrupt":
            raise KeyboardInterrupt("simulated")
        if k == "git":
            self.git_fail = e
        if k == "peer":
            r = life(self.plan, self.scratch, self.data_dir, [e["peer"]], "load")
            self.notes.append(["peer", r])

    # ---- commands

    def command(self, argv, cwd):
        cwd = os.path.join(os.getcwd(), cwd) if cwd else os.getcwd()
        argv = [os.fspath(a) for a in argv]
        self.step("exec")
        if argv[0] == "git":
            if argv[1] == "-C":
                cwd, argv = os.path.join(cwd, argv[2]), ["git"] + argv[3:]
            args = [a for a in argv[2:] if not a.startswith("-")]
            if argv[1] == "clone":
                return self.clone(os.path.join(cwd, args[1] if len(args) > 1 else "DEBD"))
            if argv[1] in ("checkout", "reset", "switch"):
                return self.checkout(cwd, args)
            return 0
        if argv[0] == "rm":
            self.step("rm")
            for a in argv[1:]:
                if not a.startswith("-"):
                    p = self.inside(os.path.join(cwd, a))
                    real_rmtree(p, ignore_errors=True) if os.path.isdir(p) else (os.path.exists(p) and os.unlink(p))
            return 0
        if argv[0] == "mv":
            self.step("mv")
            args = [a for a in argv[1:] if not a.startswith("-")]
            src, dst = (self.inside(os.path.join(cwd, a)) for a in args[-2:])
            if os.path.isdir(dst):
                dst = os.path.join(dst, os.path.basename(src))
                if os.path.exists(dst):
                    return 1
            real_rename(src, dst)
            return 0
        if argv[0] == "mkdir":
            self.step("mkdir")
            real_makedirs(self.inside(os.path.join(cwd, argv[-1])), exist_ok=True)
            return 0
        raise RuntimeError(f"harness: the simulated machine has no command {argv}")

    def clone(self, dst):
        dst = self.inside(dst)
        if os.path.isdir(dst) and os.listdir(dst):
            return 128
        fail = self.git_fail
        self.git_fail = None
        if fail is not None and fail["partial"] == 0:
            return 128  # no network: git leaves nothing behind
        real_makedirs(os.path.join(dst, ".git"), exist_ok=True)
        write_file(os.path.join(dst, ".git", "HEAD"), [[1] * NF])
        self.step("clone: objects")
        base = os.path.join(dst, "datasets", NAME)
        real_makedirs(base, exist_ok=True)
        for j, part in enumerate(("train", "test", "valid")):
            self.step("clone: file")
            torn = fail is not None and fail["partial"] == j + 1
            write_file(os.path.join(base, f"{NAME}.{part}.data"), rows(part, "master", self.plan["rows"]), torn)
            if torn:
                self.notes.append(["torn"])
                return 128  # git could not clean up (disk full)
        if self.git_fail is not None:
            # the failure struck while files were being written
            self.git_fail = None
            self.notes.append(["partial"])
            return 128
        return 0

    def checkout(self, cwd, args):
        cwd = self.inside(cwd)
        fail = self.git_fail
        self.git_fail = None
        if not os.path.isdir(os.path.join(cwd, ".git")) or (fail is not None and fail["partial"] == 0):
            return 128
        rev = "pinned" if args and PIN.startswith(args[0]) and len(args[0]) >= 7 else "master"
        for j, part in enumerate(("train", "test", "valid")):
            self.step("checkout: file")
            if fail is not None and fail["partial"] == j + 1:
                return 1
            write_file(os.path.join(cwd, "datasets", NAME, f"{NAME}.{part}.data"), rows(part, rev, self.plan["rows"]))
        if self.git_fail is not None:
            self.git_fail = None
            return 1
        return 0

    # ---- seams

    def install(self):
        me = self

        class Popen:
            def __init__(self, args, *a, cwd=None, shell=False, **kw):
                self.args = args
                self.stdin = self.stdout = self.stderr = None
                self.pid = 4711
                self.returncode = me.shell(args, cwd) if shell or isinstance(args, str) else me.command(list(args), cwd)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def communicate(self, input=None, timeout=None):
                return ("", "")

            def wait(self, timeout=None):
                return self.returncode

            poll = wait

            def kill(self):
                pass

            terminate = kill

        subprocess.Popen = Popen
        os.system = lambda cmd: self.shell(cmd, None) << 8

        def wrap(mod, name, contain=None):
            real = getattr(mod, name)

            def f(*a, **kw):
                if self.busy:
                    return real(*a, **kw)
                if contain is not None:
                    for j in contain:
                        if j < len(a):
                            self.inside(a[j])
                e = self.events.get(self.n + 1)
                if name in ("rmtree", "copytree") and e is not None and e["kind"] == "kill" and e.get("half"):
                    # the process dies in the middle of a call that is many file system operations
                    self.n += 1
                    half_done(name, a)
                    self.notes.append(["half"])
                    self.die()
                try:
                    self.step(name)
                except OSError:
                    if name == "rmtree" and (kw.get("ignore_errors") or (len(a) > 1 and a[1])):
                        return None  # such a call never reports its errors; it just leaves things behind
                    raise
                self.busy = True
                try:
                    return real(*a, **kw)
                finally:
                    self.busy = False

            setattr(mod, name, f)

        wrap(os, "rename", (0, 1))
        wrap(os, "replace", (0, 1))
        wrap(os, "makedirs")
        wrap(os, "mkdir")
        wrap(os, "rmdir", (0,))
        wrap(os, "unlink", (0,))
        wrap(os, "remove", (0,))
        wrap(shutil, "rmtree", (0,))
        wrap(shutil, "move", (0, 1))
        wrap(shutil, "copytree", (1,))
        wrap(tempfile, "mkdtemp")

    def shell(self, cmd, cwd):
        cwd = cwd or os.getcwd()
        for part in cmd.replace(";", "&&").split("&&"):
            argv = shlex.split(part)
            if not argv:
                continue
            if argv[0] == "cd":
                cwd = os.path.join(cwd, argv[1])
                if not os.path.isdir(cwd):
                    return 1
                continue
            rc = self.command(argv, cwd)
            if rc:
                return rc
        return 0


real_rmtree, real_rename, real_makedirs = shutil.rmtree, os.rename, os.makedirs


def life(plan, scratch, data_dir, events, via):
    """Fork, live, report."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            # a nested life starts from the real functions again
            L = Life(plan, scratch, data_dir, events, w)
            restore()
            L.install()
            from simple_einet import data as D

            cwd = os.getcwd()
            try:
                if via == "load":
                    out = [a.tolist() for a in D.load_debd(NAME, data_dir)]
                else:
                    p = D.get_datasets(NAME, data_dir, normalize=False)
                    out = [[x.reshape(-1).tolist() for x, _ in d] for d in (p[0], p[2], p[1])]
                res = {"end": "data", "data": out}
            except BaseException as e:
                res = {"end": "error", "error": f"{type(e).__name__}: {e}"[:300], "injected": "simulated" in str(e) or type(e).__name__ in ("CalledProcessError",)}
            res["cwd"] = os.getcwd() == cwd
            L.report(res)
        except BaseException as e:
            try:
                os.write(w, json.dumps({"end": "harness", "error": repr(e)}).encode() + b"\n")
            except BaseException:
                pass
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        buf += c
    os.close(r)
    reap(pid)
    lines = buf.decode().strip().splitlines()
    return json.loads(lines[0]) if lines else {"end": "harness", "error": "no report"}


_real = {(m, n): getattr(m, n) for m, n in ((os, "rename"), (os, "replace"), (os, "makedirs"), (os, "mkdir"), (os, "rmdir"), (os, "unlink"), (os, "remove"),
                                            (os, "system"), (shutil, "rmtree"), (shutil, "move"), (shutil, "copytree"), (tempfile, "mkdtemp"), (subprocess, "Popen"))}


def restore():
    for (m, n), f in _real.items():
        setattr(m, n, f)


def run(plan, ctx):
    scratch = tempfile.mkdtemp(prefix="sim-c15-")
    cwd = os.getcwd()
    try:
        os.chdir(scratch)
        data_dir = os.path.join(scratch, "a", "data") if plan["deep"] else os.path.join(scratch, "data")
        if plan["mkdir"]:
            os.makedirs(data_dir)
        want = [rows(p, "pinned", plan["rows"]) for p in ("train", "test", "valid")]
        troubled = False
        for i, lf in enumerate(plan["lives"] + [{"events": [], "via": "load"}, {"events": [], "via": "datasets"}]):
            last = i >= len(plan["lives"])
            there = os.path.isdir(os.path.join(data_dir, "debd"))
            if there:
                ctx.probe("already there")
            elif i == 0:
                ctx.probe("fresh")
            r = life(plan, scratch, data_dir, lf["events"], lf["via"])
            hurt = judge(r, want, f"life {i}", ctx)
            for k, d in [(n[0], n[1] if len(n) > 1 else None) for n in r.get("notes", [])]:
                if k == "peer":
                    ctx.probe("overlapped")
                    ctx.fault("overlap")
                    ph = judge(d, want, f"overlapping process of life {i}", ctx)
                    hurt = True
                    if d["end"] == "error" and not ph:
                        raise Violation("overlap-fails", f"life {i}: the overlapping process failed although nothing was injected into it: {d['error']}")
                elif k == "half":
                    ctx.fault("kill in the middle of a tree operation")
                elif k == "torn":
                    ctx.probe("torn file")
                elif k == "partial":
                    ctx.probe("partial clone")
            injected = [f for f in r.get("fired", []) if f[0] != "peer"]
            if r["end"] == "error" and not injected:
                # overlapping another download, or a fresh start after crashes, is no reason to fail
                raise Violation("no-recovery" if troubled or hurt else "download-fails", f"life {i} failed although nothing was injected into it: {r['error']}")
            if r["end"] == "data" and troubled:
                ctx.probe("recovered")
            if not r.get("cwd", True):
                raise Violation("working-directory", f"life {i} ({r['end']}) left the process in another directory")
            troubled = troubled or hurt
            if last and troubled:
                ctx.nontrivial = True
            ctx.sim_time += r.get("steps", 0)
            ctx.mark((r["end"], r.get("fired"), [n[0] for n in r.get("notes", [])], there))
            ctx.log(i, r["end"], r.get("fired"), r.get("steps"))
    finally:
        os.chdir(cwd)
        real_rmtree(scratch)


def judge(r, want, what, ctx):
    """Is this life's outcome allowed?  Returns whether faults hit it."""
    if r["end"] == "harness":
        raise RuntimeError(f"{what}: {r['error']}")
    if r["end"] == "escape":
        raise Violation("touches-other-files", f"{what}: tried to change {r['what']}")
    if r["end"] == "data" and r["data"] != want:
        sizes = [len(a) for a in r["data"]]
        raise Violation("incomplete-data", f"{what} loaded {sizes} rows that are not the pinned revision's {[len(a) for a in want]}; faults so far {r.get('fired')}")
    for k, _ in r.get("fired", []):
        ctx.fault(k)
        p = {"kill": "killed", "oserror": "call failed", "git": "git failed", "interrupt": "interrupted"}.get(k)
        if p:
            ctx.probe(p)
    return bool(r.get("fired"))


def simplify(plan):
    for j in range(len(plan["lives"])):
        yield {**plan, "lives": plan["lives"][:j] + plan["lives"][j + 1 :]}
    for j, lf in enumerate(plan["lives"]):
        for e in range(len(lf["events"])):
            lives = [dict(q) for q in plan["lives"]]
            lives[j] = {**lf, "events": lf["events"][:e] + lf["events"][e + 1 :]}
            yield {**plan, "lives": lives}
