"""C24  An experiment is decided by its configuration and seed, and its saved model is its result.

Whole runs of main_pl.main are simulated: real Lightning trainer, real models, data loaders and checkpoint
writing on a scratch disk.  Every process life is a forked child; the simulator decides in which ambient random
state a run starts, which experiments ran (or failed) before it in the same process, what the clock says, which
tensor operation or file system call fails, and where the process is killed.
"""
import builtins
import errno
import hashlib
import io
import json
import math
import os
import shutil
import tempfile
import types

import numpy as np
import torch

from .. import env, world as W
from ..core import Violation, reap, thash
from ..faults import KINDS, OpMode, gen_fault
from . import c14

ID = "C24"
N_QUICK = 140
N_THOROUGH = 3000
RULE = "a run counts when an experiment was carried out at least twice, under different circumstances, and everything it reported and saved was compared"
MEASURE = "distinct (configuration, sequence of lives, fault, outcome) traces"
REAL = ["main_pl.main, preprocess_cfg", "models_pl.SpnGenerative, SpnDiscriminative", "build_dataloader, get_datasets", "Lightning's Trainer, checkpoint writing", "Einet, ConvPc, Mixture",
        "init_einet_stats, Mixture.initialize, plot_distribution"]
STUBS = ["wandb's logger (a recorder)", "hydra's run-time record (the run directory)", "image pools (simulated)", "the clock of preprocess_cfg",
         "fast_pytorch_kmeans (package not installed; deterministic stand-in)", "process death, failing writes"]
ASSUMPTIONS = ["CPU, no loader workers", "the installed wandb is newer than the pinned one and is not used",
               "a checkpoint to be evaluated lies where load_from_checkpoint looks for it"]
PROBES = ["repeated", "after others", "after failures", "killed", "failed", "disk fault", "stored configuration", "clock seed", "evaluated checkpoint", "other seed", "generative",
          "discriminative", "mixture", "convpc", "initialised from data", "distribution plot", "saved model scored", "averaged weights", "mixed precision", "several classes"]
TIME_UNIT = "optimiser steps"
PRELOAD = ("exp_utils", "models_pl", "main_pl")
MIN_OPS = 0


def gen_cfg(rng):
    kind = rng.choice(["gen", "gen", "disc"])
    model = "einet"
    t = rng.random()
    if t < 0.35:
        ds, classes = rng.choice([("wine", 3), ("breast_cancer", 2)])
        dist = rng.choice(["normal", "normal", "normal_rat"])
        side = 13 if ds == "wine" else 30
    elif t < 0.5:
        ds, classes, dist, side = "synth-2-moons", 2, "normal", 2
    elif t < 0.65:
        ds, classes, dist, side = "digits", 10, rng.choice(["normal", "normal", "multivariate_normal"]), 64
    else:
        ds, classes, side = "mnist-16", 10, 256
        dist = rng.choice(["normal", "normal_rat", "binomial", "categorical"])
        if kind == "gen" and rng.random() < 0.4:
            model = "convpc"
    if kind == "disc":
        k = classes
    else:
        k = rng.choice([1, 1, 2])
    mixture = kind == "gen" and dist != "multivariate_normal" and rng.random() < 0.25
    structure = rng.choice(["top-down", "top-down", "bottom-up"]) if dist != "multivariate_normal" else "top-down"
    return {"dataset": ds, "dist": dist, "epochs": rng.choice([1, 1, 2]), "batch_size": rng.choice([16, 50, 64]) if not ds.startswith("synth") else 700, "lr": rng.choice([0.01, 0.05]),
            "num_classes": k, "classification": kind == "disc", "mixture": mixture, "model": model, "n_bits": rng.choice([8, 3, 1]) if dist != "categorical" else rng.choice([1, 3]),
            "dropout": rng.choice([0.0, 0.0, 0.3]) if model == "einet" and structure == "top-down" else 0.0, "init_leaf_data": dist == "normal" and model == "einet" and rng.random() < 0.5,
            "seed": rng.choice([0, 1, rng.randrange(1 << 30)]), "tag": rng.choice([None, "t"]), "min_sigma": rng.choice([0.01, 0.1, 0.3]), "max_sigma": rng.choice([1.5, 2.0]),
            "swa": rng.random() < 0.12, "precision": rng.choice(["32", "32", "bf16-mixed", "32-true"]), "multivariate_cardinality": rng.choice([2, 2, 4]), "einet": {"S": rng.randint(1, 3), "I": rng.randint(2, 3), "D": rng.randint(1, min(3, int(math.log2(side)))), "R": rng.randint(1, 2), "structure": structure,
                      "layer_type": "linsum" if structure == "bottom-up" else rng.choice(["linsum", "linsum2", "einsum"])},
            "convpc": {"channels": [2, 2, 2], "order": rng.choice(["sum-prod", "prod-sum"]), "structure": rng.choice(["top-down", "bottom-up"]), "kernel_size": 2}}


def relative(rng, cfg):
    """A sweep's neighbour of a configuration: same data, other settings."""
    c = {**cfg, "seed": rng.choice([cfg["seed"], rng.randrange(1 << 30)])}
    other = gen_cfg(rng)
    for k in ("lr", "batch_size", "epochs", "tag"):
        if rng.random() < 0.3 and not cfg["dataset"].startswith("synth"):
            c[k] = other[k]
    if rng.random() < 0.6:
        c["min_sigma"], c["max_sigma"] = 0.05, 1.0
    if rng.random() < 0.5:
        c["n_bits"] = 2
    if rng.random() < 0.4 and cfg["model"] == "einet":
        c["einet"] = {**cfg["einet"], "R": 3, "S": 4}
    if rng.random() < 0.4 and not cfg["classification"]:
        c["num_classes"] = 2
    return c


def gen(rng, i):
    cfg = gen_cfg(rng)
    lives = []
    for _ in range(rng.randint(1, 3)):
        k = rng.choice(["again", "again", "broken", "broken", "stored", "eval", "seed"])
        op = {"op": k, "noise": rng.randrange(1 << 30), "before": [], "clock": rng.randrange(1 << 30)}
        if k in ("again", "stored", "eval"):
            for _ in range(rng.choice([0, 1, 1, 2])):
                c = gen_cfg(rng) if rng.random() < 0.35 else relative(rng, cfg)
                op["before"].append({"cfg": c, "fault": gen_fault(rng) if rng.random() < 0.5 else None})
        if k == "broken":
            op["how"] = rng.choice(["kill", "kill", "tensor", "disk"])
            op["at"] = round(rng.random(), 4)
            op["kind"] = rng.choice(["oom", "alloc", "kernel"])
            op["errno"] = rng.choice(["ENOSPC", "EIO", "EACCES"])
        lives.append(op)
    return {"seed": rng.randrange(1 << 30), "cfg": cfg, "ops": lives, "noise": rng.randrange(1 << 30), "n": 10 * rng.randint(3, 8), "nt": rng.randint(3, 30), "pool": rng.randrange(1 << 30),
            "clock": rng.randrange(1 << 30) if rng.random() < 0.25 else None}


# ---------------------------------------------------------------- one process


def recorder():
    from lightning.pytorch.loggers.logger import DummyLogger

    class Rec(DummyLogger):
        def __init__(self, **kw):
            super().__init__()
            self.metrics, self.pics = [], []

        def log_metrics(self, metrics, step=None):
            self.metrics.append([step, {k: float(v).hex() for k, v in metrics.items()}])

        def log_image(self, key=None, images=None, **kw):
            self.pics.append([key, thash(*images), [list(p.shape) for p in images]])

    return Rec


_warm = False


def warm():
    """One throw-away experiment, so that lazy imports of the trainer happen before any simulated run."""
    global _warm
    if _warm:
        return
    _warm = True
    base = tempfile.mkdtemp(prefix="sim-c24w-")
    try:
        plan = {"n": 30, "nt": 5, "pool": 1, "ds": "wine", "norm": True, "fail": None}
        cfg = {"dataset": "wine", "dist": "normal", "epochs": 1, "batch_size": 64, "lr": 0.01, "num_classes": 1, "classification": False, "mixture": False, "model": "einet", "n_bits": 8,
               "dropout": 0.0, "init_leaf_data": False, "seed": 1, "tag": None, "min_sigma": 0.1, "max_sigma": 2.0,
               "einet": {"S": 1, "I": 2, "D": 1, "R": 1, "structure": "top-down", "layer_type": "linsum"},
               "convpc": {"channels": [2, 2, 2], "order": "sum-prod", "structure": "top-down", "kernel_size": 2}}
        life(plan, base, {"cfg": cfg, "name": "w", "before": [], "noise": 1, "clock": 5})
    finally:
        shutil.rmtree(base)


def make_cfg(cfg, base):
    from omegaconf import OmegaConf

    c = OmegaConf.load(os.path.join(env.REPO, "conf", "config.yaml"))
    for k in ("defaults", "hydra"):
        if k in c:
            del c[k]
    c = OmegaConf.merge(c, {"data_dir": base, "results_dir": base, "project_name": "p", "group_tag": None, "profiler": None, "num_workers": 0, "precision": "32", "wandb": False, "debug": False})
    c = OmegaConf.merge(c, {k: v for k, v in cfg.items() if not (k == "seed" and v is None)})
    return c


class Disk:
    """Failing or fatal writes below the run directory."""

    def __init__(self, root, at, err):
        self.root, self.at, self.err, self.n, self.fired = root, at, err, 0, False
        self.real = builtins.open

    def open(self, f, mode="r", *a, **kw):
        if isinstance(f, (str, os.PathLike)) and str(f).startswith(self.root) and any(c in mode for c in "wax+"):
            self.n += 1
            if self.n == self.at:
                self.fired = True
                raise OSError(getattr(errno, self.err), "simulated: " + os.strerror(getattr(errno, self.err)))
        return self.real(f, mode, *a, **kw)


class Tensor(OpMode):
    """Counts tensor operations; dies or fails at one of them."""

    def __init__(self, at, how, kind, report):
        super().__init__(budget=10**9, fail_at=at if how == "tensor" else None, exc=KINDS.get(kind))
        self.kill_at = at if how == "kill" else None
        self.report = report

    def __torch_function__(self, func, types, args=(), kwargs=None):
        if self.kill_at is not None and self.n >= self.kill_at:
            self.report({"end": "killed", "ops": self.n})
            os._exit(0)
        return super().__torch_function__(func, types, args, kwargs)


def tree(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = hashlib.sha256(open(p, "rb").read()).hexdigest()[:16]
    return out


def life(plan, base, spec):
    """One process; returns what it reported before it ended."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        sent = []

        def report(d):
            if not sent:
                sent.append(1)
                raw = json.dumps(d).encode()
                while raw:
                    raw = raw[os.write(w, raw):]

        try:
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            out = {"end": "?"}
            M = env.import_root("main_pl")
            recs = []
            Rec = recorder()

            def make(**kw):
                recs.append(Rec(**kw))
                return recs[-1]

            import hydra.core.hydra_config as H
            import lightning.pytorch.loggers as loggers
            import wandb

            M.WandbLogger = loggers.WandbLogger = make
            wandb.Settings, wandb.finish = lambda **k: None, lambda *a, **k: None
            M.time = types.SimpleNamespace(time=lambda: float(spec["clock"]), sleep=lambda s: None)
            os.environ["DATA_DIR"] = os.environ["RESULTS_DIR"] = os.environ["HOME"] = base
            os.chdir(base)
            # what happened in this process before
            W.noise(spec["noise"])

            class Quiet:
                def log(self, *a):
                    pass

                probe = fault = log
                sim_time = 0

            def one(cfg, name, mode=None):
                d = os.path.join(base, name)
                os.makedirs(d, exist_ok=True)
                H.HydraConfig.get = staticmethod(lambda: types.SimpleNamespace(runtime=types.SimpleNamespace(output_dir=d)))
                c14.install({**plan, "ds": cfg["dataset"], "fail": None}, base, Quiet())
                if spec.get("config") and name == spec["name"]:
                    from omegaconf import OmegaConf

                    c = OmegaConf.load(spec["config"])
                else:
                    c = make_cfg(cfg, base)
                if spec.get("load") and name == spec["name"]:
                    c.load_and_eval = True
                if mode is None:
                    M.main(c)
                else:
                    with mode:
                        M.main(c)

            for k, b in enumerate(spec["before"]):
                try:
                    one(b["cfg"], f"{spec['name']}-before{k}", Tensor(int(b["fault"]["at"] * 400), "tensor", b["fault"]["kind"] if b["fault"]["kind"] != "interrupt" else "oom", report) if b["fault"] else None)
                    out.setdefault("before", []).append("ok")
                except BaseException as e:
                    if not type(e).__name__.startswith("Injected") and not b["fault"]:
                        out["spoiled"] = f"experiment {k} before: {type(e).__name__}: {e}"[:300]
                    out.setdefault("before", []).append(type(e).__name__)
                W.noise(spec["noise"] + 1 + k)
            how = spec.get("how")
            mode = Tensor(spec.get("at"), how, spec.get("kind"), report) if how in ("kill", "tensor") else (Tensor(None, "count", "oom", report) if spec.get("count") else None)
            disk = Disk(os.path.join(base, spec["name"]), spec["at"], spec["errno"]) if how == "disk" else (Disk(os.path.join(base, spec["name"]), -1, "EIO") if spec.get("count") else None)
            if disk:
                builtins.open = disk.open
            del recs[:]
            try:
                one(spec["cfg"], spec["name"], mode)
                out["end"] = "ok"
            except BaseException as e:
                out.update(end="error", error=f"{type(e).__name__}: {e}"[:300], injected=type(e).__name__.startswith("Injected") or "simulated" in str(e))
            finally:
                if disk:
                    builtins.open = disk.real
            out["ops"] = mode.n if mode else 0
            out["writes"] = disk.n if disk else 0
            out["fired"] = bool((mode and mode.fired) or (disk and disk.fired))
            out["grad"] = torch.is_grad_enabled()
            if recs:
                out["metrics"], out["pics"] = recs[-1].metrics, recs[-1].pics
                out["trackers"] = len(recs)
            report(out)
        except BaseException as e:
            import traceback

            report({"end": "harness", "error": "".join(traceback.format_exception(e))[-1500:]})
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        buf += c
    os.close(r)
    reap(pid)
    if not buf:
        return {"end": "harness", "error": "no report"}
    out = json.loads(buf.decode().replace(base, "~"))
    out["files"] = tree(os.path.join(base, spec["name"]))
    return out


def saved(base, name):
    return torch.load(os.path.join(base, name, "model.pt"), map_location="cpu", weights_only=False)


def weights(base, name):
    sd = saved(base, name)["state_dict"]
    return thash(*[v for k, v in sorted(sd.items())], *sorted(sd))


# ---------------------------------------------------------------- oracle


def check(out, what):
    if out["end"] == "harness":
        raise RuntimeError(out["error"])
    if "spoiled" in out:
        raise Violation("experiment-fails", f"{what}: {out['spoiled']}")
    if out["end"] != "ok":
        raise Violation("experiment-fails", f"{what}: {out.get('error', out['end'])}")
    if not out.get("grad"):
        raise Violation("grad-mode", f"{what} left gradients switched off")
    if out.get("trackers") != 1:
        raise Violation("tracker", f"{what} opened {out.get('trackers')} trackers")
    for f in ("config.yaml",):
        if f not in out["files"]:
            raise Violation("configuration-not-stored", f"{what}: files {sorted(out['files'])}")
    if "model.pt" not in out["files"]:
        raise Violation("model-not-saved", f"{what}: files {sorted(out['files'])}")


def same(a, b, base, na, nb, what):
    """Two runs reported and saved the same."""
    if len(a["metrics"]) != len(b["metrics"]):
        raise Violation("not-decided-by-seed", f"{what}: {len(b['metrics'])} reports, {len(a['metrics'])} before")
    for p, q in zip(a["metrics"], b["metrics"]):
        if p != q:
            show = lambda m: {k: float.fromhex(v) for k, v in m[1].items()}
            raise Violation("not-decided-by-seed", f"{what}: step {q[0]} reports {show(q)}, before {show(p)}")
    if a["pics"] != b["pics"]:
        raise Violation("not-decided-by-seed", f"{what}: other images ({[x[0] for x in b['pics']]})")
    if weights(base, na) != weights(base, nb):
        raise Violation("not-decided-by-seed", f"{what}: another model was saved")


def score(plan, base, name, out, ctx):
    """In a process of its own: nothing it leaves behind may reach the lives that follow."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            _score(plan, base, name, out, ctx)
            d = {"end": "ok"}
        except Violation as v:
            d = {"end": "violation", "cls": v.cls, "detail": v.detail}
        except BaseException as e:
            import traceback

            d = {"end": "harness", "error": "".join(traceback.format_exception(e))[-1500:]}
        os.write(w, json.dumps(d).encode()[:60000])
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        d = json.loads(f.read() or b'{"end": "harness", "error": "no report"}')
    os.waitpid(pid, 0)
    if d["end"] == "violation":
        raise Violation(d["cls"], d["detail"])
    if d["end"] != "ok":
        raise RuntimeError(d["error"])
    ctx.probe("saved model scored")


def _score(plan, base, name, out, ctx):
    """The reported test figures are those of the saved model on the parts of the data set."""
    cfg = plan["cfg"]
    from omegaconf import OmegaConf

    from simple_einet import data as D
    from simple_einet.dist import Dist

    P = env.import_root("models_pl")
    c = make_cfg({**cfg, "seed": 1}, base)
    c.dist = Dist[cfg["dist"].upper()]
    cls = P.SpnDiscriminative if cfg["classification"] else P.SpnGenerative
    torch.manual_seed(plan["noise"] % 1000)
    m = cls(c, steps_per_epoch=1)
    try:
        m.load_state_dict(saved(base, name)["state_dict"])
    except Exception as e:
        raise Violation("saved-model-not-restorable", f"{type(e).__name__}: {e}"[:300])
    m.eval()
    undo = c14.install({**plan, "ds": cfg["dataset"], "fail": None}, base, ctx)
    try:
        parts = D.get_datasets(cfg["dataset"], base, normalize=cfg["dist"].startswith(("normal", "multivariate")))
    finally:
        for obj, k, v in reversed(undo):
            setattr(obj, k, v)
    last = {}
    for _, mm in out["metrics"]:
        last.update(mm)
    for part, ds in zip(("train", "val", "test"), parts):
        x = torch.stack([torch.as_tensor(a) for a, _ in c14.items(ds)]).float()
        y = torch.tensor([int(b) for _, b in c14.items(ds)])
        if cfg["dist"] in ("binomial", "categorical"):
            x = torch.floor(x.double() * 255 + 1e-6).div(2 ** (8 - cfg["n_bits"]), rounding_mode="floor").float()
        low = cfg["precision"].startswith("bf")
        with torch.no_grad(), torch.autocast("cpu", dtype=torch.bfloat16, enabled=low):
            ll = m.spn(x).double().reshape(len(x), -1)
        if cfg["classification"]:
            key, post = f"Test/{part}_accuracy", torch.log_softmax(ll, dim=-1)
            top = post.topk(2, dim=-1).values
            slack = float((top[:, 0] - top[:, 1] < (1e-3 + 1e-5 * float(ll.abs().max())) * (1e3 if low else 1)).double().mean()) + 1e-5
            want = float((post.argmax(-1) == y).double().mean())
        else:
            key, want = f"Test/{part}_nll", float(-ll.mean())
            slack = (2e-2 if low else 1e-4) * (1 + abs(want))
        if key not in last:
            raise Violation("not-reported", f"{key} is missing; reported {sorted(last)}")
        got = float.fromhex(last[key])
        if not abs(got - want) <= slack:
            raise Violation("report-is-not-the-model", f"{key}: reported {got}, the saved model has {want}")
    need = "Val/loss"
    if need not in last or "Train/loss" not in last and len(parts[0]) // cfg["batch_size"] >= 60:
        raise Violation("not-reported", f"{need} is missing; reported {sorted(last)}")


def run(plan, ctx):
    warm()
    base = tempfile.mkdtemp(prefix="sim-c24-")
    try:
        _run(plan, ctx, base)
    finally:
        shutil.rmtree(base)


def _run(plan, ctx, base):
    cfg = dict(plan["cfg"])
    timed = plan["clock"] is not None
    first = {**cfg, "seed": None} if timed else cfg
    for k, p in ((cfg["classification"], "discriminative"), (not cfg["classification"], "generative"), (cfg["mixture"], "mixture"), (cfg["model"] == "convpc", "convpc"),
                 (cfg["init_leaf_data"], "initialised from data"), (timed, "clock seed"), (cfg["swa"], "averaged weights"), (cfg["precision"].startswith("bf"), "mixed precision"),
                 (cfg["num_classes"] > 1 and not cfg["classification"], "several classes")):
        if k:
            ctx.probe(p)
    ref = life(plan, base, {"cfg": first, "name": "ref", "before": [], "noise": plan["noise"], "clock": plan["clock"] or 77, "count": True})
    check(ref, "the experiment")
    ctx.sim_time += len(ref["metrics"])
    ctx.log("ref", ref["metrics"], ref["pics"], sorted(ref["files"]))
    if any(p[0] == "distribution" for p in ref["pics"]):
        ctx.probe("distribution plot")
    score(plan, base, "ref", ref, ctx)
    files = tree(os.path.join(base, "ref"))
    for i, op in enumerate(plan["ops"]):
        name = f"run{i}"
        what = f"life {i} ({op['op']}{', after ' + str(len(op['before'])) + ' others' if op['before'] else ''})"
        spec = {"cfg": first, "name": name, "before": op["before"], "noise": op["noise"], "clock": plan["clock"] if timed else op["clock"]}
        if op["op"] == "broken":
            at = op["at"]
            spec.update(how=op["how"], kind=op["kind"], errno=op["errno"], at=int(at * ref["ops"]) if op["how"] != "disk" else 1 + int(at * ref["writes"]))
            out = life(plan, base, spec)
            if out["end"] == "harness":
                raise RuntimeError(out["error"])
            ctx.log(i, op["how"], spec["at"], out["end"], out.get("error"))
            if out["end"] == "killed":
                ctx.fault("process killed")
                ctx.probe("killed")
            elif out.get("fired"):
                ctx.fault("failing write" if op["how"] == "disk" else op["kind"])
                ctx.probe("disk fault" if op["how"] == "disk" else "failed")
                if out["end"] == "ok":
                    raise Violation("failure-swallowed", f"{what}: {op['how']} fault at {spec['at']} and the experiment reports success")
                if not out["injected"]:
                    raise Violation("other-error", f"{what}: ended with {out['error']}")
            elif out["end"] != "ok":
                raise Violation("experiment-fails", f"{what}: {out.get('error')}")
            if out["end"] != "ok" and "model.pt" in out["files"]:
                try:
                    w = weights(base, name)
                except Exception:
                    w = None  # a torn file: does not load
                if w is not None and w != weights(base, "ref"):
                    raise Violation("unfinished-model-saved", f"{what}: left a model.pt that loads but is not the result")
            # the experiment is simply started again, in a new directory
            spec = {"cfg": first, "name": name + "b", "before": [], "noise": op["noise"] + 3, "clock": plan["clock"] if timed else op["clock"]}
            name += "b"
            what += ", started again"
        elif op["op"] == "stored":
            spec["config"] = os.path.join(base, "ref", "config.yaml")
            spec["clock"] = op["clock"]
            ctx.probe("stored configuration")
        elif op["op"] == "seed":
            spec["cfg"] = {**cfg, "seed": (op["noise"] % (1 << 30)) + 12345}
        elif op["op"] == "eval":
            d = os.path.join(base, name, "tb", "version_0", "checkpoints")
            os.makedirs(d)
            shutil.copy(os.path.join(base, "ref", "model.pt"), os.path.join(d, "last.ckpt"))
            spec["load"] = True
        out = life(plan, base, spec)
        check(out, what)
        ctx.sim_time += len(out["metrics"])
        ctx.log(i, what, out["metrics"][-1:], out.get("before"))
        if any(b != "ok" for b in out.get("before", [])):
            ctx.fault("tensor fault in an earlier experiment")
            ctx.probe("after failures")
        elif op["before"]:
            ctx.probe("after others")
        if op["op"] == "seed":
            ctx.probe("other seed")
            if weights(base, name) == weights(base, "ref") or not cfg["classification"] and out["metrics"] == ref["metrics"]:
                raise Violation("seed-ignored", f"{what}: another seed gives the same model or figures")
        elif op["op"] == "eval":
            ctx.probe("evaluated checkpoint")
            a, b = {}, {}
            for _, mm in ref["metrics"]:
                a.update({k: v for k, v in mm.items() if k.startswith("Test/")})
            for _, mm in out["metrics"]:
                b.update({k: v for k, v in mm.items() if k.startswith("Test/")})
            for k in sorted(a):
                if k not in b or abs(float.fromhex(a[k]) - float.fromhex(b[k])) > 1e-4 * (1 + abs(float.fromhex(a[k]))):
                    raise Violation("evaluation-differs", f"{what}: {k} is {float.fromhex(b[k]) if k in b else 'missing'}, the run that saved the model reported {float.fromhex(a[k])}")
            if any(k.startswith(("Train/", "Val/")) for _, mm in out["metrics"] for k in mm):
                raise Violation("evaluation-trains", f"{what}: reported training figures")
            if weights(base, name) != weights(base, "ref"):
                raise Violation("evaluation-differs", f"{what}: the evaluated model is not the one that was saved")
        else:
            ctx.probe("repeated")
            same(ref, out, base, "ref", name, what)
        if tree(os.path.join(base, "ref")) != files:
            raise Violation("other-run-touched", f"{what} changed the files of the first run")
        ctx.nontrivial = True
        ctx.mark((cfg["dataset"], cfg["dist"], cfg["model"], cfg["mixture"], cfg["classification"], op["op"], op.get("how"), len(op["before"])))


def simplify(plan):
    for k, v in (("epochs", 1), ("init_leaf_data", False), ("dropout", 0.0)):
        if plan["cfg"][k] != v:
            yield {**plan, "cfg": {**plan["cfg"], k: v}}
    for i, op in enumerate(plan["ops"]):
        if op["before"]:
            yield {**plan, "ops": [{**o, "before": o["before"][1:]} if j == i else o for j, o in enumerate(plan["ops"])]}
