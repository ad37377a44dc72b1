"""C25  The command line script trains what it saves, and evaluates what was saved last.

main.py is simulated as a whole program: every invocation is a process of its own on a shared scratch home
directory.  The simulator decides the ambient random state, the sequence of training and evaluation runs with
their arguments, which of them break and where, and what happens to the disk.
"""
import builtins
import hashlib
import json
import os
import runpy
import shutil
import sys
import tempfile

import torch

from .. import env, world as W
from ..core import Violation, reap, thash
from ..faults import gen_fault
from . import c14
from .c24 import Disk, Tensor

ID = "C25"
N_QUICK = 180
N_THOROUGH = 2600
RULE = "a run counts when a model was trained and at least one further invocation was compared with it"
MEASURE = "distinct (arguments, sequence of invocations, fault, outcome) traces"
REAL = ["main.py as a program", "args.parse_args", "build_dataloader, get_datasets", "Einet, preprocess, leaf families", "Lightning Fabric, torch.save / torch.load", "torchvision.utils.save_image"]
STUBS = ["images of MNIST (simulated)", "number of processors (0: no loader workers)", "home directory (scratch)", "fast_pytorch_kmeans (package not installed; deterministic stand-in)",
         "process death, failing writes"]
ASSUMPTIONS = ["CPU", "invocations do not overlap in time"]
PROBES = ["trained", "evaluated", "classification", "images", "again", "other seed", "killed", "failed", "disk fault", "nothing saved", "last of several models", "other shape refused", "other data set", "figures recomputed", "fitted"]
TIME_UNIT = "invocations"
PRELOAD = ("exp_utils", "main")
MIN_OPS = 1


def gen_args(rng):
    cls = rng.random() < 0.25
    layer, structure = rng.choice([("linsum", "top-down"), ("einsum", "top-down"), ("linsum", "bottom-up")])
    dist = rng.choice(["binomial", "normal", "normal", "normal_rat", "categorical"])
    return {"dataset": rng.choice(["digits", "digits", "mnist-16"]), "dist": dist, "lr": rng.choice([0.1, 0.02]), "batch-size": rng.choice([32, 64, 500]),
            "n-bits": rng.choice([8, 3]) if dist != "categorical" else 3, "epochs": rng.choice([1, 2]), "min-sigma": rng.choice([0.01, 0.1]), "seed": rng.randrange(1 << 30), "classification": cls,
            "debug": rng.random() < 0.5, "S": rng.randint(1, 3), "I": rng.randint(2, 3), "D": rng.randint(1, 3), "R": rng.randint(1, 2), "layer": layer, "structure": structure,
            "temperature-leaves": rng.choice([1.0, 0.5])}


def shape(a):
    return [a[k] for k in ("dataset", "dist", "n-bits", "min-sigma", "classification", "S", "I", "D", "R", "layer", "structure")]


def gen(rng, i):
    models = [gen_args(rng)]
    for _ in range(rng.choice([0, 0, 1])):
        models.append({**models[0], "seed": rng.randrange(1 << 30)} if rng.random() < 0.6 else gen_args(rng))
    ops = [{"op": "train", "m": 0, "noise": rng.randrange(1 << 30)}]
    if rng.random() < 0.15:
        ops.insert(0, {"op": "eval", "m": 0, "noise": rng.randrange(1 << 30)})
    for _ in range(rng.randint(1, 4)):
        op = {"op": rng.choice(["train", "eval", "eval", "broken"]), "m": rng.randrange(len(models)), "noise": rng.randrange(1 << 30)}
        if op["op"] == "broken":
            op.update(how=rng.choice(["kill", "kill", "tensor", "disk"]), at=round(rng.random(), 4), kind=rng.choice(["oom", "alloc", "kernel"]), errno=rng.choice(["ENOSPC", "EIO", "EACCES"]),
                      eval=rng.random() < 0.3)
        ops.append(op)
    if rng.random() < 0.25:
        ops.append({"op": "seed", "m": 0, "noise": rng.randrange(1 << 30)})
    if rng.random() < 0.3 and models[0]["dataset"] == "digits":
        ops.append({"op": "fit", "m": 0, "noise": rng.randrange(1 << 30)})
    return {"seed": rng.randrange(1 << 30), "models": models, "ops": ops, "n": 10 * rng.randint(3, 6), "nt": rng.randint(2, 20), "pool": rng.randrange(1 << 30), "ds": "digits", "fail": None, "norm": False}


class Quiet:
    sim_time = 0

    def log(self, *a):
        pass

    probe = fault = log


def invoke(plan, home, args, train, noise, how=None, at=None, kind="oom", err="EIO"):
    """One invocation of the script; returns how it ended, what it printed and how far it counted."""
    r, w = os.pipe()
    out = os.path.join(home, "out")
    pid = os.fork()
    if pid == 0:
        sent = []

        def report(d):
            if not sent:
                sent.append(1)
                sys.stdout.flush()
                os.write(w, json.dumps(d).encode()[:60000])

        try:
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC), 1)
            os.dup2(null, 2)
            os.environ["HOME"] = home
            os.chdir(home)
            os.cpu_count = lambda: 0
            for obj, name, real in c14.install({**plan, "ds": args["dataset"]}, home, Quiet()):
                if name == "load_digits":
                    setattr(obj, name, real)  # bundled with scikit-learn
            argv = [os.path.join(env.REPO, "main.py"), "--device", "cpu"]
            for k, v in sorted(args.items()):
                flag = ("-" if len(k) == 1 else "--") + k
                if v is True:
                    argv.append(flag)
                elif v is not False:
                    argv += [flag, str(v)]
            sys.argv = argv + (["--train"] if train else [])
            W.noise(noise)
            mode = Tensor(at, how if how in ("kill", "tensor") else "count", kind, report)
            disk = Disk(os.path.join(home, "results"), at if how == "disk" else -1, err)
            builtins.open = disk.open
            d = {}
            try:
                with mode:
                    runpy.run_path(os.path.join(env.REPO, "main.py"), run_name="__main__")
                d["end"] = "ok"
            except BaseException as e:
                d.update(end="error", error=f"{type(e).__name__}: {e}"[:400], injected=type(e).__name__.startswith("Injected") or "simulated" in str(e))
            finally:
                builtins.open = disk.real
            d.update(ops=mode.n, writes=disk.n, fired=bool(mode.fired or disk.fired))
            report(d)
        except BaseException as e:
            import traceback

            report({"end": "harness", "error": "".join(traceback.format_exception(e))[-1500:]})
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        raw = f.read()
    reap(pid)
    res = json.loads(raw or b'{"end": "harness", "error": "no report"}')
    if res["end"] == "harness":
        raise RuntimeError(res["error"])
    if "error" in res:
        res["error"] = res["error"].replace(home, "~")
    res["out"] = open(out, errors="replace").read()
    return res


def folder(home, args):
    return os.path.join(home, "results", "simple-einet", args["dataset"])


def model(home, args):
    p = os.path.join(folder(home, args), "model.pth")
    if not os.path.exists(p):
        return None
    sd = torch.load(p, map_location="cpu")
    return thash(*[v for _, v in sorted(sd.items())], *sorted(sd))


def pictures(home, args):
    d = folder(home, args)
    return {f: hashlib.sha256(open(os.path.join(d, f), "rb").read()).hexdigest()[:16] for f in sorted(os.listdir(d)) if f.endswith(".png")} if os.path.isdir(d) else {}


def wipe(home, args):
    for f in pictures(home, args):
        os.remove(os.path.join(folder(home, args), f))


def figures(out):
    return [l for l in out.splitlines() if "Average loss" in l or "Accuracy" in l]


def score(plan, home, args, figs, what):
    """The printed figures are those of the saved model, in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            d = _score(plan, home, args)
        except BaseException as e:
            import traceback

            d = {"error": "".join(traceback.format_exception(e))[-1500:]}
        os.write(w, json.dumps(d).encode())
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        d = json.loads(f.read())
    os.waitpid(pid, 0)
    if "error" in d:
        raise RuntimeError(d["error"])
    losses = [float(l.split()[-1]) for l in figs if "Average loss" in l]
    hits = [float(l.split()[-1]) / 100 for l in figs if "Accuracy" in l]
    for part, got, want in zip(("Train", "Val", "Test"), losses, d["loss"]):
        if abs(got - want) > d["tol"] * (1 + abs(want)):
            raise Violation("figures-are-not-the-model", f"{what}: {part} loss is printed as {got}, the saved model has {want}")
    for part, got, (want, slack) in zip(("Train", "Val", "Test"), hits, d["hits"]):
        if abs(got - want) > slack:
            raise Violation("figures-are-not-the-model", f"{what}: {part} accuracy is printed as {got}, the saved model has {want}")


def _score(plan, home, args):
    import math

    from simple_einet import data as D
    from simple_einet.einet import Einet, EinetConfig
    from simple_einet.layers.distributions.binomial import Binomial
    from simple_einet.layers.distributions.categorical import Categorical
    from simple_einet.layers.distributions.normal import Normal, RatNormal

    bins = 2 ** args["n-bits"]
    leaf, kw = {"binomial": (Binomial, {"total_count": bins - 1}), "categorical": (Categorical, {"num_bins": bins}), "normal": (Normal, {}),
                "normal_rat": (RatNormal, {"min_sigma": args["min-sigma"], "max_sigma": 2.0})}[args["dist"]]
    sh = D.get_data_shape(args["dataset"])
    K = 10 if args["classification"] else 1
    net = Einet(EinetConfig(num_features=int(sh.height * sh.width), num_channels=sh.channels, depth=args["D"], num_sums=args["S"], num_leaves=args["I"], num_repetitions=args["R"], num_classes=K,
                            leaf_type=leaf, leaf_kwargs=kw, layer_type=args["layer"], dropout=0.0, structure=args["structure"]))
    net.load_state_dict(torch.load(os.path.join(folder(home, args), "model.pth")))
    net.eval()
    for obj, name, real in c14.install({**plan, "ds": args["dataset"]}, home, Quiet()):
        if name == "load_digits":
            setattr(obj, name, real)
    gauss = args["dist"].startswith("normal")
    out = {"loss": [], "hits": [], "tol": 0.02}
    for ds in D.get_datasets(args["dataset"], os.path.join(home, "data"), normalize=False):
        x = torch.stack([torch.as_tensor(a) for a, _ in c14.items(ds)]).double()
        y = torch.tensor([int(b) for _, b in c14.items(ds)])
        x = torch.floor(torch.floor(x * 255 + 1e-6) / 2 ** (8 - args["n-bits"]))
        if gauss:
            x = x / bins - 0.5 + 0.5 / bins  # in the middle of the noise that is added
        with torch.no_grad():
            ll = net(x.float()).double()
            noise = 0.0
            if gauss:
                # how much the noise can move the average
                far = torch.stack([(torch.logsumexp(net((x + s * 0.5 / bins).float()).double(), 1)).mean() for s in (-1, 1)])
                noise = float((far - torch.logsumexp(ll, 1).mean()).abs().max())
        want = float(-(torch.logsumexp(ll, 1) - math.log(K)).mean())
        out["loss"].append(want)
        out["tol"] = max(out["tol"], 0.02 + (noise / (1 + abs(want)) if gauss else 0))
        top = ll.topk(min(2, K), dim=1).values
        # mixed precision and noise may decide near ties differently
        near = (top[:, 0] - top[:, -1] < 0.02 * (1 + ll.abs().max(dim=1).values) + (2 * noise if gauss else 0)).double().mean()
        out["hits"].append([float((ll.argmax(1) == y).double().mean()), float(near) + 1e-4])
    return out


def run(plan, ctx):
    base = tempfile.mkdtemp(prefix="sim-c25-")
    try:
        _run(plan, ctx, base)
    finally:
        shutil.rmtree(base)


def _run(plan, ctx, base):
    home = os.path.join(base, "home")
    os.makedirs(home)
    saved = {}  # data set -> what its model.pth must be: (index of the model, weights)
    trained = {}  # model -> (weights, pictures)
    evaluated = {}  # (weights, model) -> (figures, pictures)
    for i, op in enumerate(plan["ops"]):
        args = plan["models"][op["m"]]
        what = f"invocation {i} ({op['op']}, {args['dataset']})"
        ds = args["dataset"]
        others = {d: (model(home, {"dataset": d}), pictures(home, {"dataset": d})) for d in ("digits", "mnist-16") if d != ds}
        wipe(home, args)
        before = model(home, args)
        ctx.sim_time += 1
        if op["op"] == "fit":
            fit(plan, ctx, base, {**args, "debug": False, "batch-size": 32, "lr": 0.02}, op["noise"], i, what)
        elif op["op"] in ("train", "seed"):
            a = {**args, "seed": op["noise"]} if op["op"] == "seed" else args
            r = invoke(plan, home, a, True, op["noise"])
            ctx.log(i, op["op"], r["end"], r.get("error"), r["ops"])
            if r["end"] != "ok":
                raise Violation("script-fails", f"{what}: {r['error']}")
            now = model(home, args)
            if now is None:
                raise Violation("model-not-saved", f"{what}: no model.pth")
            pics = pictures(home, args)
            if not args["classification"]:
                ctx.probe("images")
                if len(pics) < 13:
                    raise Violation("pictures-missing", f"{what}: {sorted(pics)}")
            if op["op"] == "seed":
                ctx.probe("other seed")
                if op["m"] in trained and now == trained[op["m"]][0]:
                    raise Violation("seed-ignored", f"{what}: another seed trains the same model")
                saved[ds] = (None, now)
            else:
                ctx.probe("trained")
                if op["m"] in trained:
                    ctx.probe("again")
                    ctx.nontrivial = True
                    w, p = trained[op["m"]][:2]
                    if now != w:
                        raise Violation("not-decided-by-arguments", f"{what}: the same arguments train another model")
                    if pics != p:
                        raise Violation("not-decided-by-arguments", f"{what}: other pictures: {sorted(k for k in set(p) | set(pics) if p.get(k) != pics.get(k))}")
                trained[op["m"]] = (now, pics, r["ops"], r["writes"])
                saved[ds] = (op["m"], now)
        elif op["op"] == "eval":
            r = invoke(plan, home, args, False, op["noise"])
            ctx.log(i, "eval", r["end"], r.get("error"), figures(r["out"]))
            now = model(home, args)
            if now != before:
                raise Violation("evaluation-writes", f"{what}: model.pth has changed")
            if ds not in saved:
                ctx.probe("nothing saved")
                if r["end"] == "ok":
                    raise Violation("evaluated-nothing", f"{what}: no model has been saved, and the script reports {figures(r['out'])}")
            else:
                m, w = saved[ds]
                last = plan["models"][m if m is not None else 0]
                if shape(last) == shape(args):
                    if r["end"] != "ok":
                        raise Violation("script-fails", f"{what}: {r['error']}")
                    ctx.probe("evaluated")
                    ctx.nontrivial = True
                    if len(trained) > 1:
                        ctx.probe("last of several models")
                    pics = pictures(home, args)
                    figs = figures(r["out"])
                    need = 3 * (2 if args["classification"] else 1)
                    if len(figs) != need:
                        raise Violation("figures-missing", f"{what}: {figs}")
                    if args["classification"]:
                        ctx.probe("classification")
                    if m is not None and trained[m][0] == w and {**last, "seed": 0} == {**args, "seed": 0} and pics != trained[m][1]:
                        p = trained[m][1]
                        raise Violation("evaluates-another-model", f"{what}: other pictures than the run that saved the model: {sorted(k for k in set(p) | set(pics) if p.get(k) != pics.get(k))}")
                    key = (w, op["m"])
                    if key in evaluated and evaluated[key] != (figs, pics):
                        raise Violation("evaluation-varies", f"{what}: {figs}, before {evaluated[key][0]}")
                    if key not in evaluated:
                        score(plan, home, args, figs, what)
                        ctx.probe("figures recomputed")
                    evaluated[key] = (figs, pics)
                elif r["end"] != "ok":
                    ctx.probe("other shape refused")
        else:
            ref = trained.get(op["m"])
            n, nw = (ref[2], ref[3]) if ref else (3000, 12)
            at = int(op["at"] * n) if op["how"] != "disk" else 1 + int(op["at"] * nw)
            train = not op["eval"]
            r = invoke(plan, home, args, train, op["noise"], op["how"], at, op["kind"], op["errno"])
            now = model_or_torn(home, args, what)
            ctx.log(i, "broken", op["how"], at, r["end"], r.get("error"))
            if r["end"] == "killed":
                ctx.fault("process killed")
                ctx.probe("killed")
            elif r.get("fired"):
                ctx.fault("failing write" if op["how"] == "disk" else op["kind"])
                ctx.probe("disk fault" if op["how"] == "disk" else "failed")
                if r["end"] == "ok":
                    raise Violation("failure-swallowed", f"{what}: {op['how']} fault at {at} and the script reports success")
            if now != before:
                if not train:
                    raise Violation("evaluation-writes", f"{what}: model.pth has changed")
                if now is None:
                    raise Violation("model-lost", f"{what}: the model of an earlier run is gone")
                if ref and now != ref[0]:
                    raise Violation("unfinished-model-saved", f"{what}: model.pth is neither the earlier nor the finished model")
                if not ref:
                    # finish the same run elsewhere: what was left must be the finished model
                    twin = os.path.join(base, f"twin{i}")
                    os.makedirs(twin)
                    t = invoke(plan, twin, args, True, op["noise"] + 1)
                    if t["end"] == "ok" and model(twin, args) != now:
                        raise Violation("unfinished-model-saved", f"{what}: model.pth is not the finished model")
                saved[ds] = (op["m"] if ref else None, now)
                if not ref:
                    del saved[ds]
                    os.remove(os.path.join(folder(home, args), "model.pth"))
        for d, v in others.items():
            if (model(home, {"dataset": d}), pictures(home, {"dataset": d})) != v:
                raise Violation("other-data-set-touched", f"{what} changed the results of {d}")
            if v[0]:
                ctx.probe("other data set")
        ctx.mark((args["dataset"], args["dist"], args["layer"], args["structure"], args["classification"], op["op"], op.get("how"), len(saved)))


def fit(plan, ctx, base, args, noise, i, what):
    """Training lowers the loss; without epochs, or without a step width, nothing is learned."""
    w, loss = {}, {}
    for name, over in (("none", {"epochs": 0}), ("still", {"epochs": 1, "lr": 0.0, "debug": True}), ("one", {"epochs": 1, "debug": True}), ("fit", {"epochs": 2})):
        home = os.path.join(base, f"fit{i}-{name}")
        os.makedirs(home)
        a = {**args, **over}
        r = invoke(plan, home, a, True, noise)
        if r["end"] != "ok":
            raise Violation("script-fails", f"{what}, {over}: {r['error']}")
        w[name] = model(home, a)
        if name in ("none", "fit"):
            r = invoke(plan, home, a, False, noise)
            if r["end"] != "ok":
                raise Violation("script-fails", f"{what}, {over}: {r['error']}")
            loss[name] = [float(l.split()[-1]) for l in figures(r["out"]) if "Average loss" in l][0]
    ctx.probe("fitted")
    ctx.log(i, "fit", loss)
    if w["none"] is None or w["still"] != w["none"]:
        raise Violation("learning-rate-ignored", f"{what}: training with a learning rate of 0 changes the initial model")
    if w["one"] == w["none"]:
        raise Violation("nothing-trained", f"{what}: one epoch of training leaves the initial model")
    if not loss["fit"] < loss["none"]:
        raise Violation("training-does-not-fit", f"{what}: the loss on the training part is {loss['none']} before and {loss['fit']} after two epochs")


def model_or_torn(home, args, what):
    try:
        return model(home, args)
    except Exception as e:
        raise Violation("torn-model", f"{what}: model.pth does not load: {type(e).__name__}: {e}"[:300])


def simplify(plan):
    for k, v in (("epochs", 1), ("debug", True)):
        if any(m[k] != v for m in plan["models"]):
            yield {**plan, "models": [{**m, k: v} for m in plan["models"]]}
