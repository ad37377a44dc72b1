"""C18  Training and evaluation: steps score the batch they get, nothing else leaks in, work can be resumed.

A simulated trainer drives the Lightning modules (models_pl) and the functions of main.py: it decides
when batches arrive, how they are split, when validation or sampling is interleaved, where a step is
killed by a fault, and when the process dies and resumes from its checkpoint.  A twin that only sees the
successful training batches is the reference.
"""
import copy
import io
import math
import re
import types

import torch

from .. import env, world as W
from ..core import SutError, Violation, thash
from ..faults import Failed, gen_fault, sut, sut_faulty

ID = "C18"
N_QUICK = 840
N_THOROUGH = 20000
PRELOAD = ("models_pl", "main")
RULE = "a run counts when at least one training step was compared with the twin, or one evaluation with its parts"
REAL = ["SpnGenerative, SpnDiscriminative, make_einet, make_convpc, get_distribution, configure_optimizers", "main.train, main.test, preprocess",
        "Einet, ConvPc, Mixture", "torch Adam, SGD and schedulers"]
STUBS = ["Lightning trainer and logger (simulated)", "data loader", "fabric.backward", "fast_pytorch_kmeans (deterministic stand-in)"]
ASSUMPTIONS = [
    "faults strike inside a step or its backward pass, not inside the optimizer's update",
    "the trainer seeds torch before every step; a resumed process restores module, optimizer and scheduler from their state dicts",
    "generative models with several classes: the loss averages over the class conditional likelihoods, as the code does",
    "progress is required of models without dropout on one repeated batch",
]
PROBES = ["generative", "discriminative", "convpc", "mixture", "main", "interleaved evaluation", "interleaved sampling", "failed step", "resumed",
          "partition", "accuracy", "progress", "few bits", "categorical", "dropout", "logged", "epoch end", "single row", "debug stop", "main evaluation", "main training"]
MIN_OPS = 0

DS = {"synth-2-moons": 2, "synth-3-clusters": 2, "wine": 13, "nltcs": 16, "digits": 64, "mnist-16": 256, "fake": 3072}


def gen(rng, i):
    if rng.random() < 0.28:
        return gen_main(rng)
    kind = rng.choice(["gen", "gen", "disc"])
    ds = rng.choice(["synth-2-moons", "synth-3-clusters", "wine", "wine", "nltcs", "digits", "digits", "mnist-16"] + (["fake"] if rng.random() < 0.3 else []))
    dist = rng.choice(["normal", "normal", "normal_rat", "binomial", "binomial", "categorical"])
    model = "einet"
    mixture = False
    if kind == "gen" and ds in ("digits", "mnist-16") and rng.random() < 0.5:
        model = "convpc"
    if kind == "gen" and ds != "fake" and model == "einet" and rng.random() < 0.25:
        mixture = True
    k = rng.choice([1, 1, 2]) if kind == "gen" else rng.randint(2, 4)
    if mixture:
        k = rng.randint(1, 3)
    if model == "convpc":
        k = 1
    units = {"synth-2-moons": 2, "synth-3-clusters": 2, "wine": 13, "nltcs": 16, "digits": 64, "mnist-16": 256, "fake": 1024}[ds]
    structure = rng.choice(["top-down", "top-down", "bottom-up"])
    d = rng.randint(1, min(3, int(math.log2(units))))
    cfg = {"dataset": ds, "dist": dist, "epochs": rng.choice([2, 10]), "tag": rng.choice([None, "t"]), "lr": rng.choice([0.01, 0.02, 0.05]), "num_classes": k,
           "dropout": rng.choice([0.0, 0.0, 0.0, 0.3]) if model == "einet" and structure == "top-down" else 0.0, "mixture": mixture, "model": model,
           "n_bits": rng.choice([8, 8, 4, 2, 1]) if dist != "categorical" else rng.choice([4, 2, 1]), "min_sigma": 0.1, "max_sigma": 2.0, "multivariate_cardinality": 2,
           "einet": {"S": rng.randint(1, 3), "I": rng.randint(1, 3), "D": d, "R": rng.randint(1, 2), "structure": structure,
                     "layer_type": "linsum" if structure == "bottom-up" else rng.choice(["linsum", "linsum2", "einsum"])},
           "convpc": {"channels": [2, 2, 2], "order": rng.choice(["sum-prod", "prod-sum"]), "structure": rng.choice(["top-down", "bottom-up"]), "kernel_size": 2}}
    ops = []
    for _ in range(rng.randint(2, 7)):
        t = rng.random()
        op = {"s": rng.randrange(1 << 30), "n": rng.choice([1, 2, 3, 5, 8]), "rng": rng.randrange(1 << 30)}
        if t < 0.5:
            op["op"] = "train"
            if rng.random() < 0.4:
                op["faults"] = [gen_fault(rng) for _ in range(rng.randint(1, 2))]
        elif t < 0.7:
            op.update(op="val", parts=rng.randint(1, 3), test=rng.choice([None, 0, 1, 2]))
            if rng.random() < 0.3:
                op["faults"] = [gen_fault(rng)]
        elif t < 0.8:
            op["op"] = "sample"
        elif t < 0.86:
            op["op"] = "epoch"
        else:
            op["op"] = "restart"
        ops.append(op)
    return {"seed": rng.randrange(1 << 30), "kind": kind, "cfg": cfg, "mseed": rng.randrange(1 << 30), "ops": ops, "progress": rng.random() < 0.35}


def gen_main(rng):
    dist = rng.choice(["normal", "binomial", "categorical", "categorical"])
    classification = rng.random() < 0.4
    n = rng.choice([1, 2, 5, 9, 13, 16])
    return {"seed": rng.randrange(1 << 30), "kind": "main", "dist": dist, "C": rng.choice([1, 1, 3]), "H": rng.choice([2, 4]), "n_bits": rng.choice([1, 3, 8]) if dist != "categorical" else rng.choice([1, 3]),
            "K": rng.randint(2, 3) if classification else rng.choice([1, 1, 1, 3]), "cls": classification, "S": rng.randint(1, 3), "I": rng.randint(1, 3), "R": rng.randint(1, 2),
            "D": rng.randint(1, 2), "layer": rng.choice(["linsum", "einsum"]), "mseed": rng.randrange(1 << 30), "n": n, "bs": [rng.choice([1, 2, 3, 4, 8, 16]) for _ in range(2)],
            "s": rng.randrange(1 << 30), "lr": 0.05, "debug": rng.random() < 0.2, "dry": rng.random() < 0.15, "log": rng.choice([1, 2, 3]), "epochs": rng.randint(1, 2),
            "ops": [{"op": "test", "faults": [gen_fault(rng)] if rng.random() < 0.4 else []}, {"op": "train"}, {"op": "test", "faults": []}]}


# ---------------------------------------------------------------- Lightning modules


class Logger:
    def __init__(self):
        self.images = []

    def log_image(self, key=None, images=None, **kw):
        self.images.append((key, [tuple(i.shape) for i in images]))


def module(plan, seed):
    from omegaconf import OmegaConf

    import numpy as np

    M = env.import_root("models_pl")
    base = M.SpnGenerative if plan["kind"] == "gen" else M.SpnDiscriminative
    cls = type(base.__name__, (base,), {"logger": property(lambda self: self._sim_logger)})
    torch.manual_seed(seed)
    np.random.seed(seed % 2**32)
    m = cls(OmegaConf.create(plan["cfg"]), steps_per_epoch=3)
    object.__setattr__(m, "_sim_logger", Logger())
    object.__setattr__(m, "_sim_logged", [])
    object.__setattr__(m, "log", lambda name, value, *a, **kw: m._sim_logged.append((name, value)))
    object.__setattr__(m, "rtpt", types.SimpleNamespace(start=lambda: None, step=lambda: None))
    if plan["cfg"]["mixture"]:
        x, _ = batch(plan, 77, 12)
        torch.manual_seed(5)
        m.spn.initialize(data=m.preprocess(x.clone()))
    m.train()
    return m


def batch(plan, s, n):
    """What the data loader yields for this data set: rows and labels."""
    cfg = plan["cfg"]
    from simple_einet.data import get_data_shape

    shape = tuple(get_data_shape(cfg["dataset"]))
    g = torch.Generator().manual_seed(s)
    if cfg["dist"] in ("normal", "normal_rat"):
        x = torch.randn(n, *shape, generator=g)
    elif cfg["dataset"] == "nltcs":
        x = torch.randint(0, 2, (n, *shape), generator=g).float()
    else:
        x = torch.randint(0, 256, (n, *shape), generator=g).float() / 255
    if cfg["dataset"].startswith("synth"):
        x = x.reshape(n, 2)
    return x, torch.randint(0, max(1, cfg["num_classes"]), (n,), generator=g)


def prepared(plan, x):
    """What the model should be asked about."""
    cfg = plan["cfg"]
    if cfg["dist"] in ("binomial", "categorical"):
        return torch.floor(x.double() * 255 + 1e-6).div(2 ** (8 - cfg["n_bits"]), rounding_mode="floor").float()
    return x.clone()


def expected(plan, spn, x, y):
    """Loss and accuracy from the model's likelihoods, in double precision, and the size of its float32 rounding."""
    with torch.no_grad():
        ll = spn(prepared(plan, x))
    if not isinstance(ll, torch.Tensor) or ll.shape[0] != x.shape[0]:
        raise Violation("wrong-shape", "log-likelihood")
    ll = ll.double().reshape(x.shape[0], -1)
    if plan["kind"] == "gen":
        return float(-ll.mean()), None, 0.0
    post = torch.log_softmax(ll, dim=-1)
    top2 = post.topk(2, dim=-1).values
    sure = bool((top2[:, 0] - top2[:, 1] > 1e-4 + 1e-6 * float(ll.abs().max())).all())
    return float(-post[torch.arange(len(y)), y].mean()), (float((post.argmax(-1) == y).double().mean()) if sure else None), float(ll.abs().max()) * 1e-6


def near(a, b, tol=2e-4):
    return math.isfinite(a) and math.isfinite(b) and abs(a - b) <= tol * (1 + abs(b))


class Life:
    """One process: module, optimizer, schedule."""

    def __init__(self, plan, seed):
        self.plan = plan
        self.m = module(plan, seed)
        o, s = self.m.configure_optimizers()
        self.opt, self.sched = o[0], s[0]

    def save(self):
        buf = io.BytesIO()
        torch.save({"m": self.m.state_dict(), "o": self.opt.state_dict(), "s": self.sched.state_dict(), "t": self.m.training}, buf)
        return buf.getvalue()

    def load(self, raw):
        d = torch.load(io.BytesIO(raw), weights_only=False)
        self.m.load_state_dict(d["m"])
        self.opt.load_state_dict(d["o"])
        self.sched.load_state_dict(d["s"])
        self.m.train(d["t"])

    def loss(self, op, back=True):
        x, y = batch(self.plan, op["s"], op["n"])
        self.opt.zero_grad(set_to_none=True)
        loss = self.m.training_step((x, y), 0)
        if back:
            loss.backward()
        return loss


def run(plan, ctx):
    if plan["kind"] == "main":
        return run_main(plan, ctx)
    cfg = plan["cfg"]
    ctx.probe({"gen": "generative", "disc": "discriminative"}[plan["kind"]])
    for k, p in ((cfg["model"] == "convpc", "convpc"), (cfg["mixture"], "mixture"), (cfg["n_bits"] < 8 and cfg["dist"] == "binomial", "few bits"),
                 (cfg["dist"] == "categorical", "categorical"), (cfg["dropout"] > 0, "dropout")):
        if k:
            ctx.probe(p)
    twin = sut(lambda: Life(plan, plan["mseed"]), ctx)
    life = sut(lambda: Life(plan, plan["mseed"]), ctx)
    if W.state_hash(twin.m) != W.state_hash(life.m):
        raise Violation("construction", "two modules built under one seed differ")
    ids = {id(p) for g in life.opt.param_groups for p in g["params"]}
    lost = [n for n, p in life.m.named_parameters() if p.requires_grad and id(p) not in ids]
    if lost:
        raise Violation("parameter-not-trained", f"the optimizer does not know {lost[:4]}")
    for i, op in enumerate(plan["ops"]):
        what = f"op {i} {op['op']}"
        if op["op"] == "train":
            train(plan, twin, life, op, ctx, what)
        elif op["op"] == "val":
            evaluate(plan, twin, life, op, ctx, what)
        elif op["op"] == "sample":
            sample(plan, life, op, ctx, what)
        elif op["op"] == "epoch":
            if plan["kind"] == "gen" and not (cfg["dist"] in ("normal", "normal_rat") and cfg["dataset"].startswith(("synth", "wine"))):
                torch.manual_seed(op["rng"])
                quiet(plan, life, lambda: sut(lambda: life.m.on_train_epoch_end(), ctx), what)
                ctx.probe("epoch end")
            else:
                sut(lambda: life.m.log("x", 0.0), ctx)
            twin.sched.step()
            life.sched.step()
            if not near(life.opt.param_groups[0]["lr"], twin.opt.param_groups[0]["lr"], 1e-6):
                raise Violation("learning-rate", f"{what}: {life.opt.param_groups[0]['lr']} and {twin.opt.param_groups[0]['lr']}")
        else:
            raw = life.save()
            life = sut(lambda: Life(plan, op["s"]), ctx)
            sut(lambda: life.load(raw), ctx)
            ctx.fault("restart")
            ctx.probe("resumed")
        ctx.mark((op["op"], bool(op.get("faults")), op["n"]))
    for (a, p), (b, q) in zip(sorted(twin.m.named_parameters()), sorted(life.m.named_parameters())):
        if a != b or not W.close(p, q, 1e-4, 1e-5):
            raise Violation("trajectory", f"parameter {a} differs from the undisturbed training by {float((p - q).abs().max()):.3g}")
    if plan["progress"] and cfg["dropout"] == 0:
        progress(plan, life, ctx)
    ctx.log("end", W.state_hash(life.m))


def quiet(plan, life, fn, what):
    """Nothing but the answer may come out of evaluation."""
    h = W.state_hash(life.m)
    r = fn()
    if W.state_hash(life.m) != h:
        raise Violation("model-changed", f"{what} changed parameters, buffers or modes")
    if not torch.is_grad_enabled():
        raise Violation("grad-mode", f"{what} left gradients switched off")
    return r


def scalar(t, what):
    W.check_tensor(t, what)
    if t.numel() != 1:
        raise Violation("wrong-shape", f"{what}: shape {tuple(t.shape)}, expected one number")
    return float(t.detach())


def train(plan, twin, life, op, ctx, what):
    cfg = plan["cfg"]
    x, y = batch(plan, op["s"], op["n"])
    for f in op.get("faults", []):
        torch.manual_seed(op["rng"])
        out = sut_faulty(lambda: life.loss(op), f, 80, ctx)
        if isinstance(out, Failed):
            ctx.probe("failed step")
    losses = []
    for side in (twin, life):
        torch.manual_seed(op["rng"])
        bx, by = x.clone(), y.clone()
        if side is life:  # a loader that fills the same pinned buffer for every batch
            bx, by = W.staged(x, "x"), W.staged(y, "y")
        del side.m._sim_logged[:]

        def step():
            side.opt.zero_grad(set_to_none=True)
            loss = side.m.training_step((bx, by), 0)
            loss.backward()
            return loss

        loss = scalar(sut(step, ctx), what)
        losses.append(loss)
        if thash(bx) != thash(x) or thash(by) != thash(y):
            raise Violation("batch-changed", f"{what}: the step changed the caller's batch")
    if not near(losses[0], losses[1], 1e-5):
        raise Violation("history-dependent-loss", f"{what}: loss {losses[1]} after failures, evaluation and restarts, {losses[0]} without")
    logged = dict(life.m._sim_logged)
    if "Train/loss" not in logged or not near(float(logged["Train/loss"]), losses[1], 1e-6):
        raise Violation("logged", f"{what}: logged { {k: float(v) for k, v in logged.items()} }, the loss is {losses[1]}")
    ctx.probe("logged")
    if cfg["dropout"] == 0:
        want, acc, ulp = expected(plan, twin.m.spn, x, y)
        if not near(losses[1], want, 2e-4 + ulp):
            raise Violation("wrong-loss", f"{what}: loss {losses[1]}, the model's likelihoods give {want}")
        if acc is not None and not near(float(logged.get("Train/accuracy", -1)), acc, 1e-5):
            raise Violation("wrong-accuracy", f"{what}: logged {float(logged.get('Train/accuracy', -1))}, correct {acc}")
    for name, p in life.m.named_parameters():
        if p.requires_grad and p.grad is None and not cfg["mixture"]:
            raise Violation("parameter-not-trained", f"{what}: {name} receives no gradient")
        if p.grad is not None and not torch.isfinite(p.grad).all():
            raise Violation("gradient-not-finite", f"{what}: {name}")
    twin.opt.step()
    life.opt.step()
    ctx.nontrivial = True
    ctx.log(what, round(losses[1], 6))


def evaluate(plan, twin, life, op, ctx, what):
    """Validation and test steps over a split batch."""
    x, y = batch(plan, op["s"], op["n"])
    life.m.eval()
    twin.m.eval()
    want, acc, ulp = expected(plan, twin.m.spn, x, y)
    name = None

    def step(bx, by):
        if op["test"] is None:
            return life.m.validation_step((bx, by), 0)
        return life.m.test_step((bx, by), 0, dataloader_idx=op["test"])

    for f in op.get("faults", []):
        bx = x.clone()
        quiet(plan, life, lambda: sut_faulty(lambda: step(bx, y.clone()), f, 40, ctx), what)
        torch.set_grad_enabled(True)
    total = {}
    for part in [p for p in torch.tensor_split(torch.arange(op["n"]), op["parts"]) if len(p)]:
        bx, by = W.staged(x[part], "x"), W.staged(y[part], "y")
        del life.m._sim_logged[:]
        with torch.no_grad():
            quiet_ng(plan, life, lambda: sut(lambda: step(bx, by), ctx), what)
        if thash(bx) != thash(x[part]) or thash(by) != thash(y[part]):
            raise Violation("batch-changed", f"{what}: the step changed the caller's batch")
        for k, v in life.m._sim_logged:
            total[k] = total.get(k, 0.0) + float(v) * len(part) / op["n"]
        if len(part) == 1:
            ctx.probe("single row")
    setname = {0: "train", 1: "val", 2: "test"}.get(op["test"])
    if plan["kind"] == "gen":
        need = {("Val/loss" if setname is None else f"Test/{setname}_nll"): want}
    else:
        need = {"Val/loss": want, "Val/accuracy": acc} if setname is None else {f"Test/{setname}_accuracy": acc}
    for k, v in need.items():
        if k not in total:
            raise Violation("logged", f"{what}: {k} was not reported ({sorted(total)})")
        if v is not None and not near(total[k], v, 2e-4 + (0.0 if "accuracy" in k else ulp)):
            raise Violation("evaluation", f"{what}: {k} over {op['parts']} batches is {total[k]}, over the whole {v}")
        if "accuracy" in k:
            ctx.probe("accuracy")
    if op["parts"] > 1:
        ctx.probe("partition")
    ctx.probe("interleaved evaluation")
    life.m.train()
    twin.m.train()
    ctx.nontrivial = True
    ctx.log(what, sorted((k, round(v, 5)) for k, v in total.items()))


def quiet_ng(plan, life, fn, what):
    h = W.state_hash(life.m)
    fn()
    if W.state_hash(life.m) != h:
        raise Violation("model-changed", f"{what} changed parameters, buffers or modes")


def sample(plan, life, op, ctx, what):
    if plan["kind"] != "gen":
        return
    from simple_einet.data import get_data_shape

    cfg = plan["cfg"]
    shape = tuple(get_data_shape(cfg["dataset"]))
    torch.manual_seed(op["rng"])
    with torch.no_grad():
        out = []
        quiet_ng(plan, life, lambda: out.append(sut(lambda: life.m.generate_samples(num_samples=op["n"], differentiable=False), ctx)), what)
    x = W.need(out[0], (op["n"], *shape), what).double() * 255
    if not torch.isfinite(x).all():
        raise Violation("samples", f"{what}: not finite")
    if cfg["dist"] in ("binomial", "categorical"):
        if ((x - x.round()).abs() > 1e-3).any() or x.min() < -1e-3 or x.max() > 2 ** cfg["n_bits"] - 1 + 1e-3:
            raise Violation("samples", f"{what}: values in [{float(x.min())}, {float(x.max())}] for {cfg['n_bits']} bits")
    ctx.probe("interleaved sampling")
    ctx.log(what, thash(out[0]))


def progress(plan, life, ctx):
    """Bounded liveness: once nothing goes wrong, repeating one batch lowers its loss."""
    op = {"s": plan["mseed"] + 9, "n": 8}
    first = last = None
    o, _ = life.m.configure_optimizers()
    life.opt = o[0]
    for k in range(20):
        torch.manual_seed(k)
        last = scalar(sut(lambda: life.loss(op), ctx), "training step")
        if not math.isfinite(last):
            raise Violation("loss-not-finite", f"after {k} steps")
        first = last if first is None else first
        life.opt.step()
    if not last <= first + 1e-3 * (1 + abs(first)):
        raise Violation("no-progress", f"20 steps on one batch moved its loss from {first} to {last}")
    ctx.probe("progress")


# ---------------------------------------------------------------- main.py


class Loader:
    def __init__(self, x, y, bs):
        self.x, self.y, self.bs = x, y, bs
        self.dataset = list(range(len(x)))
        self.given = []

    def __len__(self):
        return math.ceil(len(self.x) / self.bs)

    def __iter__(self):
        for i in range(0, len(self.x), self.bs):
            b = (self.x[i : i + self.bs].clone(), self.y[i : i + self.bs].clone())
            self.given.append((b, thash(*b)))
            yield b

    def check(self, what):
        for b, h in self.given:
            if thash(*b) != h:
                raise Violation("batch-changed", f"{what} changed the loader's batch")


def run_main(plan, ctx):
    import numpy as np
    from simple_einet.einet import Einet, EinetConfig
    from simple_einet.layers.distributions.binomial import Binomial
    from simple_einet.layers.distributions.categorical import Categorical
    from simple_einet.layers.distributions.normal import Normal

    ctx.probe("main")
    M = env.import_root("main")
    bins = 2 ** plan["n_bits"]
    cls, kw = {"normal": (Normal, {}), "binomial": (Binomial, {"total_count": bins - 1}), "categorical": (Categorical, {"num_bins": bins})}[plan["dist"]]
    gauss = plan["dist"] == "normal"
    f = plan["H"] * plan["H"]

    def build():
        torch.manual_seed(plan["mseed"])
        np.random.seed(plan["mseed"] % 2**32)
        return Einet(EinetConfig(num_features=f, num_channels=plan["C"], depth=plan["D"], num_sums=plan["S"], num_leaves=plan["I"], num_repetitions=plan["R"],
                                 num_classes=plan["K"], leaf_type=cls, leaf_kwargs=kw, layer_type=plan["layer"], dropout=0.0, structure="top-down"))

    m, ref = sut(build, ctx), sut(build, ctx)
    g = torch.Generator().manual_seed(plan["s"])
    x = torch.randint(0, 256, (plan["n"], plan["C"], plan["H"], plan["H"]), generator=g).float() / 255
    y = torch.randint(0, plan["K"], (plan["n"],), generator=g)
    args = types.SimpleNamespace(debug=plan["debug"], classification=plan["cls"], log_interval=plan["log"], dry_run=plan["dry"])
    said = []
    saved = {k: M.__dict__.get(k, None) for k in ("args", "n_bits", "n_bins", "has_gauss_dist", "fabric", "print")}
    M.args, M.n_bits, M.n_bins, M.has_gauss_dist = args, plan["n_bits"], bins, gauss
    M.fabric = types.SimpleNamespace(backward=lambda loss, *a, **kw: loss.backward())
    M.print = lambda *a, **kw: said.append(" ".join(str(v) for v in a))
    try:
        opt = torch.optim.SGD(m.parameters(), lr=plan["lr"])
        ropt = torch.optim.SGD(ref.parameters(), lr=plan["lr"])
        for i, op in enumerate(plan["ops"]):
            what = f"op {i} main.{op['op']}"
            if op["op"] == "test":
                main_test(plan, M, m, ref, x, y, bins, gauss, op, said, ctx, what)
            else:
                main_train(plan, M, args, m, ref, opt, ropt, x, y, bins, gauss, ctx, what)
            ctx.mark((op["op"], bool(op.get("faults")), plan["n"], plan["bs"][0], plan["dist"], plan["cls"]))
    finally:
        for k, v in saved.items():
            if v is None:
                M.__dict__.pop(k, None)
            else:
                M.__dict__[k] = v


def main_values(plan, x):
    v = torch.floor(x.double() * 255 + 1e-6)
    if plan["n_bits"] < 8:
        v = torch.div(v, 2 ** (8 - plan["n_bits"]), rounding_mode="floor")
    return v


def lls(plan, model, z):
    out = model(z)
    return out if plan["K"] == 1 else torch.logsumexp(out - math.log(plan["K"]), -1)


def main_test(plan, M, m, ref, x, y, bins, gauss, op, said, ctx, what):
    ctx.probe("main evaluation")
    ref.eval()
    z = main_values(plan, x).float()
    if gauss:
        z = z / bins - 0.5
    with torch.no_grad():
        want = float(-lls(plan, ref, z).double().mean())
        out = ref(z).double()
    top = out.topk(2, dim=-1).values if plan["K"] > 1 else None
    right = float((out.argmax(-1) == y).double().mean() * 100)
    sure = plan["K"] > 1 and bool((top[:, 0] - top[:, 1] > 1e-4).all())
    for bs in plan["bs"]:
        for fl in op["faults"]:
            h = W.state_hash(m)
            loader = Loader(x, y, bs)
            torch.manual_seed(3)
            r = sut_faulty(lambda: M.test(m, "cpu", loader, "X"), fl, 60, ctx)
            loader.check(what)
            if isinstance(r, Failed):
                ctx.probe("failed step")
                if not torch.is_grad_enabled():
                    raise Violation("grad-mode", f"{what}: an aborted evaluation left gradients switched off")
            m.eval()
            ref_flags = W.state_hash(m)
            del said[:]
        loader = Loader(x, y, bs)
        torch.manual_seed(3)
        before = {k: thash(v) for k, v in m.named_parameters()}
        sut(lambda: M.test(m, "cpu", loader, "SetName"), ctx)
        loader.check(what)
        if {k: thash(v) for k, v in m.named_parameters()} != before or m.training:
            raise Violation("model-changed", f"{what}: evaluation changed the model or left it in training mode")
        lines = [s for s in said if "SetName" in s]
        nums = [re.findall(r"-?\d+\.\d+|nan|inf", s) for s in lines]
        if not lines or not nums[-1]:
            raise Violation("logged", f"{what}: no loss was reported ({said})")
        got = float(nums[-1][-1])
        if not gauss:
            if not math.isfinite(got) or abs(got - want) > 1e-3 * (1 + abs(want)):
                raise Violation("evaluation", f"{what}: average loss {got} in batches of {bs}, {plan['n']} rows give {want}")
        elif not math.isfinite(got):
            raise Violation("evaluation", f"{what}: average loss {got}")
        if plan["cls"] and not gauss and sure:
            acc = [s for s in said if "ccuracy" in s]
            v = float(re.findall(r"-?\d+\.\d+", acc[-1])[-1]) if acc else -1.0
            if abs(v - right) > 0.02:
                raise Violation("wrong-accuracy", f"{what}: reported {v}, correct {right}")
            ctx.probe("accuracy")
        if plan["n"] % bs == 1 or bs == 1:
            ctx.probe("single row")
        del said[:]
        ctx.probe("partition")
        ctx.nontrivial = True
        ctx.log(what, bs, round(got, 4))


def main_train(plan, M, args, m, ref, opt, ropt, x, y, bins, gauss, ctx, what):
    """An epoch of main.train equals the textbook loop."""
    ctx.probe("main training")
    bs = plan["bs"][0]
    for epoch in range(plan["epochs"]):
        loader = Loader(x, y, bs)
        torch.manual_seed(11 + epoch)
        sut(lambda: M.train(args, m, "cpu", loader, opt, epoch + 1), ctx)
        loader.check(what)
        if gauss:
            continue
        ref.train()
        for b in range(len(loader)):
            if args.debug and b > 2:
                ctx.probe("debug stop")
                break
            z = main_values(plan, x[b * bs : (b + 1) * bs]).float()
            ropt.zero_grad()
            if plan["cls"]:
                out = ref(z)
                loss = -out[torch.arange(len(z)), y[b * bs : (b + 1) * bs]].mean()
            else:
                loss = -lls(plan, ref, z).mean()
            loss.backward()
            ropt.step()
            if args.dry_run and b % plan["log"] == 0:
                break
        for (a, p), (_, q) in zip(sorted(m.named_parameters()), sorted(ref.named_parameters())):
            if not W.close(p, q, 1e-3, 1e-4):
                raise Violation("trajectory", f"{what}: {a} is {float((p - q).abs().max()):.3g} away from gradient descent on the mean loss")
        ctx.nontrivial = True
    if gauss:
        for p in m.parameters():
            if not torch.isfinite(p).all():
                raise Violation("loss-not-finite", f"{what}: parameters after training")
    ctx.log(what, W.state_hash(m) if not gauss else "gauss")


def simplify(plan):
    if plan["kind"] == "main":
        for k in ("n", "K", "C", "S", "I", "R", "epochs"):
            lo = 2 if k == "K" and plan["cls"] else 1
            if plan[k] > lo:
                yield {**plan, k: lo}
        return
    for j, op in enumerate(plan["ops"]):
        if op.get("faults"):
            ops = copy.deepcopy(plan["ops"])
            ops[j].pop("faults")
            yield {**plan, "ops": ops}
        if op["n"] > 1:
            ops = copy.deepcopy(plan["ops"])
            ops[j]["n"] = 1
            yield {**plan, "ops": ops}
    c = plan["cfg"]
    for k in ("S", "I", "R"):
        if c["einet"][k] > 1:
            yield {**plan, "cfg": {**c, "einet": {**c["einet"], k: 1}}}
    if plan["progress"]:
        yield {**plan, "progress": False}
