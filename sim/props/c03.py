"""C03  Conditional sampling and MPE fill exactly what is missing.

Under injected faults, retries and interleaved training, every answer keeps the caller's evidence,
fills every missing entry with a possible value, and never writes to the caller's tensors.
"""
import torch

from .. import models, world as W
from ..core import Violation, thash
from ..faults import Failed, gen_fault, sut, sut_faulty

ID = "C03"
N_QUICK = 1600
N_THOROUGH = 40000
RULE = "a run counts when at least one conditional answer with both observed and missing entries was checked"
REAL = ["Einet.sample/mpe", "ConvPc.sample", "Mixture.sample/mpe", "all leaf layers", "sampling_context"]
STUBS = ["fast_pytorch_kmeans (package not installed; deterministic stand-in)"]
ASSUMPTIONS = [
    "evidence is float32, in any memory layout; its observed entries are in the support",
    "the multivariate leaf is excluded: it supports no missing values",
    "support membership is not checked for differentiable sampling of binomial leaves, which is a documented Gaussian approximation",
]
PROBES = ["row fully missing", "row fully observed", "marginalized scopes", "retry after failure", "far evidence", "wide batch"]


def gen(rng, i):
    cfg = W.gen_subject(rng, max_f=7, max_w=4,
                        leaves=("normal", "ratnormal", "categorical", "binomial", "bernoulli", "multi", "multi", "pwl"))
    if cfg["kind"] == "einet" and rng.random() < 0.25:
        cfg.update(sat=20.0, perturb=max(cfg["perturb"], 1.0))
    elif cfg["kind"] == "einet" and rng.random() < 0.2:
        cfg["tie"] = True
    ops = []
    for _ in range(rng.randint(1, 4)):
        op = W.gen_op(rng, cfg, kinds=("cond", "cond", "mpe", "sample"), max_n=6)
        if op["op"] != "sample":
            op["nan"] = rng.choice([0.0, 0.2, 0.5, 0.8, 1.0])
            if rng.random() < 0.1:
                op["n"] = rng.choice([17, 40, 300, 1100])
            if rng.random() < 0.15:
                op["far"] = rng.choice([30.0, 300.0])
            if rng.random() < 0.2:
                op["rows"] = "ends"  # first row fully missing, last row fully observed
        if rng.random() < 0.4:
            op["fault"] = gen_fault(rng)
        ops.append(op)
    return {"seed": rng.randrange(1 << 30), "model": cfg, "bseed": rng.randrange(1 << 30), "ops": ops,
            "history": W.gen_history(rng, cfg, n=3)}


MIN_OPS = 1


def arg(cfg, op):
    x = W.inputs(cfg, op)
    if x is None:
        return None
    if op.get("far") and cfg["leaf"] in ("normal", "ratnormal"):
        x = x * op["far"]
    if op.get("rows") == "ends" and not op.get("marg") and x.shape[0] > 1:
        full = W.data(cfg, op["s"] + 3, op["n"], op.get("shape", 3))
        x[0] = float("nan")
        x[-1] = full[-1]
    return x


def run(plan, ctx):
    cfg = W.norm_cfg(plan["model"])
    m = W.build(cfg, plan["bseed"])
    m = W.play(m, cfg, plan["history"], ctx)
    for i, op in enumerate(plan["ops"]):
        x = arg(cfg, op)
        hx = thash(x)
        st = W.state_hash(m)
        torch.manual_seed(op["rng"])
        what = f"op {i} ({op['op']})"
        if op.get("fault"):
            out = sut_faulty(lambda: W.call(m, cfg, op, x), op["fault"], 80, ctx)
            if thash(x) != hx:
                raise Violation("input-changed", f"{what}: the caller's evidence was modified")
            if isinstance(out, Failed):
                ctx.probe("retry after failure")
                ctx.log(i, op["op"], repr(out))
                out = sut(lambda: W.call(m, cfg, op, x), ctx)  # the client simply tries again
        else:
            out = sut(lambda: W.call(m, cfg, op, x), ctx)
        if thash(x) != hx:
            raise Violation("input-changed", f"{what}: the caller's evidence was modified")
        if W.state_hash(m) != st:
            raise Violation("state-changed", f"{what}: parameters, buffers or modes changed")
        r = W.check_tensor(out[0], what).detach()
        ctx.log(i, op["op"], W.describe(out))
        ctx.mark((cfg["kind"], cfg["leaf"], cfg.get("layer"), op["op"], op.get("nan"), bool(op.get("diff")), bool(op.get("marg"))))
        if x is None:
            n = len(op["cls"]) if isinstance(op.get("cls"), list) else op["n"]
            if r.shape[0] != n or r.numel() != n * cfg["C"] * cfg["F"]:
                raise Violation("wrong-shape", f"{what}: {tuple(r.shape)} for {n} rows of {cfg['C']}x{cfg['F']}")
        else:
            W.need(r, x.shape, what)
            if r.data_ptr() == x.data_ptr():
                raise Violation("aliased", f"{what}: the result is the caller's tensor")
            if op.get("marg"):
                gap = torch.zeros_like(W.canon(cfg, x), dtype=torch.bool)
                gap[:, :, op["marg"]] = True
                ctx.probe("marginalized scopes")
            else:
                gap = torch.isnan(W.canon(cfg, x))
            keep = ~gap
            if not torch.equal(W.canon(cfg, r)[keep], W.canon(cfg, x)[keep]):
                raise Violation("evidence-changed", f"{what}: {int((W.canon(cfg, r)[keep] != W.canon(cfg, x)[keep]).sum())} observed entries differ in the answer")
            if torch.isnan(r).any():
                raise Violation("not-filled", f"{what}: {int(torch.isnan(r).sum())} entries are still missing")
            if gap.any() and keep.any():
                ctx.nontrivial = True
            rows = gap.flatten(1)
            if rows.all(dim=1).any():
                ctx.probe("row fully missing")
            if (~rows).all(dim=1).any():
                ctx.probe("row fully observed")
            if op.get("far"):
                ctx.probe("far evidence")
            if op["n"] > 10:
                ctx.probe("wide batch")
        check_support(cfg, op, W.canon(cfg, r), what)


def check_support(cfg, op, r, what):
    diff = op.get("diff") or cfg["kind"] == "convpc"
    if not torch.isfinite(r).all():
        raise Violation("out-of-support", f"{what}: infinite or missing value in the answer")
    for j in range(cfg["F"]):
        k = models.card(cfg, j)
        if k is None:
            continue
        col = r[:, :, j]
        if diff and models.family(cfg, j) == "binomial":  # drawn from the normal approximation: real values
            ok = (col > -1e-3) & (col < k - 1 + 1e-3)
        elif diff:
            ok = ((col - col.round()).abs() < 1e-3) & (col > -0.5) & (col < k - 0.5)
        else:
            ok = (col == col.round()) & (col >= 0) & (col <= k - 1)
        if not ok.all():
            raise Violation("out-of-support", f"{what}: feature {j} ({models.family(cfg, j)}) has value {float(col[~ok][0])}")


def simplify(plan):
    yield from W.simplify_history(plan)
    yield from W.simplify_subject(plan)
