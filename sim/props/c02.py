"""C02  A seed decides a sample, and deciding it disturbs nobody.

A client repeats seeded calls at different points of a history that contains faults, restarts, other
draws and scrambled ambient generators.
"""
import copy

import torch

from .. import models, world as W
from ..core import Violation, thash
from ..faults import Failed, gen_fault, sut, sut_faulty

ID = "C02"
N_QUICK = 1400
N_THOROUGH = 40000
RULE = "a run counts when at least one seeded call was repeated after other operations and compared bit for bit"
REAL = ["Einet.sample", "ConvPc.sample", "Mixture.sample", "sampling_context", "all leaf and sum layers", "model construction"]
STUBS = ["fast_pytorch_kmeans (package not installed; deterministic stand-in)"]
ASSUMPTIONS = ["CPU generator only; no GPU generator state", "the three ambient generators are torch's, numpy's and Python's"]
PROBES = ["repeat after history", "repeat after restart", "failed seeded call", "seed zero", "rows distinct", "unseeded follows global seed"]

LEAVES = ("normal", "ratnormal", "categorical", "binomial", "bernoulli", "multi", "mvn", "pwl")


def gen(rng, i):
    cfg = W.gen_subject(rng, max_f=6, max_w=4, leaves=LEAVES, dropout=rng.choice([0.0, 0.0, 0.3]))
    calls = []
    for _ in range(rng.randint(1, 3)):
        op = W.gen_op(rng, cfg, kinds=("sample", "sample", "cond"), max_n=6)
        op["seed"] = rng.choice([0, 0, 1, rng.randrange(1 << 20), rng.randrange(1 << 31)])
        op.pop("is_mpe", None)
        if rng.random() < 0.4:
            op["fault"] = gen_fault(rng)
        op["train"] = rng.random() < 0.2
        calls.append(op)
    return {"seed": rng.randrange(1 << 30), "model": cfg, "bseed": rng.randrange(1 << 30), "calls": calls,
            "history": W.gen_history(rng, cfg, n=4, train=False, restart=True), "n1": rng.randrange(1 << 30), "n2": rng.randrange(1 << 30),
            "seed2": rng.randrange(1 << 20), "deltas": [1 << rng.randrange(1, 32) for _ in range(2)]}


def _continuous(cfg):
    return cfg["leaf"] in ("normal", "ratnormal", "mvn")


def seeded(model, cfg, op, ctx, noise, what):
    """One seeded call in an arbitrary ambient state, which it must not change."""
    W.noise(noise)
    x = W.inputs(cfg, op)
    st = W.rng_state()
    out = sut(lambda: W.call(model, cfg, op, x), ctx)
    if W.rng_state() != st:
        raise Violation("global-rng-moved", f"{what}: a seeded call changed an ambient random state")
    if not torch.is_grad_enabled():
        raise Violation("grad-mode-changed", what)
    return out


def run(plan, ctx):
    cfg = plan["model"]
    # construction is decided by torch's generator alone ... and numpy's, which build() also pins
    m = W.build(cfg, plan["bseed"])
    m2 = W.build(cfg, plan["bseed"])
    if W.state_hash(m) != W.state_hash(m2):
        raise Violation("construction-not-reproducible", "two models built under one seed differ")
    first = []
    for j, op in enumerate(plan["calls"]):
        op = {k: v for k, v in op.items() if k not in ("fault", "train")}
        out = seeded(m, cfg, op, ctx, plan["n1"] + j, f"call {j} ({op['op']}, seed {op['seed']})")
        W.check_tensor(out[0], f"call {j}")
        first.append((op, out))
        ctx.log("first", j, W.describe(out))
        if op["seed"] == 0:
            ctx.probe("seed zero")
        if _continuous(cfg) and op["op"] == "sample" and not op.get("mpe_leaves") and out[0].shape[0] > 1:
            # continuous rows coincide with probability zero
            rows = {thash(r) for r in out[0]}
            ctx.probe("rows distinct")
            if len(rows) != out[0].shape[0]:
                raise Violation("rows-repeat", f"call {j}: {out[0].shape[0]} rows, only {len(rows)} different ones")
            for delta in [1, 1 + plan["seed2"]] + [d for d in plan.get("deltas", []) if d]:
                # torch's CPU generator takes 32 bits of a seed
                second = (op["seed"] + delta) % 2**32
                other = sut(lambda: W.call(m, cfg, {**op, "seed": second}, None), ctx)
                if W.identical(out, other):
                    raise Violation("seed-ignored", f"call {j}: seeds {op['seed']} and {second} give the same sample")
                common = rows & {thash(r) for r in W.check_tensor(other[0], f"seed {second}")}
                if common:
                    raise Violation("seeds-overlap", f"call {j}: {len(common)} of {len(rows)} rows of seed {op['seed']} come again with seed {second}")
    # two unseeded calls differ, and follow torch.manual_seed
    if _continuous(cfg):
        u = {"op": "sample", "n": 2, "s": 0, "rng": 0}
        W.noise(plan["n2"] + 1)
        torch.manual_seed(plan["n2"])
        a = sut(lambda: W.call(m, cfg, u, None), ctx)
        b = sut(lambda: W.call(m, cfg, u, None), ctx)
        if W.identical(a, b):
            raise Violation("unseeded-repeats", "two successive unseeded calls give the same sample")
        W.noise(plan["n1"])
        torch.manual_seed(plan["n2"])
        c = sut(lambda: W.call(m, cfg, u, None), ctx)
        if not W.identical(a, c):
            raise Violation("ambient-state-leaks", "an unseeded sample does not follow torch.manual_seed")
        ctx.probe("unseeded follows global seed")
    # failed seeded calls restore the generators too
    for j, op in enumerate(plan["calls"]):
        if op.get("fault"):
            W.noise(plan["n2"] + j)
            x = W.inputs(cfg, op)
            st = W.rng_state()
            out = sut_faulty(lambda: W.call(m, cfg, op, x), op["fault"], 80, ctx)
            if W.rng_state() != st:
                raise Violation("global-rng-moved", f"call {j}: a seeded call that {'failed' if isinstance(out, Failed) else 'returned'} changed an ambient random state")
            if isinstance(out, Failed):
                ctx.probe("failed seeded call")
    m = W.play(m, cfg, plan["history"], ctx)
    restarted = any(o["op"] == "restart" for o in plan["history"])
    order = list(range(len(first)))[::-1]
    for j in order:
        op, out = first[j]
        again = seeded(m, cfg, op, ctx, plan["n2"] + 7 * j, f"repeat of call {j}")
        ctx.probe("repeat after history")
        if restarted:
            ctx.probe("repeat after restart")
        ctx.nontrivial = True
        ctx.log("again", j, W.describe(again))
        ctx.mark((cfg["kind"], cfg["leaf"], cfg.get("layer"), op["op"], op.get("cls") is not None, bool(op.get("diff"))))
        if not W.identical(out, again):
            raise Violation("seed-not-reproducible", f"call {j} ({op['op']}, seed {op['seed']}) gives {W.describe(out)}, later {W.describe(again)}")
    # a second process that loads the same parameters draws the same sample
    op, out = first[0]
    other = sut(lambda: W.save_load(m, cfg, plan["n2"]), ctx)
    far = seeded(other, cfg, op, ctx, plan["n1"], "restarted model")
    if not W.identical(out, far):
        raise Violation("seed-not-reproducible", "the same call on a model restored from its saved state gives another sample")


def simplify(plan):
    yield from W.simplify_history(plan)
    for j in range(len(plan["calls"])):
        if len(plan["calls"]) > 1:
            yield {**plan, "calls": plan["calls"][:j] + plan["calls"][j + 1 :]}
    yield from W.simplify_subject(plan)
