"""C01  A call that fails leaves no trace.

Two copies of one model execute the same operations; one of them also executes calls into which a
fault was injected (or that were given a bad argument).  After every operation both copies must be
indistinguishable, bit for bit.
"""
import copy

import torch

from .. import models, world as W
from ..core import Violation, thash
from ..faults import Failed, gen_fault, sut, sut_faulty

ID = "C01"
N_QUICK = 1800
N_THOROUGH = 40000
RULE = "a run counts when at least one injected fault or bad argument made a call fail and later calls were compared"
REAL = ["Einet", "ConvPc", "Mixture", "all leaf and sum layers", "sampling_context", "autograd"]
STUBS = ["fast_pytorch_kmeans (package not installed; deterministic stand-in)"]
ASSUMPTIONS = [
    "faults are raised at the boundary of a tensor operation (before or after it), not inside a kernel or between two Python bytecodes",
    "CPU only",
]
PROBES = ["failed:sample", "failed:cond", "failed:mpe", "failed:forward", "failed:bad", "after-failure comparisons"]


def gen(rng, i):
    cfg = W.gen_subject(rng, max_f=5, max_w=3, dropout=rng.choice([0.0, 0.0, 0.3]),
                        leaves=("normal", "ratnormal", "categorical", "binomial", "bernoulli", "multi", "mvn", "pwl"))
    ops = []
    for _ in range(rng.randint(2, 5)):
        t = rng.random()
        if t < 0.14:
            ops.append(W.gen_bad(rng, cfg))
        elif t < 0.22:
            ops.append({"op": "sgd", "s": rng.randrange(1 << 30), "rng": rng.randrange(1 << 30), "n": rng.randint(2, 4)})
        elif t < 0.28:
            ops.append({"op": rng.choice(["train", "eval"]), "rng": 0})
        else:
            op = W.gen_op(rng, cfg)
            if cfg["kind"] == "einet" and op["op"] == "forward" and rng.random() < 0.25 and not op.get("marg") and not op.get("nan"):
                op.update(cache=rng.randrange(2), n=3, shape=3)
                op["s"] = 1000 + op["cache"]
            if rng.random() < 0.6:
                op["fault"] = gen_fault(rng)
            ops.append(op)
    # a closing battery: whatever a failed call left behind must show in one of these
    for k in ("cond", "forward", "sample", "mpe", "grad", "cond"):
        ops.append(W.gen_op(rng, cfg, kinds=(k,)))
    return {"seed": rng.randrange(1 << 30), "model": cfg, "bseed": rng.randrange(1 << 30), "ops": ops}


MIN_OPS = 1


def run(plan, ctx):
    cfg = plan["model"]
    a = W.build(cfg, plan["bseed"])
    b = copy.deepcopy(a)
    scratch = copy.deepcopy(a)
    failed = False
    for i, op in enumerate(plan["ops"]):
        k = op["op"]
        if k in ("train", "eval"):
            for m in (a, b, scratch):
                m.train(k == "train")
            continue
        if k == "sgd":
            for m in (a, b):
                torch.manual_seed(op["rng"])
                sut(lambda: W.sgd(m, cfg, op), ctx)
                for e in ([m] if cfg["kind"] == "einet" else getattr(m, "models", [])):
                    if hasattr(e, "reset_cache"):
                        e.reset_cache()
            ctx.log(i, "sgd", W.state_hash(a))
            if W.state_hash(a) != W.state_hash(b):
                raise Violation("training-differs", f"op {i}: a gradient step after a failed call gives other parameters")
            continue
        x = None if k == "bad" else W.inputs(cfg, op)
        hx = thash(x)
        before = W.state_hash(a)
        torch.manual_seed(op["rng"])
        r0 = W.rng_state()
        out = None
        if k == "bad":
            try:
                out = W.call_bad(a, cfg, op)
            except BaseException as e:
                out = Failed(e)
                ctx.fault("bad-argument")
        elif op.get("fault"):
            n = W.op_len(scratch, cfg, op, x)
            torch.manual_seed(op["rng"])
            out = sut_faulty(lambda: W.call(a, cfg, op, x), op["fault"], n, ctx)
        else:
            out = sut(lambda: W.call(a, cfg, op, x), ctx)
        r1 = W.rng_state()
        what = f"op {i} ({k})"
        if not torch.is_grad_enabled():
            raise Violation("grad-mode-changed", f"{what}: gradient recording is off after the call")
        if thash(x) != hx:
            raise Violation("input-changed", f"{what}: the caller's tensor was modified")
        if W.state_hash(a) != before:
            raise Violation("state-changed", f"{what}: parameters, buffers or modes changed")
        if isinstance(out, Failed):
            failed = True
            ctx.probe("failed:" + k)
            ctx.mark((k, out.kind, op.get("bad"), round(op["fault"]["at"], 1) if op.get("fault") else None))
            ctx.log(i, k, "failed", out.kind)
            if op["op"] != "mpe" and op.get("seed") is not None and r1 != r0:
                raise Violation("rng-not-restored", f"{what} failed with {out.kind}: the caller's random state changed although a seed was given")
            continue
        if k == "bad":
            y = None
            torch.manual_seed(op["rng"])
            try:
                ref = W.call_bad(b, cfg, op)
            except BaseException as e:
                raise Violation("failure-differs", f"{what}: fails with {type(e).__name__} only where no earlier call failed")
        else:
            y = W.inputs(cfg, op)
            torch.manual_seed(op["rng"])
            ref = sut(lambda: W.call(b, cfg, op, y), ctx)
        ctx.log(i, k, W.describe(out))
        ctx.mark((cfg["kind"], cfg.get("leaf"), cfg.get("layer"), cfg.get("structure"), k))
        if failed:
            ctx.nontrivial = True
            ctx.probe("after-failure comparisons")
        if not W.identical(out, ref):
            raise Violation("result-differs", f"{what}: {W.describe(out)} after the failed call, {W.describe(ref)} without it")
        if W.grads_flags(out) != W.grads_flags(ref):
            raise Violation("grad-flag-differs", f"{what}: requires_grad {W.grads_flags(out)} vs {W.grads_flags(ref)}")


simplify = W.simplify_subject
