"""C09  Training survives crashes: restart from a checkpoint equals never having stopped.

A trainer takes gradient steps, writes checkpoints (parameters, buffers, optimiser) to a simulated
disk and is killed at arbitrary points, including inside a step or inside a restore.  A new process
builds the model afresh (other initial randomness), loads the last complete checkpoint and repeats the
lost steps.  Every observable of the survivor must equal that of a trainer that was never interrupted.
"""
import copy
import io

import torch

from .. import models, world as W
from ..core import SutError, Violation, thash
from ..faults import Failed, gen_fault, sut, sut_faulty

ID = "C09"
N_QUICK = 900
N_THOROUGH = 25000
RULE = "a run counts when at least one crash was followed by a restore and later steps or queries were compared"
REAL = ["Einet, ConvPc, Mixture", "state_dict / load_state_dict / torch.save / torch.load (weights only)", "torch optimisers", "pickling of whole models"]
STUBS = ["disk (in-memory byte store that keeps complete writes and drops torn ones)", "fast_pytorch_kmeans (deterministic stand-in)"]
ASSUMPTIONS = ["a torn checkpoint is recognised by the loader (the simulated disk drops it); CPU only; float32"]
PROBES = ["crash in step", "crash between", "crash in restore", "torn checkpoint", "restored", "whole-model copy"]
MIN_OPS = 1

LEAVES = ("normal", "ratnormal", "categorical", "binomial", "bernoulli", "multi", "multi", "mvn", "pwl")


def gen(rng, i):
    cfg = W.gen_subject(rng, max_f=6, max_w=3, leaves=LEAVES, dropout=rng.choice([0.0, 0.0, 0.3]))
    ops = []
    for _ in range(rng.randint(3, 9)):
        t = rng.random()
        if t < 0.45:
            ops.append({"op": "step", "s": rng.randrange(1 << 30), "rng": rng.randrange(1 << 30), "n": rng.randint(2, 5)})
        elif t < 0.65:
            ops.append({"op": "save", "torn": rng.random() < 0.25})
        elif t < 0.9:
            ops.append({"op": "crash", "where": rng.choice(["between", "step", "restore"]), "at": round(rng.random(), 3), "init": rng.randrange(1 << 30)})
        else:
            ops.append({"op": "copy", "how": rng.choice(["pickle", "deepcopy"])})
    ops.append({"op": "crash", "where": "between", "at": 0.5, "init": rng.randrange(1 << 30)})
    q = [W.gen_op(rng, cfg, kinds=(k,)) for k in ("forward", "sample", "cond", "mpe", "grad", "posterior")]
    for o in q:
        if o["op"] in ("sample", "cond"):
            o["seed"] = o.get("seed", 5)
    return {"seed": rng.randrange(1 << 30), "model": cfg, "bseed": rng.randrange(1 << 30), "ops": ops, "q": q,
            "optim": rng.choice(["adam", "sgd", "adamw"])}


def make_optim(name, m):
    ps = [p for _, p in sorted(m.named_parameters()) if p.requires_grad]
    if name == "adam":
        return torch.optim.Adam(ps, lr=0.05)
    if name == "adamw":
        return torch.optim.AdamW(ps, lr=0.05)
    return torch.optim.SGD(ps, lr=0.05, momentum=0.9)


def step(m, opt, cfg, op):
    """One training step; a pure function of the model, the optimiser and the op."""
    torch.manual_seed(op["rng"])
    m.train()
    opt.zero_grad(set_to_none=True)
    loss = -m(W.data(cfg, op["s"], op["n"], 3)).mean()
    loss.backward()
    for g in opt.param_groups:
        for p in g["params"]:
            if p.grad is not None:
                p.grad.copy_(torch.nan_to_num(p.grad).clamp(-1, 1))
    opt.step()
    opt.zero_grad(set_to_none=True)
    m.eval()


def dump(m, opt):
    b = io.BytesIO()
    torch.save({"model": m.state_dict(), "opt": opt.state_dict()}, b)
    return b.getvalue()


def restore(plan, cfg, init, disk, ctx, at=None):
    """A new process: fresh model with other initial values, then the last complete checkpoint."""
    W.noise(init)
    m = W.build(cfg, init, bare=bool(init % 2))
    if at is not None:
        # killed while loading: nothing of this process survives; the next one starts over
        st = torch.load(io.BytesIO(disk), weights_only=True)["model"]
        sut_faulty(lambda: m.load_state_dict(st), {"kind": "interrupt", "at": at}, 20, ctx)
        ctx.fault("crash in restore")
        ctx.probe("crash in restore")
        m = W.build(cfg, init + 1, bare=bool(init % 4 // 2))
    opt = make_optim(plan["optim"], m)

    def load():
        st = torch.load(io.BytesIO(disk), weights_only=True)
        m.load_state_dict(st["model"])
        opt.load_state_dict(st["opt"])

    sut(load, ctx)
    m.eval()
    ctx.probe("restored")
    return m, opt


def run(plan, ctx):
    cfg = W.norm_cfg(plan["model"])
    a = W.build(cfg, plan["bseed"])
    oa = make_optim(plan["optim"], a)
    ref = copy.deepcopy(a)  # never crashes
    orf = make_optim(plan["optim"], ref)
    disk, saved_at, done = dump(a, oa), 0, []  # the trainer writes its initial state first
    for i, op in enumerate(plan["ops"]):
        k = op["op"]
        if k == "step":
            sut(lambda: step(a, oa, cfg, op), ctx)
            sut(lambda: step(ref, orf, cfg, op), ctx)
            done.append(op)
        elif k == "save":
            data = sut(lambda: dump(a, oa), ctx)
            if op["torn"]:
                ctx.fault("torn checkpoint write")
                ctx.probe("torn checkpoint")
            else:
                disk, saved_at = data, len(done)
        elif k == "copy":
            ctx.probe("whole-model copy")
            a.eval()
            for e in [a] + list(getattr(a, "models", [])):
                if hasattr(e, "reset_cache"):
                    e.reset_cache()
            if op["how"] == "deepcopy":
                b = sut(lambda: copy.deepcopy(a), ctx)
            else:
                import pickle

                b = sut(lambda: pickle.loads(pickle.dumps(a)), ctx)
            ob = make_optim(plan["optim"], b)
            ob.load_state_dict(oa.state_dict())
            a, oa = b, ob
        else:
            ctx.fault("crash:" + op["where"])
            if op["where"] == "step":
                # dies inside a step whose effects are lost with the process
                sut_faulty(lambda: step(a, oa, cfg, {"op": "step", "s": 1, "rng": 2, "n": 3}), {"kind": "interrupt", "at": op["at"]}, 150, ctx)
                ctx.probe("crash in step")
            elif op["where"] == "between":
                ctx.probe("crash between")
            a, oa = restore(plan, cfg, op["init"], disk, ctx, op["at"] if op["where"] == "restore" else None)
            for o in done[saved_at:]:
                sut(lambda: step(a, oa, cfg, o), ctx)
            ctx.nontrivial = True
        ctx.mark((k, op.get("where"), op.get("torn"), cfg["kind"], cfg["leaf"]))
        ctx.log(i, k, W.state_hash(a))
        if W.state_hash(a) != W.state_hash(ref):
            sa, sr = a.state_dict(), ref.state_dict()
            diff = [n for n in sr if n not in sa or W.deep_hash(sa[n]) != W.deep_hash(sr[n])]
            raise Violation("state-differs-after-restart", f"op {i} ({k}): {diff[:4] or 'modes or gradient flags'} differ from the uninterrupted run")
    for j, q in enumerate(plan["q"]):
        x = W.inputs(cfg, q)
        torch.manual_seed(q["rng"])
        got = sut(lambda: W.call(a, cfg, q, x), ctx)
        torch.manual_seed(q["rng"])
        want = sut(lambda: W.call(ref, cfg, q, W.inputs(cfg, q)), ctx)
        ctx.log("q", j, W.describe(got))
        if not W.identical(got, want):
            raise Violation("result-differs-after-restart", f"{q['op']}: {W.describe(got)}, uninterrupted {W.describe(want)}")


def simplify(plan):
    for j in range(len(plan["q"])):
        if len(plan["q"]) > 1:
            yield {**plan, "q": plan["q"][:j] + plan["q"][j + 1 :]}
    yield from W.simplify_subject(plan)
