"""C11  Dropout acts in training only, lets every sum node keep a child, and always terminates.

The simulator sits between the code and its Bernoulli draws: it may answer adversarially (everything
dropped for a while, nothing dropped) or honestly.
"""
import copy
import math

import torch

from .. import models, world as W
from ..core import Violation
from ..faults import Failed, OpMode, gen_fault, sut, sut_faulty

ID = "C11"
N_QUICK = 1200
N_THOROUGH = 30000
RULE = "a run counts when training-mode evaluations under at least one adversary were compared with evaluation mode"
REAL = ["Einet.forward in training mode", "dropout of every sum layer type", "autograd"]
STUBS = ["Bernoulli draws (adversarial answers in part of each run)"]
ASSUMPTIONS = ["dropout below one (a rate of one can never keep a child)", "leaf layers take no dropout rate",
               "rate: two-stage test, 6 then 7 standard errors"]
PROBES = ["all dropped for a while", "nothing dropped", "honest", "rate", "active", "evaluation unaffected", "alternating", "lone node"]


def gen(rng, i):
    p = rng.choice([0.05, 0.3, 0.5, 0.7, 0.95])
    cfg = models.gen_cfg(rng, max_f=6, max_w=3, dropout=p, leaves=("normal", "ratnormal", "categorical", "binomial", "multi"))
    iso = rng.choice(["none", "I", "S", "R", "rate", "rate1"])
    if iso != "none":
        keep = {"I": "I", "S": "S", "R": "R", "rate": "I", "rate1": "I"}[iso]
        for k in "ISR":
            cfg[k] = rng.randint(2, 3) if k == keep else 1
    if iso == "rate":
        cfg.update(D=0, structure="top-down", K=1)
    if iso == "rate1":
        cfg.update(F=max(2, cfg["F"]), D=1, structure="top-down", K=1)
        if cfg["leaf"] == "multi":
            cfg.update(leaf="normal")
    if iso == "S":
        cfg.update(F=max(4, cfg["F"]), D=2)
        if cfg["leaf"] == "multi":
            cfg.update(leaf="normal")
    return {"seed": rng.randrange(1 << 30), "model": {"kind": "einet", **cfg}, "bseed": rng.randrange(1 << 30), "s": rng.randrange(1 << 30), "n": rng.randint(2, 6),
            "iso": iso, "rng": rng.randrange(1 << 30), "burst": rng.randint(1, 40), "wide": rng.choice([40, 150, 400]),
            "history": W.gen_history(rng, {"kind": "einet", **cfg}, n=3), "fault": gen_fault(rng) if rng.random() < 0.4 else None}


def train_ll(m, x, ctx, bern=None, grad=False):
    def f():
        m.train()
        try:
            with torch.set_grad_enabled(grad):
                out = m(x)
                if grad:
                    out.mean().backward()
        finally:
            m.eval()
        return out

    return sut(f, ctx, budget=60000, bern=bern).detach().double()


def run(plan, ctx):
    cfg = plan["model"]
    m = W.build(cfg, plan["bseed"])
    m = W.play(m, cfg, plan["history"], ctx)
    n = plan["n"]
    x = W.data(cfg, plan["s"], n)
    # a twin without dropout fixes what evaluation mode must say
    ref = W.build({**cfg, "dropout": 0.0}, plan["bseed"])
    st = {k: v for k, v in m.state_dict().items()}
    drop = {k: v.clone() for k, v in ref.state_dict().items() if k.endswith("dropout")}
    ref.load_state_dict({**st, **drop})
    ref.eval()
    torch.manual_seed(plan["rng"])
    s0 = W.rng_state()
    base = W.ll(m, cfg, x, ctx=ctx)
    if W.rng_state() != s0:
        raise Violation("evaluation-draws", "evaluation mode drew random numbers")
    if not W.close(base, W.ll(ref, cfg, x, ctx=ctx), 1e-5, 1e-5):
        raise Violation("evaluation-affected", "in evaluation mode a model with dropout differs from one without")
    ctx.probe("evaluation unaffected")
    # the same with gradients enabled, for the parameters and for the rows themselves
    xg = x.clone().requires_grad_(True)
    for y in (x, xg):
        torch.manual_seed(plan["rng"])
        g = W.ll(m, cfg, y, ctx=ctx, grad=True).detach()
        if W.rng_state() != s0:
            raise Violation("evaluation-draws", "evaluation mode with gradients drew random numbers")
        if not W.close(base, g, 1e-5, 1e-5):
            raise Violation("evaluation-affected", "in evaluation mode with gradients a model with dropout differs from one without")
    ctx.log("eval", W.describe([base]))
    p = cfg["dropout"]
    ctx.mark((cfg["layer"], cfg["structure"], plan["iso"], p, cfg["R"], cfg["D"]))

    def check(out, what):
        W.need(out, base.shape, what)
        if not torch.isfinite(out).all():
            raise Violation("all-children-dropped", f"{what}: log-likelihood {out.flatten().tolist()[:4]}")
        if (out > base + 1e-4 * (1 + base.abs())).any():
            raise Violation("dropout-adds-mass", f"{what}: {float((out - base).max())} above the undropped value")

    calls = {"n": 0}

    def all_ones(r, k):
        calls["n"] += 1
        return torch.ones_like(r) if k <= plan["burst"] else torch.zeros_like(r)

    torch.manual_seed(plan["rng"])
    out = train_ll(m, x, ctx, bern=all_ones)
    if calls["n"]:
        ctx.probe("all dropped for a while")
        ctx.fault("everything-dropped", min(plan["burst"], calls["n"]))
        check(out, f"first {plan['burst']} draws drop everything")
        torch.manual_seed(plan["rng"])
        out = train_ll(m, x, ctx, bern=lambda r, k: torch.zeros_like(r))
        ctx.probe("nothing dropped")
        check(out, "no draw drops anything")
        if not W.close(out, base, 1e-4, 1e-4):
            raise Violation("dropout-changes-kept", "nothing was dropped, yet training mode differs from evaluation mode")
        out = train_ll(m, x, ctx, bern=lambda r, k: torch.ones_like(r) if k % 2 else r)
        ctx.probe("alternating")
        check(out, "every other draw drops everything")
        # a single node of a single row loses all its children in a large batch, now and again in the redraws
        big = W.data(cfg, plan["s"] + 1, plan["wide"])
        b = W.ll(m, cfg, big, ctx=ctx)

        def lone(r, k):
            z = torch.zeros_like(r)
            if k <= plan["burst"]:
                z[plan["s"] % z.shape[0]] = 1.0
                if z.dim() == 4 and plan["s"] % 2:
                    keep = torch.zeros_like(z)
                    keep[:, plan["s"] % z.shape[1], :, plan["s"] % z.shape[3]] = 1.0
                    z = z * keep
            return z

        out = train_ll(m, big, ctx, bern=lone)
        ctx.probe("lone node")
        W.need(out, b.shape, "one node loses everything")
        if not torch.isfinite(out).all():
            raise Violation("all-children-dropped", f"one node among {plan['wide']} rows loses everything: {int((~torch.isfinite(out)).sum())} rows are impossible")
        torch.manual_seed(plan["rng"] + 3)
        out = train_ll(m, big, ctx)
        if not torch.isfinite(out).all():
            raise Violation("all-children-dropped", f"{plan['wide']} rows at rate {p}: {int((~torch.isfinite(out)).sum())} rows are impossible")
    if plan["fault"]:
        m.train()
        sut_faulty(lambda: m(x), plan["fault"], 40, ctx)
        m.eval()
    for r in range(3):
        torch.manual_seed(plan["rng"] + r)
        out = train_ll(m, x, ctx, grad=True)
        ctx.probe("honest")
        check(out, "honest draws")
        for name, q in m.named_parameters():
            if q.grad is not None and torch.isnan(q.grad).any():
                raise Violation("gradient-not-finite", f"gradient of {name} under dropout {p}")
        m.zero_grad(set_to_none=True)
    ctx.nontrivial = True
    if not W.close(base, W.ll(m, cfg, x, ctx=ctx), 0, 0):
        raise Violation("evaluation-affected", "evaluation mode changed after training-mode calls")
    # a sum node with two children or more must sometimes lose one
    can = cfg["I"] >= 2 or (cfg["D"] >= 2 and cfg["S"] >= 2) or cfg["R"] >= 2
    if can and p >= 0.3:
        big = x[:1].repeat(80, 1, 1)
        b = W.ll(m, cfg, big, ctx=ctx)
        torch.manual_seed(plan["rng"] + 9)
        t = train_ll(m, big, ctx)
        ctx.probe("active")
        if bool((t >= b - 1e-6 * (1 + b.abs())).all()):
            raise Violation("dropout-inactive", f"80 rows at rate {p}: training mode never dropped anything (I={cfg['I']} S={cfg['S']} R={cfg['R']} D={cfg['D']})")
    elif not can:
        if not W.close(out, base, 1e-4, 1e-4):
            raise Violation("dropout-changes-kept", "no sum node has a second child, yet training mode differs from evaluation mode")
    # rate and row independence: one sum node over I children
    nodes = children = 0  # identical nodes whose children are seen to be dropped
    if cfg["K"] == 1 and cfg["R"] == 1 and cfg["structure"] == "top-down" and cfg["D"] <= 1 and cfg["I"] > 1:
        nodes, children = (1 if cfg["D"] == 0 or cfg["layer"] == "linsum" else 2), cfg["I"]
    elif cfg["K"] == 1 and cfg["R"] > 1 and cfg["I"] == 1 and (cfg["D"] <= 1 or cfg["S"] == 1) and cfg["structure"] == "top-down":
        nodes, children = 1, cfg["R"]
    if nodes and 0.05 < p < 0.95:
        want = ((1 - p) ** children / (1 - p**children)) ** nodes

        def z(rows, seed):
            big = x[:1].repeat(rows, 1, 1)
            b = W.ll(m, cfg, big, ctx=ctx)
            torch.manual_seed(seed)
            t = train_ll(m, big, ctx)
            got = float((t > b - 1e-6 * (1 + b.abs())).double().mean())
            return (got - want) / math.sqrt(want * (1 - want) / rows), got

        # children whose removal is invisible at float precision would look kept
        if visible(m, cfg, x, ctx, nodes, children):
            ctx.probe("rate")
            z1, g1 = z(1500, plan["rng"] + 20)
            if abs(z1) > 6:
                z2, g2 = z(6000, plan["rng"] + 21)
                if abs(z2) > 7:
                    raise Violation("dropout-rate", f"rate {p}, {nodes} nodes with {children} children: {g2:.3f} of the rows lose none, expected {want:.3f}")


def visible(m, cfg, x, ctx, nodes, children):
    """Every child carries enough mass for its loss to be seen."""
    torch.manual_seed(3)
    b = W.ll(m, cfg, x[:1].repeat(400, 1, 1), ctx=ctx)
    t = train_ll(m, x[:1].repeat(400, 1, 1), ctx)
    d = (b - t).flatten()
    d = d[d > 1e-7]
    # one value per proper non-empty subset of the children
    return d.numel() > 0 and float(d.min()) > 1e-3 and len({round(v, 3) for v in d.tolist()}) >= (2**children - 1) ** nodes - 1


def simplify(plan):
    yield from W.simplify_history(plan)
    for c in models.shrink_cfg(plan["model"]):
        yield {**plan, "model": {"kind": "einet", **c}}
