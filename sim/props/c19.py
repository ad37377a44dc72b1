"""C19  Numbers can be trusted: no NaN from finite input, float32 agrees with float64, gradients are derivatives.

After a simulated history of training steps, failures, restarts and extreme rows the model is compared
with its own double precision copy, with probability's upper bound and with numerical derivatives.
"""
import copy
import math

import torch

from .. import models, world as W
from ..core import Violation, thash
from ..faults import sut

ID = "C19"
N_QUICK = 2400
N_THOROUGH = 24000
RULE = "a run counts when log-likelihoods were compared with a double precision copy or gradients with differences"
REAL = ["Einet and ConvPc forward and backward passes, all trainable leaf families", "differentiable sampling"]
STUBS = ["none"]
ASSUMPTIONS = [
    "the double precision comparison holds for moderate parameters (|logit| up to about 8); for extreme ones only: no NaN, no probability above one",
    "continuous rows up to 1e3 standard deviations away",
    "gradients are compared along random directions, with central differences in double precision (single for ConvPc)",
]
PROBES = ["double precision", "derivative", "input derivative", "extreme parameters", "extreme rows", "many features", "discrete bound", "differentiable sample",
          "after history", "missing values", "convpc", "offset"]
MIN_OPS = 0


def gen(rng, i):
    big = rng.random() < 0.3
    leaves = ("normal", "ratnormal", "categorical", "binomial", "bernoulli", "multi", "mvn")
    if big:
        cfg = {"kind": "einet", **models.gen_cfg(rng, leaves=leaves, max_f=96, max_w=3)}
    else:
        cfg = W.gen_subject(rng, kinds=("einet",) * 5 + ("convpc",), leaves=leaves, max_f=9)
    extreme = rng.random() < 0.3 and cfg["leaf"] != "mvn"
    cfg["perturb"] = (rng.choice([20.0, 60.0]) if cfg["leaf"] in models.DISCRETE else 15.0) if extreme else rng.choice([0.0, 0.7, 1.5])
    history = []
    if not extreme:
        history = W.gen_history(rng, cfg, n=3)
        for op in history:
            if op["op"] == "sgd" and rng.random() < 0.3:
                op["n"] = 4
    offset = rng.choice([0.0, 0.0, 100.0, -255.0, 1000.0]) if cfg["leaf"] == "normal" and not extreme else 0.0
    return {"seed": rng.randrange(1 << 30), "model": cfg, "bseed": rng.randrange(1 << 30), "extreme": extreme, "history": history, "offset": offset, "n": rng.choice([1, 3, 7]),
            "s": rng.randrange(1 << 30), "scale": rng.choice([1.0, 1.0, 30.0, 1000.0]), "nan": rng.choice([0.0, 0.0, 0.4, 1.0]), "train": rng.random() < 0.3,
            "diff": rng.random() < 0.4, "dirs": [rng.randrange(1 << 30) for _ in range(2)]}


def run(plan, ctx):
    cfg = plan["model"]
    ncfg = W.norm_cfg(cfg)
    m = sut(lambda: W.build(cfg, plan["bseed"]), ctx)
    if plan["history"]:
        m = W.play(m, cfg, plan["history"], ctx)
        ctx.probe("after history")
    if cfg.get("kind") == "convpc":
        ctx.probe("convpc")
    if ncfg["F"] >= 32:
        ctx.probe("many features")
    m.zero_grad(set_to_none=True)
    m.train(plan["train"])
    n = plan["n"]
    x = W.data(cfg, plan["s"], n)
    flat = x.view(n, ncfg["C"], ncfg["F"])
    cont = torch.tensor([models.card(ncfg, j) is None for j in range(ncfg["F"])])
    if plan.get("offset"):
        # a data set whose values lie far from zero, and a model trained on it
        with torch.no_grad():
            for k, p in m.named_parameters():
                if k.endswith("means"):
                    p.add_(plan["offset"])
        flat += plan["offset"]
        ctx.probe("offset")
    if plan["scale"] > 1 and cont.any():
        flat[0] = torch.where(cont, flat[0] * plan["scale"], flat[0])
        ctx.probe("extreme rows")
    if plan["nan"] and cfg["leaf"] != "mvn":
        mask = models.nan_mask(ncfg, plan["s"] + 1, n, plan["nan"])
        flat[mask] = float("nan")
        ctx.probe("missing values")
    with torch.no_grad():
        torch.manual_seed(1)
        out = W.ll(m, cfg, x, ctx=ctx)
    if torch.isnan(out).any() or (out == float("inf")).any():
        raise Violation("not-a-number", f"log-likelihoods {out.flatten().tolist()[:6]} for finite rows and parameters")
    if not plan["extreme"] and not torch.isfinite(out).all():
        raise Violation("underflow", f"log-likelihoods {out.flatten().tolist()[:6]} for moderate parameters")
    if models.is_discrete(ncfg):
        ctx.probe("discrete bound")
        if float(out.max()) > 1e-3 * ncfg["F"] ** 0.5:
            raise Violation("probability-above-one", f"log-likelihood {float(out.max())} of a discrete row")
    if bool(torch.isnan(x).all()):
        # everything is missing: probability one
        if float(out.abs().max()) > 1e-3 * ncfg["F"] ** 0.5 + 1e-4:
            raise Violation("total-mass", f"log-likelihood of a row without any value: {out.flatten().tolist()[:4]}")
    gradients_finite(m, cfg, x, ctx, plan)
    if plan["extreme"]:
        ctx.probe("extreme parameters")
    else:
        double(m, cfg, ncfg, x, out, ctx, plan, cont)
    if plan["diff"] and cfg.get("kind") == "einet" and not plan["extreme"]:
        differentiable(m, cfg, ncfg, ctx, plan)
    ctx.mark((cfg.get("kind"), cfg["leaf"], cfg.get("layer"), cfg["structure"], ncfg["F"], n, plan["scale"], plan["nan"], plan["extreme"], len(plan["history"])))
    ctx.log("ll", W.describe([out]))


def gradients_finite(m, cfg, x, ctx, plan):
    m.zero_grad(set_to_none=True)

    def f():
        # rows that underflow altogether have no derivative
        rows = x[torch.isfinite(m(x)).reshape(x.shape[0], -1).all(dim=1)]
        torch.manual_seed(1)
        if rows.shape[0]:
            m(rows).mean().backward()
        return [(k, p.grad) for k, p in m.named_parameters() if p.grad is not None]

    for k, g in sut(f, ctx):
        if not torch.isfinite(g).all():
            raise Violation("gradient-not-finite", f"{k}: gradient {g.flatten().tolist()[:4]} of finite log-likelihoods")
    m.zero_grad(set_to_none=True)


def twin(m, cfg, plan):
    try:
        return copy.deepcopy(m)
    except RuntimeError:  # something left graph tensors in the model (C01's business): go through the state
        return W.save_load(m, cfg, plan["bseed"])


def double(m, cfg, ncfg, x, out, ctx, plan, cont):
    ctx.nontrivial = True
    # ConvPc marks missing values with a float32 tensor: it is differentiated in single precision
    single = cfg.get("kind") == "convpc"
    dt, h, rel = (torch.float32, 2e-2, 0.05) if single else (torch.float64, 1e-5, 1e-3)
    d = twin(m, cfg, plan).to(dt)
    xd = x.to(dt)
    want = out
    if not single:
        with torch.no_grad():
            torch.manual_seed(1)
            want = W.ll(d, cfg, xd, ctx=ctx)
        ctx.probe("double precision")
        tol = 2e-4 * (1 + want.abs()) + 1e-5 * ncfg["F"]
        if not ((out - want).abs() <= tol).all():
            j = int(((out - want).abs() - tol).flatten().argmax())
            raise Violation("precision", f"float32 gives {float(out.flatten()[j])}, float64 {float(want.flatten()[j])}")
    # derivative of a random combination of the log-likelihoods along random directions
    ps = [p for _, p in sorted(d.named_parameters()) if p.requires_grad]
    inp = bool(cont.all()) and not torch.isnan(xd).any() and plan["scale"] == 1.0
    if single and plan["scale"] > 1:
        return
    for s in plan["dirs"]:
        g = torch.Generator().manual_seed(s)
        w = torch.randn(want.shape, generator=g, dtype=dt)
        vs = [torch.randn(p.shape, generator=g, dtype=dt) for p in ps]
        vx = torch.randn(xd.shape, generator=g, dtype=dt) if inp else None
        xr = xd.clone().requires_grad_(inp)

        def f(z):
            torch.manual_seed(1)
            return (d(z).reshape(want.shape) * w).sum()

        d.zero_grad(set_to_none=True)

        def back():
            v = f(xr)
            v.backward()
            return v

        val = float(sut(back, ctx))
        ana = sum(float((p.grad * v).sum()) for p, v in zip(ps, vs) if p.grad is not None)
        if inp:
            ana += float((xr.grad * vx).sum())
        keep = [p.detach().clone() for p in ps]
        # where the slope is steep a step must stay short, or the sums inside change their largest child
        step = h if single else min(h, 0.01 / (1 + abs(ana)))

        def at(eps):
            with torch.no_grad():
                for p, k, v in zip(ps, keep, vs):
                    p.copy_(k + eps * v)
                r = float(f(xd + eps * vx if inp else xd))
                for p, k in zip(ps, keep):
                    p.copy_(k)
            return r

        n1 = (at(step) - at(-step)) / (2 * step)
        n2 = (at(step / 2) - at(-step / 2)) / step
        num = (4 * n2 - n1) / 3
        # trust the difference quotient only where two step widths agree
        if abs(n1 - n2) > rel * (1 + abs(num)):
            continue
        if abs(num - ana) > 2 * rel * (1 + abs(num)) + (1e-6 if single else 1e-13) * abs(val) / step:
            raise Violation("wrong-gradient", f"derivative {num}, backward pass gives {ana}")
        ctx.probe("input derivative" if inp else "derivative")


def differentiable(m, cfg, ncfg, ctx, plan):
    m.eval()
    m.zero_grad(set_to_none=True)
    torch.manual_seed(7)

    def f():
        s = m.sample(num_samples=4, is_differentiable=True)
        g = torch.Generator().manual_seed(plan["s"])
        (s * torch.randn(s.shape, generator=g)).sum().backward()
        return s

    s = sut(f, ctx)
    W.need(s, (4, ncfg["C"], ncfg["F"]), "differentiable sample")
    if not torch.isfinite(s).all():
        raise Violation("not-a-number", "differentiable sample")
    got = {k: p.grad for k, p in m.named_parameters() if p.grad is not None}
    for k, g in got.items():
        if not torch.isfinite(g).all():
            raise Violation("gradient-not-finite", f"differentiable sample: {k}")
    if cfg["leaf"] in ("normal", "ratnormal") and not any("means" in k and bool((g != 0).any()) for k, g in got.items()):
        raise Violation("no-gradient", f"a differentiable sample does not reach the leaf means ({sorted(got)})")
    ctx.probe("differentiable sample")
    m.zero_grad(set_to_none=True)


def simplify(plan):
    yield from W.simplify_history(plan)
    yield from W.simplify_subject(plan)
    for k, v in (("n", 1), ("scale", 1.0), ("nan", 0.0), ("offset", 0.0), ("train", False), ("diff", False)):
        if plan.get(k, v) != v:
            yield {**plan, k: v}
