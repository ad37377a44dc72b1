"""C04  A model is one normalised density, whatever happened to it before.

After a history of faults, training steps, restarts and queries: the density sums/integrates to one,
every row's value depends on that row alone, and a model restored from the saved state agrees.
"""
import random

import torch

from .. import integrate as I, models, world as W
from ..core import Violation, thash
from ..faults import sut

ID = "C04"
N_QUICK = 840
N_THOROUGH = 20000
RULE = "a run counts when a total mass was computed for a model with a non-empty history"
REAL = ["Einet.forward", "ConvPc.forward", "all leaf and sum layers", "optimiser-style parameter updates", "state_dict restart"]
STUBS = []
ASSUMPTIONS = [
    "continuous entries are integrated by the trapezoid rule on [-90, 90] with step 0.02 (piecewise linear leaves: adaptive cells); tolerance 2e-3 on log mass",
    "the multivariate leaf is integrated only for two features (2-D grid)",
]
PROBES = ["enumerated", "chained", "2-D grid", "restored model agrees", "memory layouts", "row alone", "history with faults", "large batch"]


def gen(rng, i):
    cfg = W.gen_subject(rng, kinds=("einet",) * 7 + ("convpc",), max_f=6, max_w=4, dropout=rng.choice([0.0, 0.0, 0.5]),
                        leaves=("normal", "ratnormal", "categorical", "binomial", "bernoulli", "multi", "multi", "mvn", "pwl"))
    if cfg["leaf"] == "mvn":
        cfg.update(F=2, D=0, C=1, perturb=0.0, mcard=2)
    return {"seed": rng.randrange(1 << 30), "model": cfg, "bseed": rng.randrange(1 << 30), "s": rng.randrange(1 << 30),
            "n": rng.randint(2, 6), "large": rng.choice([70, 130, 200, 300, 600, 1100]) if rng.random() < 0.15 else 0, "history": W.gen_history(rng, cfg, n=5), "noise": rng.randrange(1 << 30)}


def mass(cfg, lm, what):
    bad = (lm.abs() > 2e-3) | torch.isnan(lm)
    if bad.any():
        raise Violation("mass-not-one", f"{what}: log mass per class {[round(float(v), 6) for v in lm]}")


def total_mass(m, cfg, plan, ctx):
    if cfg["leaf"] == "mvn":
        g = torch.linspace(-14, 14, 281)
        x = torch.cartesian_prod(g, g)[:, None, :]
        lm = torch.logsumexp(W.ll(m, cfg, x, ctx=ctx), dim=0) + 2 * torch.log(torch.tensor(0.1, dtype=torch.float64))
        # wide covariances leave the box: compare only when the border carries no mass
        edge = W.ll(m, cfg, x[(x.abs() > 13.5).any(dim=-1).any(dim=-1)], ctx=ctx)
        if float(torch.logsumexp(edge, dim=0).max()) < -12:
            ctx.probe("2-D grid")
            mass(cfg, lm, "total over the plane")
        return
    if models.is_discrete(cfg) and models.n_states(cfg) <= 3000:
        x = models.all_states(cfg)
        lls = W.ll(m, cfg, I.shaped(cfg, x), ctx=ctx)
        if (lls > 1e-5).any():
            raise Violation("mass-not-one", f"one state of a discrete model has log probability {float(lls.max())}")
        ctx.probe("enumerated")
        mass(cfg, torch.logsumexp(lls, dim=0), f"total over {x.shape[0]} states")
    # chain: integrating out one more entry at a time ends at one
    rnd = random.Random(plan["s"])
    row = models.data(cfg, plan["s"], 1)[0]
    entries = [(c, j) for c in range(cfg["C"]) for j in range(cfg["F"])]
    rnd.shuffle(entries)
    cont = [e for e in entries if models.card(cfg, e[1]) is None]
    entries = entries[: 4 if cont else 8]
    known = torch.full_like(row, I.NAN)
    prev = torch.zeros(cfg.get("K", 1), dtype=torch.float64)
    for c, j in entries:
        got = I.over(m, cfg, known, c, j, ctx, "chain")
        d = (got - prev).abs()
        if (d > 2e-3).any() or torch.isnan(d).any():
            raise Violation("mass-not-one", f"integrating out channel {c} feature {j} ({models.family(cfg, j)}) gives log mass "
                            f"{[round(float(v), 5) for v in got]}, expected {[round(float(v), 5) for v in prev]}")
        known[c, j] = row[c, j]
        prev = W.ll(m, cfg, I.shaped(cfg, known[None]), ctx=ctx)[0]
    ctx.probe("chained")


def run(plan, ctx):
    cfg = W.norm_cfg(plan["model"])
    m = W.build(cfg, plan["bseed"])
    m = W.play(m, cfg, plan["history"], ctx)
    if any(o.get("fault") or o["op"] == "bad" for o in plan["history"]):
        ctx.probe("history with faults")
    total_mass(m, cfg, plan, ctx)
    ctx.nontrivial = bool(plan["history"])
    n = plan["n"]
    x = models.data(cfg, plan["s"] + 1, n)
    if cfg["leaf"] != "mvn":
        msk = models.nan_mask(cfg, plan["s"] + 2, n, 0.3)
        x[msk] = I.NAN
    W.noise(plan["noise"])
    st = W.rng_state()
    hx = thash(x)
    a = W.ll(m, cfg, I.shaped(cfg, x), ctx=ctx)
    if W.rng_state() != st:
        raise Violation("global-rng-moved", "evaluating a model in evaluation mode drew random numbers")
    if thash(x) != hx:
        raise Violation("input-changed", "evaluation modified the caller's tensor")
    ctx.log("ll", W.describe([a]))
    ctx.mark((cfg["kind"], cfg["leaf"], cfg.get("layer"), cfg.get("structure"), cfg.get("R"), cfg.get("D")))

    def same(b, what, cls):
        if not W.close(a, b, rtol=1e-4, atol=1e-4):
            raise Violation(cls, f"{what}: {a.flatten().tolist()[:6]} vs {b.flatten().tolist()[:6]}")

    W.noise(plan["noise"] + 1)
    same(W.ll(m, cfg, I.shaped(cfg, x), ctx=ctx, grad=True), "same call again", "not-repeatable")
    # each row alone, in another order, next to other rows
    alone = torch.cat([W.ll(m, cfg, I.shaped(cfg, x[k : k + 1]), ctx=ctx) for k in range(n)])
    ctx.probe("row alone")
    same(alone, "each row alone", "row-depends-on-batch")
    perm = torch.randperm(n, generator=torch.Generator().manual_seed(plan["s"]))
    same(W.ll(m, cfg, I.shaped(cfg, x[perm]), ctx=ctx)[torch.argsort(perm)], "rows permuted", "row-depends-on-batch")
    big = torch.cat([models.data(cfg, plan["s"] + 5, 3), x, x[:1]])
    if cfg["leaf"] in ("normal", "ratnormal"):
        big[0] = 1e3
    same(W.ll(m, cfg, I.shaped(cfg, big), ctx=ctx)[3:-1], "next to other rows", "row-depends-on-batch")
    if plan["large"]:
        wide = models.data(cfg, plan["s"] + 6, plan["large"])
        if cfg["leaf"] != "mvn":
            wide[models.nan_mask(cfg, plan["s"] + 7, plan["large"], 0.2)] = I.NAN
        got = W.ll(m, cfg, I.shaped(cfg, wide), ctx=ctx)
        parts = torch.cat([W.ll(m, cfg, I.shaped(cfg, p), ctx=ctx) for p in wide.split(23)])
        ctx.probe("large batch")
        if not W.close(got, parts, rtol=1e-4, atol=1e-4):
            k = int((got - parts).abs().flatten(1).max(1).values.argmax())
            raise Violation("row-depends-on-batch", f"row {k} of {plan['large']}: {got[k].tolist()}, in a small batch {parts[k].tolist()}")
    # equivalent renderings of the same rows
    if cfg["kind"] == "einet":
        for s in (2, 3, 4):
            same(W.ll(m, cfg, models.render(cfg, x, s), ctx=ctx), f"{s}-dimensional rendering", "shape-dependent")
    for s in (1, 2, 3, 4):
        y = I.shaped(cfg, x, 4 if (plan["s"] + s) % 2 else 3)
        same(W.ll(m, cfg, models.layout(y, s), ctx=ctx), f"memory layout {s} of {tuple(y.shape)}", "shape-dependent")
        ctx.probe("memory layouts")
    # the history left nothing behind that a restart would drop
    fresh = sut(lambda: W.save_load(m, cfg, plan["noise"]), ctx)
    same(W.ll(fresh, cfg, I.shaped(cfg, x), ctx=ctx), "model restored from the saved state", "history-dependent")
    ctx.probe("restored model agrees")
    # other parameters, the very same tensor
    g = torch.Generator().manual_seed(plan["s"])
    with torch.no_grad():
        for p in m.parameters():
            p.add_(0.1 * torch.randn(p.shape, generator=g))
    fresh = sut(lambda: W.save_load(m, cfg, plan["noise"]), ctx)
    a = W.ll(m, cfg, I.shaped(cfg, x), ctx=ctx)
    same(W.ll(fresh, cfg, I.shaped(cfg, x), ctx=ctx), "model with changed parameters restored from its state", "history-dependent")


def simplify(plan):
    if plan["large"]:
        yield {**plan, "large": 0}
    yield from W.simplify_history(plan)
    yield from W.simplify_subject(plan)
