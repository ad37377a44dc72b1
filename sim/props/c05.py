"""C05  Marginalisation is exact, however it is asked for and whatever failed before."""
import random

import numpy as np
import torch

from .. import integrate as I, models, world as W
from ..core import Violation, thash
from ..faults import Failed, gen_fault, sut, sut_faulty

ID = "C05"
N_QUICK = 1000
N_THOROUGH = 25000
RULE = "a run counts when a proper, non-empty subset of the entries was marginalised and compared with the sum over completions"
REAL = ["Einet.forward", "ConvPc.forward", "all leaf layers' marginalisation", "MultiDistributionLayer"]
STUBS = []
ASSUMPTIONS = [
    "continuous entries are integrated one at a time by the trapezoid rule; tolerance 2e-3 in log space",
    "missing values and marginalised scopes are not combined in one call (unsupported by the code)",
    "the multivariate leaf supports no marginalisation and is excluded",
]
PROBES = ["sum over completions", "scopes equal NaN", "tensor scopes", "everything marginalised", "per-row masks", "after failure", "nothing marginalised"]


def gen(rng, i):
    cfg = W.gen_subject(rng, kinds=("einet",) * 8 + ("convpc",), max_f=6, max_w=4,
                        leaves=("normal", "ratnormal", "categorical", "binomial", "bernoulli", "multi", "multi", "pwl"))
    f = W.norm_cfg(cfg)["F"]
    ops = []
    for _ in range(rng.randint(1, 3)):
        ops.append({"scopes": rng.sample(range(f), rng.randint(1, f)) if rng.random() < 0.94 else [], "s": rng.randrange(1 << 30), "n": rng.randint(1, 4) if rng.random() < 0.95 else rng.choice([17, 70, 300, 1100]),
                    "as": rng.choice(["list", "list", "tensor", "tensor", "tuple", "array"]), "shape": rng.choice([2, 3, 3, 4]),
                    "fault": gen_fault(rng) if rng.random() < 0.35 else None, "frac": rng.choice([0.2, 0.5, 0.8])})
    return {"seed": rng.randrange(1 << 30), "model": cfg, "bseed": rng.randrange(1 << 30), "ops": ops, "history": W.gen_history(rng, cfg, n=3)}


MIN_OPS = 1


def completions(m, cfg, row, ctx):
    """log sum over every completion of the row's missing discrete entries, [K]; None when there are too many."""
    gaps = [(c, j) for c in range(cfg["C"]) for j in range(cfg["F"]) if torch.isnan(row[c, j]) and models.card(cfg, j) is not None]
    n = 1
    for _, j in gaps:
        n *= models.card(cfg, j)
    if not gaps or n > 3000:
        return None
    axes = [torch.arange(models.card(cfg, j)).float() for _, j in gaps]
    grid = torch.cartesian_prod(*axes).reshape(n, len(gaps)) if len(axes) > 1 else axes[0][:, None]
    x = row[None].repeat(n, 1, 1)
    for q, (c, j) in enumerate(gaps):
        x[:, c, j] = grid[:, q]
    return torch.logsumexp(W.ll(m, cfg, I.shaped(cfg, x), ctx=ctx), dim=0)


def contain(sc, how):
    if how == "tensor":
        return torch.tensor(sc, dtype=torch.long)
    if how == "array":
        return np.array(sc, dtype=np.int64)
    return tuple(sc) if how == "tuple" else list(sc)


def same(a, b, what, cls, tol=1e-4):
    if not W.close(a, b, rtol=tol, atol=tol):
        raise Violation(cls, f"{what}: {a.flatten().tolist()[:6]} vs {b.flatten().tolist()[:6]}")


def run(plan, ctx):
    cfg = W.norm_cfg(plan["model"])
    m = W.build(cfg, plan["bseed"])
    m = W.play(m, cfg, plan["history"], ctx)
    conv = cfg["kind"] == "convpc"
    rnd = random.Random(plan["bseed"])
    for i, op in enumerate(plan["ops"]):
        n, sc = op["n"], op["scopes"]
        x = models.data(cfg, op["s"], n)
        xn = x.clone()
        xn[:, :, sc] = I.NAN
        base = None
        if not conv:
            scopes = contain(sc, op["as"])
            xr = models.render(cfg, x, op["shape"])
            hx, hs = thash(xr), repr(scopes)
            if op["fault"]:
                out = sut_faulty(lambda: m(xr, scopes), op["fault"], 40, ctx)
                if isinstance(out, Failed):
                    ctx.probe("after failure")
            base = W.ll(m, cfg, xr, marg=scopes, ctx=ctx, what="marginal")
            if thash(xr) != hx or repr(scopes) != hs:
                raise Violation("input-changed", "marginalising modified the caller's data or scopes")
            if op["as"] == "tensor":
                ctx.probe("tensor scopes")
            # the values of marginalised features must not matter
            x2 = x.clone()
            x2[:, :, sc] = models.data(cfg, op["s"] + 9, n)[:, :, sc]
            same(base, W.ll(m, cfg, models.render(cfg, x2, op["shape"]), marg=scopes, ctx=ctx), f"op {i}: other values in the marginalised features", "depends-on-marginalised")
            same(base, W.ll(m, cfg, models.render(cfg, xn, op["shape"]), marg=scopes, ctx=ctx), f"op {i}: missing values in the marginalised features", "depends-on-marginalised")
            if not sc:
                ctx.probe("nothing marginalised")
                same(base, W.ll(m, cfg, x, ctx=ctx), f"op {i}: an empty set of scopes", "empty-scopes")
            rev = sorted(sc, reverse=True)
            same(base, W.ll(m, cfg, x, marg=rev, ctx=ctx), f"op {i}: scopes in another order", "scope-order")
            same(base, W.ll(m, cfg, models.render(cfg, xn, op["shape"]), ctx=ctx), f"op {i}: scopes {sc} against missing values", "scopes-differ-from-missing")
            ctx.probe("scopes equal NaN")
        else:
            base = W.ll(m, cfg, I.shaped(cfg, xn), ctx=ctx)
        ctx.log(i, W.describe([base]))
        ctx.mark((cfg["kind"], cfg["leaf"], cfg.get("structure"), cfg.get("R"), len(sc), op["shape"]))
        if len(sc) == cfg["F"]:
            ctx.probe("everything marginalised")
            same(base, torch.zeros_like(base), f"op {i}: everything marginalised", "empty-marginal-not-one")
        # exactness: against the sum over completions, or the integral over one marginalised entry
        s = completions(m, cfg, xn[0], ctx) if models.is_discrete(cfg) else None
        if s is not None:
            ctx.probe("sum over completions")
            ctx.nontrivial = ctx.nontrivial or len(sc) < cfg["F"]
            same(base[0], s, f"op {i}: marginal of {sc} against the sum over completions", "marginal-not-exact")
        if not sc:
            continue
        c, j = rnd.randrange(cfg["C"]), rnd.choice(sc)
        got = I.over(m, cfg, xn[0], c, j, ctx, "integral")
        ctx.nontrivial = ctx.nontrivial or len(sc) < cfg["F"]
        same(base[0], got, f"op {i}: marginal of {sc} against the integral over channel {c} feature {j}", "marginal-not-exact", 2e-3)
        # every row has its own pattern of missing entries
        mask = models.nan_mask(cfg, op["s"] + 1, n, op["frac"])
        y = x.clone()
        y[mask] = I.NAN
        hy = thash(y)
        joint = W.ll(m, cfg, I.shaped(cfg, y), ctx=ctx)
        if thash(y) != hy:
            raise Violation("input-changed", "evaluating rows with missing values modified the caller's data")
        alone = torch.cat([W.ll(m, cfg, I.shaped(cfg, y[k : k + 1]), ctx=ctx) for k in range(n)])
        ctx.probe("per-row masks")
        same(joint, alone, f"op {i}: rows with different missing entries", "row-depends-on-batch")
        k = rnd.randrange(n)
        gaps = [(c, j) for c in range(cfg["C"]) for j in range(cfg["F"]) if mask[k, c, j]]
        if gaps:
            c, j = rnd.choice(gaps)
            same(joint[k], I.over(m, cfg, y[k], c, j, ctx, "integral"), f"op {i} row {k}: missing entry (channel {c}, feature {j}) against its integral", "marginal-not-exact", 2e-3)


def simplify(plan):
    yield from W.simplify_history(plan)
    yield from W.simplify_subject(plan)
