"""C07  Most probable explanations are deterministic, repeatable and draw nothing."""
import copy

import torch

from .. import integrate as I, models, world as W
from ..core import Violation, thash
from ..faults import Failed, gen_fault, sut, sut_faulty
from .c03 import check_support

ID = "C07"
N_QUICK = 1200
N_THOROUGH = 30000
RULE = "a run counts when an explanation was recomputed in another ambient state, history position, batch or mode and compared"
REAL = ["Einet.mpe / sample(is_mpe=True)", "ConvPc.sample(is_mpe=True)", "Mixture.mpe", "all leaf layers' modes"]
STUBS = ["fast_pytorch_kmeans (package not installed; deterministic stand-in)"]
ASSUMPTIONS = [
    "exactness (the answer is the argmax) is decided for models whose distribution factorises (one leaf component, one repetition), "
    "for single-level continuous mixtures (most probable component) and, without evidence, against sampling at vanishing temperature",
    "for nested sums the code follows the locally best branch; no global optimality is claimed",
]
PROBES = ["exact argmax", "most probable component", "low temperature", "differentiable equals plain", "rows alone", "idempotent", "class", "mixture", "convpc"]


def gen(rng, i):
    cfg = W.gen_subject(rng, kinds=("einet",) * 8 + ("convpc", "mixture"), max_f=6, max_w=4, dropout=rng.choice([0.0, 0.0, 0.4]),
                        leaves=("normal", "ratnormal", "categorical", "binomial", "bernoulli", "multi", "multi", "pwl"))
    t = rng.random()
    if cfg["kind"] == "einet" and t < 0.3:
        cfg.update(I=1, R=1)
    elif cfg["kind"] == "einet" and t < 0.5 and cfg["leaf"] != "multi":
        cfg.update(leaf=rng.choice(["normal", "ratnormal"]), K=1, R=1, D=rng.choice([0, 1]), structure="top-down")
    if cfg["kind"] == "einet" and rng.random() < 0.2:
        cfg.update(sat=20.0, perturb=max(cfg["perturb"], 1.0))
    ops = []
    for _ in range(rng.randint(1, 3)):
        ops.append({"op": "mpe", "s": rng.randrange(1 << 30), "rng": rng.randrange(1 << 30), "n": rng.randint(1, 5) if rng.random() < 0.95 else rng.choice([17, 70, 300, 1100]),
                    "nan": rng.choice([0.2, 0.5, 0.8, 1.0]) if cfg["kind"] != "mixture" else 0.5, "shape": 3,
                    "fault": gen_fault(rng) if rng.random() < 0.4 else None})
    return {"seed": rng.randrange(1 << 30), "model": cfg, "bseed": rng.randrange(1 << 30), "ops": ops,
            "history": W.gen_history(rng, cfg, n=3), "between": W.gen_history(rng, cfg, n=3, train=False), "noise": rng.randrange(1 << 30),
            "cls": rng.randrange(max(1, cfg.get("K", 1)))}


MIN_OPS = 1


def mpe(m, cfg, x, ctx, what, **kw):
    st, hx = W.rng_state(), thash(x)
    if cfg["kind"] == "convpc":
        f = lambda: m.sample(evidence=x, is_mpe=True, **kw)
    elif kw:
        f = lambda: m.sample(evidence=x, is_mpe=True, **kw)
    else:
        f = lambda: m.mpe(evidence=x)
    r = W.need(sut(f, ctx), x.shape, what).detach()
    if W.rng_state() != st:
        raise Violation("global-rng-moved", f"{what}: an explanation drew random numbers or reseeded a generator")
    if thash(x) != hx:
        raise Violation("input-changed", f"{what}: the caller's evidence was modified")
    return r


def eq(a, b, what, cls, exact=True):
    if a.shape != b.shape:
        raise Violation("wrong-shape", f"{what}: {tuple(a.shape)} vs {tuple(b.shape)}")
    ok = thash(a) == thash(b) if exact else torch.allclose(a.double(), b.double(), rtol=1e-4, atol=1e-3)
    if not ok:
        d = torch.nonzero((a - b).abs() > (0 if exact else 1e-3))
        raise Violation(cls, f"{what}: {d.shape[0]} entries differ, e.g. at {d[0].tolist() if len(d) else None}")


def run(plan, ctx):
    cfg = W.norm_cfg(plan["model"])
    m = W.build(cfg, plan["bseed"])
    m = W.play(m, cfg, plan["history"], ctx)
    kind = cfg["kind"]
    if kind != "einet":
        ctx.probe(kind)
    K = cfg.get("K", 1)
    first = []
    for i, op in enumerate(plan["ops"]):
        x = W.inputs(cfg, op)
        what = f"explanation {i}"
        if op["fault"]:
            sut_faulty(lambda: W.call(m, cfg, {**op, "op": "mpe"}, x), op["fault"], 80, ctx)
        W.noise(plan["noise"] + i)
        r = mpe(m, cfg, x, ctx, what)
        ctx.log(i, W.describe([r]))
        ctx.mark((kind, cfg["leaf"], cfg.get("layer"), cfg.get("structure"), cfg.get("R"), op["nan"]))
        keep = ~torch.isnan(x)
        if torch.isnan(r).any() or not torch.equal(r[keep], x[keep]):
            raise Violation("evidence-changed", f"{what}: observed entries changed or missing entries unfilled")
        check_support(cfg, {}, W.canon(cfg, r), what)
        first.append((x, r))
        ctx.nontrivial = True
        W.noise(plan["noise"] + 50 + i)
        eq(r, mpe(m, cfg, x, ctx, what), f"{what} repeated", "not-deterministic")
        if kind != "mixture":
            for sd in (0, 7):
                eq(r, mpe(m, cfg, x, ctx, what, seed=sd), f"{what} with seed {sd}", "not-deterministic")
        # a class posterior without any evidence is a tie: rounding may break it either way
        tie = torch.isnan(W.canon(cfg, x)).flatten(1).all(dim=1) if K > 1 else torch.zeros(x.shape[0], dtype=torch.bool)
        if kind == "einet":
            d = mpe(m, cfg, x, ctx, what, is_differentiable=True)
            eq(r[~tie], d[~tie], f"{what}, differentiable", "differentiable-differs", exact=False)
            ctx.probe("differentiable equals plain")
        if kind != "mixture":
            alone = torch.cat([mpe(m, cfg, x[k : k + 1].contiguous(), ctx, what) for k in range(x.shape[0])])
            eq(r[~tie], alone[~tie], f"{what}, rows alone", "row-depends-on-batch", exact=False)
            ctx.probe("rows alone")
        eq(r, mpe(m, cfg, r, ctx, what), f"{what} of its own answer", "not-idempotent")
        ctx.probe("idempotent")
        if kind == "einet" and cfg["I"] == 1 and cfg["R"] == 1:
            factorised(m, cfg, x, r, ctx, what)
    component(m, cfg, plan, ctx)
    # without evidence: the limit of sampling at vanishing temperature, for one class at a time
    if kind == "einet" and cfg["leaf"] != "pwl":
        kw = {"class_index": plan["cls"]} if K > 1 else {}
        if kw:
            ctx.probe("class")
        st = W.rng_state()
        a = W.check_tensor(sut(lambda: m.sample(num_samples=3, is_mpe=True, **kw), ctx), "unconditional explanation").detach()
        if W.rng_state() != st:
            raise Violation("global-rng-moved", "an unconditional explanation drew random numbers")
        if any(thash(a[k]) != thash(a[0]) for k in range(a.shape[0])):
            raise Violation("not-deterministic", "rows of an unconditional explanation differ")
        W.noise(plan["noise"] + 99)
        b = sut(lambda: m.sample(num_samples=3, temperature_sums=1e-6, mpe_at_leaves=True, **kw), ctx)
        eq(a, W.check_tensor(b, "sample").detach(), "unconditional explanation against vanishing temperature", "not-most-probable", exact=False)
        ctx.probe("low temperature")
    m = W.play(m, cfg, plan["between"], ctx)
    for i, (x, r) in enumerate(first):
        W.noise(plan["noise"] + 500 + i)
        eq(r, mpe(m, cfg, x, ctx, f"explanation {i}"), f"explanation {i} after later calls", "history-dependent")


def factorised(m, cfg, x, r, ctx, what):
    """Every entry is independent: the answer must maximise each missing entry on its own."""
    if cfg["leaf"] == "pwl" or cfg["K"] > 1:
        return
    xc, rc = W.canon(cfg, x), W.canon(cfg, r)
    base = torch.full((1, cfg["C"], cfg["F"]), I.NAN)
    for row in range(min(2, xc.shape[0])):
        for c in range(cfg["C"]):
            for j in range(cfg["F"]):
                if not torch.isnan(xc[row, c, j]):
                    continue
                k = models.card(cfg, j)
                v = rc[row, c, j]
                cand = torch.arange(k).float() if k is not None else torch.cat([v[None] + torch.tensor([-0.3, -0.02, 0.02, 0.3]), torch.linspace(-20, 20, 201)])
                cand = torch.cat([v[None], cand])
                y = base.repeat(cand.numel(), 1, 1)
                y[:, c, j] = cand
                lls = W.ll(m, cfg, y, ctx=ctx)[:, 0]
                ctx.probe("exact argmax")
                if float(lls.max()) > float(lls[0]) + 1e-4:
                    raise Violation("not-most-probable", f"{what}: channel {c} feature {j} ({models.family(cfg, j)}) is {float(v)} although "
                                    f"{float(cand[lls.argmax()])} is more probable")


def component(m, cfg, plan, ctx):
    """One mixture level over continuous leaves: the most probable component must win."""
    if not (cfg["kind"] == "einet" and cfg["leaf"] in ("normal", "ratnormal") and cfg["K"] == 1 and cfg["R"] == 1 and cfg["D"] <= 1
            and cfg["structure"] == "top-down"):
        return
    op = plan["ops"][0]
    x = W.canon(cfg, W.inputs(cfg, {**op, "n": 1}))
    if not torch.isnan(x).any():
        return
    n = 1600
    torch.manual_seed(op["rng"])
    s = W.check_tensor(sut(lambda: m.sample(evidence=x.repeat(n, 1, 1), mpe_at_leaves=True), ctx), "sample").detach()
    count = {}
    for row in s:
        k = thash(row)
        count[k] = count.get(k, 0) + 1
    top = sorted(count.items(), key=lambda t: -t[1])
    if len(top) > 1 and top[0][1] - top[1][1] < 8 * n**0.5:
        return
    ctx.probe("most probable component")
    r = W.canon(cfg, mpe(m, cfg, x, ctx, "component"))
    if thash(r[0]) != top[0][0]:
        raise Violation("not-most-probable", f"the explanation follows a component drawn {count.get(thash(r[0]), 0)} times of {n}; another is drawn {top[0][1]} times")


def simplify(plan):
    yield from W.simplify_history(plan)
    yield from W.simplify_history(plan, "between")
    yield from W.simplify_subject(plan)
