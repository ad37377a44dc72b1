"""C23  Leaf parameters handed out instead of samples are those of the leaves the samples come from."""
import math

import torch

from .. import models, world as W
from ..core import Violation, thash
from ..faults import gen_fault, sut, sut_faulty

ID = "C23"
N_QUICK = 1400
N_THOROUGH = 30000
RULE = "a run counts when handed-out parameters of at least one leaf were compared with a sample, explanation or likelihood of the same model"
REAL = ["Einet.sample(return_leaf_params=True)", "FactorizedLeaf / FactorizedLeafSimple / MultiDistributionLayer / dist_sample", "get_params of normal, ratnormal, binomial, categorical, multi"]
STUBS = []
ASSUMPTIONS = [
    "leaf families without get_params (Bernoulli, multivariate normal, piecewise linear) and ConvPc refuse the request; they are not claimed",
    "parameter meanings are those of get_params: normal (mean, log variance), ratnormal (mean, standard deviation), binomial logits, categorical logits; rows of mixed families are padded with zeros",
]
PROBES = ["explanation", "same seed", "differentiable equals plain", "likelihood of a factorised model", "member of the leaf layer", "conditional", "marginalised scopes",
          "class list", "bottom-up", "multi", "gradient", "get_params order", "repetitions", "moments"]
MIN_OPS = 1
FAMS = ("normal", "ratnormal", "binomial", "categorical")


def gen(rng, i):
    cfg = {"kind": "einet", **models.gen_cfg(rng, leaves=FAMS + ("multi", "multi"), max_w=5, max_f=7)}
    if cfg["leaf"] == "multi":
        cfg["fam"] = [rng.choice(FAMS) for _ in range(cfg["F"])]
    cfg["perturb"] = rng.choice([0.0, 1.0, 2.5])
    t = rng.random()
    if t < 0.25:
        cfg.update(I=1, R=1)
    elif t < 0.35 and cfg["structure"] == "top-down":
        cfg.update(D=0)
    ops = []
    for _ in range(rng.randint(1, 3)):
        op = {"op": "params", "n": rng.randint(1, 5) if rng.random() < 0.93 else rng.choice([17, 40, 90, 300, 1100]), "s": rng.randrange(1 << 30), "rng": rng.randrange(1 << 30),
              "seed": rng.randrange(1 << 20), "diff": rng.random() < 0.5, "how": rng.choice(["free", "free", "nan", "marg"]), "shape": rng.choice([2, 3, 3, 4]),
              "nan": rng.choice([0.2, 0.5, 0.8, 1.0]), "fault": gen_fault(rng) if rng.random() < 0.4 else None}
        if op["how"] == "marg":
            op["marg"] = sorted(rng.sample(range(cfg["F"]), rng.randint(1, cfg["F"])))
        elif op["how"] == "free" and cfg["K"] > 1:
            op["cls"] = rng.choice([None, rng.randrange(cfg["K"]), [rng.randrange(cfg["K"]) for _ in range(op["n"])]])
        ops.append(op)
    return {"seed": rng.randrange(1 << 30), "model": cfg, "bseed": rng.randrange(1 << 30), "ops": ops,
            "history": W.gen_history(rng, cfg, n=3), "noise": rng.randrange(1 << 30), "moments": rng.random() < 0.1}


def kwargs(cfg, op):
    kw = {}
    if op["how"] == "free":
        if isinstance(op.get("cls"), list):
            kw["class_index"] = list(op["cls"])
        else:
            kw["num_samples"] = op["n"]
            if op.get("cls") is not None:
                kw["class_index"] = op["cls"]
        return kw
    if op["how"] == "nan":
        return {"evidence": models.layout(W.evidence(cfg, op["s"], op["n"], op["nan"], op["shape"]), op["s"] % 9)}
    return {"evidence": W.data(cfg, op["s"], op["n"], op["shape"]), "marginalized_scopes": list(op["marg"])}


def free_entries(cfg, op, kw):
    """[n, C, F] mask of the entries that a sample fills."""
    m = torch.zeros(op["n"], cfg["C"], cfg["F"], dtype=torch.bool)
    if op["how"] == "free":
        return ~m
    if op["how"] == "nan":
        return torch.isnan(W.canon(cfg, kw["evidence"]))
    m[:, :, op["marg"]] = True
    return m


def width(cfg):
    w = {"normal": 2, "ratnormal": 2, "binomial": 1, "categorical": cfg["bins"]}
    return max(w[models.family(cfg, j)] for j in range(cfg["F"]))


def log_density(cfg, fam, p, v):
    """log p(v) under parameters p [..., P] with p and v broadcastable; double precision, written from the families' definitions."""
    p, v = p.double(), v.double()
    if fam in ("normal", "ratnormal"):
        var = p[..., 1].exp() if fam == "normal" else p[..., 1] ** 2
        return -0.5 * (math.log(2 * math.pi) + var.log() + (v - p[..., 0]) ** 2 / var)
    if fam == "binomial":
        n = float(cfg["count"])
        comb = math.lgamma(n + 1) - torch.lgamma(v + 1) - torch.lgamma(n - v + 1)
        return comb + v * torch.nn.functional.logsigmoid(p[..., 0]) + (n - v) * torch.nn.functional.logsigmoid(-p[..., 0])
    lp = torch.log_softmax(p[..., : cfg["bins"]], dim=-1)
    lp, idx = torch.broadcast_tensors(lp, v.long().unsqueeze(-1))
    return lp.gather(-1, idx[..., :1]).squeeze(-1)


def check_modes(cfg, p, y, mask, what):
    """y must be the mode of the leaves p describes, wherever mask is set."""
    for j in range(cfg["F"]):
        fam = models.family(cfg, j)
        sel = mask[:, :, j]
        if not sel.any():
            continue
        pj, yj = p[:, :, j][sel], y[:, :, j][sel]
        if fam in ("normal", "ratnormal"):
            bad = ~torch.isclose(pj[:, 0].double(), yj.double(), rtol=1e-4, atol=1e-4)
        else:
            k = models.card(cfg, j)
            if bool(((yj < 0) | (yj >= k) | (yj != yj.round())).any()):
                raise Violation("wrong-sample", f"{what}: feature {j} ({fam}) outside its support")
            table = log_density(cfg, fam, pj[:, None, :], torch.arange(k)[None, :])
            own = table.gather(1, yj.long()[:, None])[:, 0]
            bad = own < table.max(dim=1).values - 1e-4
        if bad.any():
            k = int(torch.nonzero(bad)[0])
            raise Violation("wrong-parameters", f"{what}: feature {j} ({fam}): value {float(yj[k])} is not the mode of the handed-out parameters {pj[k].tolist()}")


def leaf_params(m):
    leaf = getattr(m.leaf, "base_leaf", m.leaf)
    return leaf.get_params().detach()


def check_members(cfg, m, p, ctx, what):
    """Every handed-out row is the complete parameter row of some leaf of that channel and feature."""
    q = leaf_params(m)
    want = (1, cfg["C"], cfg["F"], cfg["I"], cfg["R"], width(cfg))
    if tuple(q.shape) != want:
        raise Violation("wrong-shape", f"get_params has shape {tuple(q.shape)}, the leaf layer holds {want}")
    ctx.probe("get_params order")
    q = q[0].flatten(2, 3)  # [C, F, I*R, P]
    d = (p[:, :, :, None, :].double() - q[None].double()).abs().amax(dim=-1).amin(dim=-1)
    lim = 1e-4 * (1 + p.double().abs().amax(dim=-1))
    if bool((d > lim).any()):
        n, c, j = torch.nonzero(d > lim)[0].tolist()
        raise Violation("wrong-parameters", f"{what}: row {n} channel {c} feature {j} ({models.family(cfg, j)}) is {p[n, c, j].tolist()}: no leaf has these parameters")
    ctx.probe("member of the leaf layer")


def padding(cfg, p, what):
    for j in range(cfg["F"]):
        w = {"normal": 2, "ratnormal": 2, "binomial": 1, "categorical": cfg["bins"]}[models.family(cfg, j)]
        if bool((p[:, :, j, w:] != 0).any()):
            raise Violation("wrong-padding", f"{what}: feature {j} carries values beyond its own {w} parameters")


def ask(m, cfg, op, ctx, what, diff, **kw):
    h = [(t, thash(t)) for t in kw.values() if isinstance(t, torch.Tensor)]
    p = W.check_tensor(sut(lambda: m.sample(return_leaf_params=True, is_differentiable=diff, **kw), ctx), what)
    want = (op["n"], cfg["C"], cfg["F"], width(cfg))
    if tuple(p.shape) != want:
        raise Violation("wrong-shape", f"{what}: shape {tuple(p.shape)} instead of {want}")
    if any(thash(t) != k for t, k in h):
        raise Violation("input-changed", f"{what}: the caller's evidence was modified")
    if not torch.isfinite(p).all():
        raise Violation("not-finite", what)
    return p


def run(plan, ctx):
    cfg = plan["model"]
    m = W.build(cfg, plan["bseed"])
    m = W.play(m, cfg, plan["history"], ctx)
    if cfg["structure"] == "bottom-up":
        ctx.probe("bottom-up")
    if cfg["leaf"] == "multi":
        ctx.probe("multi")
    if cfg["R"] > 1:
        ctx.probe("repetitions")
    before = W.state_hash(m)
    for i, op in enumerate(plan["ops"]):
        what = f"request {i}"
        kw = kwargs(cfg, op)
        if op["fault"]:
            sut_faulty(lambda: m.sample(return_leaf_params=True, seed=op["seed"], **kwargs(cfg, op)), op["fault"], 80, ctx)
        ctx.mark((cfg["leaf"], cfg["structure"], cfg["layer"], cfg["R"], cfg["D"], op["how"], op["diff"]))
        free = free_entries(cfg, op, kw)
        if op["how"] == "nan":
            ctx.probe("conditional")
        elif op["how"] == "marg":
            ctx.probe("marginalised scopes")
        elif isinstance(op.get("cls"), list):
            ctx.probe("class list")
        ctx.nontrivial = True
        # most probable path
        W.noise(plan["noise"] + i)
        mode = {}
        for diff in (False, True):
            w = f"{what}, most probable{', differentiable' if diff else ''}"
            p = ask(m, cfg, op, ctx, w, diff, is_mpe=True, **kw)
            if diff and cfg["D"] + cfg["R"] > 0 and p.requires_grad is False:
                raise Violation("no-gradient", f"{w}: the result does not depend on any parameter")
            if diff and op["how"] == "free":
                grads(m, cfg, p, ctx, w)
            mode[diff] = p = p.detach()
            y = W.canon(cfg, sut(lambda: m.sample(is_mpe=True, is_differentiable=diff, **kw), ctx).detach())
            check_modes(cfg, p, y, free, w)
            check_members(cfg, m, p, ctx, w)
            padding(cfg, p, w)
            ctx.probe("explanation")
        tie = torch.zeros(op["n"], dtype=torch.bool)
        if cfg["K"] > 1 and op.get("cls") is None:
            tie = free.flatten(1).all(dim=1)
        if not torch.allclose(mode[False][~tie], mode[True][~tie], rtol=1e-4, atol=1e-4):
            raise Violation("differentiable-differs", f"{what}: the differentiable request names other leaves")
        ctx.probe("differentiable equals plain")
        # a drawn path: the same seed draws the same leaves
        W.noise(plan["noise"] + 50 + i)
        p = ask(m, cfg, op, ctx, f"{what}, drawn", op["diff"], seed=op["seed"], **kw).detach()
        ctx.log(i, W.describe([p]))
        W.noise(plan["noise"] + 90 + i)
        y = W.canon(cfg, sut(lambda: m.sample(seed=op["seed"], mpe_at_leaves=True, is_differentiable=op["diff"], **kw), ctx).detach())
        check_modes(cfg, p, y, free, f"{what}, drawn with seed {op['seed']}")
        check_members(cfg, m, p, ctx, f"{what}, drawn")
        padding(cfg, p, f"{what}, drawn")
        ctx.probe("same seed")
        p2 = ask(m, cfg, op, ctx, f"{what}, drawn again", op["diff"], seed=op["seed"], **kw).detach()
        if thash(p) != thash(p2):
            raise Violation("not-repeatable", f"{what}: the same seed names other leaves")
        if cfg["I"] == 1 and cfg["R"] == 1:
            factorised(m, cfg, op, p, ctx, what)
        if plan["moments"] and i == 0 and op["how"] == "free" and cfg["K"] == 1:
            moments(m, cfg, op, ctx)
    if W.state_hash(m) != before:
        raise Violation("model-changed", "handing out leaf parameters changed the model")
    if any(p.grad is not None for p in m.parameters()):
        m.zero_grad(set_to_none=True)


def grads(m, cfg, p, ctx, what):
    """The gradient of the summed first parameter counts how often each leaf was named."""
    if cfg["leaf"] not in ("normal", "binomial", "categorical"):
        return
    q = [v for k, v in sorted(m.named_parameters()) if k.startswith("leaf") and k.endswith(("means", "logits"))]
    if len(q) != 1:
        return
    (g,) = torch.autograd.grad(p[..., 0].sum(), q, allow_unused=True)
    if g is None:
        raise Violation("no-gradient", f"{what}: leaf parameters receive no gradient")
    if cfg["leaf"] == "categorical":
        g = g[..., 0]
    n = g.double().sum(dim=(0, -1, -2))
    if tuple(n.shape) == (cfg["C"], cfg["F"]) and not torch.allclose(n, torch.full_like(n, float(p.shape[0])), rtol=1e-4):
        raise Violation("wrong-gradient", f"{what}: leaves of a feature are counted {n.tolist()} times for {p.shape[0]} rows")
    ctx.probe("gradient")


def factorised(m, cfg, op, p, ctx, what):
    """One leaf per feature: the model's likelihood is the product of the densities the parameters describe."""
    x = W.data(cfg, op["s"] + 1, op["n"], 3)
    ref = torch.zeros(op["n"], dtype=torch.double)
    for j in range(cfg["F"]):
        ref += log_density(cfg, models.family(cfg, j), p[:, :, j], x[:, :, j]).sum(dim=1)
    out = W.ll(m, cfg, x, ctx=ctx).double()
    for k in range(out.shape[1]):
        if not torch.allclose(out[:, k], ref, rtol=1e-3, atol=1e-2):
            raise Violation("wrong-parameters", f"{what}: the handed-out parameters give log-likelihood {ref.tolist()}, the model answers {out[:, k].tolist()}")
    ctx.probe("likelihood of a factorised model")


def moments(m, cfg, op, ctx):
    """First moments of samples agree with those of the handed-out parameters (rows far more than needed, bound at 7 standard errors)."""
    n = 3000
    torch.manual_seed(op["rng"])
    p = sut(lambda: m.sample(num_samples=n, return_leaf_params=True), ctx).detach().double()
    y = sut(lambda: m.sample(num_samples=n), ctx).detach().double()
    y = W.canon(cfg, y)
    for j in range(cfg["F"]):
        fam = models.family(cfg, j)
        if fam == "categorical":
            continue
        a = p[:, :, j, 0] if fam != "binomial" else cfg["count"] * torch.sigmoid(p[:, :, j, 0])
        b = y[:, :, j]
        se = (a.var(dim=0) / n + b.var(dim=0) / n + 1e-9).sqrt()
        if bool(((a.mean(0) - b.mean(0)).abs() > 7 * se + 1e-3).any()):
            raise Violation("wrong-moments", f"feature {j} ({fam}): handed-out means {a.mean(0).tolist()}, sampled {b.mean(0).tolist()}")
    ctx.probe("moments")


def simplify(plan):
    yield from W.simplify_history(plan)
    yield from W.simplify_subject(plan)
