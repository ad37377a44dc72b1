"""C06  Samples follow the density the model reports, also after faults and for rows of a batch.

The simulator owns the generator: the plan's seed decides every draw, so a run is one exact history.
The drawn rows are compared with the distribution computed from the model's own log-likelihoods.
"""
import math
import random

import torch

from .. import integrate as I, models, stats as S, world as W
from ..core import Violation
from ..faults import Failed, gen_fault, sut, sut_faulty

ID = "C06"
N_QUICK = 630
N_THOROUGH = 9000
RULE = "a run counts when at least 200 drawn rows were compared with the model's own distribution"
REAL = ["Einet.sample (unconditional, conditional, class-conditional, differentiable)", "ConvPc.sample", "Mixture.sample", "all leaf and sum layers"]
STUBS = ["fast_pytorch_kmeans (package not installed; deterministic stand-in)"]
ASSUMPTIONS = [
    "two-stage statistical test: p < 1e-5, then p < 1e-7 on a second sample four times as large",
    "differentiable sampling of binomial leaves is a documented Gaussian approximation: its means, deviations and products are compared with plain sampling; the mixture's conditional routing by nearest centroid is excluded",
    "temperatures other than one are excluded",
    "multivariate leaves: Stein identities of the full joint only (they support no marginalisation)",
]
PROBES = ["unconditional", "class", "class list", "conditional", "differentiable", "enumerated", "moments", "rosenblatt pair", "stein", "failed draw first", "mixture", "convpc"]


def gen(rng, i):
    cfg = W.gen_subject(rng, kinds=("einet",) * 8 + ("convpc", "mixture"), max_f=5, max_w=3,
                        leaves=("normal", "ratnormal", "categorical", "categorical", "binomial", "bernoulli", "multi", "multi", "mvn", "pwl"),
                        dropout=rng.choice([0.0, 0.0, 0.4]))
    if models.card(cfg, 0) is None or cfg["leaf"] == "multi":
        cfg["perturb"] = min(cfg["perturb"], 1.0)
    cfg["sharp"] = rng.choice([1.0, 1.0, 3.0, 6.0])
    cfg["spread"] = rng.choice([1.0, 1.0, 4.0, 8.0])
    if rng.random() < 0.15:
        cfg["sat"] = 10.0
    q = {"mode": "uncond", "rng": rng.randrange(1 << 30)}
    t = rng.random()
    if cfg["kind"] == "mixture":
        q["mode"] = "class" if cfg["K"] > 1 and t < 0.4 else "uncond"
    elif t < 0.45 and cfg["leaf"] != "mvn":
        q["mode"] = "cond"
        q["rows"] = rng.randint(1, 4)
        q["frac"] = rng.choice([0.3, 0.6, 0.9])
        if cfg["kind"] == "einet" and rng.random() < 0.4:
            # rows that choose between classes and repetitions which really differ
            cfg["K"], cfg["R"] = max(cfg["K"], 2), max(cfg["R"], rng.choice([2, 3, 4, 5]))
            cfg["perturb"], cfg["sharp"] = max(cfg["perturb"], 1.0), rng.choice([3.0, 6.0])
    elif cfg["K"] > 1 and t < 0.75:
        q["mode"] = rng.choice(["class", "classlist"])
    if q["mode"] == "class":
        q["cls"] = rng.randrange(cfg["K"])
    if q["mode"] == "classlist":
        q["cls"] = [rng.randrange(cfg["K"]) for _ in range(rng.randint(2, 6))]
    fams = {models.family(cfg, j) for j in range(cfg["F"])} if cfg["kind"] == "einet" else {"x"}
    if cfg["kind"] == "einet" and "binomial" not in fams and rng.random() < 0.25:
        q["diff"] = True
        if rng.random() < 0.4 and q["mode"] != "cond":
            # leaves that tell which child was chosen: the states show the choices of the sum nodes
            q["many"] = True
            cfg.update(leaf="categorical", F=rng.randint(2, 3), D=rng.randint(0, 1), C=1, bins=rng.randint(2, 3), perturb=2.5, sharp=1.0)
            cfg.pop("fam", None)
            if cfg["structure"] == "bottom-up":
                cfg["D"] = 1
    if cfg["kind"] == "einet" and not q.get("many") and q["mode"] != "cond" and rng.random() < 0.2:
        # two levels of choices over four binary features whose leaves tell them apart
        q["many"] = True
        cfg.update(leaf="categorical", F=4, D=2, C=1, S=2, I=2, R=rng.choice([1, 1, 2]), bins=2, perturb=2.5, sharp=rng.choice([1.0, 2.0]))
        cfg.pop("fam", None)
        if rng.random() < 0.5:
            q["diff"] = True
    if cfg["kind"] == "einet" and not q.get("many") and rng.random() < 0.14:
        # differentiable binomial leaves are a stated approximation: their first two moments are not
        q["moments"] = True
        q.pop("diff", None)
        cfg.update(leaf="binomial", count=120, sat=None)
        cfg.pop("fam", None)
        cfg.pop("sat")
    if rng.random() < 0.3:
        q["seed"] = rng.randrange(1 << 20)
    if rng.random() < 0.35:
        q["fault"] = gen_fault(rng)
    q["s"] = rng.randrange(1 << 30)
    return {"seed": rng.randrange(1 << 30), "model": cfg, "bseed": rng.randrange(1 << 30), "q": q,
            "history": W.gen_history(rng, cfg, n=3)}


def evidence(cfg, q):
    """Distinct rows with missing entries; every row misses at least one."""
    x = models.data(cfg, q["s"], q["rows"])
    mask = models.nan_mask(cfg, q["s"] + 1, q["rows"], q["frac"])
    for r in range(q["rows"]):
        if not mask[r].any():
            mask[r].view(-1)[q["s"] % mask[r].numel()] = True
    x[mask] = I.NAN
    return x


def draw(m, cfg, q, n, salt, ctx):
    """n rows [n, C, F], what each was conditioned on [n, C, F], and its class index or None."""
    kw = {}
    if q.get("diff"):
        kw["is_differentiable"] = True
    if q.get("seed") is not None:
        kw["seed"] = q["seed"] + salt
    base = torch.full((n, cfg["C"], cfg["F"]), I.NAN)
    cls = None
    torch.manual_seed(q["rng"] + salt)
    if q["mode"] == "cond":
        ev = evidence(cfg, q)
        base = ev.repeat(math.ceil(n / ev.shape[0]), 1, 1)[:n].contiguous()
        call = lambda: m.sample(evidence=models.layout(I.shaped(cfg, base.clone()), q["s"] % 9), **kw)
    elif q["mode"] == "class":
        cls = torch.full((n,), q["cls"])
        call = lambda: m.sample(num_samples=n, class_index=q["cls"], **kw)
    elif q["mode"] == "classlist":
        lst = (q["cls"] * math.ceil(n / len(q["cls"])))[:n]
        cls = torch.tensor(lst)
        call = lambda: m.sample(class_index=lst, **kw)
    else:
        call = lambda: m.sample(num_samples=n, **kw)
    if q.get("fault"):
        out = sut_faulty(call, q["fault"], 80, ctx)
        if isinstance(out, Failed):
            ctx.probe("failed draw first")
            torch.manual_seed(q["rng"] + salt)
            out = sut(call, ctx)
    else:
        out = sut(call, ctx)
    out = W.check_tensor(out, "sample").detach()
    if out.shape[0] != n or out.numel() != base.numel():
        raise Violation("wrong-shape", f"{tuple(out.shape)} for {n} rows of {cfg['C']}x{cfg['F']}")
    out = out.reshape(base.shape).float()
    for j in range(cfg["F"]):
        if models.card(cfg, j) is not None and q.get("diff"):
            out[:, :, j] = out[:, :, j].round()
    return out, base, cls


def pvalues(m, cfg, q, n, npair, salt, ctx):
    """name -> p-value of the hypothesis that the rows follow the model's distribution."""
    x, base, cls = draw(m, cfg, q, n, salt, ctx)
    g = torch.Generator().manual_seed(q["s"] + 11 + salt)
    rnd = random.Random(q["s"] + salt)
    out = {}
    if not torch.isfinite(x).all():
        raise Violation("out-of-support", "sample contains infinite or missing values")
    if not models.in_support({**cfg, "leaf": cfg["leaf"]}, x):
        raise Violation("out-of-support", "sample contains values outside the support")
    per_class = [(None, torch.arange(n))] if cls is None else [(c, torch.nonzero(cls == c).flatten()) for c in sorted(set(cls.tolist()))]
    if cfg["leaf"] == "mvn":
        for c, ix in per_class:
            out.update({f"stein{k}|{c}": v for k, v in stein(m, cfg, x[ix], c, ctx).items()})
        return out
    # full enumeration of the joint
    if models.is_discrete(cfg) and models.n_states(cfg) <= 1500 and q["mode"] != "cond" and n >= 500:
        st = models.all_states(cfg)
        mult = []
        for c in range(cfg["C"]):
            for j in range(cfg["F"]):
                mult.append(models.card(cfg, j))
        flat = x.reshape(n, -1).round().long()
        idx = torch.zeros(n, dtype=torch.long)
        for d, k in enumerate(mult):
            idx = idx * k + flat[:, d]
        for c, ix in per_class:
            p = S.density(m, cfg, st, c, ctx).exp()
            out[f"states|{c}"] = S.pooled_p(torch.bincount(idx[ix], minlength=st.shape[0]), p / p.sum())
        ctx.probe("enumerated")
    # one entry of every row, then a second one given the first
    rows = {}
    for i in range(n):
        rows.setdefault(base[i].numpy().tobytes(), []).append(i)
    u1 = torch.empty(n, dtype=torch.float64)
    u2 = torch.full((n,), -1.0, dtype=torch.float64)
    v = torch.rand(n, 2, generator=g, dtype=torch.float64)
    for ixs in rows.values():
        b = base[ixs[0]]
        gaps = [(c, j) for c in range(cfg["C"]) for j in range(cfg["F"]) if torch.isnan(b[c, j])]
        rnd.shuffle(gaps)
        for c, sel in per_class:
            mine = [i for i in ixs if cls is None or int(cls[i]) == c]
            if not mine:
                continue
            t = torch.tensor(mine)
            e1 = gaps[0]
            u1[t] = S.pit(m, cfg, base[t], e1, x[t, e1[0], e1[1]], c, v[t, 0], ctx)
            if len(gaps) > 1:
                e2 = gaps[1]
                t = t[t < npair]
                if t.numel():
                    bb = base[t].clone()
                    bb[:, e1[0], e1[1]] = x[t, e1[0], e1[1]]
                    u2[t] = S.pit(m, cfg, bb, e2, x[t, e2[0], e2[1]], c, v[t, 1], ctx)
    if torch.isnan(u1).any():
        raise Violation("impossible-sample", "a drawn value has no probability under the model")
    out["entry"] = S.uniform_p(u1, 12)
    half = n // 2
    out["first half"] = S.uniform_p(u1[:half], 8)
    out["even rows"] = S.uniform_p(u1[::2], 8)
    out["neighbouring rows"] = S.joint_p(u1[0 : 2 * half : 2], u1[1 : 2 * half : 2])
    for r, ixs in enumerate(rows.values()):
        if 1 < len(rows) and len(ixs) >= 80:
            out[f"row {r}"] = S.uniform_p(u1[ixs], 6)
    ok = u2 >= 0
    if int(ok.sum()) >= 160:
        ctx.probe("rosenblatt pair")
        out["second entry given first"] = S.uniform_p(u2[ok], 8)
        out["pair"] = S.joint_p(u1[ok], u2[ok])
    if cfg["leaf"] in ("normal", "ratnormal") and q["mode"] != "cond" and cfg["kind"] == "einet":
        for c, ix in per_class:
            out.update({f"stein{k}|{c}": v for k, v in stein(m, cfg, x[ix], c, ctx).items()})
    return out


def stein(m, cfg, x, cls, ctx):
    """E[f'(x_i) [i=j] + f(x_i) d_j log p(x)] = 0 for every entry pair, as two-sided normal p-values."""
    n = x.shape[0]
    y = x.clone().requires_grad_(True)

    def f():
        ll = m(I.shaped(cfg, y)).double()
        return torch.logsumexp(ll, dim=1) if cls is None else ll[:, cls]

    lp = sut(f, ctx)
    (grad,) = torch.autograd.grad(lp.sum(), y)
    s, z = grad.reshape(n, -1).double(), x.reshape(n, -1).double()
    d = z.shape[1]
    worst = 0.0
    for fn, dfn in ((torch.ones_like, torch.zeros_like), (lambda t: t, torch.ones_like), (torch.sin, torch.cos), (torch.tanh, lambda t: 1 - torch.tanh(t) ** 2)):
        val = fn(z)[:, :, None] * s[:, None, :]
        dv = dfn(z)
        val[:, torch.arange(d), torch.arange(d)] += dv
        mean, sd = val.mean(0), val.std(0) / math.sqrt(n)
        worst = max(worst, float((mean.abs() / (sd + 1e-9)).max()))
    ctx.probe("stein")
    # heavy tails of finite samples: demand two more standard errors than the normal approximation asks for
    return {"": min(1.0, 4 * d * d * math.erfc(max(0.0, worst - 1.0) / math.sqrt(2)))}


def moments(m, cfg, q, n, salt, ctx):
    """Differentiable and plain draws have the same means, deviations and products, row of evidence by row."""
    a, base, cls = draw(m, cfg, {**q, "diff": True}, n, salt, ctx)
    b, _, _ = draw(m, cfg, q, n, salt + 1, ctx)
    if not torch.isfinite(a).all() or float(a.min()) < 0 or float(a.max()) > cfg["count"]:
        raise Violation("out-of-support", f"differentiable draws range from {float(a.min())} to {float(a.max())}, with {cfg['count']} trials")
    rows = {}
    for i in range(n):
        rows.setdefault((base[i].numpy().tobytes(), None if cls is None else int(cls[i])), []).append(i)
    bad = []
    for k, ix in enumerate(rows.values()):
        x, y = (t[ix].reshape(len(ix), -1).double() / cfg["count"] for t in (a, b))
        sq = math.sqrt(len(ix))
        for name, f in (("mean", lambda t: t), ("product", lambda t: (t[:, :, None] * t[:, None, :]).flatten(1))):
            u, w = f(x), f(y)
            gap = (u.mean(0) - w.mean(0)).abs() - 6 * (u.std(0) ** 2 + w.std(0) ** 2).sqrt() / sq - 0.005
            if (gap > 0).any():
                j = int(gap.argmax())
                bad.append(f"{name} {j} of row {k}: {float(u.mean(0)[j]):.4f} differentiable, {float(w.mean(0)[j]):.4f} plain")
        sx, sy = x.std(0), y.std(0)
        if ((sx - sy).abs() > 0.01 + 0.1 * sy + 6 * (sx + sy) / sq).any():
            bad.append(f"deviations of row {k}: {sx.tolist()} differentiable, {sy.tolist()} plain")
    return bad


def run(plan, ctx):
    cfg = W.norm_cfg(plan["model"])
    q = plan["q"]
    m = W.build(cfg, plan["bseed"])
    m = W.play(m, cfg, plan["history"], ctx)
    cont = not models.is_discrete(cfg)
    n, npair = (2400, 400) if cont else (24000, 8000) if q.get("many") else (8000, 8000)
    ctx.probe({"uncond": "unconditional", "class": "class", "classlist": "class list", "cond": "conditional"}[q["mode"]])
    if q.get("diff"):
        ctx.probe("differentiable")
    if cfg["kind"] != "einet":
        ctx.probe(cfg["kind"])
    ctx.mark((cfg["kind"], cfg["leaf"], cfg.get("layer"), cfg.get("structure"), cfg.get("R"), cfg.get("D"), q["mode"], bool(q.get("diff"))))
    if q.get("moments"):
        ctx.probe("moments")
        ctx.nontrivial = True
        bad = moments(m, cfg, q, 6000, 0, ctx)
        ctx.log("moments", bad)
        if bad and moments(m, cfg, q, 24000, 2, ctx):
            raise Violation("differentiable-draws-differ", "; ".join(bad)[:600])
        return
    ps = pvalues(m, cfg, q, n, npair, 0, ctx)
    ctx.log("p", sorted((k, f"{v:.3e}") for k, v in ps.items()))
    ctx.nontrivial = True
    sus = [k for k, v in ps.items() if v < 1e-5]
    if sus:
        again = pvalues(m, cfg, q, 4 * n, 4 * npair, 1, ctx)
        bad = sorted(k for k in sus if again.get(k, 1.0) < 1e-7)
        ctx.probe("second stage")
        if bad:
            raise Violation("samples-do-not-follow-density", f"mode {q['mode']}{' differentiable' if q.get('diff') else ''}: "
                            + ", ".join(f"{k}: p={ps[k]:.1e} then {again[k]:.1e}" for k in bad))


def simplify(plan):
    yield from W.simplify_history(plan)
    if plan["q"].get("fault"):
        yield {**plan, "q": {k: v for k, v in plan["q"].items() if k != "fault"}}
    yield from W.simplify_subject(plan)
