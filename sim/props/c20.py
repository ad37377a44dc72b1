"""C20  Class posteriors are Bayes' rule, and sampled classes follow them."""
import math

import torch

from .. import models, world as W
from ..core import Violation, thash
from ..faults import Failed, gen_fault, sut, sut_faulty

ID = "C20"
N_QUICK = 1000
N_THOROUGH = 25000
RULE = "a run counts when a posterior was compared with the class-conditional likelihoods after a history"
REAL = ["Einet.posterior", "Einet.sample (class requests)", "SpnDiscriminative's use of it (C18)", "all leaf and sum layers"]
STUBS = []
ASSUMPTIONS = ["the class prior is uniform", "martingale identities: two-stage test at 5.5, then 7 standard errors"]
PROBES = ["bayes", "missing values", "martingale unconditional", "martingale conditional", "class exchange", "class list rows", "after failure"]


def gen(rng, i):
    cfg = {"kind": "einet", **models.gen_cfg(rng, max_f=6, max_w=3, classes=(2, 2, 3, 4), dropout=rng.choice([0.0, 0.0, 0.4]),
                                             leaves=("normal", "ratnormal", "categorical", "binomial", "bernoulli", "multi", "mvn", "pwl"))}
    cfg["perturb"] = rng.choice([0.0, 1.0, 2.0])
    cfg["sharp"], cfg["spread"], cfg["sat"] = rng.choice([1.0, 1.0, 3.0, 8.0]), rng.choice([1.0, 1.0, 4.0]), rng.choice([1.0, 1.0, 10.0])
    return {"seed": rng.randrange(1 << 30), "model": cfg, "bseed": rng.randrange(1 << 30), "s": rng.randrange(1 << 30), "n": rng.randint(1, 6) if rng.random() < 0.95 else rng.choice([17, 70, 300, 1100]),
            "history": W.gen_history(rng, cfg, n=3), "fault": gen_fault(rng) if rng.random() < 0.5 else None, "nan": rng.choice([0.3, 0.7]),
            "shape": rng.choice([2, 3, 4]), "stat": rng.random() < 0.45, "rng": rng.randrange(1 << 30), "scale": rng.choice([1.0, 1.0, 50.0])}


def post(m, x, ctx, k, what):
    with torch.no_grad():
        p = sut(lambda: m.posterior(x), ctx)
    W.need(p, (x.shape[0], k), what)
    return p.double()


def run(plan, ctx):
    cfg = plan["model"]
    k = cfg["K"]
    m = W.build(cfg, plan["bseed"])
    m = W.play(m, cfg, plan["history"], ctx)
    n = plan["n"]
    x = W.data(cfg, plan["s"], n, plan["shape"])
    if models.is_discrete(cfg) is False and plan["scale"] > 1 and cfg["leaf"] in ("normal", "ratnormal"):
        x = x * plan["scale"]
    cases = [("complete", x)]
    if cfg["leaf"] != "mvn":
        cases.append(("missing", W.evidence(cfg, plan["s"], n, plan["nan"], plan["shape"])))
    for name, z in cases:
        hz = thash(z)
        if plan["fault"]:
            out = sut_faulty(lambda: m.posterior(z), plan["fault"], 30, ctx)
            if isinstance(out, Failed):
                ctx.probe("after failure")
        st = W.rng_state()
        p = post(m, z, ctx, k, f"posterior ({name})")
        if W.rng_state() != st:
            raise Violation("posterior-draws", "computing a posterior changed a random generator")
        if thash(z) != hz:
            raise Violation("input-changed", "posterior wrote to the caller's data")
        ll = W.ll(m, cfg, z, ctx=ctx)
        want = ll - torch.logsumexp(ll, dim=1, keepdim=True)
        ok = torch.isfinite(ll).any(dim=1) & (ll.max(dim=1).values > -1e6)
        tol = 1e-4 * (1 + ll.abs().max(dim=1, keepdim=True).values.clamp(max=1e6))
        bad = ((p - want).abs() > tol) & ~((p == want)) & ok[:, None]
        if bad.any():
            r = int(torch.nonzero(bad)[0][0])
            raise Violation("not-bayes", f"{name}, row {r}: posterior {p[r].tolist()}, Bayes' rule gives {want[r].tolist()}")
        if ((p[ok].exp().sum(dim=1) - 1).abs() > 1e-3 * (1 + ll.abs().max() * 1e-3)).any():
            raise Violation("not-normalised", f"{name}: posteriors sum to {p.exp().sum(dim=1).tolist()}")
        alone = torch.cat([post(m, z[r : r + 1], ctx, k, "one row") for r in range(n)])
        if (((alone - p).abs() > tol) & (alone != p) & ok[:, None]).any() or (torch.isnan(alone) != torch.isnan(p)).any():
            raise Violation("rows-mixed", f"{name}: a row's posterior depends on its batch")
        ctx.probe("bayes")
        if name == "missing":
            ctx.probe("missing values")
        ctx.log(name, W.describe([p]))
    ctx.nontrivial = True
    ctx.mark((cfg["leaf"], cfg["layer"], cfg["structure"], k, cfg["D"], cfg["R"], len(plan["history"])))
    if plan["stat"]:
        stat(m, cfg, plan, ctx, k)


def stat(m, cfg, plan, ctx, k):
    """Averages of posteriors over samples have exactly known means."""

    def draws(mode, size, s):
        torch.manual_seed(s)
        with torch.no_grad():
            if mode == "u":
                return m.sample(num_samples=size), None
            if mode == "list":
                cls = [(r * 7 + s) % k for r in range(size)]
                return m.sample(class_index=cls), torch.tensor(cls)
            e = W.evidence(cfg, plan["s"], 1, plan["nan"], 3).repeat(size, 1, 1)
            return m.sample(evidence=e), e[:1]

    modes = ["u", "list"] + (["cond"] if cfg["leaf"] != "mvn" else [])
    for mode in modes:
        def score(size, s):
            out, aux = sut(lambda: draws(mode, size, s), ctx)
            W.need(out, (size, cfg["C"], cfg["F"]), f"sample {mode}")
            p = post(m, out, ctx, k, "posterior of samples").exp()
            if torch.isnan(p).any():
                raise Violation("posterior-of-sample-undefined", f"a sampled row ({mode}) has no class posterior")
            if mode == "u":
                mean = torch.full((k,), 1.0 / k, dtype=torch.float64)
                d = p - mean
            elif mode == "cond":
                d = p - post(m, aux, ctx, k, "posterior of evidence").exp()
            else:
                # E[p(j|X) | X ~ class c] = E[p(c|X) | X ~ class j]
                g = torch.stack([p[aux == c].mean(dim=0) for c in range(k)])
                v = torch.stack([p[aux == c].var(dim=0) / (aux == c).sum() for c in range(k)])
                z = (g - g.t()) / torch.sqrt(v + v.t() + 1e-7)
                # and a row of class c carries at least the prior's weight for c on average
                sd = torch.sqrt(v.diagonal() + 1e-7)
                worst = float(torch.maximum(z.abs().max(), ((1.0 / k - g.diagonal()) / sd).max()))
                # rows of a list are rows of their class: the same averages as rows requested class by class
                for c in range(k):
                    torch.manual_seed(s + 1 + c)
                    one = sut(lambda: m.sample(num_samples=size // 2, class_index=c), ctx)
                    W.need(one, (size // 2, cfg["C"], cfg["F"]), f"sample class {c}")
                    q = post(m, one, ctx, k, "posterior of samples").exp()
                    se = torch.sqrt(v[c] + q.var(dim=0) / q.shape[0] + 1e-6)
                    worst = max(worst, float(((g[c] - q.mean(dim=0)).abs() / se).max()))
                return worst, g.tolist()
            sd = torch.sqrt(d.var(dim=0) / size + 1e-7)
            return float((d.mean(dim=0).abs() / sd).max()), d.mean(dim=0).tolist()

        z, _ = score(400, plan["rng"])
        ctx.probe({"u": "martingale unconditional", "cond": "martingale conditional", "list": "class exchange"}[mode])
        if mode == "list":
            ctx.probe("class list rows")
        ctx.log(mode, round(z, 3))
        if z > 5.5:
            z, info = score(3000, plan["rng"] + 1)
            if z > 7:
                raise Violation(f"sampled-classes-{mode}", f"average posterior of sampled rows is off by {z:.1f} standard errors: {info}")


def simplify(plan):
    yield from W.simplify_history(plan)
    for c in models.shrink_cfg(plan["model"]):
        if c["K"] > 1:
            yield {**plan, "model": {"kind": "einet", **c}}
