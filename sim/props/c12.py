"""C12  A mixture routes every row to its component, whatever the batch, the order or the faults.

Half of the runs use real components, the other half replace them by stand-ins that answer with their
own number, so that routing and ordering can be read off exactly.
"""
import copy
import math

import torch
from torch import nn

from .. import models, world as W
from ..core import Violation, thash
from ..faults import Failed, gen_fault, sut, sut_faulty

ID = "C12"
N_QUICK = 1400
N_THOROUGH = 40000
RULE = "a run counts when a batch reaching at least two components was compared row by row"
REAL = ["Mixture (initialisation, routing, sampling, explanations)", "Einet / ConvPc components in half of the runs"]
STUBS = ["fast_pytorch_kmeans (deterministic stand-in)", "components in half of the runs (they answer with their own number)"]
ASSUMPTIONS = [
    "rows equally close to two centroids may go to either",
    "routing of rows that contain missing values is not claimed (distance to a centroid is undefined); what is claimed is that one component answers and the evidence is kept",
    "mixtures of ConvPc are not asked with marginalised scopes (ConvPc.forward takes none)",
    "binomial leaves: centroids are rescaled by the code, so only consistency with the stored centroids is checked",
]
PROBES = ["two components", "marginalised", "per cluster", "weights", "frequencies", "explanation without evidence", "explanation with evidence",
          "stand-ins", "convpc components", "after failure", "single component", "empty cluster", "several channels", "small draws"]
MIN_OPS = 0


class Tag(nn.Module):
    """A component that answers with its own number."""

    def __init__(self, k, cfg, log):
        super().__init__()
        self.k, self.cfg, self.calls = k, cfg, log

    def forward(self, x, marginalized_scopes=None, *a, **kw):
        self.calls.append(("forward", self.k, x.shape[0]))
        y = torch.nan_to_num(x.reshape(x.shape[0], -1).double())
        w = torch.arange(1, y.shape[1] + 1, dtype=torch.float64)
        if marginalized_scopes is not None:
            f = self.cfg["F"]
            keep = torch.tensor([j % f not in [int(s) for s in marginalized_scopes] for j in range(y.shape[1])])
            y = y * keep
        v = (y * w).sum(dim=1, keepdim=True)
        return (v + 1000.0 * self.k).float().expand(-1, self.cfg["K"]).clone()

    def sample(self, num_samples=None, class_index=None, evidence=None, is_mpe=False, **kw):
        self.calls.append(("sample", self.k, bool(is_mpe), class_index, kw))
        c = self.cfg
        if evidence is None:
            n = len(class_index) if isinstance(class_index, (list, tuple)) else num_samples
            return torch.full((n, c["C"], c["F"]), float(self.k))
        y = evidence.clone()
        y[torch.isnan(y)] = 1000.0 + self.k
        for s in kw.get("marginalized_scopes") or []:
            y[..., int(s)] = 1000.0 + self.k
        return y

    def mpe(self, evidence=None, marginalized_scopes=None, **kw):
        return self.sample(num_samples=1, evidence=evidence, is_mpe=True, marginalized_scopes=marginalized_scopes)


def gen(rng, i):
    t = rng.random()
    if t < 0.15:
        cfg = W.gen_subject(rng, kinds=("convpc",))
        cfg = {**cfg, "comp": "convpc", "M": rng.randint(1, 4), "K": 1}
    else:
        cfg = W.gen_subject(rng, kinds=("mixture",), max_f=5, max_w=2, channels=(1, 1, 2, 3), leaves=("normal", "categorical", "binomial", "bernoulli"))
        cfg["M"] = rng.choice([1, 2, 3, 4, 6])
        cfg["comp"] = "einet"
        cfg["tag"] = rng.random() < 0.55
    f = W.norm_cfg(cfg)["F"]
    ops = []
    for _ in range(rng.randint(2, 5)):
        k = rng.choice(["ll", "ll", "ll", "marg", "draw", "cluster", "mpe0", "mpe1", "cond", "freq"])
        ops.append({"op": k, "s": rng.randrange(1 << 30), "n": rng.choice([1, 2, 3, 5, 9, 17, 40, 40, 300, 1100] if rng.random() < 0.3 else [1, 2, 3, 5, 9, 17]), "rng": rng.randrange(1 << 30),
                    "scopes": sorted(rng.sample(range(f), rng.randint(1, max(1, f - 1)))), "nan": rng.choice([0.0, 0.3, 0.6]),
                    "cls": rng.randrange(max(1, cfg["K"])) if rng.random() < 0.4 else None,
                    "fault": gen_fault(rng) if rng.random() < 0.3 else None, "seed": rng.randrange(1 << 20) if rng.random() < 0.4 else None})
    return {"seed": rng.randrange(1 << 30), "model": cfg, "bseed": rng.randrange(1 << 30), "ops": ops, "init": rng.choice([0, 5, 24, 60]),
            "spread": rng.choice([0.0, 0.5, 3.0]), "dup": rng.random() < 0.15}


def build(plan):
    import numpy as np
    from simple_einet.mixture import Mixture

    cfg = plan["model"]
    torch.manual_seed(plan["bseed"])
    np.random.seed(plan["bseed"] % 2**32)
    if cfg["comp"] == "convpc":
        from simple_einet.conv_pc import ConvPcConfig
        from simple_einet.data import Shape

        c = W.norm_cfg(cfg)
        cls, kw = models.leaf_spec(c)
        m = Mixture(n_components=cfg["M"], data_shape=Shape(channels=c["C"], height=c["H"], width=c["H"]),
                    config=ConvPcConfig(channels=list(c["ch"]), kernel_size=2, num_channels=c["C"], leaf_type=cls, leaf_kwargs=kw,
                                        structure=c["structure"], order=c["order"]))
    else:
        m = Mixture(n_components=cfg["M"], config=models.config(cfg))
    for k, comp in enumerate(m.models):
        models.perturb(comp, 0.5 + 0.5 * k, cfg["pseed"] + k)
    m.eval()
    return m


def rows(cfg, s, n, spread):
    x = W.data(cfg, s, n)
    if spread and models.card(W.norm_cfg(cfg), 0) is None:
        g = torch.Generator().manual_seed(s + 5)
        x = x + (torch.randint(0, 3, (n, *([1] * (x.dim() - 1))), generator=g).float() - 1) * spread
    return models.layout(x, s % 9)


def nearest(m, x, keep=None):
    """Indices of all centroids at (nearly) minimal distance, per row."""
    c = m.centroids.double()
    y = x.reshape(x.shape[0], -1).double()
    if keep is not None:
        c, y = c[:, keep], y[:, keep]
    d = ((y[:, None] - c[None]) ** 2).sum(-1)
    lo = d.min(dim=1, keepdim=True).values
    # the distance is computed in float32 by the code: allow for its rounding
    tol = 1e-4 * (1 + (y**2).sum(1, keepdim=True) + (c**2).sum(1)[None])
    return [[int(k) for k in torch.nonzero(r).flatten()] for r in (d <= lo + tol)]


def kept(ncfg, scopes):
    """Positions of a flattened row whose feature is not marginalised (a scope covers all channels)."""
    return [j for j in range(ncfg["C"] * ncfg["F"]) if j % ncfg["F"] not in scopes]


def run(plan, ctx):
    cfg = plan["model"]
    ncfg = W.norm_cfg(cfg)
    if ncfg["C"] > 1:
        ctx.probe("several channels")
    m = sut(lambda: build(plan), ctx)
    if plan["init"]:
        x0 = rows(cfg, plan["bseed"] + 1, max(plan["init"], cfg["M"]), plan["spread"])
        if plan["dup"]:
            x0 = x0[:1].expand_as(x0).clone()
            ctx.probe("empty cluster")
        torch.manual_seed(plan["bseed"] + 2)
        sut(lambda: m.initialize(data=x0), ctx)
        w = m.mixture_weights.double()
        W.need(m.mixture_weights, (cfg["M"],), "mixture weights")
        ctx.probe("weights")
        if (w < 0).any() or abs(float(w.sum()) - 1) > 1e-5:
            raise Violation("weights", f"mixture weights {w.tolist()}")
        W.need(m.centroids, (cfg["M"], ncfg["C"] * ncfg["F"]), "centroids")
        if cfg["leaf"] != "binomial":
            near = nearest(m, x0)
            lo = torch.zeros(cfg["M"], dtype=torch.float64)
            hi = torch.zeros(cfg["M"], dtype=torch.float64)
            for ks in near:
                for k in ks:
                    hi[k] += 1
                if len(ks) == 1:
                    lo[ks[0]] += 1
            n0 = x0.shape[0]
            if (w * n0 < lo - 1e-3).any() or (w * n0 > hi + 1e-3).any():
                raise Violation("weights", f"weights {w.tolist()} for {n0} rows, between {lo.tolist()} and {hi.tolist()} of them belong to the components")
    else:
        g = torch.Generator().manual_seed(plan["bseed"])
        m.centroids.data = rows(cfg, plan["bseed"] + 3, cfg["M"], plan["spread"]).reshape(cfg["M"], -1).clone()
        w = torch.rand(cfg["M"], generator=g) + 0.05
        m.mixture_weights.data = w / w.sum()
    calls = []
    if cfg.get("tag"):
        m.models = nn.ModuleList([Tag(k, cfg, calls) for k in range(cfg["M"])])
        ctx.probe("stand-ins")
    if cfg["comp"] == "convpc":
        ctx.probe("convpc components")
    if cfg["M"] == 1:
        ctx.probe("single component")
    ctx.log("weights", [round(float(v), 6) for v in m.mixture_weights])
    for i, op in enumerate(plan["ops"]):
        one(m, cfg, ncfg, op, plan, ctx, f"op {i} {op['op']}", calls)


def one(m, cfg, ncfg, op, plan, ctx, what, calls):
    k = op["op"]
    tag = cfg.get("tag")
    n = op["n"]
    kk = cfg["K"]
    shape = (n, ncfg["C"], ncfg["F"])
    full = (n, ncfg["C"], ncfg["H"], ncfg["H"]) if cfg["comp"] == "convpc" else shape
    kw = {"seed": op["seed"]} if op["seed"] is not None else {}

    def go(f):
        torch.manual_seed(op["rng"])
        if op["fault"]:
            out = sut_faulty(f, op["fault"], 40, ctx)
            if not isinstance(out, Failed):
                return out
            ctx.probe("after failure")
            torch.manual_seed(op["rng"])
        return sut(f, ctx)

    if k in ("ll", "marg"):
        x = rows(cfg, op["s"], n, plan["spread"])
        if k == "marg":
            if cfg["comp"] == "convpc":
                return
            scopes = op["scopes"]
            if len(scopes) >= ncfg["F"]:
                return
            keep = kept(ncfg, scopes)
            f = lambda z: m(z, scopes)
            comp = lambda c, z: m.models[c](z, scopes)
            ctx.probe("marginalised")
        else:
            keep = None
            f = lambda z: m(z)
            comp = lambda c, z: m.models[c](z)
        hx = thash(x)
        with torch.no_grad():
            out = go(lambda: f(x))
        if thash(x) != hx:
            raise Violation("input-changed", what)
        out = out if not isinstance(out, torch.Tensor) else out.detach()
        W.need(out, (n,) if cfg["comp"] == "convpc" and out.dim() == 1 else (n, kk), what)
        near = nearest(m, x, keep)
        used = set()
        with torch.no_grad():
            for r in range(n):
                cand = [sut(lambda: comp(c, x[r : r + 1]), ctx).reshape(-1) for c in near[r]]
                hit = [c for c, v in zip(near[r], cand) if W.close(v, out[r].reshape(-1), 1e-4, 1e-4)]
                if not hit:
                    raise Violation("wrong-component", f"{what}: row {r} of {n} gives {out[r].flatten().tolist()[:3]}, its nearest component {near[r]} gives {[v.tolist()[:3] for v in cand]}")
                used.add(hit[0])
            if len(used) > 1:
                ctx.probe("two components")
                ctx.nontrivial = True
            perm = torch.randperm(n, generator=torch.Generator().manual_seed(op["s"]))
            again = sut(lambda: f(x[perm]), ctx)
            if all(len(s) == 1 for s in near) and not W.close(again, out[perm], 1e-4, 1e-4):
                raise Violation("order", f"{what}: permuting the rows does not permute the answers")
        ctx.mark((k, n, len(used), bool(op["fault"])))
        ctx.log(what, W.describe([out]))
    elif k in ("draw", "cluster"):
        c = max(1, n % 4)
        args = dict(num_samples=n) if k == "draw" else dict(num_samples_per_cluster=c)
        if op["cls"] is not None and kk > 1:
            args["class_index"] = op["cls"]
        del calls[:]
        with torch.no_grad():
            out = go(lambda: m.sample(**args, **kw))
        want = n if k == "draw" else c * cfg["M"]
        W.need(out, (want, *full[1:]), what)
        if tag:
            ids = [int(v) for v in out.reshape(want, -1)[:, 0]]
            if k == "cluster":
                ctx.probe("per cluster")
                if ids != [j for j in range(cfg["M"]) for _ in range(c)]:
                    raise Violation("per-cluster-order", f"{what}: {c} rows per component came from components {ids}")
            for call in calls:
                if call[0] == "sample" and (call[2] or call[3] != args.get("class_index")):
                    raise Violation("arguments-lost", f"{what}: component was asked with is_mpe={call[2]} class_index={call[3]}, the caller asked for {args}")
        ctx.log(what, thash(out))
        ctx.mark((k, want))
    elif k == "mpe0":
        if cfg["comp"] == "convpc":
            return
        out = go(lambda: m.mpe())
        ctx.probe("explanation without evidence")
        W.need(out, (1, *full[1:]), what)
        best = [int(j) for j in torch.nonzero(m.mixture_weights >= m.mixture_weights.max() - 1e-7).flatten()]
        if tag:
            if int(out.flatten()[0]) not in best:
                raise Violation("explanation-component", f"{what}: component {int(out.flatten()[0])}, most probable are {best}")
        else:
            torch.manual_seed(0)
            if not any(W.close(sut(lambda: m.models[b].sample(num_samples=1, is_mpe=True), ctx), out, 1e-5, 1e-5) for b in best):
                raise Violation("explanation-component", f"{what}: not the explanation of the most probable component {best}")
        ctx.mark((k,))
    elif k in ("mpe1", "cond"):
        x = rows(cfg, op["s"], n, plan["spread"])
        scopes = None
        if op["nan"] == 0.0 and cfg["comp"] == "einet" and len(op["scopes"]) < ncfg["F"]:
            scopes = op["scopes"]
        else:
            mask = models.nan_mask(ncfg, op["s"] + 1, n, max(op["nan"], 0.3)).reshape(x.shape)
            x = x.clone()
            x[mask] = float("nan")
        hx = thash(x)
        with torch.no_grad():
            if k == "mpe1":
                out = go(lambda: m.mpe(evidence=x, marginalized_scopes=scopes))
                ctx.probe("explanation with evidence")
            else:
                out = go(lambda: m.sample(evidence=x, marginalized_scopes=scopes, **kw))
        W.need(out, x.shape, what)
        if thash(x) != hx:
            raise Violation("input-changed", what)
        if tag:
            for r in range(n):
                a, b = x[r].reshape(-1), out[r].reshape(-1)
                gap = torch.isnan(a)
                if scopes is not None:
                    gap = torch.zeros_like(gap)
                    gap.view(ncfg["C"], ncfg["F"])[:, scopes] = True
                if not torch.equal(a[~gap], b[~gap]):
                    raise Violation("rows-mixed", f"{what}: row {r} came back with another row's evidence")
                ids = {int(v) - 1000 for v in b[gap]}
                if len(ids) > 1 or any(not 0 <= v < cfg["M"] for v in ids):
                    raise Violation("rows-mixed", f"{what}: row {r} was completed by components {sorted(ids)}")
                if scopes is not None and ids:
                    keep = kept(ncfg, scopes)
                    near = nearest(m, x[r : r + 1], keep)[0]
                    if ids.pop() not in near:
                        raise Violation("wrong-component", f"{what}: row {r} completed by another component than its nearest {near}")
        elif k == "mpe1":
            # alone, the row gets the same explanation
            for r in range(min(n, 3)):
                if scopes is not None:
                    keep = kept(ncfg, scopes)
                    if len(nearest(m, x[r : r + 1], keep)[0]) != 1:
                        continue
                alone = sut(lambda: m.mpe(evidence=x[r : r + 1], marginalized_scopes=scopes), ctx)
                if not W.close(alone, out[r : r + 1], 1e-4, 1e-4):
                    raise Violation("rows-mixed", f"{what}: row {r} alone is explained as {alone.flatten().tolist()[:4]}, in the batch {out[r].flatten().tolist()[:4]}")
        ctx.mark((k, n, scopes is not None))
        ctx.log(what, W.describe([out]))
    elif k == "freq":
        if not tag:
            return
        ctx.probe("frequencies")
        w = m.mixture_weights.double()

        def worst(size, s):
            torch.manual_seed(s)
            ids = sut(lambda: m.sample(num_samples=size), ctx).reshape(size, -1)[:, 0].long()
            cnt = torch.bincount(ids, minlength=cfg["M"]).double()
            if cnt.numel() > cfg["M"] or (cnt[w == 0] > 0).any():
                raise Violation("frequencies", f"{what}: component without weight was drawn: {cnt.tolist()} for {w.tolist()}")
            sd = torch.sqrt(size * w * (1 - w)) + 1.0
            return float(((cnt - size * w).abs() / sd).max()), cnt

        # a few rows at a time: every position has the same chances
        def places(rounds, s):
            size = 1 + op["n"] % 3
            torch.manual_seed(s)
            ids = torch.stack([sut(lambda: m.sample(num_samples=size), ctx).reshape(size, -1)[:, 0].long() for _ in range(rounds)])
            worst_z = 0.0
            for k in range(size):
                cnt = torch.bincount(ids[:, k], minlength=cfg["M"]).double()
                worst_z = max(worst_z, float(((cnt - rounds * w).abs() / (torch.sqrt(rounds * w * (1 - w)) + 1.0)).max()))
            return worst_z

        ctx.probe("small draws")
        if places(60, op["rng"] + 2) > 5:
            z = places(900, op["rng"] + 3)
            if z > 6:
                raise Violation("frequencies", f"{what}: drawing {1 + op['n'] % 3} rows at a time, the components at one place are {z:.1f} deviations off the weights {w.tolist()}")
        z, _ = worst(600, op["rng"])
        if z > 5.5:
            z, cnt = worst(4000, op["rng"] + 1)
            if z > 6:
                raise Violation("frequencies", f"{what}: weights {w.tolist()}, drawn {cnt.tolist()}")
        ctx.mark((k,))


def simplify(plan):
    cfg = plan["model"]
    if cfg["M"] > 1:
        yield {**plan, "model": {**cfg, "M": cfg["M"] - 1}}
    for j, op in enumerate(plan["ops"]):
        if op["n"] > 1:
            ops = copy.deepcopy(plan["ops"])
            ops[j]["n"] = max(1, op["n"] // 2)
            yield {**plan, "ops": ops}
