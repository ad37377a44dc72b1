"""C17  Initialising a model from data depends on the data only, and survives every failure.

Three initialisers are driven: piecewise linear leaves, mixtures (k-means) and leaf statistics.  A
simulated data loader decides how the rows are split into batches and may fail while it is read; tensor
faults strike inside the initialiser.
"""
import copy

import torch

from .. import models, world as W
from ..core import Violation, thash
from ..faults import Failed, count_ops, gen_fault, sut, sut_faulty

ID = "C17"
N_QUICK = 1000
N_THOROUGH = 30000
RULE = "a run counts when two initialisations were compared or an initialised density was compared with the data"
REAL = ["PiecewiseLinear.initialize", "Mixture.initialize", "init_einet_stats", "Einet and Mixture queries after it"]
STUBS = ["fast_pytorch_kmeans (deterministic stand-in)", "data loader (a list of batches that may fail)"]
ASSUMPTIONS = [
    "the caller seeds torch before initialising when it wants the same result twice",
    "data have at least as many rows as clusters in most runs; fewer rows are only required to give finite answers",
    "models with a single leaf parameter in total are not initialised from statistics",
]
PROBES = ["loader failed", "initialiser failed", "retry equal", "partition", "continuous leaf", "discrete leaf", "smoothed", "empirical frequencies",
          "constant feature", "mixture", "statistics", "statistics mixture", "statistics bottom-up", "loader and tensor", "trained afterwards",
          "second initialisation", "foreign leaf", "duplicates"]
MIN_OPS = 0


class LoaderFailed(Exception):
    pass


class Loader:
    """What the initialiser sees: batches of (data, label); may fail when asked for the k-th."""

    def __init__(self, x, cuts, fail=None):
        self.parts = [p for p in torch.tensor_split(x, cuts) if p.shape[0] > 0]
        self.fail = fail

    def __len__(self):
        return len(self.parts)

    def __iter__(self):
        for k, p in enumerate(self.parts):
            if self.fail is not None and k >= min(self.fail, len(self.parts) - 1):
                raise LoaderFailed("disk read error (injected)")
            yield p.clone(), torch.zeros(p.shape[0], dtype=torch.long)


def gen(rng, i):
    what = rng.choice(["pwl", "pwl", "pwl", "mix", "stats", "stats", "stats"])
    if what == "pwl":
        cfg = {"kind": "einet", **models.gen_cfg(rng, leaves=("pwl",), max_f=4, max_w=3, classes=(1, 1, 2))}
    elif what == "mix":
        cfg = W.gen_subject(rng, kinds=("mixture",), max_f=5, max_w=2, leaves=("normal", "categorical", "binomial", "bernoulli"), channels=(1,))
        cfg["M"] = rng.randint(1, 5)
    else:
        cfg = {"kind": "einet", **models.gen_cfg(rng, leaves=("normal",) * 6 + ("ratnormal", "categorical"), max_f=6, max_w=3)}
        if rng.random() < 0.35:
            cfg = {**cfg, "kind": "mixture", "M": rng.randint(1, 3)}
    n = rng.choice([1, 2, 5, 9, 20, 40, 80])
    if rng.random() < 0.08:
        n = rng.choice([150, 300] if what == "pwl" else [150, 300, 1100, 2050])

    def partition():
        t = rng.random()
        if t < 0.1:
            return list(range(1, min(n, 130)))  # single rows, as a loader with batch size one
        if t < 0.3:
            b = rng.randint(1, max(1, n // 8))
            return list(range(b, n, b))
        return sorted({rng.randint(1, n) for _ in range(rng.randint(0, 5))})

    cuts, cuts2 = partition(), partition()
    return {"seed": rng.randrange(1 << 30), "what": what, "model": cfg, "n": n, "cuts": cuts, "cuts2": cuts2, "dseed": rng.randrange(1 << 30),
            "iseed": rng.randrange(1 << 20), "bseed": rng.randrange(1 << 30), "const": rng.random() < 0.25, "dup": rng.random() < 0.15,
            "offset": rng.choice([0.0, 0.0, 5.0, -40.0]), "scale": rng.choice([1.0, 1.0, 0.05, 20.0]),
            "lfail": rng.randrange(6) if rng.random() < 0.4 else None, "faults": [gen_fault(rng) for _ in range(rng.choice([0, 0, 1, 1, 2]))],
            "again": rng.random() < 0.4, "view": rng.choice(["plain", "plain", "strided", "reversed", "double"])}


def raw(plan):
    """The rows."""
    cfg = plan["model"]
    x = models.data(cfg, plan["dseed"], plan["n"], 3)
    if plan["what"] != "pwl":
        cont = torch.tensor([models.card(cfg, j) is None for j in range(cfg["F"])])
        x = torch.where(cont, x * plan["scale"] + plan["offset"], x)
    if plan["const"]:
        x[..., 0] = x[:1, :, 0]
    if plan["dup"]:
        x = x[:1].expand_as(x).clone()
    return x


def view(x, how):
    """The same numbers in another memory layout."""
    if how == "strided":
        big = torch.zeros(*x.shape[:-1], x.shape[-1] * 2)
        big[..., ::2] = x
        return big[..., ::2]
    if how == "reversed":
        return models.layout(x, 1)
    if how == "double":
        return torch.cat([x, x + 1])[: x.shape[0]]
    return x.clone()


def fresh(plan):
    cfg = plan["model"]
    torch.manual_seed(plan["bseed"])
    import numpy as np

    np.random.seed(plan["bseed"] % 2**32)
    if cfg.get("kind") == "mixture":
        from simple_einet.mixture import Mixture

        m = Mixture(n_components=cfg["M"], config=models.config(cfg))
        if plan["what"] == "stats":
            m.initialize(data=models.data(cfg, 3, 12, 3))
    else:
        from simple_einet.einet import Einet

        m = Einet(models.config(cfg))
    m.eval()
    return m


def leaf_of(m):
    return getattr(m.leaf, "base_leaf", m.leaf)


def initialise(plan, m, x, cuts=None, fail=None):
    """The call under test; the caller seeds it."""
    torch.manual_seed(plan["iseed"])
    what = plan["what"]
    if what == "pwl":
        leaf_of(m).initialize(x, models.domains(plan["model"]))
    elif what == "mix":
        if cuts is None:
            m.initialize(data=x)
        else:
            m.initialize(dataloader=Loader(x, cuts, fail))
    else:
        from simple_einet.sampling_utils import init_einet_stats

        init_einet_stats(m, Loader(x, cuts or [], fail))


def full(plan, m):
    """Everything a client can see of the model."""
    return W.state_hash(m)


def answers(plan, m, x, ctx):
    with torch.no_grad():
        return sut(lambda: m(x), ctx)


def same(a, b):
    """Two state dicts agree up to rounding; returns the first difference."""
    if list(a) != list(b):
        return f"keys {sorted(set(a) ^ set(b))}"
    for k in a:
        if isinstance(a[k], torch.Tensor):
            if not W.close(a[k].double(), b[k].double(), 1e-4, 1e-4):
                return k
        elif W.deep_hash(a[k]) != W.deep_hash(b[k]):
            return k
    return None


def state(m):
    return copy.deepcopy(dict(m.state_dict()))


def run(plan, ctx):
    cfg, what = plan["model"], plan["what"]
    x = raw(plan)
    n, f = x.shape[0], cfg["F"]
    xin = view(x, plan["view"])
    hx = thash(xin)
    loader = plan["cuts"] if what != "pwl" and (what == "stats" or plan["n"] % 2 == 0) else None

    # the reference: a fresh model, nothing goes wrong
    ref = sut(lambda: fresh(plan), ctx)
    names = [k for k, _ in ref.named_parameters()]
    before = state(ref)
    sut(lambda: initialise(plan, ref, x.clone(), loader), ctx)
    want = state(ref)
    if [k for k, _ in ref.named_parameters()] != names or any(not p.requires_grad and p.dtype.is_floating_point for _, p in ref.named_parameters()
                                                            if _ in names and before[_].requires_grad):
        raise Violation("parameters-changed", "the initialisation changed which parameters the model has")
    for k in before:
        if isinstance(before[k], torch.Tensor) and (before[k].shape != want[k].shape or before[k].dtype != want[k].dtype):
            raise Violation("parameters-changed", f"{k} was {tuple(before[k].shape)} {before[k].dtype}, is now {tuple(want[k].shape)} {want[k].dtype}")
    y = answers(plan, ref, x, ctx)
    W.need(y, (n, cfg["K"]), "log-likelihood after initialisation")
    if not torch.isfinite(y).all():
        raise Violation("not-finite", f"log-likelihood of the data after initialisation: {y.flatten().tolist()[:4]}")

    # the subject: loader failures, tensor faults, then a retry; other layout
    m = sut(lambda: fresh(plan), ctx)
    if plan["lfail"] is not None and loader is not None:
        h0, r0 = full(plan, m), None
        try:
            initialise(plan, m, xin, loader, plan["lfail"])
        except LoaderFailed:
            ctx.fault("loader")
            ctx.probe("loader failed")
            if full(plan, m) != h0:
                raise Violation("half-initialised", "reading the data failed, yet the model changed")
        except BaseException as e:
            raise Violation("loader-error-replaced", f"the loader's error came out as {type(e).__name__}: {e}")
        else:
            raise Violation("loader-error-swallowed", "the loader failed, the initialisation reported success")
    if plan["faults"]:
        length = count_ops(lambda: initialise(plan, fresh(plan), x.clone(), loader))
    for fl in plan["faults"]:
        h0 = full(plan, m)
        out = sut_faulty(lambda: initialise(plan, m, xin, loader), fl, length, ctx)
        if not isinstance(out, Failed):
            continue
        ctx.probe("initialiser failed")
        if what == "pwl":
            # all or nothing
            if full(plan, m) != h0:
                raise Violation("half-initialised", f"the initialisation failed with {out.kind}, yet the leaf changed")
            with torch.no_grad():
                try:
                    m(x)
                except ValueError:
                    pass
                except BaseException as e:
                    raise Violation("half-initialised", f"query after a failed initialisation: {type(e).__name__}: {str(e)[:200]}")
                else:
                    if leaf_of(m).is_initialized is False:
                        raise Violation("half-initialised", "an uninitialised leaf answered")
        elif what == "stats":
            z = answers(plan, m, x, ctx)
            W.need(z, (n, cfg["K"]), "log-likelihood after a failed initialisation")
            if not torch.isfinite(z).all():
                raise Violation("half-initialised", "log-likelihoods are not finite after a failed initialisation")
    sut(lambda: initialise(plan, m, xin, loader), ctx)
    if thash(xin) != hx:
        raise Violation("input-changed", "the initialisation changed the caller's data")
    got = state(m)
    bad = same(want, got)
    if bad:
        raise Violation("history", f"{what}: {bad} differs from an initialisation of a fresh model with the same data and seed ({len(plan['faults'])} faults, layout {plan['view']})")
    ctx.probe("retry equal")
    ctx.nontrivial = True

    # another partition
    if what != "pwl" and loader is not None:
        other = sut(lambda: fresh(plan), ctx)
        sut(lambda: initialise(plan, other, x.clone(), plan["cuts2"]), ctx)
        bad = same(want, state(other))
        if bad:
            raise Violation("partition", f"{what}: {bad} depends on how the {n} rows are split into batches ({plan['cuts']} or {plan['cuts2']})")
        ctx.probe("partition")
        if what == "mix":
            third = sut(lambda: fresh(plan), ctx)
            sut(lambda: initialise(plan, third, x.clone()), ctx)
            bad = same(want, state(third))
            if bad:
                raise Violation("partition", f"mix: {bad} differs between a data loader and the same data in one tensor")
            ctx.probe("loader and tensor")

    if plan["const"]:
        ctx.probe("constant feature")
    if plan["dup"]:
        ctx.probe("duplicates")
    {"pwl": check_pwl, "mix": check_mix, "stats": check_stats}[what](plan, m, x, before, ctx)

    if plan["again"]:
        # a second initialisation with other data forgets the first
        p2 = {**plan, "dseed": plan["dseed"] + 1}
        x2 = raw(p2)
        sut(lambda: initialise(plan, m, x2.clone(), loader), ctx)
        r2 = sut(lambda: fresh(plan), ctx)
        sut(lambda: initialise(plan, r2, x2.clone(), loader), ctx)
        bad = same(state(r2), state(m))
        if bad:
            raise Violation("history", f"{what}: {bad} remembers the first initialisation")
        ctx.probe("second initialisation")
    # usable: one training step reaches finite parameters
    if what != "pwl" and n >= 2:
        torch.manual_seed(5)
        xt = x if not plan["dup"] else x[:2]

        def step():
            m.zero_grad(set_to_none=True)
            (-m(xt).mean()).backward()
            return [p.grad for p in m.parameters() if p.grad is not None]

        gs = sut(step, ctx)
        if not gs or any(not torch.isfinite(g).all() for g in gs):
            raise Violation("not-trainable", f"{what}: gradients after initialisation: {len(gs)} parameters, finite: {all(bool(torch.isfinite(g).all()) for g in gs)}")
        ctx.probe("trained afterwards")
    ctx.mark((what, cfg["leaf"], cfg["structure"], n, len(plan["faults"]), plan["lfail"] is not None and loader is not None, plan["view"],
              plan["const"], plan["dup"]))
    ctx.log(what, W.describe([y]), W.deep_hash({k: v for k, v in want.items() if isinstance(v, torch.Tensor)}))


def check_mix(plan, m, x, before, ctx):
    cfg = plan["model"]
    ctx.probe("mixture")
    w = m.mixture_weights.double()
    if (w < 0).any() or abs(float(w.sum()) - 1) > 1e-5 or not torch.isfinite(m.centroids).all():
        raise Violation("weights", f"weights {w.tolist()}, centroids finite: {bool(torch.isfinite(m.centroids).all())}")
    # conservation: the weighted mean of the centroids is the mean of the data
    scale = float(cfg["count"]) if cfg["leaf"] == "binomial" else 1.0
    c = (m.centroids.double() * w[:, None]).sum(0) / scale
    mu = x.double().reshape(x.shape[0], -1).mean(0)
    tol = 0.02 * (1 + x.double().abs().max())
    # (only up to the clustering's own convergence)
    if plan["dup"] and not torch.allclose(c, mu, atol=float(tol)):
        raise Violation("centroids", f"weighted centroids {c.tolist()}, data mean {mu.tolist()}")
    for k in before:
        if k not in ("mixture_weights", "centroids") and W.deep_hash(before[k]) != W.deep_hash(m.state_dict()[k]):
            raise Violation("parameters-changed", f"initialising the mixture changed {k}")


def check_stats(plan, m, x, before, ctx):
    cfg = plan["model"]
    sd = m.state_dict()
    if cfg["leaf"] != "normal":
        ctx.probe("foreign leaf")
        for k in before:
            if W.deep_hash(before[k]) != W.deep_hash(sd[k]):
                raise Violation("parameters-changed", f"{k} changed although the leaves are not Normal")
        return
    ctx.probe("statistics mixture" if cfg["kind"] == "mixture" else "statistics")
    if cfg["structure"] == "bottom-up":
        ctx.probe("statistics bottom-up")
    einets = list(m.models) if cfg["kind"] == "mixture" else [m]
    mu = x.double().mean(0)  # [C, F]
    var = x.double().var(0, unbiased=False)
    sm = float(torch.std(mu.float().view(-1, 1).repeat(1, 50)))
    sv = float(torch.std(var.float().view(-1, 1).repeat(1, 50)))
    for e in einets:
        leaf = leaf_of(e)
        want = (1, cfg["C"], cfg["F"], cfg["I"], cfg["R"])
        means, logvar = leaf.means.detach().double(), leaf.logvar.detach().double()
        if tuple(means.shape)[-4:] != want[-4:] or tuple(logvar.shape)[-4:] != want[-4:]:
            raise Violation("wrong-shape", f"means {tuple(means.shape)} logvar {tuple(logvar.shape)}")
        means, logvar = means.reshape(want[1:]), logvar.reshape(want[1:])
        # every leaf sits near its own feature's mean (noise: a tenth of the spread between the features)
        off = (means - mu[:, :, None, None]).abs().max()
        lim = 0.1 * sm * 8 * 1.5 + 1e-4 * (1 + float(mu.abs().max()))
        if off > lim:
            j = int((means - mu[:, :, None, None]).abs().flatten().argmax())
            raise Violation("statistics", f"leaf mean {float(means.flatten()[j]):.4f} is {float(off):.4f} away from its feature's mean, noise allows {lim:.4f}; means {mu.tolist()}")
        v = logvar.exp()
        lo = var[:, :, None, None] + 1e-3 - 1e-3 * (1 + var.max() + mu.square().max() * 1e-3)
        hi = var[:, :, None, None] + 1e-3 + 0.1 * sv * 8 * 1.5 + 1e-3 * (1 + var.max() + mu.square().max() * 1e-3)
        if (v < lo - 1e-9).any() or (v > hi).any():
            raise Violation("statistics", f"leaf variances {v.flatten().tolist()[:6]} outside [{lo.flatten().tolist()[:6]}, {hi.flatten().tolist()[:6]}]")
        if cfg["I"] * cfg["R"] >= 2 and sm > 1e-3 and means.reshape(cfg["C"] * cfg["F"], -1).std(dim=1).max() == 0:
            raise Violation("statistics", "all leaves of a feature start with the same mean: training cannot tell them apart")
    if len(einets) > 1 and sm > 1e-3 and thash(leaf_of(einets[0]).means.detach()) == thash(leaf_of(einets[1]).means.detach()):
        raise Violation("statistics", "two components start with identical means")
    leafy = ("means", "logvar")
    for k in before:
        if not k.endswith(leafy) and W.deep_hash(before[k]) != W.deep_hash(sd[k]):
            raise Violation("parameters-changed", f"{k} changed although only leaf statistics were to be set")


def check_pwl(plan, m, x, before, ctx):
    """Leaf densities against the data they were built from."""
    cfg = plan["model"]
    leaf = leaf_of(m)
    n = x.shape[0]
    f, c = cfg["F"], cfg["C"]
    w = leaf.mixture_weights.double()
    W.need(leaf.mixture_weights, (cfg["R"], cfg["I"]), "leaf mixture weights")
    if (w < 0).any() or not torch.allclose(w.sum(1), torch.ones(cfg["R"], dtype=torch.float64), atol=1e-5):
        raise Violation("weights", f"cluster weights {w.tolist()}")

    def density(col, j, ch):
        """p(value) of every leaf of feature j, channel ch: [len(col), I, R]"""
        z = x[:1].expand(len(col), c, f).clone()
        z[:, ch, j] = col
        with torch.no_grad():
            out = sut(lambda: leaf(z, None), ctx)
        W.need(out, (len(col), c, f, cfg["I"], cfg["R"]), "leaf log-density")
        return out[:, ch, j].double().exp()

    for j in range(f):
        for ch in range(c):
            col = x[:, ch, j]
            if cfg["dom"][j] == "d":
                ctx.probe("discrete leaf")
                vals = torch.arange(cfg["bins"]).float()
                p = density(vals, j, ch)
                if not torch.allclose(p.sum(0), torch.ones_like(p[0]), atol=1e-4):
                    raise Violation("not-normalised", f"feature {j}: probabilities of the {cfg['bins']} values sum to {p.sum(0).tolist()}")
                if density(torch.tensor([-1.0, float(cfg["bins"])]), j, ch).max() > 1e-6:
                    raise Violation("support", f"feature {j}: positive probability outside the domain")
                emp = torch.stack([(col == v).double().mean() for v in vals])
                if cfg["alpha"] == 0.0:
                    for r in range(cfg["R"]):
                        got = (p[:, :, r] * w[r][None]).sum(1)
                        if not torch.allclose(got, emp, atol=1e-3):
                            raise Violation("empirical", f"feature {j}, repetition {r}: leaves weighted by their cluster sizes give {got.tolist()}, the data {emp.tolist()}")
                    ctx.probe("empirical frequencies")
                else:
                    ctx.probe("smoothed")
                    if (p <= 0).any():
                        raise Violation("smoothing", f"feature {j}: smoothing leaves a value without probability")
                    if cfg["I"] == 1:
                        a = cfg["alpha"]
                        exact = (emp * n + a) / (n + a * cfg["bins"])
                        if not torch.allclose(p[:, 0, 0], exact, atol=1e-3):
                            raise Violation("smoothing", f"feature {j}: {p[:, 0, 0].tolist()} for counts {(emp * n).tolist()} and alpha {a}")
            else:
                ctx.probe("continuous leaf")
                lo, hi = float(col.min()), float(col.max())
                span = max(hi - lo, 1e-2) if hi > lo else 1.0
                # fine between any two neighbouring data values, so that densities of clusters of close values are resolved
                knots = torch.cat([col, col - 0.5, col + 0.5, torch.tensor([0.0, 0.5, 1.0, lo - 0.75 * span - 0.6, hi + 0.75 * span + 0.6])]).double().unique()
                grid = torch.cat([torch.linspace(float(a), float(b), 40, dtype=torch.float64) for a, b in zip(knots, knots[1:])]).float().unique()
                p = density(grid, j, ch)
                mass = torch.trapezoid(p, grid.double()[:, None, None], dim=0)
                if (p < 0).any() or not torch.isfinite(p).all():
                    raise Violation("not-normalised", f"feature {j}: density not finite")
                if ((mass - 1).abs() > 0.06).any():
                    raise Violation("not-normalised", f"feature {j}: the densities integrate to {mass.tolist()}")
                if cfg["I"] == 1:
                    inside = (grid >= lo - 0.51) & (grid <= hi + 0.51) if hi == lo else (grid >= lo - 1e-3 * span) & (grid <= hi + 1e-3 * span)
                    if p[~inside].max() > 1e-6:
                        raise Violation("support", f"feature {j}: positive density outside the data range [{lo}, {hi}]")


def simplify(plan):
    yield from W.simplify_subject(plan)
    if plan["n"] > 2:
        k = plan["n"] // 2
        yield {**plan, "n": k, "cuts": [c for c in plan["cuts"] if c <= k], "cuts2": [c for c in plan["cuts2"] if c <= k]}
    for key in ("const", "dup", "again"):
        if plan[key]:
            yield {**plan, key: False}
    if plan["lfail"] is not None:
        yield {**plan, "lfail": None}
