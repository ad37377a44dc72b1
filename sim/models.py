"""Plans' model configurations -> real simple-einet models, plus data in their support."""
import math

import torch


DISCRETE = ("categorical", "binomial", "bernoulli")
CONT = ("normal", "ratnormal")


def gen_cfg(rng, leaves=("normal", "ratnormal", "categorical", "binomial", "bernoulli", "multi"), max_f=6, max_states=None,
            classes=(1, 1, 2, 3), channels=(1, 1, 1, 2), dropout=0.0, structures=("top-down", "top-down", "bottom-up"),
            layers=("linsum", "linsum2", "einsum"), reps=(1, 2, 3), min_depth=0, max_f_cont=None, max_w=4, big=0.1):
    leaf = rng.choice(list(leaves))
    structure = rng.choice(list(structures))
    if leaf == "mvn":
        structure = "top-down"
    layer = "linsum" if structure == "bottom-up" else rng.choice(list(layers))
    big = rng.random() < big
    f = rng.randint(max_f, 2 * max_f + 6) if big else rng.randint(2, max_f)
    c = rng.choice([1, 2, 3]) if big and max(channels) > 1 else rng.choice(list(channels))
    if big:
        reps = tuple(reps) + (4, 5)
        classes = tuple(classes) + ((4, 5) if max(classes) > 1 else ())
        max_w += 2
        max_f = max(f, max_f)
    if leaf == "mvn":
        mcard = rng.choice([2, 2, 3, 4])
        f = mcard * rng.randint(1, max(1, max_f // mcard))
    units = f // mcard if leaf == "mvn" else f
    dmax = int(math.floor(math.log2(max(units, 1))))
    dmin = 1 if structure == "bottom-up" else min_depth
    d = rng.randint(min(dmin, dmax), dmax)
    if structure == "bottom-up" and d == 0:
        structure = "top-down"
    cfg = {
        "leaf": leaf, "F": f, "C": c, "S": rng.randint(1, max_w), "I": rng.randint(1, max_w), "R": rng.choice(list(reps)),
        "K": rng.choice(list(classes)), "D": d, "layer": layer, "structure": structure, "dropout": dropout,
        "bins": rng.randint(2, 7 if big else 4), "count": rng.randint(1, 12 if big else 4), "perturb": rng.choice([0.0, 0.0, 1.0, 2.5]),
        "pseed": rng.randrange(1 << 30),
    }
    if leaf == "mvn":
        cfg["mcard"] = mcard
    if leaf == "multi":
        # every feature gets a family; at least two families
        fam = [rng.choice(["normal", "categorical", "binomial", "bernoulli", "ratnormal"]) for _ in range(f)]
        cfg["fam"] = fam
        perm = list(range(f))
        rng.shuffle(perm)
        cfg["perm"] = perm
    if leaf == "pwl":
        cfg["dom"] = [rng.choice("dc") for _ in range(f)]
        cfg["alpha"] = rng.choice([0.0, 0.0, 0.5])
    if max_states is not None:
        while n_states(cfg) > max_states:
            if cfg["C"] > 1:
                cfg["C"] = 1
            elif leaf == "categorical" and cfg["bins"] > 2:
                cfg["bins"] -= 1
            elif leaf == "binomial" and cfg["count"] > 1:
                cfg["count"] -= 1
            elif cfg["F"] > 2:
                cfg["F"] -= 1
                if leaf == "multi":
                    cfg["fam"] = cfg["fam"][: cfg["F"]]
                    cfg["perm"] = [p for p in cfg["perm"] if p < cfg["F"]]
                cfg["D"] = min(cfg["D"], int(math.floor(math.log2(cfg["F"]))))
            else:
                break
    return cfg


def family(cfg, j):
    return cfg["fam"][j] if cfg["leaf"] == "multi" else cfg["leaf"]


def card(cfg, j):
    """Number of values of feature j, or None when it is continuous."""
    fam = family(cfg, j)
    if fam == "pwl":
        return cfg["bins"] if cfg["dom"][j] == "d" else None
    return {"categorical": cfg["bins"], "binomial": cfg["count"] + 1, "bernoulli": 2}.get(fam)


def n_states(cfg):
    n = 1
    for j in range(cfg["F"]):
        k = card(cfg, j)
        n *= (k if k is not None else 1) ** cfg["C"]
    return n


def is_discrete(cfg):
    return all(card(cfg, j) is not None for j in range(cfg["F"]))


def _leaf(cfg, fam):
    from simple_einet.layers.distributions.bernoulli import Bernoulli
    from simple_einet.layers.distributions.binomial import Binomial
    from simple_einet.layers.distributions.categorical import Categorical
    from simple_einet.layers.distributions.multivariate_normal import MultivariateNormal
    from simple_einet.layers.distributions.normal import Normal, RatNormal

    return {
        "normal": (Normal, {}),
        # a third of the models restrict the means as well
        "ratnormal": (RatNormal, {"min_sigma": 0.2, "max_sigma": 1.5, **({"min_mean": -1.5, "max_mean": 2.0} if cfg.get("pseed", 1) % 3 == 0 else {})}),
        "categorical": (Categorical, {"num_bins": cfg["bins"]}),
        "binomial": (Binomial, {"total_count": cfg["count"]}),
        "bernoulli": (Bernoulli, {}),
        "mvn": (MultivariateNormal, {"cardinality": cfg.get("mcard", 2)}),
    }[fam]


def leaf_spec(cfg):
    if cfg["leaf"] == "pwl":
        from simple_einet.layers.distributions.piecewise_linear import PiecewiseLinear

        return PiecewiseLinear, {"alpha": cfg.get("alpha", 0.0)}
    if cfg["leaf"] != "multi":
        return _leaf(cfg, cfg["leaf"])
    from simple_einet.layers.distributions.multidistribution import MultiDistributionLayer

    groups = {}
    for j in cfg["perm"]:
        groups.setdefault(cfg["fam"][j], []).append(j)
    spec = []
    for fam in groups:
        cls, kw = _leaf(cfg, fam)
        spec.append((groups[fam], cls, kw))
    return MultiDistributionLayer, {"scopes_to_dist": spec}


def config(cfg):
    from simple_einet.einet import EinetConfig

    cls, kw = leaf_spec(cfg)
    return EinetConfig(
        num_features=cfg["F"], num_channels=cfg["C"], num_sums=cfg["S"], num_leaves=cfg["I"], num_repetitions=cfg["R"],
        num_classes=cfg["K"], depth=cfg["D"], dropout=float(cfg.get("dropout", 0.0)), leaf_type=cls, leaf_kwargs=kw,
        layer_type=cfg["layer"], structure=cfg["structure"],
    )


def tie(model, seed):
    """Give half of the choices of discrete leaves exactly equal chances."""
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for name, p in sorted(model.named_parameters()):
            if p.requires_grad and "leaf" in name and ("logits" in name or "probs" in name):
                p[torch.rand(p.shape, generator=g) < 0.5] = 0.0


def perturb(model, scale, seed, sharp=1.0, spread=1.0, sat=1.0):
    """Move every trainable parameter away from its initial value (stands for earlier training).

    sharp makes choices of sum nodes more decided, spread pulls the means of leaves apart, sat saturates discrete leaves.
    """
    if scale <= 0:
        return
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for name, p in sorted(model.named_parameters()):
            if p.requires_grad and p.dtype.is_floating_point:
                k = 0.4 * spread if "means" in name else 0.4 if "logvar" in name else sharp if "leaf" not in name else sat if "logits" in name or "probs" in name else 1.0
                p.add_(torch.randn(p.shape, generator=g) * scale * k)


def build(cfg, seed=None, bare=False):
    from simple_einet.einet import Einet

    import numpy as np

    if seed is not None:
        torch.manual_seed(seed)
        np.random.seed(seed % 2**32)
    m = Einet(config(cfg))
    if cfg["leaf"] == "pwl" and not bare:
        init_pwl(m, cfg)
    perturb(m, cfg.get("perturb", 0.0), cfg["pseed"], cfg.get("sharp", 1.0), cfg.get("spread", 1.0), cfg.get("sat", 1.0))
    if cfg.get("tie"):
        tie(m, cfg["pseed"] + 5)
    m.eval()
    return m


def domains(cfg):
    from simple_einet.dist import DataType, Domain

    out = []
    for j in range(cfg["F"]):
        if cfg["dom"][j] == "d":
            out.append(Domain(values=[float(v) for v in range(cfg["bins"])], data_type=DataType.DISCRETE))
        else:
            out.append(Domain(min=-8.0, max=8.0, data_type=DataType.CONTINUOUS))
    return out


N_PWL = 60


def init_pwl(m, cfg, n=N_PWL):
    leaf = getattr(m.leaf, "base_leaf", m.leaf)
    leaf.initialize(data(cfg, cfg["pseed"] + 7, n), domains(cfg))


def data(cfg, seed, n, shape=3):
    """n rows in the support, [n, C, F] (or [n, F] / [n, C, H, W] renderings via `shape`)."""
    g = torch.Generator().manual_seed(seed)
    cols = []
    for j in range(cfg["F"]):
        k = card(cfg, j)
        if k is None:
            cols.append(torch.randn(n, cfg["C"], generator=g) * 1.3)
        else:
            cols.append(torch.randint(0, k, (n, cfg["C"]), generator=g).float())
    return render(cfg, torch.stack(cols, dim=-1), shape)


def render(cfg, x, shape):
    n = x.shape[0]
    if shape == 2 and cfg["C"] == 1:
        return x.reshape(n, cfg["F"])
    if shape == 4:
        h = 2 if cfg["F"] % 2 == 0 else 1
        return x.reshape(n, cfg["C"], h, cfg["F"] // h)
    return x


def layout(x, kind):
    """The same values in other memory: dimensions stored in reverse, every second number, inside a larger buffer."""
    if kind == 1:
        d = tuple(range(x.dim()))[::-1]
        return x.permute(d).contiguous().permute(d)
    if kind == 2:
        return torch.stack([x, x], dim=-1)[..., 0]
    if kind == 3:
        big = torch.zeros(*x.shape[:-1], x.shape[-1] + 3)
        big[..., 2:-1] = x
        return big[..., 2:-1]
    if kind == 4 and x.dim() == 4:
        return x.contiguous(memory_format=torch.channels_last)
    return x


def nan_mask(cfg, seed, n, frac):
    """Which entries are missing; [n, C, F]."""
    g = torch.Generator().manual_seed(seed)
    return torch.rand(n, cfg["C"], cfg["F"], generator=g) < frac


def all_states(cfg):
    """Every complete row of a discrete model, [n_states, C, F]."""
    axes = []
    for c in range(cfg["C"]):
        for j in range(cfg["F"]):
            axes.append(torch.arange(card(cfg, j)).float())
    grid = torch.cartesian_prod(*axes) if len(axes) > 1 else axes[0][:, None]
    return grid.reshape(-1, cfg["C"], cfg["F"])


def in_support(cfg, x):
    """Boolean: every entry of [n, C, F] is a possible value."""
    for j in range(cfg["F"]):
        col = x[:, :, j]
        k = card(cfg, j)
        if not torch.isfinite(col).all():
            return False
        if k is not None and not ((col == col.round()) & (col >= 0) & (col <= k - 1)).all():
            return False
    return True


def shrink_cfg(cfg):
    """Smaller configurations to try while minimising."""
    out = []
    for key, lo in (("R", 1), ("S", 1), ("I", 1), ("K", 1), ("C", 1), ("bins", 2), ("count", 1)):
        if cfg.get(key, lo) > lo:
            out.append({**cfg, key: lo})
            if cfg[key] - 1 > lo:
                out.append({**cfg, key: cfg[key] - 1})
    for key in ("sharp", "spread", "sat"):
        if cfg.get(key, 1.0) != 1.0:
            out.append({**cfg, key: 1.0})
    if cfg.get("perturb"):
        out.append({**cfg, "perturb": 0.0})
    if cfg["leaf"] != "multi" and cfg["F"] > 2 and cfg["leaf"] != "mvn":
        f = cfg["F"] - 1
        out.append({**cfg, "F": f, "D": min(cfg["D"], int(math.floor(math.log2(f))))})
    if cfg["structure"] == "top-down" and cfg["D"] > 0:
        out.append({**cfg, "D": cfg["D"] - 1})
    return out


def simplify_model(plan):
    for c in shrink_cfg(plan["model"]):
        yield {**plan, "model": c}
