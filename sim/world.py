"""Subjects (Einet, ConvPc, Mixture) and the operations a simulated client issues against them.

A plan stores operations as small JSON objects; tensors are rebuilt from the seeds in them.
"""
import copy
import io

import torch

from . import models
from .core import ON_RESET, SutError, Violation, thash
from .faults import Failed, count_ops, gen_fault, sut, sut_faulty

NAN = float("nan")


# ---------------------------------------------------------------- subjects


def gen_subject(rng, kinds=("einet",) * 6 + ("convpc", "mixture"), **kw):
    kind = rng.choice(list(kinds))
    if kind == "einet":
        return {"kind": "einet", **models.gen_cfg(rng, **kw)}
    if kind == "convpc":
        return {
            "kind": "convpc", "leaf": rng.choice(["normal", "categorical"]), "C": rng.choice([1, 1, 2]), "H": rng.choice([2, 4]),
            "ch": [rng.randint(1, 3), rng.randint(1, 3)], "structure": rng.choice(["bottom-up", "top-down"]),
            "order": rng.choice(["sum-prod", "prod-sum"]), "bins": rng.randint(2, 3), "count": 1, "perturb": rng.choice([0.0, 1.5]),
            "pseed": rng.randrange(1 << 30), "K": 1, "dropout": 0.0, "R": 1,
        }
    base = models.gen_cfg(rng, **{**kw, "leaves": tuple(x for x in kw.get("leaves", ("normal", "categorical", "binomial")) if x in
                                                    ("normal", "categorical", "binomial", "bernoulli")) or ("normal",)})
    return {"kind": "mixture", "M": rng.randint(1, 4), **base}


def fix_convpc(cfg):
    c = dict(cfg)
    c["H"] = 4 if c["structure"] == "top-down" else c["H"]
    c["F"] = c["H"] * c["H"]
    return c


def norm_cfg(cfg):
    return fix_convpc(cfg) if cfg.get("kind") == "convpc" else cfg


def build(cfg, seed, bare=False):
    """A real model in eval mode; parameters perturbed as earlier training would.

    bare: as constructed, without any initialisation from data.
    """
    import numpy as np

    cfg = norm_cfg(cfg)
    kind = cfg.get("kind", "einet")
    if kind == "einet":
        return models.build(cfg, seed, bare)
    torch.manual_seed(seed)
    np.random.seed(seed % 2**32)
    if kind == "convpc":
        from simple_einet.conv_pc import ConvPc, ConvPcConfig
        from simple_einet.data import Shape

        cls, kw = models.leaf_spec(cfg)
        m = ConvPc(
            ConvPcConfig(channels=list(cfg["ch"]), kernel_size=2, num_channels=cfg["C"], leaf_type=cls, leaf_kwargs=kw,
                         structure=cfg["structure"], order=cfg["order"]),
            Shape(channels=cfg["C"], height=cfg["H"], width=cfg["H"]),
        )
    else:
        from simple_einet.mixture import Mixture

        m = Mixture(n_components=cfg["M"], config=models.config(cfg))
        if not bare:
            m.initialize(data=models.data(cfg, cfg["pseed"] + 1, 24))
    models.perturb(m, cfg.get("perturb", 0.0), cfg["pseed"])
    m.eval()
    return m


def data(cfg, seed, n, shape=3):
    cfg = norm_cfg(cfg)
    if cfg.get("kind") == "convpc":
        return models.data(cfg, seed, n, 3).reshape(n, cfg["C"], cfg["H"], cfg["H"])
    return models.data(cfg, seed, n, shape)


def canon(cfg, x):
    """[n, C, F] view of any rendering."""
    cfg = norm_cfg(cfg)
    return x.reshape(x.shape[0], cfg["C"], cfg["F"])


def evidence(cfg, seed, n, frac, shape=3, per_feature=False):
    """Rows with missing entries (NaN)."""
    c = norm_cfg(cfg)
    x = models.data(c, seed, n, 3)
    mask = models.nan_mask(c, seed + 1, n, frac)
    if per_feature:
        mask = mask[:1].expand_as(mask)
    x[mask] = NAN
    if c.get("kind") == "convpc":
        return x.reshape(n, c["C"], c["H"], c["H"])
    return models.render(c, x, shape)


# ---------------------------------------------------------------- operations


QUERY = ("forward", "sample", "cond", "mpe", "posterior", "grad")


def gen_op(rng, cfg, kinds=("forward", "forward", "sample", "cond", "cond", "mpe", "posterior", "grad"), allow_diff=True, max_n=4):
    """One client operation; every field a plain number."""
    kind = cfg.get("kind", "einet")
    mvn = cfg["leaf"] == "mvn"
    k = rng.choice(list(kinds))
    if k == "posterior" and (kind != "einet" or cfg["K"] == 1):
        k = "forward"
    if mvn and k in ("cond", "mpe"):
        k = "sample"
    op = {"op": k, "s": rng.randrange(1 << 30), "rng": rng.randrange(1 << 30), "n": rng.randint(1, max_n) if rng.random() < 0.95 else rng.choice([17, 40, 70, 130, 300, 1100])}
    if kind != "convpc":
        op["shape"] = rng.choice([2, 3, 3, 4])
        if kind == "mixture":
            op["shape"] = 3
    if k in ("forward", "grad"):
        if not mvn and kind == "einet" and rng.random() < 0.3:
            op["marg"] = rng.sample(range(cfg["F"]), rng.randint(1, cfg["F"]))
        elif not mvn and kind == "einet" and rng.random() < 0.3:
            op["nan"] = round(rng.random(), 2)
        if k == "forward":
            op["nograd"] = rng.random() < 0.7
    elif k == "sample":
        if kind == "einet" and cfg["K"] > 1:
            t = rng.random()
            if t < 0.3:
                op["cls"] = rng.randrange(cfg["K"])
            elif t < 0.6:
                op["cls"] = [rng.randrange(cfg["K"]) for _ in range(op["n"])]
    if k in ("sample", "cond", "mpe"):
        if rng.random() < 0.5:
            op["seed"] = rng.randrange(1 << 20)
        if kind == "einet" and allow_diff and rng.random() < 0.2:
            op["diff"] = True
    if k in ("sample", "cond"):
        if rng.random() < 0.15:
            op["mpe_leaves"] = True
        if rng.random() < 0.15:
            op["t_sums"] = rng.choice([0.5, 2.0])
        if k == "cond" and rng.random() < 0.25:
            op["is_mpe"] = True
    if k in ("cond", "mpe"):
        op["nan"] = rng.choice([0.2, 0.5, 0.8, 1.0])
        if kind == "mixture":
            op["nan"] = 0.5
        if kind == "einet" and rng.random() < 0.2:
            op["marg"] = sorted(rng.sample(range(cfg["F"]), rng.randint(1, cfg["F"])))
    return op


def inputs(cfg, op):
    """The tensor argument of an operation (fresh on every call)."""
    x = _inputs(cfg, op)
    return x if x is None else models.layout(x, op["s"] % 9)


def _inputs(cfg, op):
    shape = op.get("shape", 3)
    if op["op"] in ("cond", "mpe"):
        if op.get("marg"):
            return data(cfg, op["s"], op["n"], shape)
        return evidence(cfg, op["s"], op["n"], op["nan"], shape)
    if op["op"] in ("forward", "grad"):
        if op.get("nan") and not op.get("marg"):
            return evidence(cfg, op["s"], op["n"], op["nan"], shape)
        return data(cfg, op["s"], op["n"], shape)
    if op["op"] == "posterior":
        return data(cfg, op["s"], op["n"], shape)
    return None


STAGE = {"on": True}


def _fresh_stage():
    STAGE.clear()
    STAGE["on"] = True


ON_RESET.append(_fresh_stage)


def staged(x, salt):
    """The tensor in a buffer the caller fills again and again: the same object, other contents."""
    key = (salt, tuple(x.shape), x.dtype)
    if key not in STAGE:
        STAGE[key] = torch.empty(x.shape, dtype=x.dtype)
    with torch.no_grad():
        STAGE[key].copy_(x)
    return STAGE[key]


def call(model, cfg, op, x):
    """Issue the operation; returns a list of tensors."""
    if x is not None and STAGE["on"] and x.is_contiguous() and op["op"] in ("cond", "mpe") and op.get("s", 1) % 2 == 0 and not op.get("diff"):
        b = staged(x, "call")
        out = call_plain(model, cfg, op, b)
        if thash(b) != thash(x):
            raise Violation("input-changed", f"{op['op']} changed the caller's tensor")
        return [t.clone() if isinstance(t, torch.Tensor) and not t.requires_grad else t for t in out]
    return call_plain(model, cfg, op, x)


def call_plain(model, cfg, op, x):
    kind = cfg.get("kind", "einet")
    k = op["op"]
    if k == "forward":
        with torch.set_grad_enabled(not op.get("nograd", False)):
            if op.get("cache") is not None:
                return [model(x, cache_index=op["cache"])]
            if op.get("marg"):
                return [model(x, scopes(op))]
            return [model(x)]
    if k == "grad":
        model.zero_grad(set_to_none=True)
        ll = model(x, scopes(op)) if op.get("marg") else model(x)
        ll.mean().backward()
        out = [ll.detach()] + [p.grad for _, p in sorted(model.named_parameters())]
        return [None if t is None else t.clone() for t in out]
    if k == "posterior":
        return [model.posterior(x)]
    kw = {}
    if op.get("seed") is not None:
        kw["seed"] = op["seed"]
    if op.get("diff"):
        kw["is_differentiable"] = True
    if op.get("mpe_leaves"):
        kw["mpe_at_leaves"] = True
    if op.get("t_sums"):
        kw["temperature_sums"] = op["t_sums"]
    if op.get("is_mpe"):
        kw["is_mpe"] = True
    if op.get("params"):
        kw["return_leaf_params"] = True
    if k == "sample":
        if op.get("cls") is not None:
            kw["class_index"] = op["cls"]
            if isinstance(op["cls"], int):
                kw["num_samples"] = op["n"]
        else:
            kw["num_samples"] = op["n"]
        return [model.sample(**kw)]
    if op.get("marg"):
        kw["marginalized_scopes"] = scopes(op)
    if k == "mpe":
        kw.pop("seed", None)
        if kind == "convpc":
            return [model.sample(evidence=x, is_mpe=True, **kw)]
        return [model.mpe(evidence=x, **kw)]
    return [model.sample(evidence=x, **kw)]


def scopes(op):
    """The marginalised scopes of an operation in one of the containers callers use."""
    how = op.get("s", 0) % 4
    return torch.tensor(op["marg"]) if how == 0 else tuple(op["marg"]) if how == 1 else list(op["marg"])


def sgd(model, cfg, op):
    """One plain gradient step (stands for training); returns nothing."""
    model.zero_grad(set_to_none=True)
    x = data(cfg, op["s"], max(2, op["n"]), 3)
    loss = -model(x).mean()
    loss.backward()
    with torch.no_grad():
        for _, p in sorted(model.named_parameters()):
            if p.grad is not None and p.requires_grad:
                p.sub_(0.1 * torch.nan_to_num(p.grad).clamp(-1, 1))
    model.zero_grad(set_to_none=True)


BAD = ("features", "channels", "class", "conflict", "support", "scope", "dtype", "rank", "dead")


def gen_bad(rng, cfg):
    return {"op": "bad", "bad": rng.choice(BAD), "s": rng.randrange(1 << 30), "rng": rng.randrange(1 << 30), "n": rng.randint(1, 4),
            "seed": rng.randrange(1 << 20) if rng.random() < 0.6 else None}


def call_bad(model, cfg, op):
    """A call with an argument a careless client might pass; most of them raise somewhere inside."""
    b = op["bad"]
    kw = {"seed": op["seed"]} if op.get("seed") is not None else {}
    x = evidence(cfg, op["s"], op["n"], 0.5)
    if b == "features":
        return [model.sample(evidence=x[..., :-1].contiguous(), **kw)]
    if b == "channels":
        return [model.sample(evidence=torch.cat([x, x], dim=1), **kw)]
    if b == "class":
        return [model.sample(num_samples=op["n"], class_index=cfg["K"] + 3, **kw)]
    if b == "conflict":
        return [model.sample(num_samples=op["n"], evidence=x, **kw)]
    if b == "support":
        y = x.clone()
        y[torch.isnan(y)] = 0.0
        y.view(-1)[0] = 1e6
        y.view(-1)[-1] = NAN
        return [model.sample(evidence=y, **kw)]
    if b == "scope":
        return [model.sample(evidence=x, marginalized_scopes=[norm_cfg(cfg)["F"] + 5], **kw)]
    if b == "dtype":
        return [model.sample(evidence="not a tensor", **kw)] if op["s"] % 2 else [model(x.bool().long().tolist())]
    if b == "rank":
        return [model.sample(evidence=x.reshape(-1), **kw)]
    return [model.sample(num_samples=op["n"], temperature_sums="hot", **kw)]


# ---------------------------------------------------------------- comparisons


def grads_flags(outs):
    return [None if t is None else bool(t.requires_grad) for t in outs]


def check_tensor(t, what):
    if not isinstance(t, torch.Tensor):
        raise Violation("wrong-result-type", f"{what}: expected a tensor, got {type(t).__name__}")
    return t


def identical(a, b):
    return len(a) == len(b) and all(thash(x) == thash(y) for x, y in zip(a, b))


def describe(outs):
    return [None if t is None else (tuple(t.shape), round(float(torch.nan_to_num(t.detach().double()).sum()), 6)) for t in outs]


def close(a, b, rtol=1e-4, atol=1e-5):
    """Same shape and equal up to float rounding; -inf matches -inf, NaN matches nothing but NaN."""
    if a.shape != b.shape:
        return False
    return torch.allclose(a.detach().double(), b.detach().double(), rtol=rtol, atol=atol, equal_nan=True)


def deep_hash(v):
    if isinstance(v, torch.Tensor):
        return thash(v)
    if isinstance(v, dict):
        return thash(repr([(repr(k), deep_hash(v[k])) for k in sorted(v, key=repr)]))
    if isinstance(v, (list, tuple)):
        return thash(repr([deep_hash(x) for x in v]))
    return thash(repr(v))


def state_hash(model):
    """Parameters, buffers and flags a client can observe."""
    sd = model.state_dict()
    parts = []
    for k in sorted(sd):
        v = sd[k]
        parts.append((k, deep_hash(v)))
    flags = tuple((n, m.training) for n, m in model.named_modules())
    rg = tuple((n, p.requires_grad) for n, p in model.named_parameters())
    return thash(repr(parts), repr(flags), repr(rg))


def rng_state():
    import random

    import numpy as np

    st = np.random.get_state()
    return thash(torch.get_rng_state(), repr(hash(random.getstate())), repr((st[0], st[1].tobytes(), st[2])))


def save_load(model, cfg, seed):
    """What a restart does: state through bytes into a freshly constructed model."""
    buf = io.BytesIO()
    torch.save(model.state_dict(), buf)
    buf.seek(0)
    fresh = build(cfg, seed, bare=bool(seed % 2))
    fresh.load_state_dict(torch.load(buf))
    fresh.train(model.training)
    return fresh


def op_len(scratch, cfg, op, x):
    """Length of an operation in tensor operations, measured on a model nobody looks at."""
    torch.manual_seed(op["rng"])
    y = None if x is None else x.clone()
    return count_ops(lambda: call_bad(scratch, cfg, op) if op["op"] == "bad" else call(scratch, cfg, op, y))


def simplify_subject(plan):
    cfg = plan["model"]
    kind = cfg.get("kind", "einet")
    if kind == "einet":
        for c in models.shrink_cfg(cfg):
            yield {**plan, "model": {"kind": "einet", **c}}
    elif kind == "mixture":
        if cfg["M"] > 1:
            yield {**plan, "model": {**cfg, "M": cfg["M"] - 1}}
        for c in models.shrink_cfg(cfg):
            yield {**plan, "model": {"kind": "mixture", "M": cfg["M"], **c}}


# ---------------------------------------------------------------- histories


def gen_history(rng, cfg, n=4, p_fault=0.4, train=True, restart=True, **kw):
    """What a client did with the model before the property is checked."""
    ops = []
    for _ in range(rng.randint(0, n)):
        t = rng.random()
        if t < 0.12:
            ops.append(gen_bad(rng, cfg))
        elif t < 0.30 and train:
            ops.append({"op": "sgd", "s": rng.randrange(1 << 30), "rng": rng.randrange(1 << 30), "n": rng.randint(2, 4)})
        elif t < 0.38 and restart:
            ops.append({"op": "restart", "s": rng.randrange(1 << 30)})
        elif t < 0.45:
            ops.append({"op": "noise", "s": rng.randrange(1 << 30)})
        elif t < 0.5:
            ops.append({"op": "flip"})
        else:
            op = gen_op(rng, cfg, **kw)
            if rng.random() < p_fault:
                op["fault"] = gen_fault(rng)
            ops.append(op)
    return ops


def noise(seed):
    """Other code in the process draws from every ambient generator."""
    import random

    import numpy as np

    random.seed(seed)
    random.random()
    np.random.seed(seed % 2**32)
    np.random.rand(3)
    torch.manual_seed(seed)
    torch.rand(5)


def play(model, cfg, ops, ctx):
    """Execute a history; returns the model (a restart replaces it)."""
    for i, op in enumerate(ops):
        k = op["op"]
        if k == "noise":
            noise(op["s"])
        elif k == "flip":
            model.train()
            model.eval()
        elif k == "restart":
            training = model.training
            model = sut(lambda: save_load(model, cfg, op["s"]), ctx)
            model.train(training)
            ctx.fault("restart")
        elif k == "sgd":
            torch.manual_seed(op["rng"])
            sut(lambda: sgd(model, cfg, op), ctx)
            for e in [model] + list(getattr(model, "models", [])):
                if hasattr(e, "reset_cache"):
                    e.reset_cache()
        elif k == "bad":
            torch.manual_seed(op["rng"])
            try:
                call_bad(model, cfg, op)
            except BaseException:
                ctx.fault("bad-argument")
        else:
            x = inputs(cfg, op)
            torch.manual_seed(op["rng"])
            if op.get("fault"):
                # position relative to a nominal length: no dry run, so the history itself stays undisturbed
                out = sut_faulty(lambda: call(model, cfg, op, x), op["fault"], op.get("len", 60), ctx)
            else:
                out = sut(lambda: call(model, cfg, op, x), ctx)
            if k == "grad":
                model.zero_grad(set_to_none=True)
            ctx.log("h", i, k, repr(out) if isinstance(out, Failed) else describe(out))
        ctx.mark(("h", k, op.get("bad"), bool(op.get("fault"))))
    torch.set_grad_enabled(True)
    return model


def need(t, shape, what):
    """The result is a tensor of this shape, else the property is violated."""
    check_tensor(t, what)
    if tuple(t.shape) != tuple(shape):
        raise Violation("wrong-shape", f"{what}: shape {tuple(t.shape)}, expected {tuple(shape)}")
    return t


def ll(model, cfg, x, marg=None, ctx=None, what="log-likelihood", grad=False):
    """Log-likelihoods [n, K] as float64."""
    k = cfg.get("K", 1)
    if STAGE["on"] and not grad and x.is_contiguous() and not x.requires_grad and x.shape[0] <= 3000:
        x = staged(x, "ll")

    def f():
        with torch.set_grad_enabled(grad):
            return model(x) if marg is None else model(x, marg)

    out = sut(f, ctx)
    shape = (x.shape[0],) if cfg.get("kind") == "convpc" else (x.shape[0], k)
    return need(out, shape, what).detach().double().reshape(x.shape[0], -1)


def simplify_history(plan, key="history"):
    for j in range(len(plan.get(key, []))):
        yield {**plan, key: plan[key][:j] + plan[key][j + 1 :]}


__all__ = [n for n in dir() if not n.startswith("_")]
