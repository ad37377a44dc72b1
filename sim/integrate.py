"""Sum or integrate a model's density over one entry of a row, through the public forward call."""
import torch

from . import models, world as W

NAN = float("nan")
GRID = torch.linspace(-90.0, 90.0, 9001)


def axis(cfg, j):
    """Values of feature j and their log-weights (counting measure or trapezoid rule)."""
    k = models.card(cfg, j)
    if k is not None:
        return torch.arange(k).float(), torch.zeros(k, dtype=torch.float64)
    h = float(GRID[1] - GRID[0])
    return GRID, torch.full((GRID.numel(),), h, dtype=torch.float64).log()


def over(model, cfg, row, c, j, ctx, what):
    """log of the integral over entry (c, j) of the row's density, per class: [K]."""
    if cfg["leaf"] == "pwl" and models.card(cfg, j) is None:
        return over_pieces(model, cfg, row, c, j, ctx, what)
    v, w = axis(cfg, j)
    return torch.logsumexp(along(model, cfg, row, c, j, v, ctx, what) + w[:, None], dim=0)


def along(model, cfg, row, c, j, v, ctx, what):
    """Log density of the row with its entry (c, j) set to each of the values: [len(v), K]."""
    x = row[None].repeat(v.numel(), 1, 1)
    x[:, c, j] = v
    return W.ll(model, cfg, shaped(cfg, x), ctx=ctx, what=what)


def over_pieces(model, cfg, row, c, j, ctx, what, rounds=12):
    """The same for a mixture of piecewise linear functions, some of which may be very narrow: start from
    a coarse grid and the training values (the functions live around them) and halve every cell on which
    the density is not a straight line yet."""
    seen = models.data(cfg, cfg["pseed"] + 7, models.N_PWL)[:, c, j]
    v = torch.cat([torch.linspace(-12.0, 12.0, 601), seen, seen - 1e-3, seen + 1e-3]).unique()
    v = torch.cat([v, (v[1:] + v[:-1]) / 2]).unique()
    f = along(model, cfg, row, c, j, v, ctx, what)
    top = f.max()
    for _ in range(rounds):
        d = (f - top).exp()
        h = (v[1:] - v[:-1]).double()
        # an even cell structure is not needed: compare each node with the line through its neighbours
        t = (h[:-1] / (h[:-1] + h[1:]))[:, None]
        off = (d[1:-1] - (d[:-2] * (1 - t) + d[2:] * t)).abs().max(dim=1).values * (h[:-1] + h[1:])
        total = (0.5 * (d[1:] + d[:-1]) * h[:, None]).sum(dim=0).max()
        bad = torch.nonzero(off > 1e-6 * total).flatten()
        if not bad.numel() or v.numel() > 20000:
            break
        new = torch.cat([(v[bad] + v[bad + 1]) / 2, (v[bad + 1] + v[bad + 2]) / 2]).unique()
        new = new[~torch.isin(new, v)]
        if not new.numel():
            break
        fn = along(model, cfg, row, c, j, new, ctx, what)
        v, o = torch.cat([v, new]).sort()
        f = torch.cat([f, fn])[o]
        top = f.max()
    d = (f - top).exp()
    h = (v[1:] - v[:-1]).double()
    return top + (0.5 * (d[1:] + d[:-1]) * h[:, None]).sum(dim=0).log()


def shaped(cfg, x, shape=3):
    if cfg.get("kind") == "convpc":
        return x.reshape(x.shape[0], cfg["C"], cfg["H"], cfg["H"])
    return models.render(cfg, x, shape)
