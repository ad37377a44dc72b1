"""Exact conditional CDFs from the public log-likelihood, and two-stage uniformity tests.

A sample value is turned into its probability integral transform u = F(value | everything conditioned
on), computed from the model's own density (randomised inside the atoms of discrete entries).  If the
sampler follows the density, u is uniform and independent across rows and entries.
"""
import math

import torch
from scipy.stats import chi2 as _chi2

from . import integrate as I, models, world as W

GRID = torch.linspace(-40.0, 40.0, 1601)
CHUNK = 40000


def density(m, cfg, x, cls, ctx):
    """log p(x) [n] under the class mixture (cls None) or one class; NaN marginalises."""
    if cfg.get("kind") == "mixture":
        w = m.mixture_weights.double().log()
        parts = [W.ll(c, {**cfg, "kind": "einet"}, x, ctx=ctx) for c in m.models]
        parts = [torch.logsumexp(p, dim=1) - math.log(p.shape[1]) if cls is None else p[:, cls] for p in parts]
        return torch.logsumexp(torch.stack(parts, dim=1) + w, dim=1)
    out = W.ll(m, cfg, I.shaped(cfg, x), ctx=ctx)
    return torch.logsumexp(out, dim=1) - math.log(out.shape[1]) if cls is None else out[:, cls]


def pit(m, cfg, base, entry, value, cls, v, ctx):
    """u for each row: base [n, C, F] with NaN where nothing is known, entry (c, j), value [n], v [n] in (0,1)."""
    c, j = entry
    n = base.shape[0]
    k = models.card(cfg, j)
    grid = torch.arange(k).float() if k is not None else GRID
    g = grid.numel()
    out = torch.empty(n, dtype=torch.float64)
    # identical base rows share one curve
    key = {}
    for i in range(n):
        key.setdefault(base[i].numpy().tobytes(), []).append(i)
    groups = list(key.values())
    per = max(1, CHUNK // g)
    for lo in range(0, len(groups), per):
        part = groups[lo : lo + per]
        x = torch.cat([base[ix[0]][None].repeat(g, 1, 1) for ix in part])
        x[:, c, j] = grid.repeat(len(part))
        lp = density(m, cfg, x, cls, ctx).reshape(len(part), g)
        p = torch.exp(lp - lp.max(dim=1, keepdim=True).values)
        for q, ix in enumerate(part):
            val = value[ix].double()
            if k is not None:
                pq = p[q] / p[q].sum()
                cum = torch.cumsum(pq, 0)
                b = val.round().long().clamp(0, k - 1)
                out[ix] = cum[b] - pq[b] + v[ix] * pq[b]
            else:
                seg = 0.5 * (p[q][1:] + p[q][:-1])
                cum = torch.cat([torch.zeros(1, dtype=torch.float64), torch.cumsum(seg, 0)])
                cum = cum / cum[-1]
                h = float(grid[1] - grid[0])
                pos = ((val - float(grid[0])) / h).clamp(0, g - 1 - 1e-9)
                f = pos.floor().long()
                t = pos - f
                # linear density inside a segment -> quadratic cumulative
                a, b2 = p[q][f], p[q][f + 1]
                tot = seg.sum()
                out[ix] = cum[f] + (a * t + 0.5 * (b2 - a) * t * t) / tot
    return out.clamp(0, 1 - 1e-12)


def chi2_p(counts, expected=None):
    counts = torch.as_tensor(counts, dtype=torch.float64).flatten()
    e = torch.full_like(counts, float(counts.sum()) / counts.numel()) if expected is None else expected
    stat = float(((counts - e) ** 2 / e).sum())
    return float(_chi2.sf(stat, counts.numel() - 1))


def uniform_p(u, bins=10):
    return chi2_p(torch.histc(u.float(), bins=bins, min=0, max=1))


def joint_p(u, w, b=4):
    i = (u * b).long().clamp(0, b - 1)
    j = (w * b).long().clamp(0, b - 1)
    return chi2_p(torch.bincount(i * b + j, minlength=b * b))


def pooled_p(counts, p):
    """Chi-square of observed counts against exact probabilities, pooling cells with expectation < 8."""
    n = float(counts.sum())
    e = p * n
    order = torch.argsort(e, descending=True)
    e, o = e[order], counts[order].double()
    big = e >= 8
    oo, ee = [o[big]], [e[big]]
    if (~big).any():
        re, ro = e[~big].sum(), o[~big].sum()
        if float(re) >= 8:
            oo.append(ro[None]), ee.append(re[None])
        elif float(ro) > 8 + 60:
            return 0.0
    o, e = torch.cat(oo), torch.cat(ee)
    if o.numel() < 2:
        return 1.0
    stat = float(((o - e) ** 2 / e).sum())
    return float(_chi2.sf(stat, o.numel() - 1))
