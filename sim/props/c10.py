"""C10  A leaf-cache slot answers for the data it was filled with, until it is reset."""
import torch

from .. import models, world as W
from ..core import Violation, thash
from ..faults import Failed, gen_fault, sut, sut_faulty

ID = "C10"
N_QUICK = 1400
N_THOROUGH = 40000
RULE = "a run counts when a slot was hit at least once after being filled, with other calls in between"
REAL = ["Einet.forward with cache_index", "Einet.reset_cache", "all leaf and sum layers"]
STUBS = []
ASSUMPTIONS = [
    "a slot is refilled only after a reset; parameters change only together with a reset (the documented use)",
    "after a call on an empty slot failed, the client retries with the same data",
]
PROBES = ["hit", "hit after fault", "refilled after reset", "two slots", "gradient through filled slot", "slot zero", "another model"]
MIN_OPS = 1


def gen(rng, i):
    cfg = {"kind": "einet", **models.gen_cfg(rng, max_f=6, max_w=3, leaves=("normal", "ratnormal", "categorical", "binomial", "bernoulli", "multi", "mvn", "pwl"))}
    ops = []
    n = rng.randint(4, 12)
    for _ in range(n):
        t = rng.random()
        if t < 0.6:
            ops.append({"op": "get", "slot": rng.choice([0, 0, 1, 2, -1, 10**6]), "fault": gen_fault(rng) if rng.random() < 0.3 else None,
                        "shape": rng.choice([2, 3, 3, 4]), "grad": rng.random() < 0.2, "rng": rng.randrange(1 << 30)})
        elif t < 0.7:
            ops.append({"op": "reset", "sgd": rng.random() < 0.5, "s": rng.randrange(1 << 30), "rng": 1, "n": 3})
        else:
            op = W.gen_op(rng, cfg)
            if rng.random() < 0.3:
                op["fault"] = gen_fault(rng)
            ops.append({"op": "other", "call": op})
    return {"seed": rng.randrange(1 << 30), "model": cfg, "bseed": rng.randrange(1 << 30), "ops": ops, "d": rng.randrange(1 << 30), "other": rng.random() < 0.4}


def run(plan, ctx):
    cfg = plan["model"]
    m = W.build(cfg, plan["bseed"])
    epoch, filled, asked, faulted = 0, {}, set(), False
    # a second model of the same configuration uses the same slots for data of its own
    m2 = W.build({**cfg, "pseed": cfg["pseed"] + 1}, plan["bseed"] + 1) if plan["other"] else None
    other = set()
    for i, op in enumerate(plan["ops"]):
        k = op["op"]
        what = f"op {i}"
        if k == "reset":
            sut(m.reset_cache, ctx)
            filled, asked = {}, set()
            epoch += 1
            if op["sgd"]:
                sut(lambda: W.sgd(m, cfg, op), ctx)
            continue
        if k == "other":
            c = op["call"]
            x = W.inputs(cfg, c)
            torch.manual_seed(c["rng"])
            if c.get("fault"):
                sut_faulty(lambda: W.call(m, cfg, c, x), c["fault"], 60, ctx)
            else:
                sut(lambda: W.call(m, cfg, c, x), ctx)
            m.zero_grad(set_to_none=True)
            ctx.mark((c["op"], bool(c.get("fault"))))
            continue
        slot = op["slot"]
        # each slot of each epoch has its own data, with its own number of rows
        n = 1 + (abs(slot) + epoch + plan["d"]) % 4
        ds = plan["d"] + 100 * epoch + slot % 97
        x = W.data(cfg, ds, n, op["shape"])
        hx = thash(x)
        if m2 is not None and slot not in other:
            other.add(slot)
            y = W.data(cfg, ds + 31, n, op["shape"])
            got = sut(lambda: _get(m2, y, slot, False), ctx)
            W.need(got, (n, cfg["K"]), what)
            ctx.probe("another model")
            if not W.close(got, sut(lambda: _plain(m2, y), ctx), 1e-5, 1e-5):
                raise Violation("slot-shared", f"{what}: slot {slot} of a second model answers for other data")
        grad = op["grad"] and slot not in asked
        f = lambda g=grad: _get(m, x, slot, g)
        hit = slot in filled
        asked.add(slot)
        if op["fault"]:
            out = sut_faulty(f, op["fault"], 25, ctx)
            if isinstance(out, Failed):
                faulted = True
                ctx.log(i, slot, repr(out))
                ctx.mark(("failed", hit))
                out = sut(lambda: _get(m, x, slot, False), ctx)
        else:
            out = sut(f, ctx)
        W.need(out, (n, cfg["K"]), what)
        if thash(x) != hx:
            raise Violation("input-changed", f"{what}: the caller's data was modified")
        want = sut(lambda: _plain(m, x), ctx)
        ctx.log(i, slot, hit, W.describe([out]))
        ctx.mark(("get", hit, op["shape"], cfg["leaf"], cfg["structure"]))
        if not W.close(out, want, 1e-5, 1e-5):
            raise Violation("stale-or-mixed-slot", f"{what}: slot {slot} ({'filled' if hit else 'empty'}) gives {out.flatten().tolist()[:4]}, without cache {want.flatten().tolist()[:4]}")
        if hit:
            ctx.probe("hit")
            ctx.nontrivial = True
            if faulted:
                ctx.probe("hit after fault")
            # a filled slot answers whatever the leaf layer would be given again
            if not W.identical([out], [filled[slot]]) and not W.close(out, filled[slot], 1e-6, 1e-6):
                raise Violation("slot-changed", f"{what}: slot {slot} gave {filled[slot].flatten().tolist()[:4]} before, now {out.flatten().tolist()[:4]}")
        if grad:
            ctx.probe("gradient through filled slot")
        if epoch and not hit:
            ctx.probe("refilled after reset")
        filled[slot] = out.detach().clone()
        if len(filled) > 1:
            ctx.probe("two slots")
        if slot == 0:
            ctx.probe("slot zero")
    for e in [m]:
        sut(e.reset_cache, ctx)
    # after a reset every slot is empty again: any data may be put into it
    if filled:
        slot = sorted(filled)[0]
        y = W.data(cfg, plan["d"] + 77777, 2)
        got = sut(lambda: _get(m, y, slot, False), ctx)
        W.need(got, (2, cfg["K"]), "after reset")
        if not W.close(got, sut(lambda: _plain(m, y), ctx), 1e-5, 1e-5):
            raise Violation("reset-incomplete", f"slot {slot} still answers for old data after the reset")


def _get(m, x, slot, grad):
    if grad:
        out = m(x, cache_index=slot)
        out.mean().backward()
        m.zero_grad(set_to_none=True)
        return out.detach()
    with torch.no_grad():
        return m(x, cache_index=slot)


def _plain(m, x):
    with torch.no_grad():
        return m(x)


simplify = W.simplify_subject
