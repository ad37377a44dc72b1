"""C13  The order of training data is decided by seeds alone, and visits every row once per pass.

The simulator plays the data loader's processes: the main process consuming index streams, worker
processes that start in any order, reading errors, restarted passes, and other code drawing from every
ambient generator in between.
"""
import itertools
import os
import random

import numpy as np
import torch

from .. import env, world as W
from ..core import Violation, thash
from ..faults import sut

ID = "C13"
N_QUICK = 3000
N_THOROUGH = 60000
RULE = "a run counts when two streams with the same seed were compared after other activity, or workers were started in two orders"
REAL = ["TrainingSampler", "_make_loader / build_dataloader (synthetic and bundled data sets)", "torch DataLoader in the main process",
        "seed_all_rng", "worker_init_reset_seed"]
STUBS = ["loader worker processes (simulated one after the other in one process)", "clock and process id seen by seed_all_rng", "data set with injected reading errors"]
ASSUMPTIONS = ["a worker process starts with torch's seed base + worker id, as torch's loader does", "at most 64 workers"]
PROBES = ["stream", "two iterators", "no shuffle", "loader pass", "reading error", "workers", "unseeded", "loop loader", "real data set", "seed none"]
PRELOAD = ("exp_utils",)
TIME_UNIT = "indices delivered"


def gen(rng, i):
    mode = rng.choice(["sampler", "sampler", "loader", "loop", "workers", "seed", "data"] if rng.random() < 0.9 else ["data"])
    return {"seed": rng.randrange(1 << 30), "mode": mode, "size": rng.choice([1, 2, 3, 7, 10, 33, 100] if rng.random() < 0.8 else [64, 129, 200, 257, 1000, 1025, 2049, 5003]), "s": rng.choice([0, 0, 1, 42, rng.randrange(1 << 31)]),
            "s2": rng.randrange(1 << 31), "take": rng.randint(1, 260), "noise": [rng.randrange(1 << 30) for _ in range(4)], "shuffle": rng.random() < 0.8,
            "inter": [rng.randrange(2) for _ in range(60)], "bs": rng.choice([1, 2, 3, 5, 16, 200]), "fail": rng.choice([None, None, 0, 1, 2, 5]),
            "base": rng.choice([0, 1, rng.randrange(1 << 31), 2**31 - 3, rng.randrange(1 << 62)]), "nw": rng.randint(2, 12),
            "order": rng.randrange(1 << 30), "ds": rng.choice(["synth-2-moons", "synth-3-clusters", "digits", "wine", "breast_cancer", "synth-circles"]),
            "pid": rng.choice([1, 4194304, rng.randrange(1, 1 << 22)]), "ur": [rng.randrange(65536) for _ in range(6)], "us": rng.randrange(10**6),
            "sec": rng.randrange(60)}


def states():
    return W.rng_state()


def draws():
    """One value from each ambient generator."""
    return (torch.rand(2).tolist(), np.random.rand(2).tolist(), random.random())


class Data(torch.utils.data.Dataset):
    def __init__(self, n, fail=None):
        self.n, self.fail, self.reads = n, fail, 0

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if not 0 <= i < self.n:
            raise Violation("index-out-of-range", f"row {i} of {self.n} requested")
        self.reads += 1
        if self.fail is not None and self.reads == self.fail + 1:
            raise OSError(5, "simulated reading error")
        return torch.tensor([float(i)]), i


def take(it, n):
    out = [int(v) for v in itertools.islice(it, n)]
    if len(out) != n:
        raise Violation("stream-ended", f"the training stream ended after {len(out)} of {n} indices")
    return out


def run(plan, ctx):
    getattr(__import__(__name__, fromlist=["x"]), "mode_" + plan["mode"])(plan, ctx)


def check_blocks(seq, n, shuffle, what):
    for b in range(0, len(seq) - len(seq) % n, n):
        blk = seq[b : b + n]
        if sorted(blk) != list(range(n)):
            raise Violation("pass-incomplete", f"{what}: pass {b // n} over {n} rows visits {sorted(blk)[:12]}")
        if not shuffle and blk != list(range(n)):
            raise Violation("order", f"{what}: unshuffled pass is {blk[:12]}")
    rest = seq[len(seq) - len(seq) % n :]
    if len(set(rest)) != len(rest) or any(not 0 <= v < n for v in rest):
        raise Violation("pass-incomplete", f"{what}: a row repeats inside one pass: {rest[:12]}")


def mode_sampler(plan, ctx):
    from simple_einet.data import TrainingSampler

    n, t = plan["size"], plan["take"]
    if n > 100:
        t += 2 * n if n < 3000 else n
    mk = lambda s: sut(lambda: TrainingSampler(size=n, shuffle=plan["shuffle"], seed=s), ctx)
    a = mk(plan["s"])
    st = states()
    first = take(iter(a), t)
    if states() != st:
        raise Violation("sampler-disturbs", "drawing training indices changed an ambient generator")
    ctx.sim_time += t
    ctx.probe("stream")
    check_blocks(first, n, plan["shuffle"], "stream")
    if not plan["shuffle"]:
        ctx.probe("no shuffle")
    W.noise(plan["noise"][0])
    b = mk(plan["s"])
    # two consumers in an interleaving the plan decides, one of them the old sampler started anew
    ia, ib = iter(a), iter(b)
    ga, gb = [], []
    for k in plan["inter"]:
        W.noise(plan["noise"][1] + len(ga))
        (ga if k else gb).append(int(next(ia if k else ib)))
    ctx.probe("two iterators")
    for g, name in ((ga, "restarted stream"), (gb, "second sampler")):
        k = min(len(g), t)
        if g[:k] != first[:k]:
            raise Violation("stream-not-repeatable", f"seed {plan['s']}, {n} rows: {name} gives {g[:12]}, before {first[:12]}")
    if plan["shuffle"] and n >= 33 and t >= 100:
        c = take(iter(mk(plan["s2"])), t)
        if plan["s2"] != plan["s"] and c == first:
            raise Violation("seed-ignored", f"seeds {plan['s']} and {plan['s2']} give the same order")
        if t >= 2 * n and first[:n] == first[n : 2 * n]:
            raise Violation("not-reshuffled", "two passes have the same order")
    # an absent seed is a fixed one shared by all processes
    d, e = take(iter(mk(None)), min(t, 40)), None
    W.noise(plan["noise"][2])
    e = take(iter(mk(None)), min(t, 40))
    if d != e:
        raise Violation("stream-not-repeatable", "without a seed, two processes disagree on the order")
    ctx.nontrivial = True
    ctx.mark(("sampler", n, plan["shuffle"], t // 20))
    ctx.log(first[:40], ga, gb)


def loader_of(plan, ds, loop, shuffle):
    from simple_einet import data as D

    env.import_root("exp_utils")
    return sut(lambda: D._make_loader(plan["bs"], 0, ds, loop=loop, shuffle=shuffle, seed=plan["s"]))


def run_pass(loader, limit=None):
    out = []
    for x, y in loader:
        W.check_tensor(x, "batch")
        if [int(v) for v in x.flatten()] != [int(v) for v in y.flatten()]:
            raise Violation("rows-and-labels-mixed", f"rows {x.flatten().tolist()[:6]} came with labels {y.tolist()[:6]}")
        out.append([int(v) for v in y.flatten()])
        if limit is not None and len(out) >= limit:
            break
    return out


def mode_loader(plan, ctx):
    n = plan["size"]
    for shuffle in (False, True):
        ds = Data(n, plan["fail"])
        loader = loader_of(plan, ds, False, shuffle)
        got = []
        for attempt in range(2):
            torch.manual_seed(plan["noise"][0])
            try:
                batches = run_pass(loader, n + 2)
            except OSError:
                ctx.fault("reading-error")
                ctx.probe("reading error")
                continue
            ctx.probe("loader pass")
            flat = [v for b in batches for v in b]
            ctx.sim_time += len(flat)
            if sorted(flat) != list(range(n)):
                raise Violation("pass-incomplete", f"one pass over {n} rows in batches of {plan['bs']} (shuffle={shuffle}) visits {len(flat)} rows, {len(set(flat))} distinct")
            if not shuffle and flat != list(range(n)):
                raise Violation("order", f"the evaluation pass is not in order: {flat[:12]}")
            if any(len(b) != plan["bs"] for b in batches[:-1]) or not 1 <= len(batches[-1]) <= plan["bs"]:
                raise Violation("batch-size", f"batches of {[len(b) for b in batches]}, asked for {plan['bs']}")
            got.append(flat)
            W.noise(plan["noise"][1])
            ctx.log(shuffle, flat)
        if len(got) == 2:
            ctx.nontrivial = True
            if got[0] != got[1]:
                raise Violation("order-not-seeded", "the ambient torch seed does not decide the order of a pass")
    ctx.mark(("loader", n, plan["bs"], plan["fail"]))


def mode_loop(plan, ctx):
    n, k = plan["size"], 1 + plan["take"] // (4 * plan["bs"])
    seqs = []
    for attempt in range(2):
        W.noise(plan["noise"][attempt])
        loader = loader_of(plan, Data(n, plan["fail"] if attempt == 0 else None), True, True)
        try:
            b = run_pass(loader, k)
        except OSError:
            ctx.fault("reading-error")
            ctx.probe("reading error")
            b = run_pass(loader, k)  # the trainer starts over
        seqs.append([v for q in b for v in q])
        check_blocks(seqs[-1], n, True, "looping loader")
        ctx.sim_time += len(seqs[-1])
    ctx.probe("loop loader")
    ctx.nontrivial = True
    if seqs[0] != seqs[1]:
        raise Violation("stream-not-repeatable", f"seed {plan['s']}: {seqs[0][:12]} then {seqs[1][:12]}")
    ctx.mark(("loop", n, plan["bs"], plan["fail"], k))
    ctx.log(seqs[0])


def mode_workers(plan, ctx):
    loader = loader_of(plan, Data(plan["size"]), False, True)
    init = loader.worker_init_fn
    if init is None:
        raise Violation("workers-unseeded", "the loader does not initialise its workers")
    nw = plan["nw"]
    res = []
    for attempt in range(2):
        order = list(range(nw))
        if attempt:
            random.Random(plan["order"]).shuffle(order)
        got = {}
        for w in order:
            W.noise(plan["noise"][attempt] + w)  # a forked worker inherits whatever the parent had
            torch.manual_seed((plan["base"] + w) % 2**63)
            sut(lambda: init(w), ctx)
            got[w] = draws()
        res.append(got)
    ctx.probe("workers")
    ctx.nontrivial = True
    if res[0] != res[1]:
        bad = [w for w in range(nw) if res[0][w] != res[1][w]]
        raise Violation("worker-not-repeatable", f"workers {bad[:4]} draw other numbers when workers start in another order (base seed {plan['base']})")
    for j, name in enumerate(("torch", "numpy", "Python")):
        vals = [repr(res[0][w][j]) for w in range(nw)]
        if len(set(vals)) != nw:
            raise Violation("workers-alike", f"{nw - len(set(vals))} of {nw} workers share their {name} numbers (base seed {plan['base']})")
    ctx.mark(("workers", nw, plan["base"] % 97))
    ctx.log(res[0][0])


def mode_seed(plan, ctx):
    e = env.import_root("exp_utils")
    s = plan["s"] % 2**32
    vals = []
    for k in range(2):
        W.noise(plan["noise"][k])
        sut(lambda: e.seed_all_rng(s), ctx)
        vals.append((draws(), os.environ.get("PYTHONHASHSEED")))
    if vals[0] != vals[1]:
        raise Violation("seed-incomplete", f"after seeding with {s} the generators differ: {vals}")
    # without a seed: whatever the clock, process id and entropy say, all three generators get seeded
    real = (e.os.getpid, e.os.urandom, e.datetime.datetime)
    ur = iter(plan["ur"] * 50)

    class Clock(real[2]):
        @classmethod
        def now(cls, tz=None):
            return cls(2024, 1, 1, 0, 0, plan["sec"], plan["us"])

    outs = []
    try:
        e.os.getpid = lambda: plan["pid"]
        e.os.urandom = lambda n: (next(ur) % 2 ** (8 * n)).to_bytes(n, "big")
        e.datetime.datetime = Clock
        ctx.fault("clock", 1)
        for k in range(3):
            W.noise(plan["noise"][0])
            sut(lambda: e.seed_all_rng(None), ctx)
            outs.append(draws())
    finally:
        e.os.getpid, e.os.urandom, e.datetime.datetime = real
    ctx.probe("seed none")
    ctx.probe("unseeded")
    W.noise(plan["noise"][0])
    ambient = draws()
    for j, name in enumerate(("torch", "numpy", "Python")):
        if all(o[j] == ambient[j] for o in outs):
            raise Violation("unseeded", f"without a seed the {name} generator keeps its old state")
        if len(set(plan["ur"][:3])) == 3 and len({repr(o[j]) for o in outs}) == 1:
            raise Violation("entropy-ignored", f"without a seed, three processes at the same time get the same {name} numbers")
    ctx.nontrivial = True
    ctx.mark(("seed", s % 53, plan["pid"] % 7))
    ctx.log(vals[0], outs)


def mode_data(plan, ctx):
    from simple_einet import data as D

    env.import_root("exp_utils")
    W.noise(plan["noise"][0])
    mk = lambda loop: sut(lambda: D.build_dataloader(plan["ds"], "/nonexistent", plan["bs"], 0, loop, False, plan["s"]), ctx)
    seqs = []
    for k in range(2):
        W.noise(plan["noise"][k])
        tr, va, te = mk(True)
        it = iter(tr)
        seqs.append([thash(*next(it)) for _ in range(3)])
        for name, l in (("validation", va), ("test", te)):
            ds = l.dataset
            batches = [b[0].reshape(b[0].shape[0], -1) for b in itertools.islice(iter(l), len(ds) + 2)]
            if len(batches) > len(ds):
                raise Violation("pass-incomplete", f"{plan['ds']}: a pass of the {name} loader over {len(ds)} rows does not end")
            rows = torch.cat(batches)
            want = torch.stack([ds[i][0].reshape(-1) for i in range(len(ds))])
            if rows.shape != want.shape or not torch.equal(rows, want):
                raise Violation("order", f"{plan['ds']}: the {name} loader does not deliver its rows once, in order")
            ctx.sim_time += len(want)
    ctx.probe("real data set")
    ctx.nontrivial = True
    if seqs[0] != seqs[1]:
        raise Violation("stream-not-repeatable", f"{plan['ds']}: seed {plan['s']} gives two training orders")
    ctx.mark(("data", plan["ds"], plan["bs"]))
    ctx.log(seqs[0])


def simplify(plan):
    for k, v in (("size", 3), ("bs", 1), ("take", 10), ("nw", 2)):
        if plan[k] > v:
            yield {**plan, k: v}
