"""C08  Concurrent evaluation behaves like a serial one.

Several client threads use one shared model for evaluation, or one model each for anything that does
not draw random numbers.  The simulator decides every switch, between any two lines of repository code.
"""
import copy

import torch

from .. import models, threads as T, world as W
from ..core import Violation, thash
from ..faults import KINDS, Failed, OpMode

ID = "C08"
N_QUICK = 900
N_THOROUGH = 20000
RULE = "a run counts when the simulator switched threads at least twice inside repository code"
MEASURE = "distinct interleavings (sequences of switch points by file and line, with the threads involved)"
REAL = ["Einet.forward/posterior/mpe, leaf cache, gradients", "ConvPc.forward", "Mixture.forward", "all layers"]
STUBS = ["fast_pytorch_kmeans (package not installed; deterministic stand-in)", "the operating system's thread scheduler (replaced by the plan's switch list)"]
ASSUMPTIONS = [
    "switches happen between lines of repository Python code; library calls are atomic",
    "not claimed: concurrent sampling or conditional queries on one shared model (they use per-model evidence caches and the process-wide generator)",
]
PROBES = ["shared", "separate", "switched twice", "failed in one thread", "shared cache slot"]
MIN_OPS = 0


def gen(rng, i):
    shared = rng.random() < 0.6
    n = rng.choice([2, 2, 3])
    subj = [W.gen_subject(rng, kinds=("einet",) * 5 + ("convpc", "mixture"), max_f=5, max_w=3,
                          leaves=("normal", "ratnormal", "categorical", "binomial", "bernoulli", "multi", "pwl"))]
    if not shared:
        for _ in range(n - 1):
            # the same configuration with other parameters half of the time: mixed-up state then has matching shapes
            subj.append({**subj[0], "pseed": rng.randrange(1 << 30)} if rng.random() < 0.6 else
                        W.gen_subject(rng, kinds=("einet",) * 5 + ("convpc",), max_f=4, max_w=3, leaves=("normal", "categorical", "multi")))
    threads = []
    for t in range(n):
        cfg = subj[0] if shared else subj[t]
        ops = []
        for _ in range(rng.randint(1, 2)):
            kinds = ("forward", "forward", "posterior", "mpe0", "cached") if shared else ("forward", "posterior", "grad", "mpe", "mpe0", "cached")
            k = rng.choice(kinds)
            if cfg["kind"] != "einet" and k in ("cached", "mpe0", "posterior"):
                k = "forward"
            if k in ("cached", "mpe0"):
                op = {"op": k, "s": rng.randrange(3), "n": 3, "rng": 0, "cls": rng.randrange(max(1, cfg["K"]))}
            else:
                op = W.gen_op(rng, cfg, kinds=(k,), allow_diff=False)
            if k == "forward" and not op.get("marg") and rng.random() < 0.4:
                op["fault"] = {"kind": rng.choice(sorted(KINDS)), "at": round(rng.random(), 3), "when": "before"}
            ops.append(op)
        threads.append(ops)
    return {"seed": rng.randrange(1 << 30), "shared": shared, "subjects": subj, "bseed": rng.randrange(1 << 30), "work": threads,
            "schedule": sorted([[round(rng.random(), 5), rng.randrange(3)] for _ in range(rng.randint(2, 8))])}


def one(m, cfg, op):
    k = op["op"]
    if k == "mpe0":
        kw = {"class_index": op["cls"]} if cfg["K"] > 1 else {}
        return [m.sample(num_samples=op["n"], is_mpe=True, **kw)]
    if k == "cached":
        with torch.no_grad():
            return [m(W.data(cfg, 500 + op["s"], op["n"]), cache_index=op["s"])]
    x = W.inputs(cfg, op)
    if op.get("fault"):
        mode = OpMode(fail_at=int(op["fault"]["at"] * 25), exc=KINDS[op["fault"]["kind"]])
        try:
            with mode:
                return W.call(m, cfg, op, x)
        except BaseException as e:
            if mode.fired:
                return Failed(e)
            raise
    return W.call(m, cfg, op, x)


def bodies(ms, cfgs, work):
    def body(m, cfg, ops):
        return lambda: [one(m, cfg, op) for op in ops]

    return [body(m, c, o) for m, c, o in zip(ms, cfgs, work)]


def models_of(plan):
    built = [W.build(c, plan["bseed"] + i) for i, c in enumerate(plan["subjects"])]
    n = len(plan["work"])
    ms = [built[0]] * n if plan["shared"] else built
    cfgs = [W.norm_cfg(plan["subjects"][0])] * n if plan["shared"] else [W.norm_cfg(c) for c in plan["subjects"]]
    return ms, cfgs


def run(plan, ctx):
    W.STAGE["on"] = False  # one buffer for several threads would be the caller's own race
    ref_ms, cfgs = models_of(plan)
    # reference: every thread's operations one after the other, each on models of their own
    ref = []
    for t, ops in enumerate(plan["work"]):
        m = copy.deepcopy(ref_ms[t])
        ref.append([one(m, cfgs[t], {k: v for k, v in op.items() if k != "fault"}) for op in ops])
    ms, _ = models_of(plan)
    length = T.serial_length(bodies(ms, cfgs, plan["work"]))
    ms, _ = models_of(plan)
    before = [W.state_hash(m) for m in ms]
    sched = T.Scheduler(len(plan["work"]), [[f * length, t] for f, t in plan["schedule"]], ctx)
    out = sched.run(bodies(ms, cfgs, plan["work"]))
    ctx.sim_time += sched.step
    ctx.fault("preemption", sched.switches)
    ctx.probe("shared" if plan["shared"] else "separate")
    ctx.mark(tuple((a, b, f, ln) for _, a, b, f, ln in sched.trace_log))
    ctx.log("switches", sched.trace_log)
    if sched.over:
        raise Violation("no-progress", f"threads still running after {sched.budget} lines")
    if sched.switches >= 2:
        ctx.nontrivial = True
        ctx.probe("switched twice")
    if not torch.is_grad_enabled():
        raise Violation("grad-mode-changed", "gradient recording is off after concurrent calls")
    for t, o in enumerate(out):
        if o is None or o[0] != "ok":
            raise Violation("fails-only-concurrently", f"thread {t} raised {type(o[1]).__name__}: {str(o[1])[:300]}" if o else f"thread {t} never finished")
        for j, (got, want, op) in enumerate(zip(o[1], ref[t], plan["work"][t])):
            if isinstance(got, Failed):
                ctx.probe("failed in one thread")
                ctx.fault(op["fault"]["kind"])
                continue
            ctx.log(t, j, W.describe(got))
            if op["op"] == "cached" and plan["shared"]:
                ctx.probe("shared cache slot")
            if not W.identical(got, want):
                raise Violation("interleaving-changes-result", f"thread {t} operation {j} ({op['op']}): {W.describe(got)}, alone {W.describe(want)}; switches {sched.trace_log[:6]}")
    for t, m in enumerate(ms):
        if W.state_hash(m) != before[t]:
            raise Violation("state-changed", f"model of thread {t} changed under concurrent evaluation")


def simplify(plan):
    for t in range(len(plan["work"])):
        for j in range(len(plan["work"][t])):
            if len(plan["work"][t]) > 1:
                w = [list(o) for o in plan["work"]]
                del w[t][j]
                yield {**plan, "work": w}
            if plan["work"][t][j].get("fault"):
                w = [[dict(o) for o in ops] for ops in plan["work"]]
                del w[t][j]["fault"]
                yield {**plan, "work": w}
    if plan["shared"]:
        for c in models.shrink_cfg(plan["subjects"][0]) if plan["subjects"][0]["kind"] == "einet" else []:
            yield {**plan, "subjects": [{"kind": "einet", **c}]}
