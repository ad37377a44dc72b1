"""Fault injection at tensor-operation granularity.

Every tensor operation the code under test issues passes through OpMode, which counts it (the
simulator's step clock, and its liveness bound), may raise a chosen error before or after the k-th
operation (allocation failure, out-of-memory, interrupt) and may answer Bernoulli draws adversarially.
"""
import copy

import torch
from torch.overrides import TorchFunctionMode

from .core import SutError, Violation


class StepBudget(BaseException):
    pass


class Injected:
    """Mixin: marks an exception the simulator raised."""


class InjectedOOM(Injected, torch.OutOfMemoryError):
    pass


class InjectedAlloc(Injected, MemoryError):
    pass


class InjectedInterrupt(Injected, KeyboardInterrupt):
    pass


class InjectedRuntime(Injected, RuntimeError):
    pass


KINDS = {
    "oom": lambda: InjectedOOM("CUDA out of memory (injected)"),
    "alloc": lambda: InjectedAlloc("cannot allocate memory (injected)"),
    "interrupt": lambda: InjectedInterrupt("injected"),
    "kernel": lambda: InjectedRuntime("kernel launch failure (injected)"),
}


# Calls that are bookkeeping rather than work: no allocation or kernel to fail, and several of them run
# in clean-up code (restoring the grad mode or a random state), which no caller could survive losing.
NOT_FAULTY = {"_set_grad_enabled", "set_grad_enabled", "manual_seed", "set_state", "get_state", "set_rng_state", "get_rng_state",
              "__get__", "__set__", "__delete__", "size", "dim", "numel", "stride", "is_floating_point", "is_complex", "__len__",
              "element_size", "is_contiguous", "__format__", "__repr__", "__hash__", "data_ptr", "storage_offset"}


def may_fail(func, args):
    if getattr(func, "__name__", "") in NOT_FAULTY:
        return False
    return not any(isinstance(a, torch.Tensor) and a.dtype == torch.uint8 and a.dim() == 1 and a.numel() > 1000 for a in args)


class OpMode(TorchFunctionMode):
    def __init__(self, budget=200000, fail_at=None, exc=None, when="before", bern=None):
        super().__init__()
        self.n = 0
        self.budget = budget
        self.fail_at = fail_at
        self.exc = exc
        self.when = when
        self.fired = False
        self.bern = bern  # callable(result) -> result, adversarial Bernoulli draws
        self.bern_calls = 0

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        if not may_fail(func, args):
            return func(*args, **kwargs)
        self.n += 1
        if self.n > self.budget:
            raise StepBudget()
        hit = self.fail_at is not None and self.n == self.fail_at + 1 and not self.fired
        if hit and self.when == "before":
            self.fired = True
            raise self.exc()
        r = func(*args, **kwargs)
        if self.bern is not None and getattr(func, "__name__", "") in ("bernoulli", "bernoulli_"):
            self.bern_calls += 1
            r = self.bern(r, self.bern_calls)
        if hit:
            self.fired = True
            raise self.exc()
        return r


class Failed:
    """Outcome of a call that the injected fault (or a deliberately bad argument) made fail."""

    def __init__(self, exc):
        self.exc = exc
        self.kind = type(exc).__name__

    def __repr__(self):
        return f"failed:{self.kind}"


def sut(fn, ctx=None, budget=200000, bern=None):
    """Call the code under test with no fault: any exception is a SutError."""
    mode = OpMode(budget=budget, bern=bern)
    try:
        with mode:
            r = fn()
    except StepBudget:
        raise Violation("no-progress", f"still running after {budget} tensor operations")
    except Violation:
        raise
    except BaseException as e:
        raise SutError(e)
    finally:
        if ctx is not None:
            ctx.sim_time += mode.n
    return r


def count_ops(fn, budget=200000):
    """Length of a call in tensor operations (dry run; the caller passes a throw-away copy)."""
    mode = OpMode(budget=budget)
    st = torch.get_rng_state()
    try:
        with mode:
            fn()
    except BaseException:
        pass
    finally:
        torch.set_rng_state(st)
    return mode.n


def sut_faulty(fn, fault, length, ctx):
    """Call with one injected fault at fraction fault['at'] of `length` operations.

    Returns the value when the fault did not fire (or the code absorbed it), Failed otherwise."""
    k = min(int(fault["at"] * max(length, 1)), max(length - 1, 0))
    mode = OpMode(fail_at=k, exc=KINDS[fault["kind"]], when=fault.get("when", "before"))
    try:
        with mode:
            r = fn()
    except StepBudget:
        raise Violation("no-progress", "still running after the step budget")
    except BaseException as e:
        if mode.fired:
            ctx.fault(fault["kind"])
            ctx.log("fault", fault["kind"], k, type(e).__name__)
            return Failed(e)
        raise SutError(e)
    finally:
        ctx.sim_time += mode.n
    if mode.fired:
        ctx.fault(fault["kind"])
        ctx.probe("fault absorbed by the code")
    return r


def gen_fault(rng):
    return {"kind": rng.choice(sorted(KINDS)), "at": round(rng.random(), 4), "when": rng.choice(["before", "after"])}


def clone_model(model):
    return copy.deepcopy(model)
