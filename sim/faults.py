"""Fault injection: the n-th tensor operation inside a call fails."""
import torch
from torch.overrides import TorchFunctionMode


class InjectedOOM(torch.OutOfMemoryError):
    """A failing allocation inside a kernel."""


class InjectedInterrupt(KeyboardInterrupt):
    """The user (or a supervisor) interrupts the call."""


class InjectedIO(OSError):
    """A failing system call."""


class InjectedValue(ValueError):
    """A kernel refuses its arguments."""


class InjectedIndex(IndexError):
    """A kernel finds an index out of range."""


class InjectedKernel(NotImplementedError):
    """An operation is not implemented for this backend."""


EXC = {"oom": InjectedOOM, "kbd": InjectedInterrupt, "io": InjectedIO, "val": InjectedValue, "idx": InjectedIndex, "ker": InjectedKernel}
TEXT = {"oom": "CUDA out of memory. Tried to allocate 2.00 GiB: "}
INJECTED = tuple(EXC.values())
_QUIET = {"__get__", "dim", "size", "is_complex", "numel", "__repr__", "__len__", "__set__"}


class FaultMode(TorchFunctionMode):
    """Raise before or after the n-th tensor operation (1-based) executed under this mode."""

    def __init__(self, n, when="before", exc="oom"):
        super().__init__()
        self.n, self.when, self.exc = n, when, exc
        self.count, self.fired = 0, False

    def __torch_function__(self, func, types, args=(), kwargs=None):
        if getattr(func, "__name__", "") in _QUIET:
            return func(*args, **(kwargs or {}))
        self.count += 1
        due = self.count == self.n
        if due and self.when == "before":
            self.fired = True
            raise EXC[self.exc](TEXT.get(self.exc, "") + "injected before operation %d" % self.n)
        out = func(*args, **(kwargs or {}))
        if due:
            self.fired = True
            raise EXC[self.exc](TEXT.get(self.exc, "") + "injected after operation %d" % self.n)
        return out


def count_ops(fn):
    with FaultMode(-1) as m, torch.no_grad():
        fn()
    return m.count
