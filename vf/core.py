"""Sub-check registry, the per-case context, and small helpers shared by the checks."""
import math
from dataclasses import dataclass, field
from typing import Callable

import numpy as np


class Fail(Exception):
    """The property does not hold for this case."""


class Reject(Exception):
    """The case lies outside the property's domain (counted, never a violation)."""


@dataclass
class Sub:
    name: str
    make: Callable  # make(prec) -> (strategy, prop)  with prop(case, ctx)
    prec: tuple = ("f64",)
    quick: int = 100
    thorough: int = 1500
    shards: int = 1  # quick shards
    tshards: int = 2  # thorough shards
    f32_scale: float = 0.5  # fraction of the examples used in float32
    rule: str = ""


@dataclass
class Ctx:
    prec: str = "f64"
    labels: dict = field(default_factory=dict)
    nontrivial: bool = False
    worst: dict = field(default_factory=dict)

    @property
    def eps(self):
        return 2.220446049250313e-16 if self.prec == "f64" else 1.1920929e-07

    @property
    def f64(self):
        return self.prec == "f64"

    def label(self, name, on=True):
        if on:
            self.labels[name] = self.labels.get(name, 0) + 1

    def nt(self, flag=True):
        if flag:
            self.nontrivial = True

    def close(self, what, got, want, tol, info=None):
        """|got - want| <= tol elementwise (tol may be an array); NaN/Inf in `got` fails."""
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            try:
                b = np.broadcast_shapes(got.shape, want.shape)
            except ValueError:
                b = None
            if b is None or b != got.shape:
                raise Fail(f"{what}: shape {got.shape}, expected {want.shape}")
        tol = np.broadcast_to(np.asarray(tol, dtype=float), got.shape)
        err = np.abs(got - want)
        bad = ~(err <= tol)
        if got.size:
            with np.errstate(all="ignore"):
                ratio = np.where(err == 0, 0.0, err / tol)
            m = np.nanmax(ratio) if np.any(np.isfinite(ratio)) else float("inf")
            self.worst[what] = max(self.worst.get(what, 0.0), float(m))
        if bad.any():
            i = np.unravel_index(np.argmax(np.where(bad, np.where(np.isnan(err), np.inf, err / tol), -1)), got.shape) if got.shape else ()
            raise Fail(
                f"{what}: got {got[i]!r}, expected {np.broadcast_to(want, got.shape)[i]!r}, "
                f"|difference| {err[i]:.3e} > tolerance {tol[i]:.3e}"
                + (f" at index {tuple(int(k) for k in i)}" if got.shape else "")
                + (f"; {info}" if info else "")
            )

    def true(self, what, cond, info=""):
        if not bool(np.all(cond)):
            raise Fail(f"{what} {info}".strip())


REGISTRY = {}


def register(prop_id, *subs):
    REGISTRY.setdefault(prop_id, []).extend(subs)


# ---------------------------------------------------------------- strategies
_BASE = 1 << 300  # far from zero Hypothesis draws bounded integers uniformly (plus its usual
# extra weight on the two end points); near zero its distribution is heavy-tailed


def _unit(n):
    from hypothesis import strategies as st

    return st.integers(_BASE, _BASE + n).map(lambda k: k - _BASE)


def uni(lo, hi):
    """Uniform float in [lo, hi] (end points more likely), shrinking towards lo."""
    n = 1 << 40
    return _unit(n).map(lambda k: float(min(hi, lo + (hi - lo) * (k / n))))


def ints(lo, hi):
    """Uniform integer in [lo, hi], shrinking towards lo."""
    n = hi - lo + 1
    return _unit((1 << 40) - 1).map(lambda k: lo + k % n)


def loguni(lo, hi):
    a, b = math.log(lo), math.log(hi)
    return uni(a, b).map(lambda x: float(min(hi, max(lo, math.exp(x)))))


def sym(hi):
    """Uniform in [-hi, hi], shrinking towards 0."""
    n = 1 << 40

    def f(k):
        return float(hi * (-(k + 1) if k % 2 else k) / n)

    return _unit(n - 1).map(f)


def angle():
    """Angles with exact multiples of pi/6, pi/4 mixed in."""
    from hypothesis import strategies as st

    sp = [k * math.pi / 6 for k in range(-12, 13)] + [k * math.pi / 4 for k in range(-8, 9)]
    return st.one_of(sym(2 * math.pi), st.sampled_from(sp), sym(1e-6), sym(20.0))


def pad(xs, n):
    """Pad a list to length n by repeating its first element (keeps jit shapes static)."""
    a = np.asarray(xs, dtype=float)
    if len(a) >= n:
        return a[:n]
    return np.concatenate([a, np.repeat(a[:1], n - len(a), axis=0)])


def lists(elem, n, min_size=1):
    from hypothesis import strategies as st

    small = st.lists(elem, min_size=min_size, max_size=n)
    if n <= max(min_size, 8):
        return small
    # Hypothesis lists average ~6 elements; most of the time fill the whole batch
    full = st.lists(elem, min_size=n, max_size=n)
    return st.one_of(small, full, full)
