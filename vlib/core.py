"""Shared vocabulary of the checks: violations, per-case bookkeeping, comparisons."""

import traceback
import os

import numpy as np

from . import env


class Violation(Exception):
    """The code under test broke the property on this case."""


class Skip(Exception):
    """The case cannot be judged (say, it is numerically ill-conditioned)."""


class HarnessError(Exception):
    """This machinery is at fault (bad reference computation, bad case...)."""


class Ctx:
    """Bookkeeping for one case."""

    def __init__(self):
        self.labels = {}
        self.nontrivial = False
        self.compared = 0
        self.cond = 1.0

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def mark(self):
        self.nontrivial = True

    def note_cond(self, c):
        if not np.isfinite(c):
            c = 1e300
        self.cond = max(self.cond, float(c))


MAX_COND = 1e7


def ok_cond(ctx):
    """Whether numerical comparison is still meaningful for this case."""
    if ctx.cond > MAX_COND:
        ctx.label("ill-conditioned (not compared)")
        return False
    return True


def to_np(x):
    """Anything numerical (tensor of any backend, structured matrix) as a plain array."""
    import lab as B

    y = B.to_numpy(B.dense(x))
    y = np.asarray(y)
    if y.dtype == object:
        raise Violation(f"Expected numbers, but got an object array: {y!r:.200}")
    return y


def tol(ctx, rtol=1e-8, atol=1e-9):
    """Tolerances that grow with the conditioning met while computing the reference."""
    f = 1e-12 * ctx.cond
    return rtol + f, atol + f


def close(ctx, what, got, want, rtol=1e-8, atol=1e-9, scale=None, shape=True):
    """Raise :class:`Violation` unless `got` agrees with `want`.

    The absolute tolerance is relative to the magnitude of the quantities involved.
    """
    g = to_np(got)
    w = np.asarray(want)
    if shape and g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape}, expected {w.shape}.")
    rt, at = tol(ctx, rtol, atol)
    s = max(1.0, float(np.max(np.abs(w))) if w.size else 1.0, scale or 0.0)
    ctx.compared += 1
    try:
        g, w = np.broadcast_arrays(g, w)
    except ValueError:
        raise Violation(f"{what}: shape {g.shape}, expected {w.shape}.")
    gn, wn = np.isnan(g), np.isnan(w)
    if np.any(gn != wn):
        raise Violation(f"{what}: NaNs do not match.\n got={g}\nwant={w}")
    err = np.abs(g - w)
    bad = ~(err <= at * s + rt * np.abs(w)) & ~gn & ~(g == w)
    if np.any(bad):
        i = np.unravel_index(np.nanargmax(np.where(bad, err, -1)), err.shape)
        raise Violation(
            f"{what}: differs at {tuple(int(j) for j in i)}: got {g[i]!r}, "
            f"expected {w[i]!r} (rtol {rt:.2g}, atol {at * s:.2g}).\n"
            f" got={g}\nwant={w}"
        )


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def raises(types, f, what):
    """Require that `f` raises one of `types`."""
    try:
        res = f()
    except types:
        return
    except Exception as e:
        raise Violation(
            f"{what}: expected {types}, but {type(e).__name__} was raised: {e!s:.300}"
        )
    raise Violation(f"{what}: expected {types}, but nothing was raised: {res!r:.200}")


_VLIB = os.path.dirname(os.path.abspath(__file__))


def classify_exception(e):
    """Decide whose fault an unexpected exception is.

    An exception that surfaces while executing the code under test (or the libraries it
    calls into, or while consuming its output) is a violation: the call was one that is
    documented to work. An exception raised directly by this machinery's own code is a
    harness error.
    """
    if isinstance(e, (Violation, HarnessError)):
        return e
    tb = traceback.extract_tb(e.__traceback__)
    inner = tb[-1] if tb else None
    text = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-12:])
    if isinstance(e, (MemoryError, KeyboardInterrupt)):
        return HarnessError(text)
    if inner is not None and os.path.abspath(inner.filename).startswith(_VLIB):
        if not any(os.path.abspath(f.filename).startswith(env.REPO + os.sep) for f in tb):
            return HarnessError(text)
    return Violation(f"Unexpected {type(e).__name__}: {e!s:.600}\n{text[-3000:]}")
