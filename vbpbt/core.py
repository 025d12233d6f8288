"""Vocabulary of the property modules: SubCheck, Violation, require, close."""
import json
import numpy as np


class Violation(Exception):
    pass


class SubCheck:
    """
    name      : identifier inside the property
    strategy  : () -> hypothesis strategy of JSON-serialisable cases
    check     : case -> dict(nontrivial=bool, labels=[...]); raises Violation
    quick     : number of generated cases in the quick tier (all shards together)
    thorough  : same for the thorough tier (default 15 x quick)
    """

    def __init__(self, name, strategy, check, quick, thorough=None, shards=8):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else 15 * quick
        self.shards = shards


class Property:
    def __init__(self, pid, rule, subs, checked_build=False, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.subs = subs
        self.checked_build = checked_build
        self.assumptions = list(assumptions)


def require(cond, msg, *args):
    if not bool(cond):
        raise Violation(msg % args if args else msg)


def as_np(a):
    if hasattr(a, "to_numpy"):
        a = a.to_numpy()
    if hasattr(a, "compute"):
        a = a.compute()
    return np.asarray(a)


def close(got, want, what, rtol=1e-9, atol=0.0, scale=None):
    """got == want up to rtol * (largest magnitude involved) + atol, elementwise; shapes must agree."""
    got = as_np(got)
    want = as_np(want)
    require(got.shape == want.shape, "%s: shape %s, expected %s", what, got.shape, want.shape)
    if got.size == 0:
        return
    require(np.all(np.isfinite(got) == np.isfinite(want)), "%s: non finite values differ: got %s want %s", what, _s(got), _s(want))
    fin = np.isfinite(want)
    if not fin.any():
        return
    if scale is None:
        scale = np.max(np.abs(want[fin]))
    tol = rtol * scale + atol
    err = np.where(fin, np.abs(np.where(fin, got, 0) - np.where(fin, want, 0)), 0.0)
    bad = err > tol
    if np.any(bad):
        ind = np.unravel_index(np.argmax(err), err.shape) if err.ndim else ()
        raise Violation("%s: differs by %.3g (tolerance %.3g) at %s: got %r, expected %r" % (what, err.max(), np.max(tol), tuple(int(i) for i in ind), got[ind], want[ind]))


def _s(a):
    return np.array2string(np.asarray(a).ravel()[:8], precision=5)


def case_key(case):
    return json.dumps(case, sort_keys=True)


def rng_of(*ints):
    return np.random.default_rng([int(i) & 0xFFFFFFFF for i in ints])
