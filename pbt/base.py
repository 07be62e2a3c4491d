"""Vocabulary used by the property modules."""
import os
import traceback

import numpy as np


class Violation(Exception):
    """The code under test broke the property on this case."""


def _root(e):
    seen = set()
    while e.__cause__ is not None and id(e) not in seen:
        seen.add(id(e))
        e = e.__cause__
    return e


def brief(e):
    r = _root(e)
    return '%s: %s' % (type(r).__name__, str(r).strip().replace('\n', ' ')[:300])


def cut(what, f, *args, **kwargs):
    """Run the code under test on input it must accept; any exception is a violation."""
    try:
        return f(*args, **kwargs)
    except Violation:
        raise
    except Exception as e:
        raise Violation('%s raised %s' % (what, brief(e))) from None


def rejects(what, f, *args, **kwargs):
    """Run the code under test on input it must reject with an exception."""
    try:
        f(*args, **kwargs)
    except Violation:
        raise
    except Exception:
        return
    raise Violation('%s was accepted, but must be rejected' % what)


def require(cond, msg, *fmt):
    if not cond:
        raise Violation(msg % fmt if fmt else msg)


def num(what, v):
    """Numeric 2-D numpy array of a value produced by the code under test."""
    import casadi as cs
    try:
        if isinstance(v, (cs.MX, cs.SX)):
            v = cs.evalf(v)
        if hasattr(v, '__DM__') and not isinstance(v, cs.DM):
            v = v.__DM__()
        if isinstance(v, cs.DM):
            return np.array(v.full(), dtype=float)
        a = np.array(v, dtype=float)
    except Exception as e:
        raise Violation('%s is not numeric (%s): %s' % (what, type(v).__name__, brief(e))) from None
    return a


def require_equal(what, got, want):
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    require(got.shape == want.shape, '%s: shape %s, expected %s', what, got.shape, want.shape)
    ok = (got == want) | (np.isnan(got) & np.isnan(want))
    require(bool(np.all(ok)), '%s: got %s, expected %s', what, _fmt(got), _fmt(want))


def require_close(what, got, want, tol):
    """|got - want| <= tol elementwise (tol: scalar or array of absolute tolerances)."""
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    require(got.shape == want.shape, '%s: shape %s, expected %s', what, got.shape, want.shape)
    with np.errstate(all='ignore'):
        ok = np.abs(got - want) <= np.asarray(tol) + 1e-300      # subnormal results carry no relative accuracy
    require(bool(np.all(ok)), '%s: got %s, expected %s (tolerance %s)', what, _fmt(got), _fmt(want), _fmt(np.asarray(tol)))


def _fmt(a):
    return np.array2string(np.asarray(a), precision=12, threshold=30, edgeitems=3).replace('\n', ' ')[:400]


def from_repo(e):
    """True if any frame of the exception lies in the code under test."""
    while e is not None:
        for fr in traceback.extract_tb(e.__traceback__):
            if os.path.abspath(fr.filename).startswith('/repo/casadi_extras/'):
                return True
        e = e.__cause__ or e.__context__
    return False


class Info(object):
    """What a case exercised: labels for the distribution, nontrivial flag."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, *names):
        self.labels.update(names)

    def hit(self, cond=True):
        if cond:
            self.nontrivial = True
