"""Shared pieces for the property checks: case registration, per-case context, helpers."""
import os
import json
import shutil
import hashlib

CASES = []  # registered cases of the loaded check module
FINDINGS = []  # registered probes for known findings


class Case:
    def __init__(self, func, strategy, quick, thorough, shards):
        self.func = func
        self.name = func.__name__
        self.strategy = strategy
        self.quick = quick
        self.thorough = thorough
        self.shards = shards


def case(strategy, quick=200, thorough=None, shards=1):
    """Register func(case, t): `case` is JSON-able data drawn from strategy."""

    def deco(func):
        CASES.append(Case(func, strategy, quick, thorough or quick * 20, shards))
        return func

    return deco


def finding(key):
    """Register a probe func(t) -> None, raising AssertionError when the listed defect is still there."""

    def deco(func):
        FINDINGS.append((key, func))
        return func

    return deco


class HarnessError(Exception):
    """The machinery itself is wrong; never a violation."""


class Discard(Exception):
    """The generated case is outside the domain of the property (counted, not evaluated)."""


class Ctx:
    """Per-case context."""

    def __init__(self, scratch):
        self.scratch = scratch
        self._n = 0
        self.labels = []
        self.is_nontrivial = False

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, text, cond=True):
        if cond:
            self.labels.append(str(text))

    def dir(self):
        self._n += 1
        d = os.path.join(self.scratch, 'case%d' % self._n)
        if os.path.exists(d):
            shutil.rmtree(d)
        os.makedirs(d)
        return d

    def cleanup(self):
        while self._n:
            shutil.rmtree(os.path.join(self.scratch, 'case%d' % self._n), ignore_errors=True)
            self._n -= 1


def write(path, text):
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text)
    return path


def read(path):
    with open(path, encoding='utf-8') as f:
        return f.read()


def digest(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


def raises(func, *args, exc=Exception, **kwargs):
    """True if the call raises exc (any Exception by default)."""
    try:
        func(*args, **kwargs)
    except exc:
        return True
    return False


def close(a, b, rtol=1e-9, atol=0., what='value', note=''):
    """Assert numerical agreement, with shapes equal."""
    import numpy as np
    assert a is not None, '%s: got None, expected %r %s' % (what, b, note)
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    assert a.shape == b.shape, '%s: shape %s, expected %s %s' % (what, a.shape, b.shape, note)
    ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    if not np.all(ok):
        i = tuple(np.argwhere(~ok)[0])
        raise AssertionError('%s%s: got %.15g, expected %.15g (%d of %d differ) %s'
                             % (what, list(i) if i else '', a[i], b[i], np.sum(~ok), ok.size, note))


def short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + '...'


def equal(a, b, what='value', note=''):
    ok = type(a) is type(b) or not isinstance(a, bool) and not isinstance(b, bool)
    assert ok and a == b, '%s: got %s, expected %s %s' % (what, short(a), short(b), note)
