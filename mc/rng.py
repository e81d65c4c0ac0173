"""Controlled randomness.

install() replaces the functions of numpy.random and of the standard library's
random module by dispatchers before pyswarms is imported.  While a Source is
active (`with controlled(src)`), every draw is answered by the source, in terms
of "units" in [0,1), integers and permutations; otherwise the real generator
answers.  A source is per thread, so that two optimizers can be interleaved.
"""
import itertools
import math
import random as _pyrandom
import threading

import numpy as np

_local = threading.local()
_real = {}
_installed = False


def current():
    return getattr(_local, "src", None)


class controlled:
    def __init__(self, src):
        self.src = src

    def __enter__(self):
        self.old = current()
        _local.src = self.src
        return self.src

    def __exit__(self, *a):
        _local.src = self.old
        return False


# ---------------------------------------------------------------- sources

class Source:
    """Base: subclasses define unit(), and may refine index()."""

    calls = 0

    def begin(self, kind, shape):
        self.calls += 1

    def unit(self, kind):
        raise NotImplementedError

    def index(self, n, kind):
        """An integer in range(n)."""
        return min(n - 1, int(self.unit(kind) * n))

    def units(self, size, kind):
        shape = () if size is None else (tuple(size) if np.iterable(size) else (int(size),))
        self.begin(kind, shape)
        n = int(np.prod(shape, dtype=int)) if shape else 1
        vals = [self.unit(kind) for _ in range(n)]
        if size is None:
            return vals[0]
        return np.array(vals, dtype=float).reshape(shape)

    def ints(self, n, size, kind):
        shape = () if size is None else (tuple(size) if np.iterable(size) else (int(size),))
        self.begin(kind, shape)
        cnt = int(np.prod(shape, dtype=int)) if shape else 1
        vals = [self.index(n, kind) for _ in range(cnt)]
        if size is None:
            return vals[0]
        return np.array(vals, dtype=int).reshape(shape)

    def perm(self, n, kind):
        self.begin(kind, (n,))
        rest = list(range(n))
        out = []
        while rest:
            out.append(rest.pop(self.index(len(rest), kind)))
        return out

    def subset(self, n, k, kind):
        self.begin(kind, (k,))
        rest = list(range(n))
        out = []
        for _ in range(k):
            out.append(rest.pop(self.index(len(rest), kind)))
        return out


class ElementSource(Source):
    """Every element of every draw is a choice from an alphabet of units."""

    def __init__(self, ctx, alphabet, combos=False, label="u"):
        self.ctx, self.alphabet, self.combos, self.label = ctx, alphabet, combos, label

    def unit(self, kind):
        return self.alphabet[self.ctx.choose(len(self.alphabet), self.label)]

    def index(self, n, kind):
        return self.ctx.choose(n, self.label + "i") if n > 1 else 0

    def subset(self, n, k, kind):
        if not self.combos:
            return Source.subset(self, n, k, kind)
        self.begin(kind, (k,))
        cs = list(itertools.combinations(range(n), k))
        return list(cs[self.ctx.choose(len(cs), self.label + "c")])


_PHI = 0.6180339887498949


def lattice_unit(i, bits=6):
    """A fixed, well spread sequence on the dyadic lattice k/2^bits in [0,1)."""
    u = (0.5 + (i + 1) * _PHI) % 1.0
    m = 1 << bits
    return math.floor(u * m) / m


class FixedSource(Source):
    """No choices: a fixed well-spread sequence (different for every draw)."""

    def __init__(self, salt=0, bits=6):
        self.i = salt * 1009
        self.bits = bits

    def unit(self, kind):
        self.i += 1
        return lattice_unit(self.i, self.bits)


class PatternSource(Source):
    """For each draw call (not each element) a choice among patterns.

    pattern 0: spread values; 1: all lowest; 2: all highest; 3: rows differ;
    4: columns differ; 5: one element extreme.
    """

    TOP = 1 - 2.0 ** -10

    def __init__(self, ctx, patterns=3, bits=6, free_calls=0, salt=0):
        self.ctx, self.patterns, self.bits = ctx, patterns, bits
        self.free_calls = free_calls       # first calls take pattern 0
        self.i = salt * 1009
        self.p = 0
        self.j = 0

    def begin(self, kind, shape):
        Source.begin(self, kind, shape)
        self.p = 0
        self.j = 0
        self.shape = shape
        if self.calls > self.free_calls:
            self.p = self.ctx.choose(self.patterns, "pat")

    def unit(self, kind):
        self.i += 1
        self.j += 1
        if self.p == 0:
            return lattice_unit(self.i, self.bits)
        if self.p == 1:
            return 0.0
        if self.p == 2:
            return self.TOP
        cols = self.shape[-1] if self.shape else 1
        if self.p == 3:
            return 0.0 if ((self.j - 1) // cols) % 2 else self.TOP
        if self.p == 4:
            return 0.0 if ((self.j - 1) % cols) % 2 else self.TOP
        return self.TOP if self.j == 1 else 0.0


class ScriptSource(Source):
    """Answers from a list of units, then from a fallback source."""

    def __init__(self, units, fallback=None):
        self.q = list(units)
        self.fallback = fallback or FixedSource(7)

    def unit(self, kind):
        return self.q.pop(0) if self.q else self.fallback.unit(kind)


class PhaseSource(Source):
    """Element choices only while .enumerating is set, fixed values otherwise."""

    def __init__(self, elem, fixed):
        self.elem, self.fixed, self.enumerating = elem, fixed, False
        self.log = []

    def begin(self, kind, shape):
        Source.begin(self, kind, shape)
        self.log.append((kind, shape))

    def unit(self, kind):
        return (self.elem if self.enumerating else self.fixed).unit(kind)

    def index(self, n, kind):
        return (self.elem if self.enumerating else self.fixed).index(n, kind)

    def subset(self, n, k, kind):
        return (self.elem if self.enumerating else self.fixed).subset(n, k, kind)


class ShapeSource(Source):
    """The same values whenever a draw of the same kind and shape is made
    (used while constructing: construction may draw the swarm twice)."""

    def __init__(self, salt=0, bits=6):
        self.salt, self.bits = salt, bits
        self.i = 0

    def begin(self, kind, shape):
        Source.begin(self, kind, shape)
        self.i = self.salt * 1009 + 31 * len(shape) + sum((j + 3) * s for j, s in enumerate(shape))

    def unit(self, kind):
        self.i += 1
        return lattice_unit(self.i, self.bits)


class CallbackSource(Source):
    def __init__(self, fn):
        self.fn = fn

    def unit(self, kind):
        return self.fn(kind)


# ---------------------------------------------------------------- numpy API

def _bshape(size, *args):
    if size is not None:
        return size
    s = np.broadcast_shapes(*[np.shape(a) for a in args])
    return None if s == () else s


def _uniform(src, low=0.0, high=1.0, size=None):
    shape = _bshape(size, low, high)
    u = src.units(shape, "uniform")
    if np.ndim(low) or np.ndim(high) or shape is not None:
        low, high = np.asarray(low, dtype=float), np.asarray(high, dtype=float)
        if shape is not None:
            want = tuple(shape) if np.iterable(shape) else (int(shape),)
            if np.broadcast_shapes(np.shape(low), np.shape(high), want) != want:
                raise ValueError("Output size is not compatible with broadcast dimensions of inputs.")
        return low + (high - low) * u
    return float(low) + (float(high) - float(low)) * u


def _random_sample(src, size=None):
    return src.units(size, "random_sample")


def _rand(src, *dims):
    return src.units(dims if dims else None, "rand")


def _randint(src, low, high=None, size=None, dtype=int):
    if high is None:
        low, high = 0, low
    if np.ndim(low) or np.ndim(high):
        shape = _bshape(size, low, high)
        lo = np.broadcast_to(low, shape)
        hi = np.broadcast_to(high, shape)
        src.begin("randint", shape)
        out = np.empty(shape, dtype=int)
        for ix in np.ndindex(*shape):
            out[ix] = lo[ix] + src.index(int(hi[ix] - lo[ix]), "randint")
        return out
    if high <= low:
        raise ValueError("low >= high")
    r = src.ints(int(high - low), size, "randint")
    r = r + low
    return r.astype(dtype) if size is not None else int(r)


def _integers(src, low, high=None, size=None, dtype=np.int64, endpoint=False):
    if high is None:
        low, high = 0, low
    return _randint(src, low, high + (1 if endpoint else 0), size)


def _choice(src, a, size=None, replace=True, p=None, **kw):
    arr = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
    n = len(arr)
    if n == 0:
        raise ValueError("'a' cannot be empty unless no samples are taken")
    if size is None:
        src.begin("choice", ())
        return arr[src.index(n, "choice")]
    shape = tuple(size) if np.iterable(size) else (int(size),)
    k = int(np.prod(shape, dtype=int))
    if replace:
        return arr[np.asarray(src.ints(n, shape, "choice"))]
    if k > n:
        raise ValueError("Cannot take a larger sample than population when 'replace=False'")
    idx = np.array(src.subset(n, k, "choice"), dtype=int).reshape(shape)
    return arr[idx]


def _permutation(src, x, **kw):
    if np.ndim(x) == 0:
        return np.array(src.perm(int(x), "permutation"))
    x = np.asarray(x)
    return x[np.array(src.perm(len(x), "permutation"), dtype=int)]


def _shuffle(src, x, **kw):
    p = src.perm(len(x), "shuffle")
    y = [x[i] for i in p] if isinstance(x, list) else np.array(x)[p]
    x[:] = y


def _normal(src, loc=0.0, scale=1.0, size=None):
    shape = _bshape(size, loc, scale)
    u = np.clip(np.asarray(src.units(shape, "normal")), 1e-6, 1 - 1e-6)
    r = np.asarray(loc) + np.asarray(scale) * np.log(u / (1 - u)) * 0.5513
    return r if shape is not None else float(r)


def _randn(src, *dims):
    return _normal(src, size=dims if dims else None)


_NP = {
    "uniform": _uniform, "random_sample": _random_sample, "random": _random_sample,
    "ranf": _random_sample, "sample": _random_sample, "rand": _rand,
    "randint": _randint, "random_integers": None, "choice": _choice,
    "permutation": _permutation, "shuffle": _shuffle, "normal": _normal,
    "standard_normal": lambda src, size=None: _normal(src, size=size), "randn": _randn,
}


class ControlledGenerator:
    """Stands in for np.random.Generator / RandomState while controlled."""

    def __init__(self, src):
        self._src = src

    def _s(self):
        return current() or self._src

    def random(self, size=None, **kw): return _random_sample(self._s(), size)
    random_sample = random
    sample = random

    def rand(self, *d): return _rand(self._s(), *d)
    def uniform(self, *a, **k): return _uniform(self._s(), *a, **k)
    def integers(self, *a, **k): return _integers(self._s(), *a, **k)
    def randint(self, *a, **k): return _randint(self._s(), *a, **k)
    def choice(self, *a, **k): return _choice(self._s(), *a, **k)
    def permutation(self, *a, **k): return _permutation(self._s(), *a, **k)
    def shuffle(self, *a, **k): return _shuffle(self._s(), *a, **k)
    def normal(self, *a, **k): return _normal(self._s(), *a, **k)
    def standard_normal(self, size=None, **k): return _normal(self._s(), size=size)
    def randn(self, *d): return _randn(self._s(), *d)
    def seed(self, *a): pass

    def permuted(self, x, axis=None, **k):
        x = np.array(x)
        if axis is None:
            return x.ravel()[_permutation(self._s(), x.size)].reshape(x.shape)
        return np.apply_along_axis(lambda r: _permutation(self._s(), r), axis, x)


def _wrap_np(name, fn):
    real = getattr(np.random, name)
    _real[name] = real

    def dispatch(*a, **k):
        src = current()
        if src is None:
            return real(*a, **k)
        return fn(src, *a, **k)
    dispatch.__name__ = name
    dispatch._mc_real = real
    setattr(np.random, name, dispatch)


def _wrap_py(name, fn):
    real = getattr(_pyrandom, name)

    def dispatch(*a, **k):
        src = current()
        if src is None:
            return real(*a, **k)
        return fn(src, *a, **k)
    setattr(_pyrandom, name, dispatch)


def install():
    global _installed
    if _installed:
        return
    _installed = True
    for name, fn in _NP.items():
        if fn is not None and hasattr(np.random, name):
            _wrap_np(name, fn)
    for name in ("default_rng", "RandomState"):
        real = getattr(np.random, name)
        _real[name] = real

        def make(real):
            def dispatch(*a, **k):
                src = current()
                return real(*a, **k) if src is None else ControlledGenerator(src)
            return dispatch
        if name == "default_rng":
            setattr(np.random, name, make(real))
    real_seed = np.random.seed

    def seed(*a, **k):
        if current() is None:
            return real_seed(*a, **k)
    np.random.seed = seed
    _wrap_py("random", lambda s: s.units(None, "py"))
    _wrap_py("uniform", lambda s, a, b: a + (b - a) * s.units(None, "py"))
    _wrap_py("randint", lambda s, a, b: a + s.ints(b - a + 1, None, "py"))
    _wrap_py("randrange", lambda s, a, b=None: (a if b is not None else 0) + s.ints((b - a) if b is not None else a, None, "py"))
    _wrap_py("choice", lambda s, seq: seq[s.ints(len(seq), None, "py")])
    _wrap_py("sample", lambda s, seq, k: [seq[i] for i in s.subset(len(seq), k, "py")])
    _wrap_py("shuffle", lambda s, x: _shuffle(s, x))
