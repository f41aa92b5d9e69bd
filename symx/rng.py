"""Randomness as a nondeterministic stub.

Every draw returns an arbitrary value allowed by numpy's contract for the call (any k-permutation for
sampling without replacement, any permutation, any index for sampling with replacement).  Contract kept:
two generators built from the same seed produce the same draws in the same order; a generator built from
None, the legacy global generator, and distinct seeds are independent streams.

The same stub, scripted with the chosen draws, drives the replay on the unpatched code.
"""
import math
import numbers

import numpy as real_np

_CTX = None            # current ctx: provides choose(name, n)
_ANON = [0]
LOG = []               # every permutation drawn since set_ctx: (stream, [indices])
PERMS = None           # optional restriction of full permutations: function n -> list of permutations


def set_ctx(c):
    global _CTX, PERMS
    _CTX = c
    _ANON[0] = 0
    del LOG[:]
    PERMS = None


def restrict(f):
    global PERMS
    PERMS = f


def script(step=7):
    """restrict full permutations to one fixed sequence of pairwise different, non-identity permutations"""
    at = [0]

    def f(n):
        at[0] += 1
        return [_unrank_perm((1 + at[0] * step) % math.factorial(n) or 1, n, n)]
    restrict(f)


def _unrank_perm(idx, n, k):
    """idx-th k-permutation of range(n)"""
    pool, out = list(range(n)), []
    for i in range(k):
        f = math.perm(n - i - 1, k - i - 1)
        out.append(pool.pop(idx // f))
        idx %= f
    return out


class StubGenerator(real_np.random.Generator):
    def __new__(cls, stream):
        return super().__new__(cls, real_np.random.PCG64(0))

    def __init__(self, stream):
        super().__init__(real_np.random.PCG64(0))
        self._stream = stream
        self._k = 0

    def __reduce__(self):
        return (StubGenerator, (self._stream,))

    def __deepcopy__(self, memo):
        g = StubGenerator(self._stream)
        g._k = self._k
        return g

    def _draw(self, what, n):
        name = "rng[%s#%d:%s]" % (self._stream, self._k, what)
        self._k += 1
        if n <= 1:
            return 0
        return _CTX.choose(name, n)

    # -- numpy.random.Generator interface ------------------------------------------------------
    def _kperm(self, n, k):
        if PERMS is not None and n == k and n > 1:
            ps = PERMS(n)
            p = list(ps[self._draw("perm%d" % n, len(ps))])
        else:
            p = _unrank_perm(self._draw("perm%d_%d" % (n, k), math.perm(n, k)), n, k)
        LOG.append((self._stream, p))
        return p

    def permutation(self, x, axis=0):
        if isinstance(x, (numbers.Integral, real_np.integer)):
            return real_np.array(self._kperm(int(x), int(x)), dtype=int)
        a = real_np.asarray(x)
        return a[self._kperm(len(a), len(a))]

    permuted = permutation

    def shuffle(self, x, axis=0):
        p = self._kperm(len(x), len(x))
        c = [x[i] for i in p]
        for i, v in enumerate(c):
            x[i] = v

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if p is not None:
            raise NotImplementedError("weights")
        pool = real_np.arange(int(a)) if isinstance(a, (numbers.Integral, real_np.integer)) else real_np.asarray(a)
        n = len(pool)
        k = 1 if size is None else int(size) if not isinstance(size, tuple) else int(real_np.prod(size))
        if not replace:
            if k > n:
                raise ValueError("Cannot take a larger sample than population when replace is False")
            idx = self._kperm(n, k)
        else:
            idx = [self._draw("int%d" % n, n) for _ in range(k)]
        if size is None:
            return pool[idx[0]]
        r = pool[real_np.array(idx, dtype=int)] if k else pool[:0]
        return r.reshape(size) if isinstance(size, tuple) else r

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        n = int(high) - int(low) + (1 if endpoint else 0)
        if n > 64:      # seeds drawn from a generator: an arbitrary token of the stream
            name = "%s/%d" % (self._stream, self._k)
            self._k += 1
            import zlib
            return int(low) + zlib.crc32(name.encode()) % n
        k = 1 if size is None else int(real_np.prod(size))
        v = [int(low) + self._draw("int%d" % n, n) for _ in range(k)]
        return v[0] if size is None else real_np.array(v).reshape(size)

    randint = integers

    def random(self, size=None, dtype=float, out=None):
        raise NotImplementedError("continuous draw")

    def spawn(self, n):
        r = [StubGenerator("%s/s%d.%d" % (self._stream, self._k, i)) for i in range(n)]
        self._k += 1
        return r


def default_rng(seed=None):
    if isinstance(seed, real_np.random.Generator):
        return seed
    if seed is None:
        _ANON[0] += 1
        return StubGenerator("anon%d" % _ANON[0])
    return StubGenerator("seed%s" % (seed,))


class _Legacy:
    """the global / RandomState interface"""

    def __init__(self, g):
        self._g = g
        for n in ("permutation", "shuffle", "choice", "randint", "random"):
            setattr(self, n, getattr(g, n))


def RandomState(seed=None):
    if seed is None:
        _ANON[0] += 1
        return StubGenerator("anonRS%d" % _ANON[0])
    return StubGenerator("rs%s" % (seed,))


def _global():
    _ANON[0] += 1
    return StubGenerator("global%d" % _ANON[0])


def overrides():
    o = {"default_rng": default_rng, "RandomState": RandomState, "seed": lambda s=None: None}
    for n in ("permutation", "shuffle", "choice", "randint"):
        o[n] = (lambda n: lambda *a, **k: getattr(_global(), n)(*a, **k))(n)
    return o


def patch_pandas_random():
    import pandas.core.common as com

    def random_state(state=None):
        if isinstance(state, real_np.random.Generator):
            return state
        if state is None:
            return _global()
        if isinstance(state, (numbers.Integral, real_np.integer)):
            return RandomState(int(state))
        raise ValueError("random_state")
    com.random_state = random_state


def patch_numpy_concrete():
    for n, f in overrides().items():
        setattr(real_np.random, n, f)
