"""The random seam.

`np.random.mtrand._rand` and every module-level `np.random.*` function are
rebound to one RandomState subclass.  While an exploration is active each
random *answer* is a choice point of the explorer with an exact probability
weight, so enumerating the choice tree enumerates the whole (discretised)
behaviour of the real code.  Outside an exploration it is a seeded Mersenne
twister.

Discretisation: uniform -> midpoints of n equal cells; normal -> a short
quadrature rule (two points +-1 reproduces mean and covariance exactly);
finite discrete laws -> their exact weights; other continuous laws -> quantile
function at the uniform cell midpoints.
"""
import itertools, math
import numpy as np

GH2 = ((-1.0, 0.5), (1.0, 0.5))
GH3 = ((0.0, 2.0 / 3), (-math.sqrt(3.0), 1.0 / 6), (math.sqrt(3.0), 1.0 / 6))

_Base = np.random.RandomState


def _shape(size):
    if size is None:
        return None
    if np.ndim(size) == 0:
        return (int(size),)
    return tuple(int(s) for s in size)


class ControlledRandomState(_Base):
    """ctx is the active explorer run (or None)."""
    ctx = None
    draws = 0      # total number of answers handed out (any mode)

    def __reduce__(self):
        # a pickled copy of anything holding the source keeps holding the source
        return (get, ())

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # -- primitives -------------------------------------------------------
    def _u(self):
        self.draws += 1
        g = self.ctx.ugrid
        return g[self.ctx.choose(len(g), None, 'u')]

    def _z(self):
        self.draws += 1
        g = self.ctx.zgrid
        return g[self.ctx.choose(len(g), [w for _, w in g], 'z')][0]

    def _i(self, weights):
        """Index drawn with the given weights; zero-weight indices are not options."""
        self.draws += 1
        w = np.asarray(weights, dtype=float)
        opts = [k for k in range(len(w)) if w[k] > 0]
        tot = float(w.sum())
        k = self.ctx.choose(len(opts), [float(w[o]) / tot for o in opts], 'i')
        return opts[k]

    def _fill(self, size, f):
        sh = _shape(size)
        if sh is None:
            return f()
        n = int(np.prod(sh)) if sh else 1
        vals = [f() for _ in range(n)]
        return np.array(vals, dtype=float).reshape(sh)

    def _bfill(self, size, args, f):
        """Broadcasting version: f(*scalars)."""
        args = [np.asarray(a, dtype=float) for a in args]
        sh = _shape(size)
        bsh = np.broadcast(*args).shape if args else ()
        if sh is None:
            if bsh == ():
                return f(*[a.item() for a in args])
            sh = bsh
        bargs = [np.broadcast_to(a, sh) for a in args]
        out = np.zeros(sh)
        for ix in np.ndindex(*sh):
            out[ix] = f(*[b[ix] for b in bargs])
        return out

    # -- uniform ----------------------------------------------------------
    def random_sample(self, size=None):
        if self.ctx is None: return _Base.random_sample(self, size)
        return self._fill(size, self._u)

    def random(self, size=None):
        return self.random_sample(size)

    def ranf(self, *a, **k):
        return self.random_sample(*a, **k)

    def sample(self, *a, **k):
        return self.random_sample(*a, **k)

    def rand(self, *args):
        if self.ctx is None: return _Base.rand(self, *args)
        return self.random_sample(args if args else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        if self.ctx is None: return _Base.uniform(self, low, high, size)
        return self._bfill(size, (low, high), lambda l, h: l + (h - l) * self._u())

    # -- normal -----------------------------------------------------------
    def standard_normal(self, size=None):
        if self.ctx is None: return _Base.standard_normal(self, size)
        return self._fill(size, self._z)

    def randn(self, *args):
        if self.ctx is None: return _Base.randn(self, *args)
        return self.standard_normal(args if args else None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if self.ctx is None: return _Base.normal(self, loc, scale, size)
        if np.any(np.asarray(scale) < 0): raise ValueError('scale < 0')
        return self._bfill(size, (loc, scale), lambda l, s: l + s * self._z())

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        if self.ctx is None: return _Base.lognormal(self, mean, sigma, size)
        return np.exp(self.normal(mean, sigma, size))

    def multivariate_normal(self, mean, cov, size=None, check_valid='warn', tol=1e-8):
        if self.ctx is None: return _Base.multivariate_normal(self, mean, cov, size, check_valid, tol)
        mean = np.asarray(mean, dtype=float); cov = np.asarray(cov, dtype=float)
        w, v = np.linalg.eigh(cov)
        root = v * np.sqrt(np.clip(w, 0, None))
        sh = _shape(size)
        d = len(mean)
        if sh is None:
            return mean + root.dot([self._z() for _ in range(d)])
        n = int(np.prod(sh))
        return np.array([mean + root.dot([self._z() for _ in range(d)]) for _ in range(n)]).reshape(sh + (d,))

    # -- discrete ---------------------------------------------------------
    def choice(self, a, size=None, replace=True, p=None):
        if self.ctx is None: return _Base.choice(self, a, size, replace, p)
        arr = np.array(a, copy=False)
        if arr.ndim == 0:
            n = int(arr.item()); arr = np.arange(n)
        else:
            if arr.ndim != 1:
                raise ValueError("a must be 1-dimensional")
            n = len(arr)
        sh = _shape(size)
        cnt = 1 if sh is None else (int(np.prod(sh)) if sh else 1)
        if n == 0 and cnt > 0:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        if p is not None:
            p = np.asarray(p, dtype=float)
            if p.ndim != 1 or len(p) != n: raise ValueError("'a' and 'p' must have same size")
            if not np.all(np.isfinite(p)): raise ValueError("probabilities contain NaN")
            if np.any(p < 0): raise ValueError("probabilities are not non-negative")
            if abs(p.sum() - 1) > 1e-7: raise ValueError("probabilities do not sum to 1")
        else:
            p = np.ones(n) / max(n, 1)
        if replace:
            idx = [self._i(p) for _ in range(cnt)]
        else:
            if cnt > n: raise ValueError("Cannot take a larger sample than population when 'replace=False'")
            q = p.copy(); idx = []
            for _ in range(cnt):
                k = self._i(q); idx.append(k); q[k] = 0
        if sh is None:
            # like numpy: choosing from a range gives a plain integer
            return int(idx[0]) if np.ndim(a) == 0 else arr[idx[0]]
        return arr[np.array(idx, dtype=int).reshape(sh)]

    def randint(self, low, high=None, size=None, dtype=int):
        if self.ctx is None: return _Base.randint(self, low, high, size, dtype)
        if high is None: low, high = 0, low
        if np.ndim(low) == 0 and np.ndim(high) == 0 and high <= low: raise ValueError('low >= high')
        r = self._bfill(size, (low, high), lambda l, h: l + self._i(np.ones(int(h - l))))
        return int(r) if np.ndim(r) == 0 else np.asarray(r).astype(dtype)

    def random_integers(self, low, high=None, size=None):
        if self.ctx is None: return _Base.random_integers(self, low, high, size)
        if high is None: low, high = 1, low
        return self.randint(low, high + 1, size)

    def permutation(self, x):
        if self.ctx is None: return _Base.permutation(self, x)
        arr = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        pool = list(range(len(arr))); order = []
        while pool:
            order.append(pool.pop(self._i(np.ones(len(pool)))))
        return arr[order]

    def shuffle(self, x):
        if self.ctx is None: return _Base.shuffle(self, x)
        order = self.permutation(len(x))
        vals = [x[i] if np.ndim(x[i]) == 0 else np.array(x[i]) for i in order]
        for i, v in enumerate(vals):
            x[i] = v

    def binomial(self, n, p, size=None):
        if self.ctx is None: return _Base.binomial(self, n, p, size)
        def one(nn, pp):
            nn = int(nn)
            if not (0 <= pp <= 1): raise ValueError('p < 0, p > 1 or p is NaN')
            return self._i([math.comb(nn, k) * pp ** k * (1 - pp) ** (nn - k) for k in range(nn + 1)])
        r = self._bfill(size, (n, p), one)
        return int(r) if np.ndim(r) == 0 else np.asarray(r).astype(int)

    def multinomial(self, n, pvals, size=None):
        if self.ctx is None: return _Base.multinomial(self, n, pvals, size)
        p = np.asarray(pvals, dtype=float)
        if np.any(np.isnan(p)) or np.any(p < 0) or np.any(p > 1): raise ValueError('pvals < 0, pvals > 1 or pvals contains NaNs')
        if p[:-1].sum() > 1 + 1e-12: raise ValueError('sum(pvals[:-1]) > 1.0')
        q = p.copy(); q[-1] = max(0.0, 1 - p[:-1].sum())
        n = int(n)
        comps = list(compositions(n, len(p)))
        w = []
        for c in comps:
            x = float(math.factorial(n))
            for ci, qi in zip(c, q):
                x *= qi ** ci / math.factorial(ci)
            w.append(x)
        sh = _shape(size)
        if sh is None:
            return np.array(comps[self._i(w)])
        cnt = int(np.prod(sh))
        return np.array([comps[self._i(w)] for _ in range(cnt)], dtype=int).reshape(sh + (len(p),))

    # -- continuous by quantiles -----------------------------------------
    def _q(self, dist, size, *args):
        return self._bfill(size, args, lambda *a: float(dist(*a).ppf(self._u())))

    def beta(self, a, b, size=None):
        if self.ctx is None: return _Base.beta(self, a, b, size)
        import scipy.stats as st
        return self._q(st.beta, size, a, b)

    def standard_gamma(self, shape, size=None):
        if self.ctx is None: return _Base.standard_gamma(self, shape, size)
        import scipy.stats as st
        return self._q(st.gamma, size, shape)

    def gamma(self, shape, scale=1.0, size=None):
        if self.ctx is None: return _Base.gamma(self, shape, scale, size)
        import scipy.stats as st
        return self._bfill(size, (shape, scale), lambda k, t: t * float(st.gamma(k).ppf(self._u())))

    def chisquare(self, df, size=None):
        if self.ctx is None: return _Base.chisquare(self, df, size)
        import scipy.stats as st
        return self._q(st.chi2, size, df)

    def standard_exponential(self, size=None):
        if self.ctx is None: return _Base.standard_exponential(self, size)
        return self._fill(size, lambda: -math.log(1 - self._u()))

    def exponential(self, scale=1.0, size=None):
        if self.ctx is None: return _Base.exponential(self, scale, size)
        return self._bfill(size, (scale,), lambda s: -s * math.log(1 - self._u()))

    def dirichlet(self, alpha, size=None):
        if self.ctx is None: return _Base.dirichlet(self, alpha, size)
        import scipy.stats as st
        alpha = np.asarray(alpha, dtype=float)
        def one():
            g = np.array([float(st.gamma(a).ppf(self._u())) for a in alpha])
            return g / g.sum()
        sh = _shape(size)
        if sh is None: return one()
        return np.array([one() for _ in range(int(np.prod(sh)))]).reshape(sh + alpha.shape)

    def poisson(self, lam=1.0, size=None):
        if self.ctx is None: return _Base.poisson(self, lam, size)
        import scipy.stats as st
        r = self._q(st.poisson, size, lam)
        return int(r) if np.ndim(r) == 0 else np.asarray(r).astype(int)


def compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for rest in compositions(n - i, k - 1):
            yield (i,) + rest


RNG = None
NAMES = ['beta', 'binomial', 'bytes', 'chisquare', 'choice', 'dirichlet', 'exponential', 'gamma',
         'lognormal', 'multinomial', 'multivariate_normal', 'normal', 'permutation', 'poisson', 'rand',
         'randint', 'randn', 'random', 'random_integers', 'random_sample', 'ranf', 'sample', 'seed',
         'shuffle', 'standard_exponential', 'standard_gamma', 'standard_normal', 'uniform',
         'get_state', 'set_state', 'laplace', 'geometric', 'f', 'pareto', 'rayleigh', 'weibull']


def install():
    global RNG
    if RNG is not None:
        return RNG
    RNG = ControlledRandomState(12345)
    mt = np.random.mtrand
    mt._rand = RNG
    for n in NAMES:
        f = getattr(RNG, n, None)
        if f is None:
            continue
        setattr(np.random, n, f)
        setattr(mt, n, f)
    return RNG


def get():
    return install()


def seed(s):
    _Base.seed(RNG, s)
