import math, itertools
import numpy as np
import qinfer as qi
from . import zoo, core, rng


def mk(model, rows, weights=None, cls=None, **kw):
    """A fresh updater whose particles are exactly the given rows."""
    cls = cls or qi.SMCUpdater
    rows = np.array(rows, dtype=float)
    if rows.ndim == 1:
        rows = rows[:, None]
    u = cls(model, rows.shape[0], zoo.ListPrior(rows), **kw)
    if weights is not None:
        u.particle_weights = np.array(weights, dtype=float)
    return u


def norm_w(ws):
    s = float(sum(ws))
    return [w / s for w in ws]


def ref_update(ws, ls):
    """Posterior weights and evidence, plain Python."""
    un = [w * l for w, l in zip(ws, ls)]
    z = math.fsum(un)
    return ([x / z for x in un] if z > 0 else [0.0] * len(un)), z


def ess(ws):
    s = math.fsum(w * w for w in ws)
    return 1 / s if s else float('inf')


def weight_patterns(n, full=False):
    """Simplest first: uniform, skewed dyadic, with a zero, concentrated."""
    pats = [[1.0 / n] * n]
    pats.append(norm_w([2.0 ** i for i in range(n)]))
    pats.append(norm_w([0.0 if i == 0 else 1.0 + (i % 2) for i in range(n)]) if n > 1 else [1.0])
    if full:
        pats.append(norm_w([1.0 if i == n - 1 else 0.0 for i in range(n)]))
        pats.append(norm_w([0.0 if i == n - 1 else 1.0 + i for i in range(n)]) if n > 1 else [1.0])
        pats.append(norm_w([1.0 if i % 2 else 1e-9 for i in range(n)]) if n > 1 else [1.0])
    return pats


def snap(u):
    """Observable state of an updater."""
    d = dict(w=np.array(u.particle_weights, copy=True), x=np.array(u.particle_locations, copy=True),
             data=list(u.data_record), norm=[float(np.asarray(v).ravel()[0]) for v in u.normalization_record],
             rc=u.resample_count, jr=bool(u.just_resampled), mn=float(u.min_n_ess),
             div=None if u.resampling_divergences is None else list(u.resampling_divergences))
    return d


def same_snap(a, b, tol=0.0):
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray):
            if x.shape != y.shape or not np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True):
                return k
        elif k == 'data':
            if len(x) != len(y) or any(not np.array_equal(np.asarray(p), np.asarray(q)) for p, q in zip(x, y)):
                return k
        elif isinstance(x, float):
            if not (x == y or abs(x - y) <= tol * (1 + abs(x)) or (x != x and y != y)):
                return k
        elif isinstance(x, list):
            if len(x) != len(y) or not np.allclose(np.array(x, dtype=float), np.array(y, dtype=float), rtol=tol,
                                                   atol=tol, equal_nan=True):
                return k
        elif x != y:
            return k
    return None


def compositions_of(n):
    """All ordered partitions of n into positive parts."""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for rest in compositions_of(n - k):
            yield (k,) + rest


def lattice(vals, d):
    return list(itertools.product(vals, repeat=d))


class RotResampler(object):
    """Deterministic resampler used to check what happens between resamplings."""
    def __init__(self): self.calls = 0

    def __call__(self, model, dist, **kw):
        self.calls += 1
        x = np.roll(dist.particle_locations, 1, axis=0)
        n = x.shape[0]
        return qi.ParticleDistribution(particle_locations=x, particle_weights=np.ones(n) / n)


def over_one(k, q):
    """Probability vectors of k sides, multiples of 1/q with exact sum one, whose rounded partial sums exceed one."""
    seen = []
    for cnt in itertools.product(range(1, q), repeat=k - 1):
        if sum(cnt) == q:
            row = tuple(x / q for x in cnt) + (0.0,)
            if float(np.sum(np.array(row[:-1])[:, None, None], axis=0)[0, 0]) > 1 or sum(row) > 1:
                seen.append(row)
    return seen
