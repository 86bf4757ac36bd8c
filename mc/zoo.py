"""Catalogue of model instances with finite alphabets and independent closed forms.

Every entry is deliberately boring: parameters and experiments are lists of
plain numbers, the reference probability of an outcome is a scalar function
written from the documentation.
"""
import math
import numpy as np
import qinfer as qi
from qinfer.abstract_model import FiniteOutcomeModel, DifferentiableModel, Model
from qinfer.domains import IntegerDomain
from qinfer import distributions as qd

LN2 = math.log(2)


class Entry(object):
    def __init__(self, name, make, params, eps, outcomes, prob, invalid=(), scalar=False, n_out_const=True,
                 tags=()):
        self.name, self.make = name, make
        self.params = [tuple(float(x) for x in p) for p in params]
        self.eps = eps                       # list of plain values / tuples
        self.outcomes = outcomes             # fn(ep) -> list of plain outcomes (int or tuple of counts)
        self.prob = prob                     # fn(outcome, params, ep) -> float
        self.invalid = [tuple(float(x) for x in p) for p in invalid]
        self.scalar = scalar
        self.n_out_const = n_out_const
        self.tags = set(tags)

    def mps(self, rows=None):
        return np.array(self.params if rows is None else [self.params[i] for i in rows], dtype=float).reshape(
            (-1, len(self.params[0])))

    def ep_array(self, model, idxs=None):
        eps = self.eps if idxs is None else [self.eps[i] for i in idxs]
        return np.array(eps, dtype=model.expparams_dtype)

    def out_array(self, model, outs):
        return out_array(model, self, outs)


def out_array(model, entry, outs):
    """Array of outcomes in the dtype of the model's domain."""
    if outs and isinstance(outs[0], tuple):
        k = len(outs[0])
        a = np.zeros(len(outs), dtype=[('k', int, k)])
        for i, o in enumerate(outs):
            a['k'][i] = o
        return a
    return np.array(outs, dtype=int)


def plain_outcome(o):
    """Plain form of a simulated outcome."""
    if isinstance(o, (np.void,)) or (isinstance(o, np.ndarray) and o.dtype.names):
        v = o[o.dtype.names[0]]
        return tuple(int(x) for x in np.asarray(v).ravel())
    return int(o) if not isinstance(o, (float, np.floating)) else float(o)


# ---------------------------------------------------------------------------
# harness model: arbitrary table

class TableModel(FiniteOutcomeModel):
    """Pr(o | x, e) read from a table; x[0] selects the row by rounding.

    Used where exactly known probabilities (including zeros and ones) and
    outcome counts that vary with the experiment are needed.
    """
    def __init__(self, table, n_out, n_params=1, counter=None):
        # table[ep][row] = tuple of probabilities
        self._table = table
        self._n_out = list(n_out)
        self._np = n_params
        self._counter = counter
        super(TableModel, self).__init__()

    @property
    def n_modelparams(self): return self._np

    @property
    def modelparam_names(self): return ['x%d' % i for i in range(self._np)]

    @property
    def expparams_dtype(self): return [('e', 'int')]

    @property
    def is_n_outcomes_constant(self): return len(set(self._n_out)) == 1

    def n_outcomes(self, expparams):
        if self.is_n_outcomes_constant:
            return self._n_out[0]
        return np.array([self._n_out[int(e)] for e in np.atleast_1d(expparams['e'])])

    def are_models_valid(self, modelparams):
        return np.logical_and(modelparams[:, 0] > -0.5, modelparams[:, 0] < len(self._table[0]) - 0.5)

    def likelihood(self, outcomes, modelparams, expparams):
        super(TableModel, self).likelihood(outcomes, modelparams, expparams)
        L = np.zeros((len(outcomes), modelparams.shape[0], expparams.shape[0]))
        for io, o in enumerate(outcomes):
            for im in range(modelparams.shape[0]):
                r = int(min(max(round(float(modelparams[im, 0])), 0), len(self._table[0]) - 1))
                for ie in range(expparams.shape[0]):
                    ps = self._table[int(expparams['e'][ie])][r]
                    L[io, im, ie] = ps[int(o)] if int(o) < len(ps) else 0.0
        return L


TABLE2 = [  # experiment -> row -> probabilities of outcomes 0, 1
    [(0.5, 0.5), (0.25, 0.75), (1.0, 0.0), (0.75, 0.25)],
    [(0.0, 1.0), (0.5, 0.5), (0.25, 0.75), (1.0, 0.0)],
    [(0.125, 0.875), (0.125, 0.875), (0.125, 0.875), (0.125, 0.875)],
]
TABLE3 = [
    [(0.5, 0.25, 0.25), (0.25, 0.0, 0.75), (0.0, 1.0, 0.0), (0.125, 0.375, 0.5)],
    [(1.0, 0.0, 0.0), (0.25, 0.5, 0.25), (0.5, 0.5, 0.0), (0.25, 0.25, 0.5)],
]
TABLEV = [  # outcome count varies with the experiment
    [(0.5, 0.5), (0.25, 0.75), (1.0, 0.0), (0.75, 0.25)],
    [(0.5, 0.25, 0.25, 0.0), (0.25, 0.0, 0.5, 0.25), (0.0, 1.0, 0.0, 0.0), (0.125, 0.375, 0.25, 0.25)],
    [(1.0,), (1.0,), (1.0,), (1.0,)],
    [(0.25, 0.25, 0.5), (0.5, 0.0, 0.5), (0.0, 0.0, 1.0), (0.125, 0.625, 0.25)],
]


def table_entry(name, table):
    n_out = [len(r[0]) for r in table]
    np_ = 1
    return Entry(name, lambda: TableModel(table, n_out), [(i,) for i in range(len(table[0]))],
                 [(e,) for e in range(len(table))],
                 lambda ep: list(range(n_out[ep[0]])),
                 lambda o, p, ep: table[ep[0]][int(p[0])][o],
                 invalid=[(-3,), (9,)], n_out_const=len(set(n_out)) == 1, tags=['table'])


def cos2(x):
    return math.cos(x) ** 2


def two(pr0):
    return lambda o, p, ep: pr0(p, ep) if o == 0 else 1 - pr0(p, ep)


def rb_pr0(p, ep):
    m = ep[0]
    return 1 - (p[1] * p[0] ** m + p[2])


def rb_il_pr0(p, ep):
    pt, pr, A, B = p
    m, ref = ep
    base = pr if ref else pt * pr
    return 1 - (A * base ** m + B)


BASE = []
BASE.append(Entry('coin', lambda: qi.CoinModel(), [(0.25,), (0.5,), (0.875,), (0.0,), (1.0,)], [()],
                  lambda ep: [0, 1], two(lambda p, ep: p[0]), invalid=[(-0.1,), (1.25,)], tags=['two', 'diff', 'exact']))
BASE.append(Entry('noisycoin', lambda: qi.NoisyCoinModel(), [(0.25,), (0.5,), (1.0,), (0.0,)],
                  [(1.0, 0.0), (0.5, 0.25), (0.75, 0.75), (0.0, 1.0), (1.0, 0.5)], lambda ep: [0, 1],
                  two(lambda p, ep: p[0] * ep[0] + (1 - p[0]) * ep[1]), invalid=[(-0.5,), (1.5,)], tags=['two', 'exact16']))
BASE.append(Entry('precession', lambda: qi.SimplePrecessionModel(),
                  [(math.pi / 3,), (math.pi / 2,), (math.pi,), (0.7,), (2.3,)],
                  [1.0, 2.0, 0.5, 6.0, 0.0], lambda ep: [0, 1], two(lambda p, ep: cos2(p[0] * ep / 2)),
                  invalid=[(-1.0,), (0.0,)], scalar=True, tags=['two', 'diff']))
BASE.append(Entry('inversion', lambda: qi.SimpleInversionModel(),
                  [(0.6,), (1.1,), (math.pi,), (2.0,)],
                  [(1.0, 0.0), (2.0, 0.35), (0.5, -1.25), (7.0, 1.9)], lambda ep: [0, 1],
                  two(lambda p, ep: cos2((p[0] - ep[1]) * ep[0] / 2)), invalid=[(-1.0,), (0.0,)], tags=['two', 'diff']))
BASE.append(Entry('inversion_min', lambda: qi.SimpleInversionModel(min_freq=0.5),
                  [(0.6,), (1.1,)], [(1.0, 0.0), (2.0, 0.35)], lambda ep: [0, 1],
                  two(lambda p, ep: cos2((p[0] - ep[1]) * ep[0] / 2)), invalid=[(0.4,), (0.5,), (-2,)], tags=['two', 'diff', 'min']))
BASE.append(Entry('precession_min', lambda: qi.SimplePrecessionModel(min_freq=-1),
                  [(-0.6,), (1.1,), (0.0,)], [1.0, 2.5], lambda ep: [0, 1],
                  two(lambda p, ep: cos2(p[0] * ep / 2)), invalid=[(-1.0,), (-2,)], scalar=True, tags=['two', 'diff', 'min']))
BASE.append(Entry('unknownT2', lambda: qi.UnknownT2Model(),
                  [(math.pi / 3, LN2), (math.pi, 0.0), (1.3, 0.4), (0.0, 2.0)],
                  [(1.0,), (2.0,), (0.0,), (3.5,)], lambda ep: [0, 1],
                  two(lambda p, ep: math.exp(-ep[0] * p[1]) * cos2(p[0] * ep[0] / 2) + (1 - math.exp(-ep[0] * p[1])) / 2),
                  invalid=[(-1.0, 0.1), (1.0, -0.1)], tags=['two']))
BASE.append(Entry('rb', lambda: qi.RandomizedBenchmarkingModel(),
                  [(0.5, 0.5, 0.5), (1.0, 0.25, 0.5), (0.9, 0.3, 0.45), (0.0, 0.5, 0.25), (0.25, 0.0, 1.0)],
                  [(1,), (2,), (0,), (5,)], lambda ep: [0, 1], two(rb_pr0),
                  invalid=[(1.1, 0.5, 0.5), (0.5, 0.75, 0.5), (0.5, -0.1, 0.5), (-0.1, 0.3, 0.5), (0.5, 0.3, -0.1), (.5, 1.2, .1)], tags=['two', 'diff']))
BASE.append(Entry('rb_il', lambda: qi.RandomizedBenchmarkingModel(interleaved=True),
                  [(0.5, 0.5, 0.5, 0.5), (0.5, 1.0, 0.25, 0.5), (0.9, 0.95, 0.3, 0.45), (1.0, 0.25, 0.5, 0.25)],
                  [(1, True), (1, False), (2, False), (4, True), (3, False)], lambda ep: [0, 1], two(rb_il_pr0),
                  invalid=[(1.1, 0.5, 0.5, 0.5), (0.5, 1.2, 0.5, 0.5), (0.5, 0.5, 0.75, 0.5), (0.5, 0.5, -0.1, 0.5), (-0.5, 0.5, .3, .3), (.5, -.5, .3, .3)],
                  tags=['two', 'diff']))
BASE.append(Entry('ndie3', lambda: qi.NDieModel(3), [(0.5, 0.25, 0.25), (0.0, 0.125, 0.875), (1.0, 0.0, 0.0)],
                  [(0,), (7,)], lambda ep: [0, 1, 2], lambda o, p, ep: p[o],
                  invalid=[(0.5, 0.5, 0.5), (1.5, -0.25, -0.25), (0.2, 0.2, 0.2)], tags=['exact']))
BASE.append(Entry('ndie6', lambda: qi.NDieModel(), [(0.125, 0.125, 0.25, 0.25, 0.125, 0.125), (0, 0, 0, 0, 0.5, 0.5)],
                  [(0,)], lambda ep: list(range(6)), lambda o, p, ep: p[o],
                  invalid=[(0.5,) * 6], tags=['exact']))
BASE.append(table_entry('table2', TABLE2))
BASE.append(table_entry('table3', TABLE3))
BASE.append(table_entry('tablev', TABLEV))
BY = {e.name: e for e in BASE}


# ---------------------------------------------------------------------------
# wrappers

def _tup(ep, scalar):
    return (ep,) if scalar else tuple(ep)


def binomial(e, ns=(1, 2, 3), cls=None):
    cls = cls or qi.BinomialModel
    eps = [_tup(ep, e.scalar) + (n,) for ep in e.eps for n in ns]

    def under(ep):
        return ep[0] if e.scalar else ep[:-1]

    def prob(o, p, ep):
        n = ep[-1]
        p1 = e.prob(1, p, under(ep))
        return math.comb(n, o) * p1 ** o * (1 - p1) ** (n - o) if 0 <= o <= n else 0.0
    return Entry('binomial(%s)' % e.name, lambda: cls(e.make()), e.params, eps,
                 lambda ep: list(range(ep[-1] + 1)), prob, e.invalid, n_out_const=False,
                 tags=(e.tags - {'two', 'exact', 'exact16'}) | {'derived'})


def multinomial(e, ns=(1, 2, 3)):
    from .rng import compositions
    eps = [_tup(ep, e.scalar) + (n,) for ep in e.eps for n in ns]

    def under(ep):
        return ep[0] if e.scalar else ep[:-1]
    k = len(e.outcomes(e.eps[0]))

    def prob(o, p, ep):
        n = ep[-1]
        x = float(math.factorial(n))
        for i, c in enumerate(o):
            x = x / math.factorial(c) * e.prob(i, p, under(ep)) ** c
        return x
    return Entry('multinomial(%s)' % e.name, lambda: qi.MultinomialModel(e.make()), e.params, eps,
                 lambda ep: list(compositions(ep[-1], k)), prob, e.invalid, n_out_const=False,
                 tags=(e.tags - {'two', 'exact', 'exact16', 'diff'}) | {'derived', 'multi'})


def passthru(e, name, mk, tags=(), prob=None, params=None, invalid=None, const=None):
    return Entry('%s(%s)' % (name, e.name), lambda: mk(e.make()), params or e.params, e.eps, e.outcomes, prob or e.prob,
                 e.invalid if invalid is None else invalid, e.scalar,
                 e.n_out_const if const is None else const, (e.tags - {'diff'}) | {'derived'} | set(tags))


class ZeroDist(qd.Distribution):
    def __init__(self, n): self._n = n

    @property
    def n_rvs(self): return self._n

    def sample(self, n=1): return np.zeros((n, self._n))


def walk(e):
    return passthru(e, 'walk', lambda m: qi.RandomWalkModel(m, ZeroDist(m.n_modelparams)), tags=['walk'])


def gwalk_fixed(e):
    return passthru(e, 'gwalk_fixed', lambda m: qi.GaussianRandomWalkModel(
        m, fixed_covariance=np.ones(m.n_modelparams)), tags=['gwalk'], const=False)


def gwalk_learn(e):
    k = len(e.params[0])
    def strip(f):
        return lambda o, p, ep: f(o, p[:k], ep)
    return passthru(e, 'gwalk_learn', lambda m: qi.GaussianRandomWalkModel(m), tags=['gwalk', 'extra'],
                    prob=strip(e.prob), params=[p + tuple(0.5 + 0.25 * i for i in range(k)) for p in e.params],
                    invalid=[p + (1.0,) * k for p in e.invalid] + [e.params[0] + (-0.5,) * k], const=False)


def gwalk_dense(e):
    k = len(e.params[0])
    t = k * (k + 1) // 2
    def strip(f):
        return lambda o, p, ep: f(o, p[:k], ep)
    return passthru(e, 'gwalk_dense', lambda m: qi.GaussianRandomWalkModel(m, diagonal=False), tags=['gwalk', 'extra'],
                    prob=strip(e.prob), params=[p + tuple(0.5 + 0.25 * i for i in range(t)) for p in e.params],
                    invalid=[p + (1.0,) * t for p in e.invalid], const=False)


def mle(e, power=3):
    return passthru(e, 'mle%g' % power, lambda m: qi.MLEModel(m, power), tags=['mle'],
                    prob=lambda o, p, ep: e.prob(o, p, ep) ** power)


def plainderived(e):
    from qinfer.derived_models import DerivedModel
    class Plain(DerivedModel):
        def likelihood(self, o, m, x):
            super(Plain, self).likelihood(o, m, x)
            return self.underlying_model.likelihood(o, m, x)
        def simulate_experiment(self, m, x, repeat=1):
            super(Plain, self).simulate_experiment(m, x, repeat)
            return self.underlying_model.simulate_experiment(m, x, repeat)
    return passthru(e, 'plain', Plain)


def all_finite(depth2=False):
    """Finite-outcome entries whose likelihood is a normalised distribution."""
    out = list(BASE)
    for e in BASE:
        if 'two' in e.tags:
            out.append(binomial(e))
        if e.n_out_const:
            out.append(multinomial(e, ns=(1, 2) if len(e.outcomes(e.eps[0])) > 3 else (1, 2, 3)))
        out.append(walk(e))
        out.append(gwalk_fixed(e))
        out.append(gwalk_learn(e))
        out.append(gwalk_dense(e))
    if depth2:
        two = [e for e in out if 'derived' not in e.tags]
        for e in list(out):
            if 'derived' in e.tags and e.name.startswith(('binomial', 'multinomial')):
                out.append(walk(e))
                out.append(gwalk_learn(e))
            elif e.name.startswith(('walk', 'gwalk')) and 'two' in e.tags and not e.name.startswith('gwalk'):
                out.append(binomial(e))
                out.append(multinomial(e))
    return out


class ListPrior(qd.Distribution):
    """Prior that hands out fixed rows in order (deterministic)."""
    def __init__(self, rows):
        self._rows = np.array(rows, dtype=float)
        if self._rows.ndim == 1:
            self._rows = self._rows[:, None]

    @property
    def n_rvs(self): return self._rows.shape[1]

    def sample(self, n=1):
        return np.array([self._rows[i % len(self._rows)] for i in range(n)]).reshape(n, self.n_rvs)

    def grad_log_pdf(self, x):
        return np.zeros_like(x)
