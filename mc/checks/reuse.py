"""Answers of models depend on the arguments only: every pair of calls on one model against a fresh model.

Calls come with arguments of equal and of different shapes, in new arrays and in the same arrays filled anew; what an
earlier call returned is overwritten before the second call; arguments are compared with what they were.
"""
import math
import numpy as np
import qinfer as qi
import qinfer.ale
from qinfer import distributions as qd
from .. import zoo, core
from ..util import *


class Spin(zoo.TableModel):
    """Two parameters; a canonical form, a time step and scales of its own."""
    def __init__(self):
        zoo.TableModel.__init__(self, [zoo.TABLE2[0], zoo.TABLE2[1]], [2, 2], n_params=2)
        self._Q = np.array([2.0, 0.5])

    @property
    def expparams_dtype(self): return [('e', 'int'), ('t', 'float')]

    def are_models_valid(self, m): return np.logical_and(np.abs(m[:, 0]) < 3.5, m[:, 1] >= -2)

    def canonicalize(self, m):
        m = np.array(m, copy=True)
        m[:, 0] = np.abs(m[:, 0])
        return m

    def update_timestep(self, m, ep):
        out = np.repeat(m[:, :, None], len(ep), axis=2).copy()
        out[:, 1, :] += ep['t'][None, :]
        return out

    def experiment_cost(self, ep): return ep['t'] + 1

    def likelihood(self, o, m, x): return zoo.TableModel.likelihood(self, o, np.abs(m), x)


class Subject(object):
    def __init__(self, name, make, P, E, outs, tags=()):
        self.name, self.make, self.P, self.E, self.outs, self.tags = name, make, P, E, outs, set(tags)


def of_entry(e):
    m = e.make()
    n, k = len(e.params), len(e.eps)
    P = [e.mps(r) for r in ([0, 1 % n], [1 % n, 0], [n - 1, n - 1], [0], [n - 1], [0, n - 1, 1 % n])]
    E = [e.ep_array(m, i) for i in ([0], [k - 1], [1 % k], [0, k - 1], [k - 1, 0], [0, 0], [0, 1 % k, k - 1])]
    return Subject(e.name, e.make, P, E, [e.out_array(m, e.outcomes(e.eps[i])) for i in (0, k - 1)], e.tags)


SPIN_P = [np.array(r, dtype=float) for r in ([(-1, 0.5), (2, -1)], [(2, -1), (-1, 0.5)], [(-3, 1.5), (0, 0)], [(-1, 0.5)], [(-3, 1)], [(1, 1), (-2, 2), (-3, 0)])]


def extra(P, *more):
    return [np.hstack([p, np.array([[m[i % len(m)] for m in more] for i in range(len(p))], dtype=float)]) for p in P]


def spins():
    S = [('spin', lambda: Spin(), SPIN_P, ()),
         ('gaussian(spin)', lambda: qi.GaussianHyperparameterizedModel(Spin()), extra(SPIN_P, (0.0, 1, 2), (4.0, -1, 3), (0.25, 1, 2), (1.0, 0.5, 2)), ('real',)),
         ('walk(spin)', lambda: qi.RandomWalkModel(Spin(), qd.ProductDistribution(qd.NormalDistribution(0, 1), qd.NormalDistribution(1, 4))), SPIN_P, ('walk',)),
         ('gwalk t(spin)', lambda: qi.GaussianRandomWalkModel(Spin(), fixed_covariance=np.array([1.0, 4.0]), scale_mult='t'), SPIN_P, ('walk',)),
         ('gwalk f(spin)', lambda: qi.GaussianRandomWalkModel(Spin(), random_walk_idxs=[1], fixed_covariance=np.array([4.0]), scale_mult=lambda e: 1 + e['t'] ** 2), SPIN_P, ('walk',)),
         ('gwalk full(spin)', lambda: qi.GaussianRandomWalkModel(Spin(), fixed_covariance=np.array([[1.0, .5], [.5, 4.0]]), diagonal=False, scale_mult='t'), SPIN_P, ('walk',)),
         ('gwalk learn(spin)', lambda: qi.GaussianRandomWalkModel(Spin(), scale_mult='t'), extra(SPIN_P, (0.5, 1, 2), (0.25, 3, 1)), ('walk', 'cov')),
         ('gwalk learn full(spin)', lambda: qi.GaussianRandomWalkModel(Spin(), diagonal=False, scale_mult='t'), extra(SPIN_P, (0.5, 1, 2), (0.25, 3, 1), (2, 1, 0.5)), ('walk', 'cov')),
         ('gwalk transform(spin)', lambda: qi.GaussianRandomWalkModel(Spin(), fixed_covariance=np.array([1.0, 4.0]), scale_mult='t', model_transformation=(lambda x: 2 * x, lambda x: x / 2)), SPIN_P, ('walk',)),
         ('gwalk transform learn(spin)', lambda: qi.GaussianRandomWalkModel(Spin(), model_transformation=(lambda x: x ** 3, np.cbrt)), extra(SPIN_P, (0.5, 1, 2), (0.25, 3, 1)), ('walk', 'cov')),
         ('mle(spin)', lambda: qi.MLEModel(Spin(), 2.5), SPIN_P, ()),
         ('poisoned ale(spin)', lambda: qi.PoisonedModel(Spin(), tol=0.05), SPIN_P, ()),
         ('poisoned mle(spin)', lambda: qi.PoisonedModel(Spin(), n_samples=10, hedge=0.5), SPIN_P, ()),
         ('ale(spin)', lambda: qinfer.ale.ALEApproximateModel(Spin(), error_tol=0.2, adapt_hedge=0.5), SPIN_P, ('slow',))]
    for name, f, P, tags in S:
        E = [np.array(e, dtype=[('e', 'int'), ('t', 'float')]) for e in ([(0, 1.0)], [(1, 3.0)], [(0, 0.25)], [(0, 1.0), (1, 3.0)], [(1, 3.0), (0, 1.0)], [(0, 1.0), (0, 1.0)], [(1, 0.0), (0, 0.5), (1, 2.0)])]
        yield Subject(name, f, P, E, [np.array([0, 1]), np.array([1])] if 'real' not in tags else [np.array([0.3, -1.0]), np.array([2.5, 1.0])], tags)
    for name, f, k in (('binomial', qi.BinomialModel, 0), ('multinomial', qi.MultinomialModel, 1)):
        def mk_(f=f): return f(Spin())
        m = mk_()
        E = [np.array(e, dtype=m.expparams_dtype) for e in ([(0, 1.0, 3)], [(1, 3.0, 3)], [(0, 1.0, 2)], [(0, 1.0, 3), (1, 3.0, 2)], [(1, 3.0, 2), (0, 1.0, 3)], [(0, 1.0, 3), (0, 1.0, 3)], [(1, 0.0, 2), (0, 0.5, 4), (1, 2.0, 2)])]
        outs = [np.array([0, 1, 2]), np.array([2, 0])]
        if k:
            def rec(a):
                r = np.zeros(len(a), dtype=[('k', int, 2)]); r['k'] = a; return r
            outs = [rec([(3, 0), (1, 2)]), rec([(2, 0), (0, 2)])]
        yield Subject('%s(spin)' % name, mk_, SPIN_P, E, outs, ())
    big = qi.BinomialModel(qi.SimplePrecessionModel())
    B = [1, 5, 9, 5 + 128, 5 + 256, 5 + 1024, 5 + 4096, 5 + 65536, 5 + 2 ** 20, 5 + 2 ** 32]
    yield Subject('binomial of many shots', lambda: qi.BinomialModel(qi.SimplePrecessionModel()), [np.array([[0.7], [1.1]])], [np.array([(0.5, n)], dtype=big.expparams_dtype) for n in B], [np.array([0, 1])], ('shots',))


def tomo():
    from qinfer import tomography as T
    b = T.pauli_basis(1)
    r2 = 1 / math.sqrt(2)
    P = [np.array(r) for r in ([(r2, .2, .1, .3), (r2, 0, .5, -.1)], [(r2, 0, .5, -.1), (r2, .2, .1, .3)], [(r2, .6, .6, 0), (r2, 0, 0, .9)], [(r2, .2, .1, .3)], [(0.5, .6, .6, 0)], [(r2, .1, 0, 0), (1.0, .2, .3, .1), (r2, .9, 0, 0)])]
    M = [(r2, 0, 0, r2), (r2, r2, 0, 0), (r2, 0, -r2, 0)]
    outs = [np.array([0, 1]), np.array([1])]
    for name, f, t in (('tomography', lambda: T.TomographyModel(T.pauli_basis(1)), 0), ('subnormalized', lambda: T.TomographyModel(T.pauli_basis(1), allow_subnormalized=True), 0), ('diffusive', lambda: T.DiffusiveTomographyModel(T.pauli_basis(1)), 1)):
        m = f()
        E = []
        for idx in ([0], [1], [2], [0, 1], [1, 0], [0, 0], [0, 2, 1]):
            e = np.zeros(len(idx), dtype=m.expparams_dtype)
            e['meas'] = np.array([M[i] for i in idx])
            if t: e['t'] = [(1.0, 4.0, 0.25)[i] for i in idx]
            E.append(e)
        yield Subject(name, f, extra(P, (0.01, 0.1, 0.3)) if t else P, E, outs, ('walk',) if t else ())


def plain(r):
    a = np.asarray(r)
    if a.dtype.names: return [y for n in a.dtype.names for y in plain(a[n])]
    if a.dtype.kind in 'fciub': return [np.array(a, dtype=complex if a.dtype.kind == 'c' else float, copy=True)]
    return []


def doms(m, E):
    out = []
    for d in m.domain(E):
        f = [float(d.n_members) if d.is_finite and np.isfinite(d.n_members) else -1.0]
        for k in ('min', 'max', 'n_meas', 'n_elements'):
            v = getattr(d, k, None)
            if v is not None and np.isfinite(v): f.append(float(v))
        out += f
    return np.array(out)


def scrub(r):
    if isinstance(r, np.ndarray) and r.flags.writeable and not r.dtype.names and r.dtype.kind in 'fciub':
        r[...] = 1


CALLS = {
    'likelihood': lambda m, P, E, o: m.likelihood(o, P, E),
    'simulate': lambda m, P, E, o: m.simulate_experiment(P, E, repeat=1),
    'simulate3': lambda m, P, E, o: m.simulate_experiment(P, E, repeat=3),
    'timestep': lambda m, P, E, o: m.update_timestep(P, E),
    'canonicalize': lambda m, P, E, o: m.canonicalize(P),
    'valid': lambda m, P, E, o: m.are_models_valid(P),
    'domain': lambda m, P, E, o: doms(m, E),
    'n_outcomes': lambda m, P, E, o: m.n_outcomes(E),
    'cost': lambda m, P, E, o: m.experiment_cost(E),
    'distance': lambda m, P, E, o: m.distance(P, P[::-1]),
    'consistent': lambda m, P, E, o: m.are_expparam_dtypes_consistent(E),
    'scale': lambda m, P, E, o: m.Q,
    'clear_cache': lambda m, P, E, o: m.clear_cache(),
}


def reuse(c, subjects, second, combos=((0, 0), (1, 0), (2, 0), (0, 1), (0, 2), (1, 1), (0, 3), (1, 4), (0, 5), (3, 0), (4, 1), (5, 6), (2, 3))):
    for s in subjects:
        calls = dict(CALLS)
        if 'diff' in s.tags and 'derived' not in s.tags:
            calls['score'] = lambda m, P, E, o: m.score(o, P, E)
            calls['fisher'] = lambda m, P, E, o: m.fisher_information(P, E)
        if 'cov' in s.tags: calls['step covariance'] = lambda m, P, E, o: m.est_update_covariance(P)
        if 'shots' in s.tags:
            for k in ('simulate', 'simulate3'): calls.pop(k)
        cs = [(p, e) for p, e in combos if p < len(s.P) and e < len(s.E)] if 'shots' not in s.tags else [(0, e) for e in range(len(s.E))]
        if 'slow' in s.tags:
            for k in ('simulate3', 'score', 'fisher'): calls.pop(k, None)
            cs = cs[:4]

        def do(m, name, P, E, o):
            with core.controlled(core.cycle_stream(5)):
                try:
                    return calls[name](m, P, E, o)
                except Exception as ex:
                    return ex

        def show(r):
            if isinstance(r, Exception): return type(r).__name__
            return plain(r) if r is not None else []

        fresh = {}

        def alone(name, q, k):
            if (name, q, k) not in fresh:
                fresh[name, q, k] = show(do(s.make(), name, s.P[q[0]].copy(), s.E[q[1]].copy(), s.outs[k].copy()))
            return fresh[name, q, k]

        m = None
        for n2 in calls:
            if second is not None and n2 not in second: continue
            for q2 in cs:
                k2 = 0
                firsts = [(n1, q1) for n1 in calls for q1 in (cs if n1 == n2 else cs[:2])]
                for n1, q1 in firsts:
                    for mode in ('new', 'same'):
                        if mode == 'same' and (s.P[q1[0]].shape != s.P[q2[0]].shape or s.E[q1[1]].shape != s.E[q2[1]].shape): continue
                        with c.case('reuse %s %s%s then %s%s %s arrays' % (s.name, n1, q1, n2, q2, mode)):
                            m = s.make()
                            P1, E1, o1 = s.P[q1[0]].copy(), s.E[q1[1]].copy(), s.outs[(q1[1] > 0) % len(s.outs) if n1 == n2 else 0].copy()
                            a1 = P1.copy(), E1.copy(), o1.copy()
                            r = do(m, n1, P1, E1, o1)
                            c.ok(np.array_equal(P1, a1[0]) and np.array_equal(E1, a1[1]) and np.array_equal(o1, a1[2]), '%s changed its arguments' % n1, want=a1[0], got=P1)
                            if n1 != 'scale': scrub(r)
                            if mode == 'same':
                                P1[...] = s.P[q2[0]]; E1[...] = s.E[q2[1]]
                                P2, E2 = P1, E1
                                o2 = s.outs[k2].copy()
                                if o1.shape == o2.shape and o1.dtype == o2.dtype: o1[...] = o2; o2 = o1
                            else:
                                P2, E2, o2 = s.P[q2[0]].copy(), s.E[q2[1]].copy(), s.outs[k2].copy()
                            got, want = show(do(m, n2, P2, E2, o2)), alone(n2, q2, k2)
                            same = type(got) is type(want) and (got == want if isinstance(got, str) else len(got) == len(want) and
                                   all(a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True) for a, b in zip(got, want)))
                            if not c.ok(same, 'answer of %s depends on an earlier call of %s' % (n2, n1), want=want, got=got): break
                            c.step(2); c.trace()
                c.state(s.name, n2, q2)


def scenario(which, second, parts=1):
    """which: 'base', 'derived', 'spins', 'tomo'; parts scenarios of about equal size."""
    def mk_(part):
        def f(c):
            subs = []
            for w in which:
                if w == 'base': subs += [of_entry(e) for e in zoo.BASE]
                elif w == 'derived': subs += [of_entry(e) for e in zoo.all_finite() if 'derived' in e.tags or '(' in e.name]
                elif w == 'walks': subs += [x for x in spins() if 'walk' in x.tags]
                elif w == 'spins': subs += list(spins())
                elif w == 'tomo': subs += list(tomo())
            reuse(c, subs[part::parts], second)
        return f
    return [('reuse_%d' % p if parts > 1 else 'reuse', mk_(p)) for p in range(parts)]
