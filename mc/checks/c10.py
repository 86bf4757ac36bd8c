"""C10: time steps move each particle independently by the stated noise and nothing else."""
import itertools, math
import numpy as np
import qinfer as qi
from qinfer import distributions as qd
from .. import zoo, core, rng
from ..util import *

BOUNDS = ('Complete law of update_timestep over every noise answer (two-point rule, exact for means and covariances) for '
          'up to 3 particles x 3 experiments x 3 walking parameters with at most 12 draws, fixed/learned x diagonal/dense '
          'covariances, index subsets given as lists, slices and arrays, scale functions and transformations; random-walk '
          'models with arbitrary finite step laws (exact joint law); histories of up to 3 data through the updater; '
          'scripted sets of up to 200 particles.')
ASSUMPTIONS = ['normal noise enters linearly, so vanishing covariance is independence']


class RBx(zoo.TableModel):
    """Three parameters, experiments with a time and a weight field."""
    def __init__(self, d=3):
        zoo.TableModel.__init__(self, zoo.TABLE2, [2, 2, 2], n_params=d)

    @property
    def expparams_dtype(self): return [('e', 'int'), ('t', 'float'), ('s', 'float')]

    def are_models_valid(self, m): return np.ones(len(m), dtype=bool)

    def likelihood(self, o, m, x):
        m = np.array(m, copy=True)
        m[:, 0] = np.clip(np.round(np.abs(m[:, 0])), 0, 3)
        return zoo.TableModel.likelihood(self, o, m, x)


EPS = [(0, 1.0, 2.0), (1, 0.5, -3.0), (2, 4.0, 0.0)]


def moments(c, fn, digits=10):
    """Mean and covariance of the flattened result, over all answers."""
    S1 = 0; S2 = 0; tot = 0
    for res, p, ch in c.explore(fn, zgrid=rng.GH2, n_u=2):
        v = np.asarray(res, dtype=float).ravel()
        S1 = S1 + p * v; S2 = S2 + p * np.outer(v, v); tot += p
        c.state(c.key, v)
    c.ok(abs(tot - 1) < 1e-9, 'weights')
    return S1, S2 - np.outer(S1, S1)


def idx_forms(idx, d):
    yield list(idx)
    yield np.array(idx)
    if idx == list(range(d)):
        yield 'all'
        yield slice(None, d)
    elif len(idx) == idx[-1] - idx[0] + 1:
        yield slice(idx[0], idx[-1] + 1)


ROWS = [[1.0, 2.0, 3.0], [-1.0, 0.5, 0.25], [10.0, 20.0, 30.0]]
CH = [[0.5], [0.5, -0.25, 2.0], [0.5, -0.25, 2.0, 1.0, 0.125, 0.75]]


def chol(vals, n):
    L = np.zeros((n, n)); k = 0
    for i in range(n):
        for j in range(i + 1):
            L[i, j] = vals[k]; k += 1
    return L


def scales():
    yield 'none', None, lambda ep: 1.0
    yield 'field', 't', lambda ep: ep[1]
    yield 'field2', 's', lambda ep: ep[2]
    yield 'function', (lambda x: np.sqrt(x['t'])), lambda ep: math.sqrt(ep[1])


TRANS = (lambda x: np.sinh(x / 10.0), lambda y: 10.0 * np.arcsinh(y))
LIN = (lambda x: np.stack([2 * x[:, 0], x[:, 1] - x[:, 0], x[:, 2]], axis=1), lambda y: np.stack([y[:, 0] / 2, y[:, 1] + y[:, 0] / 2, y[:, 2]], axis=1))


def gr_case(c, idx, form, diagonal, fixed, n_mps, n_eps, scale, trans):
    d, n = 3, len(idx)
    sname, sarg, sref = scale
    base = RBx(d)
    rowsv = [list(r) for r in ROWS[:n_mps]]
    covs = []
    if fixed:
        if diagonal:
            v = np.array([0.25, 4.0, 1.5][:n]); cov = np.diag(v)
        else:
            L = chol(CH[n - 1], n); cov = L.dot(L.T); v = cov
        m = qi.GaussianRandomWalkModel(base, random_walk_idxs=form, fixed_covariance=v.copy(), diagonal=diagonal, scale_mult=sarg, model_transformation=trans)
        covs = [cov] * n_mps
    else:
        m = qi.GaussianRandomWalkModel(base, random_walk_idxs=form, diagonal=diagonal, scale_mult=sarg, model_transformation=trans)
        for i in range(n_mps):
            if diagonal:
                ex = [(0.5 + 0.5 * j) * (i + 1) for j in range(n)]; cov = np.diag(np.array(ex) ** 2)
            else:
                ex = [x * (i + 1) for x in CH[n - 1]]; L = chol(ex, n); cov = L.dot(L.T)
            rowsv[i] = rowsv[i] + ex
            covs.append(cov)
    mps = np.array(rowsv); ea = np.array(EPS[:n_eps], dtype=m.expparams_dtype)
    b = (mps.copy(), ea.copy())
    ta = (lambda x: x) if trans is None else trans[0]
    t0 = ta(mps[:, :d])
    others = [j for j in range(d) if j not in idx]

    def f():
        new = m.update_timestep(mps, ea)
        assert new.shape == (n_mps, mps.shape[1], n_eps), 'shape %s' % (new.shape,)
        if mps.shape[1] > d:
            assert np.array_equal(new[:, d:, :], np.repeat(mps[:, d:, None], n_eps, axis=2)), 'added parameters moved'
        if not np.shares_memory(new, mps):
            pass
        out = np.array([ta(new[:, :d, k]) - t0 for k in range(n_eps)])    # exp, particle, param
        assert np.allclose(out[:, :, others], 0, atol=1e-9), 'other parameters moved'
        return out[:, :, idx]
    mean, cov = moments(c, f)
    c.eq(mean, np.zeros(n_eps * n_mps * n), 'mean displacement', tol=1e-8)
    want = np.zeros((n_eps * n_mps * n,) * 2)
    for k in range(n_eps):
        for i in range(n_mps):
            o = (k * n_mps + i) * n
            want[o:o + n, o:o + n] = sref(EPS[k]) ** 2 * covs[i]
    c.eq(cov, want, 'covariance of all displacements (blocks per particle and experiment)', tol=1e-7)
    c.ok(np.array_equal(mps, b[0]) and np.array_equal(ea, b[1]), 'arguments modified')
    c.eq(m.est_update_covariance(mps), sum(covs) / len(covs), 'stated covariance')


def s_gauss(part):
    def f(c):
        jobs = []
        for idx in ([0], [1], [2], [0, 1], [0, 2], [1, 2], [0, 1, 2], [1, 0], [2, 0], [2, 1, 0]):
            for form in idx_forms(idx, 3):
                for diagonal, fixed in itertools.product((True, False), repeat=2):
                    for n_mps, n_eps in itertools.product((1, 2, 3), (1, 2, 3)):
                        nd = n_mps * n_eps * len(idx)
                        if nd > (12 if c.thorough else 9):
                            continue
                        for sc in scales():
                            if sc[0] in ('field2', 'function') and (n_mps > 2 or n_eps < 2):
                                continue
                            jobs.append((idx, form, diagonal, fixed, n_mps, n_eps, sc, None))
                        if nd <= 6:
                            jobs.append((idx, form, diagonal, fixed, n_mps, n_eps, list(scales())[1], TRANS))
                            jobs.append((idx, form, diagonal, fixed, n_mps, n_eps, list(scales())[0], LIN))
        for k, j in enumerate(jobs):
            if k % 6 == part:
                with c.case('gauss idx=%s diag=%s fixed=%s n=%d eps=%d scale=%s trans=%s' % (j[1], j[2], j[3], j[4], j[5], j[6][0], {id(None): 0, id(TRANS): 1, id(LIN): 2}[id(j[7])])):
                    gr_case(c, *j)
        c.sample('%d configurations' % len(jobs))
    return f


class Steps(qd.Distribution):
    """Finite step law over vectors."""
    def __init__(self, vecs, w):
        self.vecs, self.w = np.array(vecs, dtype=float), w

    @property
    def n_rvs(self): return self.vecs.shape[1]

    def sample(self, n=1):
        return self.vecs[np.random.choice(len(self.w), size=n, p=self.w)]


def s_walk(c):
    for vecs, w in (([[1.0, -2.0, 0.5], [0.0, 4.0, 8.0]], [0.25, 0.75]), ([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]], [0.5, 0.25, 0.25])):
        for n_mps, n_eps in itertools.product((1, 2, 3), (1, 2, 3)):
            if len(w) ** (n_mps * n_eps) > 3000:
                continue
            with c.case('walk %s n=%d eps=%d' % (len(w), n_mps, n_eps)):
                m = qi.RandomWalkModel(RBx(), Steps(vecs, w))
                mps = np.array(ROWS[:n_mps]); ea = np.array(EPS[:n_eps], dtype=m.expparams_dtype); b = mps.copy()
                law = {}
                for res, p, ch in c.explore(lambda: m.update_timestep(mps, ea)):
                    c.ok(res.shape == (n_mps, 3, n_eps), 'shape')
                    k = []
                    for i, e in itertools.product(range(n_mps), range(n_eps)):
                        st = res[i, :, e] - mps[i]
                        hit = [q for q in range(len(vecs)) if np.allclose(st, vecs[q])]
                        if not c.ok(len(hit) == 1, 'a step of the stated law', got=st):
                            return
                        k.append(hit[0])
                    law[tuple(k)] = law.get(tuple(k), 0) + p
                    c.state(n_mps, n_eps, k)
                for k in itertools.product(range(len(w)), repeat=n_mps * n_eps):
                    want = 1.0
                    for q in k:
                        want *= w[q]
                    c.ok(abs(law.get(k, 0) - want) < 1e-9, 'joint law of the steps', at=k, got=law.get(k, 0), want=want)
                c.ok(np.array_equal(mps, b), 'arguments modified')
    # library step distributions, by moments
    S = np.array([[2.0, 0.6], [0.6, 0.5]])
    for nm, dist, mu, cov, tol in (
            ('normal', qd.NormalDistribution(0.5, 4.0), [0.5], [[4.0]], 1e-7),
            ('mvn', qd.MultivariateNormalDistribution(np.array([0.0, 1.0]), S), [0.0, 1.0], S, 1e-7),
            ('product', qd.ProductDistribution(qd.NormalDistribution(0, 1.0), qd.NormalDistribution(2.0, 0.25)), [0.0, 2.0], np.diag([1.0, 0.25]), 1e-7)):
        d = len(mu)
        for n_mps, n_eps in ((1, 1), (2, 1), (1, 2), (2, 2)):
            with c.case('walk %s %d %d' % (nm, n_mps, n_eps)):
                m = qi.RandomWalkModel(RBx(d), dist)
                mps = np.array(ROWS[:n_mps])[:, :d]; ea = np.array(EPS[:n_eps], dtype=m.expparams_dtype)
                def f():
                    new = m.update_timestep(mps, ea)
                    return np.array([new[:, :, k] - mps for k in range(n_eps)])
                mean, cv = moments(c, f)
                c.eq(mean, np.array(list(mu) * (n_mps * n_eps)), 'mean step', tol=tol)
                c.eq(cv, np.kron(np.eye(n_mps * n_eps), np.array(cov)), 'covariance of the steps', tol=tol)


def s_static(c):
    """Models without dynamics."""
    ents = [e for e in zoo.all_finite(depth2=True) if not e.tags & {'walk', 'gwalk'} and 'walk' not in e.name]
    ents += [zoo.mle(zoo.BY['coin']), zoo.plainderived(zoo.BY['rb'])]
    models = [(e.name, e.make(), e.mps(), e.eps) for e in ents]
    g = qi.GaussianHyperparameterizedModel(qi.SimplePrecessionModel())
    models.append(('gauss', g, np.array([[0.5, 0, 1, 1, 1.0], [0.25, 3, 4, 5, 6.0]]), [1.0, 2.0]))
    models.append(('binomial of nothing', qi.PoisonedModel(qi.CoinModel(), tol=0.1), np.array([[0.25], [0.5]]), [()]))
    for nm, m, mps, eps in models:
        for ne in (1, 2, 3, 17):
            for rows in ([0], [0, 1], list(range(len(mps))) * 20):
                rows = [r for r in rows if r < len(mps)]
                with c.case('static %s ne=%d n=%d' % (nm, ne, len(rows))):
                    x = mps[rows].copy(); b = x.copy()
                    ea = np.array([eps[i % len(eps)] for i in range(ne)], dtype=m.expparams_dtype)
                    d0 = rng.RNG.draws
                    new = m.update_timestep(x, ea)
                    c.ok(new.shape == (len(rows), mps.shape[1], ne), 'shape', got=new.shape)
                    for k in range(ne):
                        c.ok(np.array_equal(new[:, :, k], b), 'a copy per experiment')
                    c.ok(rng.RNG.draws == d0, 'no random answers used')
                    new[...] = 7.0
                    c.ok(np.array_equal(x, b), 'the input is not shared with the result')
                    c.step(); c.trace(); c.state(nm, ne, len(rows))


def s_wrapped(c):
    """Dynamics seen through other wrappers."""
    V = [[0.25], [-0.5]]; W = [0.5, 0.5]
    mk_ = {
        'binomial scalar': (lambda: qi.BinomialModel(qi.RandomWalkModel(qi.SimplePrecessionModel(), Steps(V, W))), [(1.0, 2), (2.0, 3)]),
        'binomial': (lambda: qi.BinomialModel(qi.RandomWalkModel(qi.CoinModel(), Steps(V, W))), [(1,), (4,)]),
        'multinomial': (lambda: qi.MultinomialModel(qi.RandomWalkModel(qi.CoinModel(), Steps(V, W))), [(1,), (2,)]),
        'multinomial scalar': (lambda: qi.MultinomialModel(qi.RandomWalkModel(qi.SimplePrecessionModel(), Steps(V, W))), [(1.0, 2), (2.0, 3)]),
        'mle': (lambda: qi.MLEModel(qi.RandomWalkModel(qi.CoinModel(), Steps(V, W)), 2), [(), ()]),
        'poison': (lambda: qi.PoisonedModel(qi.RandomWalkModel(qi.CoinModel(), Steps(V, W)), tol=0.1), [(), ()]),
        'walk of binomial': (lambda: qi.RandomWalkModel(qi.BinomialModel(qi.CoinModel()), Steps(V, W)), [(1,), (4,)]),
        'gauss': (lambda: qi.GaussianHyperparameterizedModel(qi.RandomWalkModel(qi.CoinModel(), Steps(V, W))), [(), ()]),
    }
    for nm, (f, eps) in mk_.items():
        for n_mps, n_eps in itertools.product((1, 2, 3), (1, 2)):
            with c.case('wrapped %s %d %d' % (nm, n_mps, n_eps)):
                m = f()
                mps = np.array([[0.5], [0.25], [0.75]][:n_mps])
                if nm == 'gauss':
                    mps = np.concatenate([mps, np.array([[0, 1, 2, 3.0]] * n_mps)], axis=1)
                ea = np.array(eps[:n_eps], dtype=m.expparams_dtype)
                law = {}
                for res, p, ch in c.explore(lambda: m.update_timestep(mps, ea)):
                    c.ok(res.shape == (n_mps, mps.shape[1], n_eps), 'shape', got=res.shape)
                    if nm == 'gauss':
                        c.ok(np.array_equal(res[:, 1:], np.repeat(mps[:, 1:, None], n_eps, axis=2)), 'added parameters moved')
                    k = tuple(np.round(res[:, 0, :] - mps[:, :1], 9).ravel())
                    law[k] = law.get(k, 0) + p
                    c.state(nm, n_mps, n_eps, k)
                c.ok(len(law) == 2 ** (n_mps * n_eps) and all(abs(p - 2.0 ** -(n_mps * n_eps)) < 1e-9 for p in law.values()), 'law of the steps', got=law)
                c.ok(all(v in (0.25, -0.5) for k in law for v in k), 'values of the steps')
    # stack of two walks: displacements add
    with c.case('two walks'):
        m = qi.GaussianRandomWalkModel(qi.GaussianRandomWalkModel(RBx(), random_walk_idxs=[1], fixed_covariance=np.array([4.0])), random_walk_idxs=[0], fixed_covariance=np.array([9.0]))
        mps = np.array(ROWS[:2]); ea = np.array(EPS[:1], dtype=m.expparams_dtype)
        def f():
            return (m.update_timestep(mps, ea)[:, :, 0] - mps)
        mean, cov = moments(c, f)
        c.eq(mean[[0, 3]], np.zeros(2), 'mean'); c.eq(cov[0, 0], 9.0, 'outer walk'); c.eq(cov[0, 3], 0.0, 'independent particles')


def s_update(c):
    """One step per datum, after the weights have been updated."""
    V = [[1.0], [0.0]]; W = [0.5, 0.5]
    for hist in itertools.product((0, 1), repeat=2):
        for how in ('single', 'batch'):
            for thresh in (0.0,):
                with c.case('update %s %s' % (hist, how)):
                    def f():
                        m = qi.RandomWalkModel(zoo.BY['table2'].make(), Steps(V, W))
                        u = mk(m, [0.0, 1.0], [0.5, 0.5], resample_thresh=thresh, zero_weight_policy='ignore')
                        ea = np.array([(2,)], dtype=m.expparams_dtype)
                        if how == 'single':
                            for o in hist:
                                u.update(np.array([o]), ea)
                        else:
                            u.batch_update(np.array(hist)[None, :].T, np.array([(2,), (2,)], dtype=m.expparams_dtype), resample_interval=5)
                        return (np.array(u.particle_locations), np.array(u.particle_weights))
                    law = c.law(f)
                    want = {}
                    for a in itertools.product((0, 1), repeat=4):
                        k = (0.0 + a[0] + a[1], 1.0 + a[2] + a[3])
                        want[k] = want.get(k, 0) + 1.0 / 16
                    got = {}
                    for p, (x, w) in law.values():
                        got[tuple(x[:, 0])] = got.get(tuple(x[:, 0]), 0) + p
                        c.eq(w, np.array([0.5, 0.5]), 'weights')
                    c.ok(set(got) == set(want) and all(abs(got[k] - want[k]) < 1e-9 for k in want), 'law of locations', got=got, want=want)
    # the weights use the location before the step
    for o, e, s in itertools.product((0, 1), (0, 1), (1.0, 2.0)):
        with c.case('order %s %s %s' % (o, e, s)):
            t = zoo.BY['table2']
            m = qi.RandomWalkModel(t.make(), Steps([[s]], [1.0]))
            u = mk(m, [0.0, 1.0], [0.25, 0.75], resample_thresh=0.0, zero_weight_policy='ignore')
            u.update(np.array([o]), np.array([(e,)], dtype=m.expparams_dtype))
            w, z = ref_update([0.25, 0.75], [t.prob(o, (i,), (e,)) for i in (0, 1)])
            c.eq(u.particle_weights, np.array(w), 'weights'); c.eq(u.particle_locations, np.array([[0.0 + s], [1.0 + s]]), 'locations')
            # hypothetical and repeated queries take no step
            u.hypothetical_update(np.array([0, 1]), np.array([(0,)], dtype=m.expparams_dtype))
            u.bayes_risk(np.array([(0,)], dtype=m.expparams_dtype))
            c.eq(u.particle_locations, np.array([[0.0 + s], [1.0 + s]]), 'locations after queries')
            c.trace(); c.state(o, e, s)


def s_large(c):
    for diagonal, fixed, n, ne in itertools.product((True, False), (True, False), (50, 200), (1, 4)):
        with c.case('large diag=%s fixed=%s n=%d eps=%d' % (diagonal, fixed, n, ne)):
            r = np.random.RandomState(n + ne)
            x = r.randn(n, 3)
            idx = [0, 2]
            cov = np.diag([0.25, 4.0]) if diagonal else np.array([[1.0, 0.5], [0.5, 2.0]])
            kw = dict(fixed_covariance=np.diag(cov).copy() if diagonal else cov) if fixed else {}
            m = qi.GaussianRandomWalkModel(RBx(), random_walk_idxs=idx, diagonal=diagonal, scale_mult='t', **kw)
            covs = [cov] * n
            if not fixed:
                ex = r.rand(n, 2 if diagonal else 3) + 0.1
                covs = [np.diag(v ** 2) if diagonal else chol(v, 2).dot(chol(v, 2).T) for v in ex]
                x = np.concatenate([x, ex], axis=1)
            ea = np.array([(0, 0.5 + 1.5 * k, 1.0) for k in range(ne)], dtype=m.expparams_dtype)
            st = core.cycle_stream(3)
            with core.controlled(st):
                new = m.update_timestep(x, ea)
            c.step(n * ne); c.trace(); c.state(n, ne, diagonal, fixed)
            c.ok(new.shape == (n, x.shape[1], ne), 'shape')
            fixedcols = [j for j in range(x.shape[1]) if j not in idx]
            c.ok(np.array_equal(new[:, fixedcols, :], np.repeat(x[:, fixedcols, None], ne, axis=2)), 'other parameters moved')
            z2 = [z * z for z, _ in st.zgrid]
            sums = np.array(sorted(set(round(a + b, 12) for a in z2 for b in z2)))
            seen = set()
            for k in range(ne):
                for i in range(n):
                    dlt = (new[i, idx, k] - x[i, idx]) / ea['t'][k]
                    q = dlt.dot(np.linalg.solve(covs[i], dlt))
                    if not np.min(np.abs(sums - q)) < 1e-6 * (1 + q):
                        c.fail('displacement is not noise of the stated covariance', particle=i, experiment=k, got=dlt)
                    seen.add(round(float(q), 6))
            c.ok(len(seen) > 5, 'noise differs between particles', got=seen)


SCENARIOS = [('gauss%d' % k, s_gauss(k)) for k in range(6)] + [('walk', s_walk), ('static', s_static), ('wrapped', s_wrapped), ('update', s_update), ('large', s_large)]

from . import bulk, edge  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b10)]
BOUNDS += ' Edge configurations: parameter scales from 1e-12 to 1e9, deep retries, objects used before, very many shots, engines, rows or clusters.'
SCENARIOS = SCENARIOS + [('edge', edge.e10)]
SCENARIOS = SCENARIOS + [('edge2', edge.walks)]

from . import reuse  # noqa: E402
BOUNDS += ' Every pair of calls on one model, in new and in reused arrays, the second answer against a fresh model.'
SCENARIOS = SCENARIOS + reuse.scenario(('walks', 'derived', 'tomo'), ('timestep', 'step covariance'), 4)

from . import forms  # noqa: E402
BOUNDS += ' Arguments of equal values in every memory layout: column-major, strided, reversed, padded, read-only, broadcast, smaller integers.'
SCENARIOS = SCENARIOS + forms.scenario(('walks', 'derived', 'tomo'), ('timestep', 'step covariance'), 1)
