"""C13: moments, entropy and cluster moments of the weighted particles."""
import itertools, math
from fractions import Fraction as Fr
import numpy as np
import qinfer as qi
from qinfer.clustering import particle_clusters
from .. import zoo, core, rng
from ..util import *

BOUNDS = ('Every particle set of 1-4 particles on a 3-value lattice (1 parameter), 1-3 particles on a 2-parameter lattice and '
          '2 particles in 3 parameters, with every weighting in quarters, compared with exact rational arithmetic, as a particle '
          'distribution and inside an updater; permutations, splits and weightless particles; every assignment of 6 particles '
          'to 3 sites (1-2 parameters) for clusters against a brute-force DBSCAN; update histories; scripted sets of up to '
          '400 particles and 4 parameters, large offsets and tiny weights.')
ASSUMPTIONS = ['relative entropy estimates are not judged: the documented kernel smoothing leaves its normalisation open',
               'covariances are judged to rounding relative to the size of the second moments']


def exact(x, w):
    """Exact mean, second central moment, ess from rationals."""
    d = len(x[0])
    mu = [sum(wi * r[k] for wi, r in zip(w, x)) for k in range(d)]
    cov = [[sum(wi * (r[a] - mu[a]) * (r[b] - mu[b]) for wi, r in zip(w, x)) for b in range(d)] for a in range(d)]
    ess = 1 / sum(wi * wi for wi in w)
    return mu, cov, ess


def entropy(w):
    return -math.fsum(float(v) * math.log(float(v)) for v in w if v > 0)


class M(zoo.TableModel):
    def __init__(self, d): zoo.TableModel.__init__(self, zoo.TABLE3, [3, 3], n_params=d)
    def are_models_valid(self, m): return np.ones(len(m), dtype=bool)


def views(x, w):
    x = np.array(x, dtype=float); w = np.array(w, dtype=float)
    yield 'distribution', qi.ParticleDistribution(particle_locations=x.copy(), particle_weights=w.copy())
    yield 'updater', mk(M(x.shape[1]), x.copy(), w.copy(), resample_thresh=0.0)


def compare(c, d, x, w, scale=1.0, tol=1e-9):
    mu, cov, ess = exact(x, w)
    mu = np.array([float(v) for v in mu]); cov = np.array([[float(v) for v in r] for r in cov])
    big = tol * scale ** 2
    c.eq(d.n_particles, len(x), 'number of particles')
    c.eq(d.n_rvs, len(x[0]), 'number of variables')
    c.eq(d.est_mean(), mu, 'mean', tol=tol)
    got = d.est_covariance_mtx()
    c.ok(np.shape(got) == cov.shape and np.all(np.abs(got - cov) <= big), 'covariance', got=got, want=cov)
    c.ok(np.all(np.abs(got - got.T) <= big), 'covariance symmetric', got=got)
    c.ok(np.linalg.eigvalsh((got + got.T) / 2).min() >= -10 * big, 'covariance positive semidefinite', got=got)
    c.ok(abs(d.n_ess / float(ess) - 1) < 1e-9, 'effective sample size', got=d.n_ess, want=float(ess))
    c.ok(abs(d.est_entropy() - entropy(w)) < 1e-9, 'entropy', got=d.est_entropy(), want=entropy(w))
    fn = lambda p: np.column_stack([p[:, 0] ** 2, np.ones(len(p)), p.sum(axis=1), (p[:, -1] > 0)])
    want = [float(sum(wi * v for wi, v in zip(w, col))) for col in
            ([r[0] ** 2 for r in x], [1] * len(x), [sum(r) for r in x], [int(r[-1] > 0) for r in x])]
    g = d.est_meanfn(fn)
    c.ok(np.shape(g) == (4,) and np.all(np.abs(g - want) <= np.maximum(big, tol * (1 + np.abs(want)))), 'expectation of a function', got=g, want=want)
    if np.diag(cov).min() > 1e-6 * scale ** 2:
        corr = cov / np.sqrt(np.outer(np.diag(cov), np.diag(cov)))
        c.eq(d.est_covariance_mtx(corr=True), corr, 'correlation matrix', tol=1e-7)
    # the static forms
    X = np.array(x, dtype=float); W = np.array([float(v) for v in w])
    c.eq(qi.ParticleDistribution.particle_mean(W, X), mu, 'static mean', tol=tol)
    s = qi.ParticleDistribution.particle_covariance_mtx(W, X)
    c.ok(np.all(np.abs(s - cov) <= big), 'static covariance', got=s, want=cov)
    return mu, cov


def unchanged(c, d, x, w):
    c.ok(np.array_equal(d.particle_locations, np.array(x, dtype=float)) and np.allclose(d.particle_weights, np.array(w, dtype=float), atol=1e-15, rtol=0),
         'reporting leaves the particles as they are')


def quarters(n, N=4):
    for comp in rng.compositions(N, n):
        yield [Fr(k, N) for k in comp]


def lattice_sets(c):
    for n in (1, 2, 3, 4):
        for xs in itertools.product((-1, 0, 2), repeat=n):
            yield [(v,) for v in xs], 4
    pts = [(a, b) for a in (-1, 0, 2) for b in (0, 1)]
    for n in (1, 2, 3):
        for xs in itertools.product(pts, repeat=n):
            yield list(xs), 4
    pts = list(itertools.product((0, 1), (-2, 1), (0, 3)))
    for xs in itertools.product(pts, repeat=2):
        yield list(xs), 4


def s_lattice(part):
    def f(c):
        for k, (x, N) in enumerate(lattice_sets(c)):
            if k % 4 != part:
                continue
            for w in quarters(len(x), N):
                with c.case('moments x=%s w=%s' % (x, [str(v) for v in w])):
                    kinds = list(views(x, w))
                    for kind, d in kinds:
                        compare(c, d, x, w, scale=3.0)
                        unchanged(c, d, x, w)
                        c.step()
                    c.state('mom', x, [float(v) for v in w])
    return f


def s_invariance(c):
    base = [([(0, 1), (2, 3), (5, -1)], [Fr(1, 4), Fr(1, 2), Fr(1, 4)]), ([(1, 0), (1, 4), (-3, 2), (0, 0)], [Fr(1, 8), Fr(1, 2), Fr(1, 4), Fr(1, 8)]),
            ([(1,), (2,), (4,)], [Fr(1, 2), Fr(0), Fr(1, 2)]), ([(1, 2, 3), (4, 5, 7), (0, 1, -1), (2, 2, 2)], [Fr(1, 4)] * 4)]
    for x, w in base:
        for kind in (0, 1):
            d0 = list(views(x, w))[kind][1]
            with core.quiet():
                ref = (d0.est_mean(), d0.est_covariance_mtx(), d0.est_entropy(), d0.n_ess)
            for perm in itertools.permutations(range(len(x))):
                with c.case('permute %s %s %s' % (x, perm, kind)):
                    d = list(views([x[i] for i in perm], [w[i] for i in perm]))[kind][1]
                    for g, r, nm in zip((d.est_mean(), d.est_covariance_mtx(), d.est_entropy(), d.n_ess), ref, ('mean', 'covariance', 'entropy', 'ess')):
                        c.eq(g, r, nm + ' unchanged by permuting particles')
                    c.step()
            for i, num in itertools.product(range(len(x)), (1, 2, 3)):
                if w[i] == 0:
                    continue
                with c.case('split %s at %d by %d %s' % (x, i, num, kind)):
                    x2 = x + [x[i]]
                    w2 = list(w) + [w[i] * Fr(num, 4)]
                    w2[i] = w[i] - w2[-1]
                    d = list(views(x2, w2))[kind][1]
                    c.eq(d.est_mean(), ref[0], 'mean unchanged by splitting'); c.eq(d.est_covariance_mtx(), ref[1], 'covariance unchanged by splitting')
                    c.ok(d.n_ess >= ref[3] - 1e-9 and d.est_entropy() >= ref[2] - 1e-9, 'splitting lowers neither entropy nor ess')
                    c.step()
            for where, far in itertools.product(range(len(x) + 1), (0, 50)):
                with c.case('weightless %s at %d %s %s' % (x, where, far, kind)):
                    x2 = list(x); w2 = list(w)
                    x2.insert(where, tuple(far for _ in x[0])); w2.insert(where, Fr(0))
                    d = list(views(x2, w2))[kind][1]
                    for g, r, nm in zip((d.est_mean(), d.est_covariance_mtx(), d.est_entropy(), d.n_ess), ref, ('mean', 'covariance', 'entropy', 'ess')):
                        c.eq(g, r, nm + ' unchanged by weightless particles')
                    c.step()
            # affine maps
            k = len(x[0])
            for A in (np.eye(k) * 3, np.triu(np.ones((k, k))), -np.eye(k)):
                with c.case('affine %s %s' % (x, A.tolist())):
                    y = (np.array(x, dtype=float).dot(A.T) + 1.5)
                    d = qi.ParticleDistribution(particle_locations=y, particle_weights=np.array(w, dtype=float))
                    c.eq(d.est_mean(), A.dot(ref[0]) + 1.5, 'mean follows affine maps')
                    c.eq(d.est_covariance_mtx(), A.dot(ref[1]).dot(A.T), 'covariance follows affine maps')
                    c.step()


def s_large(c):
    for n, d, off, sc in [(60, 1, 0, 1.0), (100, 2, 0, 1.0), (400, 3, 0, 0.5), (150, 4, 3, 2.0), (100, 2, 1000, 1.0), (120, 1, 0, 1e-4), (300, 2, 0, 1e5)]:
        for pat in range(3):
            with c.case('large n=%d d=%d off=%g pat=%d' % (n, d, off, pat)):
                cyc = core.cycle_stream(17 * n + pat)
                x = [[Fr(cyc.choose(4096) - 2048, 1024) * Fr(sc) + off for _ in range(d)] for _ in range(n)]
                ks = [cyc.choose(64) for _ in range(n)]
                if pat == 1:
                    ks = [k if k > 48 else 0 for k in ks]
                if pat == 2:
                    ks = [Fr(1, 2 ** (8 * (k % 30))) for k in ks]
                w = [Fr(k) / sum(ks) for k in ks]
                for kind, D in views(x, w):
                    compare(c, D, x, w, scale=max(off, 3 * sc))
                    unchanged(c, D, x, w)
                    c.step()
                c.state('large', n, d, off, pat)
    # updaters along histories
    for nm in ('precession', 'unknownT2', 'rb', 'coin', 'ndie3', 'rb_il'):
        e = zoo.BY[nm]
        with c.case('history ' + nm):
            m = e.make()
            cyc = core.cycle_stream(5)
            rows = [[a + (b - a) * (cyc.choose(1000) + .5) / 1000 for a, b in zip(np.min(e.mps(), 0), np.max(e.mps(), 0))] for _ in range(600)]
            rows = [r for r in rows if m.are_models_valid(np.array([r]))[0]][:200] or e.params
            u = mk(m, rows, resample_thresh=0.3, resampler=qi.LiuWestResampler(0.95) if nm != 'ndie3' else RotResampler())
            for t in range(14):
                ei = cyc.choose(len(e.eps))
                outs = e.outcomes(e.eps[ei])
                ep = e.ep_array(m, [ei])
                cand = sorted(outs, key=lambda o: -float(u.particle_weights.dot(m.likelihood(e.out_array(m, [o]), u.particle_locations, ep)[0, :, 0])))
                o = cand[0] if t % 3 else cand[1 % len(cand)]
                if float(u.particle_weights.dot(m.likelihood(e.out_array(m, [o]), u.particle_locations, ep)[0, :, 0])) < 1e-6:
                    o = cand[0]
                with core.controlled(core.cycle_stream(t)):
                    u.update(e.out_array(m, [o])[0], ep)
                W = [Fr(float(v)) for v in u.particle_weights]
                X = [[Fr(float(v)) for v in r] for r in u.particle_locations]
                mu, cov, ess = exact(X, W)
                c.eq(u.est_mean(), [float(v) for v in mu], 'mean of the posterior')
                c.eq(u.est_covariance_mtx(), [[float(v) for v in r] for r in cov], 'covariance of the posterior', tol=1e-8)
                c.eq(u.est_entropy(), entropy(W), 'entropy of the posterior')
                c.ok(abs(u.n_ess / float(ess) - 1) < 1e-9, 'ess of the posterior')
                c.eq(u.est_meanfn(lambda p: p ** 2), [float(sum(w * r[k] ** 2 for w, r in zip(W, X))) for k in range(len(X[0]))], 'second moment')
                c.step(); c.state('hist', nm, t, u.particle_weights)
            c.trace()


# -- clusters ---------------------------------------------------------------

def dbscan(D, eps, mn):
    """Brute force: core points connected within eps; border points with any core neighbour; None = ambiguous."""
    n = len(D)
    nb = [[j for j in range(n) if D[i][j] <= eps] for i in range(n)]
    corep = [len(b) >= mn for b in nb]
    lab = [None] * n
    k = 0
    for i in range(n):
        if corep[i] and lab[i] is None:
            stack = [i]
            while stack:
                a = stack.pop()
                if lab[a] is not None:
                    continue
                lab[a] = k
                stack += [b for b in nb[a] if corep[b]]
            k += 1
    out = []
    for i in range(n):
        if corep[i]:
            out.append(lab[i])
        else:
            s = {lab[j] for j in nb[i] if corep[j]}
            if len(s) > 1:
                return None
            out.append(s.pop() if s else -1)
    return out


def clusters_check(c, x, w, opts, D):
    eps, mn = opts.get('eps', 0.5), opts.get('min_particles', 5)
    lab = dbscan(D, eps, mn)
    if lab is None:
        return
    n = len(x)
    parts = {}
    for i, l in enumerate(lab):
        parts.setdefault(l, set()).add(i)
    got = list(particle_clusters(np.array(x, dtype=float), None if w is None else np.array(w, dtype=float), **opts))
    gp = {}
    for l, mask in got:
        mask = np.asarray(mask)
        c.ok(mask.shape == (n,) and mask.dtype == bool, 'clusters are boolean masks', got=mask)
        gp[int(l)] = set(np.nonzero(mask)[0])
    c.ok(gp.get(-1, set()) == parts.get(-1, set()), 'noise particles', got=gp, want=parts)
    c.ok(sorted(map(sorted, (v for k, v in gp.items() if k != -1))) == sorted(map(sorted, (v for k, v in parts.items() if k != -1))), 'clusters', got=gp, want=parts)
    return parts


def s_clusters(c):
    sites1 = [(0.0,), (5.0,), (9.0,)]
    sites2 = [(0.0, 0.0), (5.0, 0.0), (0.0, 7.0)]
    for sites in (sites1, sites2):
        for k, asg in enumerate(itertools.product(range(3), repeat=6)):
            if k % 2 and not c.thorough and len(sites[0]) == 2:
                continue
            x = [tuple(v + 0.0625 * i for v in sites[a]) for i, a in enumerate(asg)]
            D = [[math.dist(p, q) for q in x] for p in x]
            for w in ([1 / 6.] * 6, norm_w([1, 2, 3, 1, 0, 5])) if k % 4 == 0 else (norm_w([1, 2, 3, 1, 0, 5]),):
                for mn in (2, 3):
                    with c.case('clusters d=%d asg=%s mn=%d' % (len(sites[0]), asg, mn)):
                        opts = dict(eps=0.5, min_particles=mn)
                        parts = clusters_check(c, x, w, opts, D)
                        c.state('cl', len(sites[0]), asg, mn)
                        c.step()
                        if parts is None:
                            continue
                        moments_check(c, qi.ParticleDistribution(particle_locations=np.array(x), particle_weights=np.array(w)), x, w, parts, opts)


def moments_check(c, d, x, w, parts, opts):
    mom = list(d.est_cluster_moments(opts))
    c.ok(len(mom) == len(parts), 'one entry per cluster', got=len(mom), want=len(parts))
    tot = 0.0
    by = []
    for l, cw, mu, cov in mom:
        tot += cw
        hit = None
        for k, ix in parts.items():
            ix = sorted(ix)
            ww = math.fsum(w[i] for i in ix)
            if (k == -1) != (l == -1) or abs(ww - cw) > 1e-9:
                continue
            if ww == 0:
                hit = k
                continue
            m, C, _ = exact([[Fr(float(v)) for v in x[i]] for i in ix], [Fr(float(w[i])) / Fr(ww) for i in ix])
            m = np.array([float(v) for v in m]); C = np.array([[float(v) for v in r] for r in C])
            if np.allclose(m, mu, atol=1e-7) and np.allclose(C, cov, atol=1e-7):
                hit = k
        c.ok(hit is not None, 'weight, mean and covariance of a cluster', label=l, weight=cw, mean=mu, cov=cov)
    c.ok(abs(tot - 1) < 1e-9, 'cluster weights sum to one', got=tot)
    full = d.est_covariance_mtx()
    wm = sum(cw * np.asarray(mu) for l, cw, mu, cov in mom if cw > 0)
    c.eq(wm, d.est_mean(), 'law of total mean', tol=1e-7)
    within, between, total = d.est_cluster_covs(opts)
    ok = all(cw > 0 for l, cw, mu, cov in mom)
    c.eq(total, full, 'law of total variance', tol=1e-7)
    c.eq(within, sum(cw * np.asarray(cov) for l, cw, mu, cov in mom if cw > 0), 'variance within clusters', tol=1e-7)
    c.eq(between, full - sum(cw * np.asarray(cov) for l, cw, mu, cov in mom if cw > 0), 'variance between clusters', tol=1e-7)
    if np.diag(full).min() > 1e-9:
        c.eq(d.est_cluster_metric(opts), np.diag(between) / np.diag(total), 'share of the variance between clusters', tol=1e-7)


def s_clusters_more(c):
    # defaults, weights omitted, weighted distances, other metrics, larger sets
    cyc = core.cycle_stream(2)
    for n, d, nb in ((40, 1, 2), (60, 2, 3), (80, 3, 2), (30, 2, 1)):
        with c.case('clusters large n=%d d=%d' % (n, d)):
            x = [[10.0 * (i % nb) + (cyc.choose(100) / 200.0) + (300.0 + 40 * i if i in (3, 8) else 0) for _ in range(d)] for i in range(n)]
            w = norm_w([cyc.choose(7) + (0 if i % 5 else 1) for i in range(n)])
            D = [[math.dist(p, q) for q in x] for p in x]
            parts = clusters_check(c, x, w, {}, D)
            clusters_check(c, x, None, {}, D)
            if parts is not None:
                for dd in (qi.ParticleDistribution(particle_locations=np.array(x), particle_weights=np.array(w)), mk(M(d), x, w, resample_thresh=0)):
                    moments_check(c, dd, x, w, parts, None)
            Dm = [[sum(abs(a - b) for a, b in zip(p, q)) for q in x] for p in x]
            clusters_check(c, x, w, dict(metric='manhattan', eps=0.75), Dm)
            c.step(3); c.trace()
    for asg in itertools.product(range(2), repeat=6):
        for w, p in ((norm_w([1, 2, 3, 1, 4, 5]), 0.5), ([1 / 6.] * 6, 0.5), (norm_w([1, 20, 3, 1, 40, 5]), 0.25), (norm_w([1, 20, 3, 1, 40, 5]), 1.0)):
            with c.case('clusters weighted asg=%s w=%s p=%g' % (asg, w, p)):
                x = [(a * 5.0 + 0.125 * i, 0.25 * a) for i, a in enumerate(asg)]
                D = [[math.dist(x[i], x[j]) / (w[i] * w[j] * 36) ** p for j in range(6)] for i in range(6)]
                if any(abs(v - 0.5) < 1e-9 for r in D for v in r):
                    continue
                parts = clusters_check(c, x, w, dict(eps=0.5, min_particles=2, weighted=True, w_pow=p), D)
                c.state('wcl', asg, w, p); c.step()
                if parts is not None:
                    moments_check(c, qi.ParticleDistribution(particle_locations=np.array(x), particle_weights=np.array(w)), x, w, parts, dict(eps=0.5, min_particles=2, weighted=True, w_pow=p))
    with c.case('clusters weighted without weights'):
        try:
            list(particle_clusters(np.zeros((4, 1)), weighted=True))
            c.fail('weighted clustering without weights accepted')
        except ValueError:
            c.step()


SCENARIOS = [('lattice%d' % k, s_lattice(k)) for k in range(4)] + [('invariance', s_invariance), ('large', s_large), ('clusters', s_clusters), ('clusters_more', s_clusters_more)]

from . import bulk, edge  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b13)]
BOUNDS += ' Edge configurations: parameter scales from 1e-12 to 1e9, deep retries, objects used before, very many shots, engines, rows or clusters.'
SCENARIOS = SCENARIOS + [('edge', edge.e13)]

from . import forms  # noqa: E402
BOUNDS += ' Arguments of equal values in every memory layout: column-major, strided, reversed, padded, read-only, broadcast, smaller integers.'
SCENARIOS = SCENARIOS + forms.fscenario(lambda: forms.clouds(('moments', 'entropy', 'sample')))
