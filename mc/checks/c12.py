"""C12: prior distributions sample what they say."""
import itertools, math, warnings
import numpy as np
import scipy.stats as st
import qinfer as qi
from qinfer import distributions as qd
from .. import zoo, core, rng
from ..util import *

BOUNDS = ('Complete law of sample() on a grid of the random source: 64 uniform cells / 33 equal-probability normal cells '
          'for one row of every univariate distribution; exact joint laws of 2-3 rows on 2-4 cells for independence of '
          'rows and factors, mixtures (1-4 components, 1-3 rows, list and class form, shuffled or not), post-selection '
          '(1-3 rows, 0-4 attempts), constrained sums, particle sampling (1-5 particles, 1-2 rows, extreme answers of the '
          'source, 1000 particles); every wrapper of every base distribution to depth 2 for shape and support.')
ASSUMPTIONS = ['continuous laws are compared as distribution functions with the resolution of the cells',
               'LogNormalDistribution follows its tests: shape one, location mu, scale sigma']

NZ = 33
ZCELLS = [(float(st.norm.ppf((k + 0.5) / NZ)), 1.0 / NZ) for k in range(NZ)]
Z3 = [(float(st.norm.ppf((k + 0.5) / 3)), 1.0 / 3) for k in range(3)]
Z2 = [(-0.9, 0.5), (0.9, 0.5)]


def dep(f):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f()


def uni_cases():
    """name, make, frozen scipy law, support"""
    C = []
    for rs in ([0, 1], [-2.5, 3], [4, 4.5], np.array([1, 8]), (0, 100)):
        C.append(('uniform%s' % (list(rs),), lambda rs=rs: qd.UniformDistribution(rs), st.uniform(rs[0], rs[1] - rs[0]), (rs[0], rs[1])))
    C.append(('uniform-default', lambda: qd.UniformDistribution(), st.uniform(0, 1), (0, 1)))
    for m, v in ((0, 1), (1.5, 4.0), (-3, 0.25), (1000, 1e-4)):
        C.append(('normal(%g,%g)' % (m, v), lambda m=m, v=v: qd.NormalDistribution(m, v), st.norm(m, math.sqrt(v)), None))
        for t in ((m - 1, m + 0.5), (m, m + 10), (m + 0.5, m + 3)):
            s = math.sqrt(v)
            C.append(('normal(%g,%g,trunc%s)' % (m, v, t), lambda m=m, v=v, t=t: qd.NormalDistribution(m, v, trunc=t),
                      st.truncnorm((t[0] - m) / s, (t[1] - m) / s, m, s), t))
    for mu, sg in ((0, 1), (3, 2), (-1, 0.5)):
        C.append(('lognormal(%g,%g)' % (mu, sg), lambda mu=mu, sg=sg: qd.LogNormalDistribution(mu, sg), st.lognorm(1, mu, sg), (mu, np.inf)))
    C.append(('lognormal', lambda: qd.LogNormalDistribution(), st.lognorm(1), (0, np.inf)))
    for a, b in ((1, 1), (2, 5), (0.5, 0.5), (10, 3), (1, 4)):
        C.append(('beta(%g,%g)' % (a, b), lambda a=a, b=b: qd.BetaDistribution(alpha=a, beta=b), st.beta(a, b), (0, 1)))
        mm, vv = a / (a + b), a * b / ((a + b) ** 2 * (a + b + 1))
        C.append(('beta(mean,var of %g,%g)' % (a, b), lambda mm=mm, vv=vv: qd.BetaDistribution(mean=mm, var=vv), st.beta(a, b), (0, 1)))
        C.append(('gamma(%g,%g)' % (a, b), lambda a=a, b=b: qd.GammaDistribution(alpha=a, beta=b), st.gamma(a, scale=1 / b), (0, np.inf)))
        C.append(('gamma(mean,var of %g,%g)' % (a, b), lambda a=a, b=b: qd.GammaDistribution(mean=a / b, var=a / b ** 2), st.gamma(a, scale=1 / b), (0, np.inf)))
    return C


def cdf_check(c, law, dist, res, what, discrete=False):
    """law: canonical -> [p, res of shape (1,1)]; sup distance of distribution functions at the sample points."""
    pts = sorted((float(np.asarray(r).ravel()[0]), p) for p, r in law.values())
    F, worst, at = 0.0, 0.0, None
    for x, p in pts:
        lo = float(dist.cdf(x))
        # the exact law must fall into the step at x, up to the resolution
        d = max(F - lo, lo - (F + p), 0)
        if d > worst:
            worst, at = d, x
        F += p
    c.ok(worst <= res, what, distance=worst, at=at, allowed=res)


def s_univariate(c):
    for name, make, law0, supp in uni_cases():
        with c.case('univariate ' + name):
            d = make()
            c.eq(d.n_rvs, 1, 'one variable')
            law = c.law(lambda: d.sample(1), n_u=64, zgrid=ZCELLS)
            for p, r in law.values():
                c.ok(np.shape(r) == (1, 1), 'shape of one sample', got=np.shape(r))
                if supp is not None:
                    c.ok(supp[0] - 1e-9 <= r[0, 0] <= supp[1] + 1e-9, 'sample within the support', got=r, want=supp)
            cdf_check(c, law, law0, 2e-3, 'distribution function of the samples')
            m = sum(p * r[0, 0] for p, r in law.values())
            c.ok(abs(m - law0.mean()) <= 0.06 * law0.std() + 1e-12, 'mean of the samples', got=m, want=law0.mean())
            v = sum(p * (r[0, 0] - m) ** 2 for p, r in law.values())
            c.ok(0.55 <= v / law0.var() <= 1.05, 'variance of the samples', got=v, want=law0.var())
            # default argument is one sample
            with core.controlled(core.cycle_stream(3)):
                c.eq(np.shape(d.sample()), (1, 1), 'sample() is one row')


def s_attributes(c):
    """mean/var and alpha/beta forms describe the same law."""
    for a, b in itertools.product((0.5, 1, 2, 7.5), (0.5, 1, 3, 20)):
        with c.case('attributes beta %g %g' % (a, b)):
            d = qd.BetaDistribution(alpha=a, beta=b)
            c.eq([d.mean, d.var], [st.beta(a, b).mean(), st.beta(a, b).var()], 'beta mean and variance')
            e = qd.BetaDistribution(mean=d.mean, var=d.var)
            c.eq([e.alpha, e.beta], [a, b], 'beta parameters from mean and variance', tol=1e-7)
            d = qd.GammaDistribution(alpha=a, beta=b)
            c.eq([d.mean, d.var], [a / b, a / b ** 2], 'gamma mean and variance')
            e = qd.GammaDistribution(mean=d.mean, var=d.var)
            c.eq([e.alpha, e.beta], [a, b], 'gamma parameters from mean and variance', tol=1e-7)
            for n in (2, 5, 11):
                d = qd.BetaBinomialDistribution(n, alpha=a, beta=b)
                w = st.betabinom(n, a, b)
                c.eq([d.mean, d.var], [w.mean(), w.var()], 'beta-binomial mean and variance', tol=1e-9)
                e = qd.BetaBinomialDistribution(n, mean=d.mean, var=d.var)
                c.eq([e.alpha, e.beta], [a, b], 'beta-binomial parameters from mean and variance', tol=1e-6)
                c.step()
            c.state('attr', a, b)
    with c.case('attributes missing'):
        for f in (qd.BetaDistribution, qd.GammaDistribution, lambda **k: qd.BetaBinomialDistribution(3, **k)):
            for kw in ({}, {'alpha': 1}, {'mean': .3}, {'beta': 1}, {'var': 1}, {'alpha': 1, 'mean': .5}):
                try:
                    f(**kw)
                    c.fail('under-specified distribution accepted', kw=kw)
                except ValueError:
                    c.step()


def s_betabinomial(c):
    for n, a, b in itertools.product((1, 2, 4), (0.5, 1, 3), (1, 2.5)):
        with c.case('betabinomial %g %g %g' % (n, a, b)):
            w = st.betabinom(n, a, b)
            for form, d in (('ab', qd.BetaBinomialDistribution(n, alpha=a, beta=b)),) + (() if n == 1 else (
                            ('mv', qd.BetaBinomialDistribution(n, mean=w.mean(), var=w.var())),)):
                law = c.law(lambda: d.sample(1), n_u=32)
                got = [0.0] * (n + 1)
                for p, r in law.values():
                    c.ok(np.shape(r) == (1, 1), 'shape of one sample', got=np.shape(r))
                    c.ok(r[0, 0] in range(n + 1), 'integer between 0 and n', got=r)
                    got[int(r[0, 0])] += p
                c.ok(max(abs(g - w.pmf(k)) for k, g in enumerate(got)) < 0.02, 'beta-binomial probabilities', got=got, want=[w.pmf(k) for k in range(n + 1)])
            if n < 3:
                pair(c, d, dict(n_u=3))


def pair(c, d, kw, tol=1e-9, rows=2):
    """Joint law of `rows` rows is the product of the single-row laws."""
    one = c.law(lambda: d.sample(1), **kw)
    single = {k: p for k, (p, r) in ((core.canon(np.asarray(r, dtype=float)[0]), (p, r)) for p, r in one.values())}
    many = c.law(lambda: d.sample(rows), **kw)
    got = {}
    for p, r in many.values():
        r = np.asarray(r, dtype=float)
        if not c.ok(r.shape == (rows, d.n_rvs), 'shape of several samples', got=r.shape):
            return
        k = tuple(core.canon(r[i]) for i in range(rows))
        got[k] = got.get(k, 0.0) + p
    c.ok(all(x in single for k in got for x in k), 'rows of a batch take the values of single samples')
    for k in itertools.product(sorted(single), repeat=rows):
        want = 1.0
        for x in k:
            want *= single[x]
        if not c.ok(abs(got.get(k, 0.0) - want) <= tol, 'rows are independent', got=got.get(k, 0.0), want=want):
            return


class Model(object):
    """Validity regions."""
    def __init__(self, f): self.f, self.sizes = f, []

    def are_models_valid(self, m):
        m = np.asarray(m)
        self.sizes.append(m.shape)
        return np.array([bool(self.f(r)) for r in m], dtype=bool)


BASES = [
    ('uniform', lambda: qd.UniformDistribution([[0, 1]]), lambda r: 0 <= r[0] <= 1),
    ('uniform2', lambda: qd.UniformDistribution([[0, 1], [-3, -1]]), lambda r: 0 <= r[0] <= 1 and -3 <= r[1] <= -1),
    ('uniform3', lambda: qd.UniformDistribution(np.array([[0, 1], [5, 5], [2, 10]])), lambda r: 0 <= r[0] <= 1 and r[1] == 5 and 2 <= r[2] <= 10),
    ('constant', lambda: qd.ConstantDistribution([3.5]), lambda r: r[0] == 3.5),
    ('constant2', lambda: qd.ConstantDistribution(np.array([1, -2])), lambda r: r[0] == 1 and r[1] == -2),
    ('normal', lambda: qd.NormalDistribution(1, 4), lambda r: True),
    ('truncated', lambda: qd.NormalDistribution(1, 4, trunc=(0.5, 3)), lambda r: 0.5 <= r[0] <= 3),
    ('mvn', lambda: qd.MultivariateNormalDistribution([1, 2], np.array([[2, .5], [.5, 1.]])), lambda r: True),
    ('slanted', lambda: qd.SlantedNormalDistribution([[0, 1], [2, 4]], 0.25), lambda r: True),
    ('lognormal', lambda: qd.LogNormalDistribution(), lambda r: r[0] >= 0),
    ('beta', lambda: qd.BetaDistribution(alpha=2, beta=3), lambda r: 0 <= r[0] <= 1),
    ('dirichlet', lambda: qd.DirichletDistribution([1, 2, 3.5]), lambda r: abs(sum(r) - 1) < 1e-9 and min(r) >= 0),
    ('betabinomial', lambda: qd.BetaBinomialDistribution(3, alpha=1, beta=2), lambda r: r[0] in (0, 1, 2, 3)),
    ('gamma', lambda: qd.GammaDistribution(alpha=2, beta=4), lambda r: r[0] >= 0),
    ('mvuniform', lambda: dep(lambda: qd.MVUniformDistribution(4)), lambda r: abs(sum(r) - 1) < 1e-9 and min(r) >= 0),
    ('discrete', lambda: qd.DiscreteUniformDistribution(2), lambda r: r[0] in (0, 1, 2, 3)),
    ('particles', lambda: qd.ParticleDistribution(particle_locations=np.array([[1., 2.], [3., 4.], [5., 6.]]), particle_weights=np.array([.5, .25, .25])),
     lambda r: tuple(r) in ((1, 2), (3, 4), (5, 6))),
    ('interpolated', lambda: qd.InterpolatedUnivariateDistribution(st.norm.pdf, 1, 300), lambda r: abs(r[0]) < 10),
    ('haar', lambda: dep(lambda: qd.HaarUniform()), lambda r: abs(sum(x * x for x in r) - 1) < 1e-9),
    ('ginibre', lambda: dep(lambda: qd.GinibreUniform()), lambda r: sum(x * x for x in r) <= 1 + 1e-9),
    ('ginibre1', lambda: dep(lambda: qd.GinibreUniform(k=1)), lambda r: abs(sum(x * x for x in r) - 1) < 1e-9),
    ('hilbertschmidt', lambda: dep(lambda: qd.HilbertSchmidtUniform()), lambda r: sum(x * x for x in r) <= 1 + 1e-9),
]
GENERIC_Z = ((-1.3, 1), (-0.4, 1), (0.2, 1), (0.9, 1), (1.6, 1))


def wrappers(nm, mk, supp):
    """Everything one wrapper away from a base distribution."""
    k = mk().n_rvs
    yield nm, mk, supp
    yield 'product(%s,const)' % nm, (lambda: qd.ProductDistribution(mk(), qd.ConstantDistribution([7, 8]))), (lambda r: supp(r[:k]) and tuple(r[k:]) == (7, 8))
    yield 'product([uniform,%s])' % nm, (lambda: qd.ProductDistribution([qd.UniformDistribution([20, 21]), mk()])), (lambda r: 20 <= r[0] <= 21 and supp(r[1:]))
    yield 'product(%s)' % nm, (lambda: qd.ProductDistribution(mk())), supp
    yield 'mixture(%s,const)' % nm, (lambda: qd.MixtureDistribution([0.5, 0.5], [mk(), qd.ConstantDistribution([9.0] * k)])), (lambda r: supp(r) or all(x == 9 for x in r))
    yield 'unshuffled(%s,const)' % nm, (lambda: qd.MixtureDistribution(np.array([0.25, 0.75]), [mk(), qd.ConstantDistribution([9.0] * k)], shuffle=False)), (lambda r: supp(r) or all(x == 9 for x in r))
    yield 'postselected(%s)' % nm, (lambda: qd.PostselectedDistribution(mk(), Model(lambda r: r[0] != 0.123))), supp
    yield 'constrained(%s)' % nm, (lambda: qd.ConstrainedSumDistribution(mk(), 2.5)), (lambda r: abs(sum(r) - 2.5) < 1e-9 or not np.all(np.isfinite(r)))


def s_shape_support(c):
    ns = (1, 2, 3, 7, 40)
    for nm, mk0, sp0 in BASES:
        for nm1, mk1, sp1 in wrappers(nm, mk0, sp0):
            deep = [(nm1, mk1, sp1)]
            if nm1 != nm and not nm1.startswith('constrained'):
                deep += list(wrappers(nm1, mk1, sp1))[1:]
            for nm2, mk2, sp2 in deep:
                with c.case('shape ' + nm2):
                    d = mk2()
                    for n, seed in itertools.product(ns if nm2 == nm1 else (1, 3), (1, 5) if nm2 == nm1 else (2,)):
                        with core.controlled(core.cycle_stream(seed, zgrid=GENERIC_Z)):
                            s = d.sample(n)
                        s = np.asarray(s)
                        c.step()
                        c.ok(s.shape == (n, d.n_rvs), 'n rows of n_rvs variables', got=s.shape, want=(n, d.n_rvs))
                        bad = [r for r in s if not sp2(r)]
                        c.ok(not bad, 'samples within the support', bad=bad[:3])
                        c.state('shape', nm2, n, seed, s)
                    with core.controlled(core.cycle_stream(4, zgrid=GENERIC_Z)):
                        s = np.asarray(d.sample())
                    c.ok(s.shape == (1, d.n_rvs) and sp2(s[0]), 'one sample by default', got=s); c.step()
                    c.trace()


def s_no_state(c):
    """Sampling leaves the distribution as it was; changing the samples does not change it either."""
    for nm, mk0, sp0 in BASES:
        for nm1, mk1, sp1 in wrappers(nm, mk0, sp0):
            with c.case('no-state ' + nm1):
                def draw(d, n=3, seed=4):
                    with core.controlled(core.cycle_stream(seed, zgrid=GENERIC_Z)):
                        return np.array(d.sample(n), dtype=float), d
                d = mk1()
                first, _ = draw(d)
                with core.controlled(core.cycle_stream(9, zgrid=GENERIC_Z)):
                    s = np.asarray(d.sample(5))
                try:
                    s[...] = -77
                except ValueError:
                    pass
                again, _ = draw(d)
                fresh, _ = draw(mk1())
                c.eq(again, first, 'same answers give the same samples after other sampling')
                c.eq(fresh, first, 'same answers give the same samples from a new object')
                c.step(3)


def s_rows(c):
    """Rows independent; kw: answer grids small enough for exact joint laws."""
    D = [('uniform', dict(n_u=4)), ('uniform2', dict(n_u=3)), ('uniform3', dict(n_u=2)), ('constant2', dict(n_u=2)), ('normal', dict(n_u=4, zgrid=Z3)),
         ('truncated', dict(n_u=4, zgrid=Z3)), ('mvn', dict(zgrid=Z2)), ('slanted', dict(n_u=2, zgrid=Z2)), ('lognormal', dict(zgrid=Z3, n_u=4)),
         ('beta', dict(n_u=4)), ('dirichlet', dict(n_u=3)), ('gamma', dict(n_u=4)), ('mvuniform', dict(n_u=2)), ('discrete', dict(n_u=4)),
         ('particles', dict(n_u=4)), ('interpolated', dict(n_u=4))]
    by = {b[0]: b for b in BASES}
    for nm, kw in D:
        with c.case('rows ' + nm):
            d = by[nm][1]()
            pair(c, d, kw)
            if nm in ('uniform', 'normal', 'beta', 'discrete', 'particles'):
                pair(c, d, kw, rows=3)


def s_vector(c):
    """Multivariate laws: uniform boxes, normal, slanted, Dirichlet, products."""
    for ranges in ([[0, 1], [-3, -1]], [[1, 2], [10, 20], [0, 0.5]], np.array([[0, 1], [1, 4]])):
        with c.case('vector uniform %s' % (np.array(ranges).tolist(),)):
            d = qd.UniformDistribution(ranges)
            r = np.array(ranges, dtype=float)
            law = c.law(lambda: d.sample(1), n_u=6)
            pts = {}
            for p, s in law.values():
                for j, v in enumerate(s[0]):
                    cell = (v - r[j, 0]) / (r[j, 1] - r[j, 0]) * 6 - 0.5
                    c.ok(abs(cell - round(cell)) < 1e-6, 'affine image of the uniform answers', got=v)
                k = tuple(int(round((v - r[j, 0]) / (r[j, 1] - r[j, 0]) * 6 - 0.5)) for j, v in enumerate(s[0]))
                pts[k] = pts.get(k, 0) + p
            c.ok(len(pts) == 6 ** len(r) and all(abs(p - 6.0 ** -len(r)) < 1e-9 for p in pts.values()), 'every cell of the box equally likely')
    for mean, cov in (([0, 0], [[1, 0], [0, 1]]), ([1, -2], [[2, .7], [.7, 1]]), ([3, 1, 0], [[1, .2, .1], [.2, 2, -.3], [.1, -.3, .5]]), ([5], [[4.0]]),
                      (np.array([[1.0], [2.0]]), [[1, -.9], [-.9, 1]])):
        with c.case('vector normal %s' % (cov,)):
            cov = np.array(cov, dtype=float)
            d = qd.MultivariateNormalDistribution(mean, cov)
            mu = np.array(mean, dtype=float).ravel()
            c.eq(d.n_rvs, len(mu), 'dimension')
            law = c.law(lambda: d.sample(1), zgrid=rng.GH2)
            m = sum(p * s[0] for p, s in law.values())
            c.eq(m, mu, 'mean')
            v = sum(p * np.outer(s[0] - mu, s[0] - mu) for p, s in law.values())
            c.eq(v, cov, 'covariance', tol=1e-7)
            # 4th-order check with the 3 point rule: E[(a.x)^4] = 3 (a C a)^2
            law = c.law(lambda: d.sample(1), zgrid=rng.GH3)
            for a in ([1.0] * len(mu), [1.0] + [-0.5] * (len(mu) - 1)):
                a = np.array(a)
                k4 = sum(p * float(a.dot(s[0] - mu)) ** 4 for p, s in law.values())
                c.ok(abs(k4 - 3 * float(a.dot(cov).dot(a)) ** 2) < 1e-6 * (1 + k4), 'fourth moment', got=k4)
            x = np.array([mu + 1, mu - 0.25, mu * 2])
            g = d.grad_log_pdf(x)
            c.eq(g, np.array([-np.linalg.solve(cov, r - mu) for r in x]), 'gradient of the log density')
    for ranges, w in (([[0, 1], [2, 5]], 0.5), ([[1, 3]], 0.25), ([0, 2], 2.0)):
        with c.case('vector slanted %s %g' % (ranges, w)):
            d = qd.SlantedNormalDistribution(ranges, w)
            r = np.atleast_2d(np.array(ranges, dtype=float))
            c.eq(d.n_rvs, len(r), 'dimension')
            law = c.law(lambda: d.sample(1), n_u=8 if len(r) == 1 else 5, zgrid=rng.GH3)
            n_u = 8 if len(r) == 1 else 5
            mid = r.mean(axis=1)
            c.eq(sum(p * s[0] for p, s in law.values()), mid, 'mean')
            v = sum(p * np.outer(s[0] - mid, s[0] - mid) for p, s in law.values())
            c.eq(v, np.diag((r[:, 1] - r[:, 0]) ** 2 / 12 * (1 - 1.0 / n_u ** 2) + w ** 2), 'variance is that of the box plus weight squared', tol=1e-7)
    for al in ([1, 1], [2.0, 3.5], [1, 2, 3], [4, 4, 4, 4]):
        with c.case('vector dirichlet %s' % (al,)):
            d = qd.DirichletDistribution(al)
            c.eq(d.alpha, np.array(al), 'concentration parameters')
            A = float(sum(al))
            law = c.law(lambda: d.sample(1), n_u={2: 24, 3: 14, 4: 8}[len(al)])
            m = sum(p * np.asarray(s)[0] for p, s in law.values())
            c.ok(np.all(np.abs(m - np.array(al) / A) < 0.02), 'mean', got=m, want=np.array(al) / A)
            v = sum(p * (np.asarray(s)[0] - m) ** 2 for p, s in law.values())
            w = np.array([a * (A - a) / A ** 2 / (A + 1) for a in al])
            c.ok(np.all(v / w < 1.1) and np.all(v / w > 0.7), 'variance', got=v, want=w)
    with c.case('vector dirichlet shape'):
        try:
            qd.DirichletDistribution([[1, 2], [3, 4]])
            c.fail('two-dimensional concentration accepted')
        except ValueError:
            c.step()
    for dim in (2, 3):
        with c.case('vector mvuniform %d' % dim):
            d = dep(lambda: qd.MVUniformDistribution(dim))
            law = c.law(lambda: d.sample(1), n_u=16)
            m = sum(p * np.asarray(s)[0] for p, s in law.values())
            c.ok(np.all(np.abs(m - 1.0 / dim) < 1e-6), 'symmetric mean', got=m)
            v = sum(p * (np.asarray(s)[0] - m) ** 2 for p, s in law.values())
            w = (1.0 / dim) * (1 - 1.0 / dim) / (dim + 1)
            c.ok(np.all(np.abs(v / w - 1) < 0.25), 'variance', got=v, want=w)
    for k in (0, 1, 2, 3, 5):
        with c.case('vector discrete %d' % k):
            d = qd.DiscreteUniformDistribution(k)
            law = c.law(lambda: d.sample(1), n_u=2 ** k)
            got = sorted(float(np.asarray(s).ravel()[0]) for p, s in law.values())
            c.eq(got, [float(x) for x in range(2 ** k)], 'all integers up to 2**bits - 1')
            c.ok(all(abs(p - 2.0 ** -k) < 1e-9 for p, s in law.values()), 'equally likely')
    # products: joint law is the product of the factors' laws
    F = {'u': (lambda: qd.UniformDistribution([0, 1]), 1), 'u2': (lambda: qd.UniformDistribution([[2, 3], [4, 6]]), 2), 'n': (lambda: qd.NormalDistribution(10, 4), 1),
         'c': (lambda: qd.ConstantDistribution([1, 2]), 2), 'd': (lambda: qd.DiscreteUniformDistribution(1), 1),
         'p': (lambda: qd.ParticleDistribution(particle_locations=np.array([[100.], [200.]]), particle_weights=np.array([.75, .25])), 1)}
    for names in list(itertools.product(F, repeat=2)) + [('u', 'n', 'd'), ('d', 'p', 'u2'), ('c', 'u', 'c'), ('d', 'd', 'd', 'p')]:
        for form in ('args', 'list'):
            with c.case('product %s %s' % (','.join(names), form)):
                fs = [F[n][0]() for n in names]
                d = qd.ProductDistribution(*fs) if form == 'args' else qd.ProductDistribution(fs if names[0] == 'u' else iter(fs))
                c.eq(d.n_rvs, sum(F[n][1] for n in names), 'number of variables')
                kw = dict(n_u=4, zgrid=Z3)
                single = []
                for f in fs:
                    l = c.law(lambda: f.sample(1), **kw)
                    single.append({core.canon(np.asarray(s, dtype=float)[0]): p for p, s in l.values()})
                law = c.law(lambda: d.sample(1), **kw)
                got = {}
                for p, s in law.values():
                    s = np.asarray(s, dtype=float)[0]
                    cut = np.cumsum([F[n][1] for n in names])[:-1]
                    k = tuple(core.canon(x) for x in np.split(s, cut))
                    got[k] = got.get(k, 0) + p
                for k in itertools.product(*[sorted(x) for x in single]):
                    w = 1.0
                    for j, x in enumerate(k):
                        w *= single[j][x]
                    if not c.ok(abs(got.get(k, 0) - w) < 1e-9, 'factors are independent and in order', got=got.get(k, 0), want=w):
                        break


def s_mixture(c):
    W = [[1.0], [0.5, 0.5], [0.25, 0.75], [0.25, 0.25, 0.5], [0.0, 1.0], [0.5, 0.0, 0.5], [0.125, 0.375, 0.25, 0.25]]
    for w, n in itertools.product(W, (1, 2, 3)):
        if len(w) == 4 and n == 3 and not c.thorough:
            continue
        for form in ('list', 'class', 'kwargs'):
            with c.case('mixture %s n=%d %s' % (w, n, form)):
                K = len(w)
                if form == 'list':
                    d = qd.MixtureDistribution(w, [qd.ConstantDistribution([10.0 * k, -k]) for k in range(K)])
                elif form == 'class':
                    d = qd.MixtureDistribution(np.array(w), Tag2, dist_args=np.array([[10.0 * k, -k] for k in range(K)]))
                else:
                    d = qd.MixtureDistribution(np.array(w), Tag2, dist_kw_args={'a': np.array([[10.0 * k] for k in range(K)]), 'b': np.array([[-float(k)] for k in range(K)])})
                c.eq((d.n_rvs, d.n_dist), (2, K), 'variables and components')
                law = c.law(lambda: d.sample(n))
                got = {}
                for p, s in law.values():
                    c.ok(s.shape == (n, 2), 'shape', got=s.shape)
                    c.ok(all(s[i, 1] == -s[i, 0] / 10 for i in range(n)), 'rows kept together', got=s)
                    k = tuple(int(round(s[i, 0] / 10)) for i in range(n))
                    got[k] = got.get(k, 0) + p
                for k in itertools.product(range(K), repeat=n):
                    x = 1.0
                    for j in k:
                        x *= w[j]
                    c.ok(abs(got.get(k, 0) - x) < 1e-9, 'components in the stated proportions, independently', rows=k, got=got.get(k, 0), want=x)
    for w, n in itertools.product(W, (1, 2, 3)):
        with c.case('mixture unshuffled %s n=%d' % (w, n)):
            d = qd.MixtureDistribution(w, [qd.ConstantDistribution([float(k)]) for k in range(len(w))], shuffle=False)
            law = c.law(lambda: d.sample(n))
            got = {}
            for p, s in law.values():
                k = tuple(int(x) for x in s[:, 0])
                c.ok(k == tuple(sorted(k)), 'unshuffled samples in the order of the distributions', got=k)
                got[k] = got.get(k, 0) + p
            for cnt in rng.compositions(n, len(w)):
                k = tuple(i for i, m in enumerate(cnt) for _ in range(m))
                x = float(math.factorial(n))
                for m, q in zip(cnt, w):
                    x *= q ** m / math.factorial(m)
                c.ok(abs(got.get(k, 0) - x) < 1e-9, 'numbers per component are multinomial', rows=k, got=got.get(k, 0), want=x)
    with c.case('mixture of continuous'):
        d = qd.MixtureDistribution([0.25, 0.75], qd.NormalDistribution, dist_args=np.array([[0.0, 1.0], [10.0, 4.0]]))
        law = c.law(lambda: d.sample(1), zgrid=ZCELLS)
        class F(object):
            def cdf(self, x): return 0.25 * st.norm(0, 1).cdf(x) + 0.75 * st.norm(10, 2).cdf(x)
        cdf_check(c, law, F(), 5e-3, 'distribution function of the mixture')
        d = qd.MixtureDistribution([0.5, 0.5], qd.NormalDistribution, dist_args=np.array([[0.0, 1.0], [10.0, 4.0]]),
                                   dist_kw_args={'trunc': np.array([[-1, 0.5], [9, 14]])})
        law = c.law(lambda: d.sample(1), n_u=64, zgrid=ZCELLS)
        class G(object):
            def cdf(self, x): return 0.5 * st.truncnorm(-1, .5).cdf(x) + 0.5 * st.truncnorm(-.5, 2, 10, 2).cdf(x)
        cdf_check(c, law, G(), 5e-3, 'distribution function of the mixture of truncated normals')


class Tag2(qd.Distribution):
    """Constant given by two arguments (scalars or length-one arrays)."""
    def __init__(self, a=0, b=0):
        self.v = [float(np.ravel(a)[0]), float(np.ravel(b)[0])]

    @property
    def n_rvs(self): return 2

    def sample(self, n=1): return np.array([self.v] * n)


def s_postselected(c):
    for keep, n, it in itertools.product(((0,), (0, 1), (1, 3), (0, 1, 2), (0, 1, 2, 3), ()), (1, 2, 3), (1, 2, 3, 4)):
        if n == 3 and it > 2 and len(keep) < 3 and not c.thorough:
            continue
        if n == 2 and it > 3 and len(keep) < 2 and not c.thorough:
            continue
        with c.case('postselected keep=%s n=%d maxiters=%d' % (keep, n, it)):
            m = Model(lambda r: int(r[0] * 4) in keep)
            d = qd.PostselectedDistribution(qd.UniformDistribution([0, 1]), m, maxiters=it)
            c.eq(d.n_rvs, 1, 'dimension')
            q = len(keep) / 4.0
            pf, got = 0.0, {}
            for res, p, ch in core.explore(lambda: d.sample(n), n_u=4):
                c.step(max(len(ch), 1)); c.trace()
                if isinstance(res, core.Raised):
                    c.ok(type(res.e) is RuntimeError, 'failure is a RuntimeError', got=res)
                    c.ok(len(ch) >= it, 'fails only after the stated number of attempts', draws=len(ch))
                    pf += p
                    continue
                k = tuple(int(x * 4) for x in res[:, 0])
                c.ok(res.shape == (n, 1) and all(x in keep for x in k), 'post-selected samples are valid', got=res)
                got[k] = got.get(k, 0) + p
                c.state('ps', keep, n, it, k, len(ch))
            want_ok = (1 - (1 - q) ** it) ** n
            c.ok(abs(pf - (1 - want_ok)) < 1e-9, 'probability of failure', got=pf, want=1 - want_ok)
            for k in itertools.product(keep, repeat=n):
                w = want_ok * (1.0 / len(keep)) ** n
                c.ok(abs(got.get(k, 0) - w) < 1e-9, 'accepted draws of the base, rows independent', at=k, got=got.get(k, 0), want=w)
    with c.case('postselected zero attempts'):
        d = qd.PostselectedDistribution(qd.UniformDistribution([0, 1]), Model(lambda r: True), maxiters=0)
        try:
            d.sample(2)
            c.fail('sampling without attempts succeeded')
        except RuntimeError:
            c.step()
    with c.case('postselected two parameters'):
        # validity couples the parameters; joint law is the base restricted
        d = qd.PostselectedDistribution(qd.UniformDistribution([[0, 1], [0, 1]]), Model(lambda r: r[0] + r[1] < 1.01), maxiters=2)
        got, pf = {}, 0
        for res, p, ch in core.explore(lambda: d.sample(1), n_u=3):
            c.step(len(ch)); c.trace()
            if isinstance(res, core.Raised):
                pf += p
                continue
            k = (int(res[0, 0] * 3), int(res[0, 1] * 3))
            got[k] = got.get(k, 0) + p
        ok = [(i, j) for i in range(3) for j in range(3) if (i + .5) / 3 + (j + .5) / 3 < 1.01]
        qq = len(ok) / 9.0
        c.ok(set(got) == set(ok), 'samples valid', got=sorted(got))
        for k in ok:
            c.ok(abs(got[k] - (1 - (1 - qq) ** 2) / len(ok)) < 1e-9, 'restricted law', at=k, got=got[k])
    with c.case('postselected gradient'):
        base = qd.NormalDistribution(1, 4)
        d = qd.PostselectedDistribution(base, Model(lambda r: r[0] > 0))
        x = np.array([[0.5], [3.0]])
        c.eq(d.grad_log_pdf(x), -(x - 1) / 4, 'gradient is that of the base')
        c.eq(base.grad_log_pdf(x), -(x - 1) / 4, 'gradient of the normal log density')
        t = qd.NormalDistribution(1, 4, trunc=(0, 9))
        c.eq(t.grad_log_pdf(x), -(x - 1) / 4, 'gradient of the truncated normal log density')
    with c.case('postselected real model'):
        m = qi.RandomizedBenchmarkingModel()
        d = qd.PostselectedDistribution(qd.UniformDistribution([[0, 1]] * 3), m)
        for seed in range(6):
            with core.controlled(core.cycle_stream(seed)):
                s = d.sample(60)
            c.ok(s.shape == (60, 3) and np.all(m.are_models_valid(s)), 'valid samples of a real model')
            c.trace()


def s_constrained(c):
    for T, (nm, mk) in itertools.product((1, 3, 0.5, -2.0), (('uniform', lambda: qd.UniformDistribution([[0, 1], [0, 2]])), ('three', lambda: qd.UniformDistribution([[0, 1], [0, 1], [1, 2]])),
                                                            ('negative', lambda: qd.UniformDistribution([[-3, -1], [-1, 0.0]])), ('mixed', lambda: qd.UniformDistribution([[-1, 2], [0.1, 0.6]])))):
        with c.case('constrained %s total=%g' % (nm, T)):
            b = mk()
            d = qd.ConstrainedSumDistribution(b, T)
            c.eq(d.n_rvs, b.n_rvs, 'dimension')
            c.ok(d.underlying_distribution is b, 'underlying distribution')
            for n in (1, 2) if b.n_rvs < 3 else (1,):
                for res, p, ch in c.explore(lambda: d.sample(n), n_u=4):
                    with core.quiet():
                        base = core.replay(lambda: b.sample(n), list(ch), n_u=4)
                    c.ok(res.shape == (n, b.n_rvs), 'shape', got=res.shape)
                    c.eq(res.sum(axis=1), np.full(n, float(T)), 'samples sum to the stated total')
                    for i in range(n):
                        c.ok(np.allclose(np.cross(np.append(res[i], 0)[:3], np.append(base[i], 0)[:3]), 0, atol=1e-9) if b.n_rvs == 2 else
                             np.allclose(np.cross(res[i], base[i]), 0, atol=1e-9), 'sample is a rescaled base sample', got=res[i], base=base[i])
                    c.state('cs', nm, T, res)
    with c.case('constrained default'):
        d = qd.ConstrainedSumDistribution(qd.UniformDistribution([[0, 1], [0, 2]]))
        with core.controlled(core.cycle_stream(1)):
            c.eq(d.sample(5).sum(axis=1), np.ones(5), 'default total is one')


EXT = [0.0, 2.0 ** -53, 1e-12, 0.5, 1 - 1e-12, 1 - 2.0 ** -53]


def s_particles(c):
    W = [[1.0], [0.5, 0.5], [0.25, 0.75], [0.0, 1.0], [1.0, 0.0], [0.5, 0.0, 0.5], [0.125, 0.5, 0.125, 0.25], [0, 0.25, 0, 0.75, 0]]
    for w in W:
        for n, scale in itertools.product((1, 2), (1.0, 8.0, -3.0)):
            with c.case('particles %s n=%d scale=%g' % (w, n, scale)):
                x = np.array([[float(i), 10.0 - i] for i in range(len(w))])
                d = qd.ParticleDistribution(particle_locations=x, particle_weights=np.array(w) * scale)
                c.eq(d.particle_weights, np.array(w), 'weights made positive and normalised')
                c.eq((d.n_particles, d.n_rvs), (len(w), 2), 'sizes')
                law = c.law(lambda: d.sample(n), n_u=8)
                got = {}
                for p, s in law.values():
                    c.ok(all(s[i, 1] == 10 - s[i, 0] for i in range(n)), 'rows are particles', got=s)
                    k = tuple(int(v) for v in s[:, 0])
                    got[k] = got.get(k, 0) + p
                for k in itertools.product(range(len(w)), repeat=n):
                    v = 1.0
                    for j in k:
                        v *= w[j]
                    c.ok(abs(got.get(k, 0) - v) < 1e-9, 'each particle drawn with its weight', at=k, got=got.get(k, 0), want=v)
    short = [[1.0 / k] * k + [0.0] for k in range(2, 60) if np.cumsum([1.0 / k] * k)[-1] < 1][:12]     # rounded totals below one
    for w in W + short + [[0.1] * 10, [1 / 3.] * 3, [1e-300, 1 - 1e-300], [0.7, 0.1, 0.1, 0.1, 0.0]]:
        with c.case('particles extreme %s' % (w[:5],)):
            d = qd.ParticleDistribution(particle_locations=np.arange(len(w), dtype=float)[:, None], particle_weights=np.array(w))
            for res, p, ch in c.explore(lambda: d.sample(2), ugrid=EXT):
                for v in res[:, 0]:
                    c.ok(w[int(v)] > 0, 'weightless particles are never drawn', drawn=v)
                c.state('ext', w, res)
    with c.case('particles many'):
        n = 1000
        x = np.array([[i, i * i] for i in range(n)], dtype=float)
        w = np.array([(i * 7919) % 11 for i in range(n)], dtype=float)
        d = qd.ParticleDistribution(particle_locations=x, particle_weights=w)
        cw = [0.0]
        for v in w:
            cw.append(cw[-1] + v)
        for m in (1, 10, 500):
            class Seq(object):
                ugrid = [(k + 0.25) / m for k in range(m)]
                zgrid = rng.GH2
                def __init__(self): self.i = -1
                def choose(self, nn, weights=None, kind=''):
                    self.i += 1
                    return self.i % nn
            with core.controlled(Seq()):
                s = d.sample(m)
            want = []
            for u in Seq.ugrid:
                t = u * cw[-1]
                want.append(next(i for i in range(n) if cw[i + 1] > t))
            c.eq(sorted(s[:, 0]), sorted(float(v) for v in want), 'stratified draws fall in proportion to the weights')
            c.step(m); c.trace()
    with c.case('particles default'):
        d = qd.ParticleDistribution(n_mps=4)
        c.eq((d.n_particles, d.n_rvs), (1, 4), 'one particle at the origin')
        c.eq(d.sample(3), np.zeros((3, 4)), 'samples at the origin')
        try:
            qd.ParticleDistribution(n_mps=2, particle_locations=np.ones((3, 2)), particle_weights=np.ones(3))
            c.fail('over-specified particle distribution accepted')
        except ValueError:
            c.step()


def s_interpolated(c):
    def tri(x):
        return np.clip(1 - np.abs(x), 0, None)
    P = [('normal', st.norm.pdf, st.norm(), 1, 400), ('normal-unnormalised', lambda x: 7 * st.norm.pdf(x), st.norm(), 1, 400),
         ('shifted', lambda x: st.norm.pdf(x, 2, 0.5), st.norm(2, 0.5), 1, 1500), ('laplace', st.laplace.pdf, st.laplace(), 1, 1501),
         ('triangle', tri, st.triang(0.5, -1, 2), 0.5, 800), ('wide', lambda x: st.norm.pdf(x, 0, 10), st.norm(0, 10), 10, 500)]
    for nm, f, ref, sc, k in P:
        with c.case('interpolated ' + nm):
            d = qd.InterpolatedUnivariateDistribution(f, sc, k)
            c.eq(d.n_rvs, 1, 'dimension')
            law = c.law(lambda: d.sample(1), n_u=64)
            for p, s in law.values():
                c.ok(s.shape == (1, 1) and np.isfinite(s[0, 0]), 'finite sample of one variable', got=s)
            cdf_check(c, law, ref, 4e-3, 'distribution function of the interpolated density')
            for res, p, ch in c.explore(lambda: d.sample(2), ugrid=EXT):
                c.ok(res.shape == (2, 1) and np.all(np.isfinite(res)), 'finite samples for extreme answers', got=res)
    with c.case('interpolated defaults'):
        d = qd.InterpolatedUnivariateDistribution(st.norm.pdf)
        law = c.law(lambda: d.sample(1), n_u=64)
        cdf_check(c, law, st.norm(), 4e-3, 'distribution function with the default grid')


def s_single_sample(c):
    class One(qd.SingleSampleMixin, qd.Distribution):
        @property
        def n_rvs(self): return 2
        def _sample(self):
            a = np.random.random()
            return np.array([a, a + np.random.randint(2)])
    with c.case('single sample mixin'):
        d = One()
        pair(c, d, dict(n_u=3))
        law = c.law(lambda: d.sample(1), n_u=3)
        c.ok(len(law) == 6 and all(abs(p - 1 / 6.) < 1e-9 for p, s in law.values()), 'law of the single sample', got=len(law))
    for nm, f in (('haar', lambda: dep(lambda: qd.HaarUniform())), ('ginibre2', lambda: dep(lambda: qd.GinibreUniform(k=2))), ('ginibre1', lambda: dep(lambda: qd.GinibreUniform(k=1)))):
        with c.case('bloch ' + nm):
            d = f()
            tot, m2, n = np.zeros(3), np.zeros(3), 0
            for res, p, ch in core.explore(lambda: d.sample(1), zgrid=[(-1.1, 0.5), (0.8, 0.5)]):
                if isinstance(res, core.Raised) or not np.all(np.isfinite(res)):
                    continue
                r = float((res ** 2).sum())
                c.ok(r <= 1 + 1e-9 and (nm == 'ginibre2' or abs(r - 1) < 1e-9), 'Bloch vector of a state', got=res)
                n += 1; c.step(len(ch)); c.trace()
            c.ok(n >= 16, 'answers explored', n=n)

    # expectations of the Pauli operators, in the order of the factors I, Z, Y, X, under a state
    one = [np.eye(2), np.diag([1., -1.]), np.array([[0, -1j], [1j, 0]]), np.array([[0, 1.], [1, 0]])]
    for dim, q in ((2, 1), (4, 2), (8, 3)):
        with c.case('hilbert-schmidt %d' % dim):
            d = dep(lambda: qd.HilbertSchmidtUniform(dim=dim))
            c.ok(d.n_rvs == dim ** 2 - 1, 'number of variables', got=d.n_rvs)
            ops = [np.eye(1)]
            for k in range(q):
                ops = [np.kron(a, b) for a in ops for b in one]
            pur, imag = [], 0.0
            for seed in range(1, 41 if dim < 8 else 9):
                with core.controlled(core.cycle_stream(seed, zgrid=GENERIC_Z)):
                    s = d.sample(2)
                if not c.ok(s.shape == (2, dim ** 2 - 1), 'shape', got=s.shape): continue
                for r in s:
                    rho = (np.eye(dim) + sum(x * P for x, P in zip(r, ops[1:]))) / dim
                    ev = np.linalg.eigvalsh(rho)
                    c.ok(ev.min() > -1e-9, 'expectations of a state', least=ev.min())
                    pur.append(float((ev ** 2).sum())); imag = max(imag, abs(rho.imag).max())
                c.ok(np.abs(s[0] - s[1]).max() > 1e-6, 'independent samples')
                c.step(2); c.trace(); c.state('hs', dim, seed)
            if dim == 2:
                # the law of G G^dagger / tr for a matrix of independent normals (here: signs), exactly
                law, want = {}, {}
                for x, p, ch in c.explore(lambda: dep(lambda: qd.HilbertSchmidtUniform()).sample(1), zgrid=[(-1.0, 0.5), (1.0, 0.5)]):
                    k = tuple(np.round(x[0], 7) + 0.0); law[k] = law.get(k, 0) + p
                for sg in itertools.product((-1.0, 1.0), repeat=8):
                    G = np.array(sg[:4]).reshape(2, 2) + 1j * np.array(sg[4:]).reshape(2, 2)
                    R = G.dot(G.conj().T); R = R / np.trace(R)
                    k = tuple(np.round([np.trace(R.dot(P)).real for P in ops[1:]], 7) + 0.0); want[k] = want.get(k, 0) + 1 / 256.0
                c.ok(set(law) == set(want) and all(abs(law[k] - want[k]) < 1e-9 for k in want), 'law of the Hilbert-Schmidt ensemble', got=sorted(law.items())[:4], want=sorted(want.items())[:4], n=(len(law), len(want)))
            c.ok(imag > 1e-3 and max(pur) < 1 - 1e-6 and min(pur) > 1.0 / dim, 'generic mixed complex states', imag=imag, pur=(min(pur), max(pur)))


SCENARIOS = [('univariate', s_univariate), ('attributes', s_attributes), ('betabinomial', s_betabinomial), ('shape_support', s_shape_support),
             ('no_state', s_no_state), ('rows', s_rows), ('vector', s_vector), ('mixture', s_mixture), ('postselected', s_postselected),
             ('constrained', s_constrained), ('particles', s_particles), ('interpolated', s_interpolated), ('single_sample', s_single_sample)]

from . import bulk, edge  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b12)]
BOUNDS += ' Edge configurations: parameter scales from 1e-12 to 1e9, deep retries, objects used before, very many shots, engines, rows or clusters.'
SCENARIOS = SCENARIOS + [('edge', edge.e12)]

from . import edge2  # noqa: E402
BOUNDS += ' Further edge configurations: long histories, answers at cell boundaries, near ties, numbers of many digits.'
SCENARIOS = SCENARIOS + [('edge2', edge2.f12)]
