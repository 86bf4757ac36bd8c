"""Edge configurations: unusual scales, deep retries, long-lived objects, large numbers.  One function per check."""
import math, itertools, warnings, io
from fractions import Fraction
import numpy as np
import qinfer as qi
from qinfer import distributions as qd
from .. import zoo, core, rng
from ..util import *
EP = lambda *i: np.array([(k,) for k in i], dtype=[('e', 'int')])
from .bulk import grid, ep, vec, VEC


# -- C03: overwriting what a query returned -----------------------------------

def e03(c):
    for name in ('precession', 'inversion', 'rb', 'unknownT2', 'binomial(precession)', 'multinomial(ndie3)', 'ndie3'):
        if name not in zoo.BY:
            es = {e.name: e for e in zoo.all_finite()}
            if name not in es: continue
            e = es[name]
        else:
            e = zoo.BY[name]
        with c.case('edge overwritten domain %s' % name):
            res = []
            for spoil in (False, True):
                m = e.make()
                u = mk(m, e.params, resample_thresh=0.0)
                out = []
                for k, p in enumerate(e.eps[:3]):
                    E = e.ep_array(m, [k])
                    o = e.outcomes(p)[k % len(e.outcomes(p))]
                    dom = m.domain(E)[0]
                    for v in (dom.values, dom.example_point):
                        if spoil and isinstance(v, np.ndarray) and v.flags.writeable:
                            v[...] = np.zeros_like(v) + (1 if v.dtype.kind in 'iuf' else 0) if not v.dtype.names else np.zeros_like(v)
                    E2 = E.copy()
                    out.append(np.array(u.bayes_risk(E2))); out.append(np.array(u.expected_information_gain(E2)))
                    u.update(zoo.out_array(m, e, [o])[0] if dom.dtype is not int and np.dtype(dom.dtype).names else o, E)
                    out.append(np.array(u.particle_weights))
                    c.step()
                res.append(out)
            for a, b in zip(*res):
                c.eq(b, a, 'inference after the caller overwrote the values a domain listed', tol=0)
            c.trace(); c.state(name)


# -- C05: long-lived resamplers, any scale, deep redraws -----------------------

class Picky(zoo.TableModel):
    """Judges the rows it is shown by a script: rejects a row unless the script says otherwise."""
    def __init__(self, d, keep):
        self.keep, self.calls = keep, []
        zoo.TableModel.__init__(self, zoo.TABLE3, [3, 3], n_params=d)

    def are_models_valid(self, m):
        v = np.array([self.keep(len(self.calls), i, len(m)) for i in range(len(m))], dtype=bool)
        self.calls.append(len(m)); self.left = int(len(m) - v.sum())
        return v


def e05(c):
    from .c05 import Region, dist
    base = [([0.0, 1.0, 3.0], [0.25, 0.5, 0.25]), ([0.5, 0.625, 2.0], [0.5, 0.25, 0.25]), ([-1.0, 4.0, 0.0], [0.125, 0.125, 0.75])]
    base2 = [(np.array([[0.0, 1.0], [1.0, 3.0], [2.0, 0.0]]), [0.25, 0.5, 0.25]), (np.array([[0.0, 1.0], [1.0, 1.5], [0.0, 0.0]]), [0.5, 0.25, 0.25])]
    for n, dn, ask in ((3, 5, 3), (3, 5, None), (3, 5, 4), (3, 3, 5), (3, 1, 3), (3, 5, 1), (3, 5, 5)):
        with c.case('edge default number %s %s %s' % (n, dn, ask)):
            with core.controlled(core.cycle_stream(2)):
                y = qi.LiuWestResampler(default_n_particles=dn)(Region(d=1, lo=-1e99, hi=1e99), dist(np.arange(n)[:, None] * 1.0, [1.0 / n] * n), n_particles=ask)
            k = dn if ask is None else ask
            c.ok(y.particle_locations.shape == (k, 1) and np.allclose(y.particle_weights, 1.0 / k), 'a requested number overrides the default one', got=y.particle_locations.shape, want=k); c.step()
    for a in (0.98, 0.5):
        for scale in (1e-20, 1e-12, 1e-9, 1e-7, 1e-5, 1e-4, 1e-3, 1.0, 1e3, 1e6):
            with c.case('edge reused resampler a=%g scale=%g' % (a, scale)):
                r = qi.LiuWestResampler(a=a)
                for k, (x, w) in enumerate(base + base2 + base + base2[::-1]):
                    x = np.array(x, dtype=float).reshape(3, -1)
                    ys = []
                    for res, s in ((r, scale), (qi.LiuWestResampler(a=a), scale), (qi.LiuWestResampler(a=a), 1.0)):
                        with core.controlled(core.cycle_stream(5 + k)):
                            ys.append(np.array(res(Region(d=x.shape[1], lo=-1e99, hi=1e99), dist(s * x, w), n_particles=16).particle_locations))
                    c.ok(np.allclose(ys[0], ys[1], rtol=1e-9, atol=1e-9 * scale), 'a resampler used before acts like a new one', call=k)
                    c.ok(np.allclose(ys[1], scale * ys[2], rtol=1e-6, atol=1e-6 * scale), 'resampling follows the scale of the parameters', call=k, scale=scale)
                    c.step(3)
                c.trace(); c.state(a, scale)
    # deep redraws: with silent noise every particle must end at its own centre
    for n, d, rate in ((6000, 1, 1.25), (1200, 1, 2), (300, 2, 1.3), (50, 1, 1.1), (7, 3, 1.02)):
        for maxit in (1000,):
            with c.case('edge redraw n=%d d=%d rate=%g' % (n, d, rate)):
                X = np.stack([grid(40, -3, 3, 1 + j) for j in range(d)], 1)
                w = norm_w([1.0 + (i * 7) % 5 for i in range(40)])
                mu = np.array(w).dot(X)
                g = core.cycle_stream(11)
                model = Picky(d, lambda k, i, m: k > 200 or ((k * 2654435761 + i * 40503 + 977 * k * i) % 1009) / 1009.0 > 1 / rate)
                log = []
                def silent(dd, nn):
                    log.append(nn); return np.zeros((dd, nn))
                with core.controlled(core.cycle_stream(3, n_u=512)):
                    Y = qi.LiuWestResampler(a=0.9, kernel=silent)(model, dist(X, w), n_particles=n).particle_locations
                ref = Picky(d, lambda k, i, m: True)
                with core.controlled(core.cycle_stream(3, n_u=512)):
                    Z = qi.LiuWestResampler(a=0.9, kernel=lambda dd, nn: np.zeros((dd, nn)))(ref, dist(X, w), n_particles=n).particle_locations
                c.ok(len(model.calls) > 3, 'redraws happened', rounds=len(model.calls))
                c.ok(model.left == 0, 'redraws go on until every particle is valid', left=model.left, rounds=len(model.calls))
                c.eq(Y, Z, 'every redrawn particle keeps its own centre', tol=1e-12)
                C = 0.9 * X + 0.1 * mu
                c.ok(all(np.min(np.abs(C - y).max(axis=1)) < 1e-12 for y in Y[::max(1, n // 200)]), 'centres are shrunk old particles')
                c.ok(log == model.calls, 'fresh noise for exactly the invalid particles', noise=log[:10], asked=model.calls[:10])
                c.step(len(model.calls)); c.trace(); c.state(n, d, rate)


# -- C08 / C23: exact binomials for many shots ----------------------------------

def binom_exact(N, k, p):
    p = Fraction(p)
    return float(Fraction(math.comb(N, k)) * p ** k * (1 - p) ** (N - k)) if N < 3000 else math.exp(
        math.lgamma(N + 1) - math.lgamma(k + 1) - math.lgamma(N - k + 1) + k * math.log(float(p)) + (N - k) * math.log1p(-float(p)))


def e23(c):
    from qinfer import utils as U
    for N in (1, 50, 999, 2500, 6000, 20000, 300000):
        for p in (0.5, 0.03125, 0.875, 2.0 ** -12):
            with c.case('edge binomial N=%d p=%g' % (N, p)):
                sd = math.sqrt(N * p * (1 - p))
                ks = sorted(set(min(N, max(0, int(round(N * p + s * sd)))) for s in (-6, -2, -.5, 0, 1, 3, 6)))
                for k in ks:
                    want = binom_exact(N, k, p)
                    got = float(np.ravel(U.binomial_pdf(np.array([N]), np.array([k]), np.array([p])))[0])
                    c.ok(abs(got - want) <= 1e-6 * want + 1e-300, 'binomial probability of many shots', k=k, got=got, want=want); c.step()
                    got = float(np.ravel(U.multinomial_pdf(np.array([[k], [N - k]]), np.array([[p], [1 - p]])))[0])
                    c.ok(abs(got - want) <= 1e-6 * want + 1e-300, 'multinomial probability of many shots', k=k, got=got, want=want)
                c.state(N, p)
    # simplex: integer input, tiny remainders
    for y in ([0, 0, 0], [1, -1, 0], [3, 2, 0], [0, 5, -5, 0]):
        with c.case('edge simplex int %s' % (y,)):
            c.eq(U.to_simplex(np.array(y)), U.to_simplex(np.array(y, dtype=float)), 'integer and real coordinates'); c.step()
    for e in (1e-3, 1e-6, 1e-9, 1e-12, 1e-13):
        for x in ([1 - e, 0.9 * e, 0.1 * e], [0.5, 0.5 - e, 0.75 * e, 0.25 * e], [e, 1 - 2 * e, e]):
            with c.case('edge simplex %g %d' % (e, len(x))):
                r = U.to_simplex(U.from_simplex(np.array(x)))
                c.ok(np.all(np.abs(r - x) <= 0.01 * np.array(x) + 1e-15), 'small coordinates come back', got=r, want=x)
                c.ok(abs(r.sum() - 1) < 1e-12, 'on the simplex'); c.step()
    # printed values with small uncertainties
    for v in (0.0, 0.0123456789012, 1.2345678912345, -2.5, 31.41592653589793, 9.99):
        for s in (1e-3, 2.5e-6, 1e-8, 3.3e-9, 1e-10, 4e-12):
          for brk in ((), (2,), (12,)):
            with c.case('edge print %r %r %r' % (v, s, brk)):
                t = U.format_uncertainty(v, s, *brk)
                k, head = 1.0, t
                if r'\times' in t:
                    head, e10 = t.split(r'\times 10^'); k = 10.0 ** int(e10.strip('{} '))
                a, b = [float(q) * k for q in head.strip().strip('()').split(r' \pm ')]
                c.ok(abs(a - v) <= 0.51 * s * 10 and abs(a - v) <= s, 'the printed value is within the uncertainty', text=t)
                c.ok(0.4 * s <= b <= 1.6 * s, 'the printed uncertainty', text=t); c.step()
    # weighted distances: definition, weightless particles included
    from qinfer import metrics as ME
    X = np.array([[0.0, 1.0], [1.0, 3.0], [2.0, 0.5], [4.0, 4.0]])
    for w in ([.25] * 4, [.5, .25, .25, 0.0], [.125, .375, 0.0, .5], [.7, .1, .1, .1]):
        for pw in (0.5, 0.25, 1.0):
            with c.case('edge weighted distance %s %g' % (w, pw)):
                with np.errstate(all='ignore'):
                    D = ME.weighted_pairwise_distances(X, np.array(w), w_pow=pw)
                for i in range(4):
                    for j in range(4):
                        if w[i] * w[j] > 0:
                            c.eq(D[i, j], math.dist(X[i], X[j]) / (w[i] * w[j] * 16) ** pw, 'weighted distance', i=i, j=j, tol=1e-9)
                c.step()


def e08(c):
    for N in (1000, 6000, 20000, 150000):
        for mname in ('precession', 'rb'):
            with c.case('edge shots %s N=%d' % (mname, N)):
                m0, P, E0, p0 = vec(mname, 5, 2)
                m = qi.BinomialModel(m0)
                E = np.zeros(2, dtype=m.expparams_dtype); E['n_meas'] = N
                if mname == 'precession': E['x'] = E0
                else: E['m'] = (1, 3)
                E0 = E['x'] if mname == 'precession' else E
                p1 = 1 - (np.cos(P * E['x'] / 2) ** 2 if mname == 'precession' else 1 - (P[:, 1:2] * P[:, 0:1] ** E['m'].astype(float) + P[:, 2:3]))
                ks = np.unique(np.concatenate([np.clip(np.round(N * p1.ravel() + s), 0, N) for s in (-20, 0, 35)]).astype(int))
                L = m.likelihood(ks, P, E)
                for a, k in enumerate(ks):
                    for i in range(5):
                        for e in range(2):
                            p = min(max(float(p1[i, e]), 0.0), 1.0)
                            if p in (0.0, 1.0): want = float(k == N * p)
                            else:
                                want = math.exp(math.lgamma(N + 1) - math.lgamma(k + 1) - math.lgamma(N - k + 1) + k * math.log(p) + (N - k) * math.log1p(-p))
                            c.ok(abs(L[a, i, e] - want) <= 1e-5 * want + 1e-12, 'probability of a count of many shots', k=int(k), got=L[a, i, e], want=want)
                c.step(len(ks)); c.trace(); c.state(mname, N)


# -- C10 / C21: many experiments for diffusing states ---------------------------

def e10(c):
    from qinfer import tomography as T
    b = T.pauli_basis(1)
    m = T.DiffusiveTomographyModel(b)
    for n, ne in ((3, 60), (40, 12), (2, 300)):
        with c.case('edge diffusion %d %d' % (n, ne)):
            th = grid(n, 0, 2 * math.pi)
            x = np.stack([np.full(n, 1 / math.sqrt(2)), 0.2 * np.cos(th), 0.2 * np.sin(th), 0.1 * np.cos(3 * th), 0.01 + 0.02 * grid(n, 0, 1, 2)], 1)
            E = np.zeros(ne, dtype=m.expparams_dtype); E['t'] = 0.5 + np.arange(ne) % 7
            with core.controlled(core.cycle_stream(2, zgrid=rng.GH2)):
                r = m.update_timestep(x, E)
            c.ok(r.shape == (n, 5, ne), 'shape', got=r.shape)
            D = (r[:, 1:4, :] - x[:, 1:4, None]) / (x[:, 4][:, None, None] * np.sqrt(E['t'])[None, None, :])
            inside = np.all(np.sum(r[:, 1:4, :] ** 2, axis=1) < 0.4999, axis=None)
            c.ok(np.all(np.abs(r[:, 0, :] - 1 / math.sqrt(2)) < 1e-9) and np.all(r[:, 4, :] == x[:, 4][:, None]), 'trace and rate stay')
            c.ok(not inside or np.all(np.abs(np.abs(D) - 1) < 1e-6), 'each step is its noise times rate and root of the duration')
            c.ok(np.ptp(D) > 1, 'noise does not vary')
            # large rates: every experiment ends in valid states
            x[:, 4] = 3.0
            with core.controlled(core.cycle_stream(4)):
                r = m.update_timestep(x, E)
            c.ok(np.all(np.sum(r[:, 1:4, :] ** 2, axis=1) <= 0.5 + 1e-9), 'invalid states after a step', worst=np.max(np.sum(r[:, 1:4, :] ** 2, axis=1)))
            c.ok(np.all(np.abs(r[:, 0, :] - 1 / math.sqrt(2)) < 1e-9), 'trace after a large step')
            c.step(ne); c.trace(); c.state(n, ne)


# -- C12 -------------------------------------------------------------------------

def e12(c):
    import scipy.stats as st
    # rare components
    for wts in ([2.0 ** -12, 1 - 2.0 ** -12], [0.5, 0.5 - 2.0 ** -14, 2.0 ** -14], [2.0 ** -11, 2.0 ** -11, 1 - 2.0 ** -10]):
        for form in ('list', 'args'):
            with c.case('edge rare component %s %s' % (wts, form)):
                mus = np.arange(len(wts), dtype=float)
                if form == 'list': d = qd.MixtureDistribution(np.array(wts), [qd.ConstantDistribution([10.0 * k]) for k in range(len(wts))])
                else: d = qd.MixtureDistribution(np.array(wts), qd.NormalDistribution, dist_args=np.stack([10.0 * mus, np.full(len(wts), 1e-6)], 1))
                law = {}
                for res, p, ch in core.explore(lambda: d.sample(1), zgrid=((0.0, 1.0),)):
                    if not c.ok(not isinstance(res, core.Raised) and np.shape(res) == (1, 1), 'one sample', got=res): break
                    k = int(round(float(res[0, 0]) / 10)); law[k] = law.get(k, 0) + p
                for k, w in enumerate(wts):
                    c.ok(abs(law.get(k, 0) - w) < 1e-9, 'share of a component', k=k, got=law.get(k, 0), want=w)
                c.step(); c.trace(); c.state(wts, form)
    # the default grid resolves narrow densities
    for mu, sd in ((0.0, 0.05), (0.3, 0.05), (-1.0, 0.1), (0.5, 0.02)):
        with c.case('edge interpolated %g %g' % (mu, sd)):
            d = qd.InterpolatedUnivariateDistribution(lambda x: st.norm.pdf(x, mu, sd))
            np.random.seed(5)
            s = np.sort(d.sample(4000)[:, 0])
            D = np.max(np.abs(st.norm.cdf(s, mu, sd) - (np.arange(4000) + .5) / 4000))
            c.ok(D < 2.5 / math.sqrt(4000), 'law of a narrow density with the default grid', distance=D)
            law = c.law(lambda: d.sample(1), n_u=64)
            vs = np.sort([float(x[1][0, 0]) for x in law.values()])
            if len(vs) == 64: c.ok(np.max(np.abs(st.norm.cdf(vs, mu, sd) - us64())) < 3e-3, 'distribution function of a narrow density', got=np.max(np.abs(st.norm.cdf(vs, mu, sd) - us64())))
            c.step(); c.trace()
    # many bits
    for bits in (1, 8, 31, 32, 33, 40, 50, 62):
        with c.case('edge bits %d' % bits):
            np.random.seed(9)
            s = qd.DiscreteUniformDistribution(bits).sample(4000)
            v = (s[:, 0].astype(float) + 0.5) / 2.0 ** bits
            c.ok(s.shape == (4000, 1) and np.all((s >= 0) & (s < 2 ** bits)), 'range')
            c.ok(np.max(np.abs(np.array([np.mean(v < q) for q in (0.25, 0.5, 0.75)]) - ([0.25, 0.5, 0.75] if bits > 1 else [0, .5, .5]))) < 0.05 if bits > 1 else set(s[:, 0]) == {0, 1}, 'uniform over all values'); c.step()
            for j in range(bits):
                c.ok(abs(np.mean((s[:, 0].astype(np.int64) >> j) & 1) - 0.5) < 0.05, 'every bit is fair', bit=j)
    # postselection keeps rows exchangeable, however many rounds it takes
    class Half(object):
        def __init__(self, q): self.q = q
        def are_models_valid(self, m): return m[:, 0] < self.q
    for q in (0.5, 0.1, 0.05):
        with c.case('edge postselected %g' % q):
            np.random.seed(23); n = 3000
            s = qd.PostselectedDistribution(qd.UniformDistribution([[0, 1], [0, 1]]), Half(q), maxiters=1000).sample(n)
            r = np.argsort(np.argsort(s, axis=0), axis=0)
            i = np.arange(n)
            for j in range(2):
                c.ok(abs(np.corrcoef(r[:, j], i)[0, 1]) < 5 / math.sqrt(n), 'samples depend on their position', got=np.corrcoef(r[:, j], i)[0, 1])
                c.ok(abs(np.corrcoef(r[1:, j], r[:-1, j])[0, 1]) < 5 / math.sqrt(n), 'neighbouring samples are dependent', got=np.corrcoef(r[1:, j], r[:-1, j])[0, 1])
                F = np.sort(s[:, j]) / (q if j == 0 else 1)
                c.ok(np.max(np.abs(F - (i + .5) / n)) < 2.5 / math.sqrt(n), 'law of accepted draws')
            # dependence further apart
            for lag in (2, 3, 7, 50, 500):
                c.ok(abs(np.corrcoef(r[lag:, 1], r[:-lag, 1])[0, 1]) < 5 / math.sqrt(n), 'samples are dependent', lag=lag)
            c.step(); c.trace()

    # shapes of distributions at unusual settings
    for name, d, ref in [('lognormal %g %g' % (mu, sg), lambda mu=mu, sg=sg: qd.LogNormalDistribution(mu, sg), lambda mu=mu, sg=sg: st.lognorm(1, mu, sg)) for mu in (0, 3, -2) for sg in (1e-6, 0.01, 0.09, 2, 1e4)] \
            + [('beta mean %g var %g' % (m, v), lambda m=m, v=v: qd.BetaDistribution(mean=m, var=v), lambda m=m, v=v: st.beta(m * (m * (1 - m) / v - 1), (1 - m) * (m * (1 - m) / v - 1)))
               for m, v in ((1e-4, 1e-9), (1e-5, 1e-10), (0.9999, 1e-9), (0.5, 1e-8), (0.5, 0.2), (0.01, 1e-3))] \
            + [('gamma mean %g var %g' % (m, v), lambda m=m, v=v: qd.GammaDistribution(mean=m, var=v), lambda m=m, v=v: st.gamma(m * m / v, scale=v / m))
               for m, v in ((1e-6, 1e-13), (1e6, 1e10), (1e5, 1e9), (3, 1e-4), (0.1, 0.5))] \
            + [('gamma alpha %g beta %g' % (a, b), lambda a=a, b=b: qd.GammaDistribution(alpha=a, beta=b), lambda a=a, b=b: st.gamma(a, scale=1 / b)) for a, b in ((0.5, 1e-4), (20, 1e-5), (2, 1e6))] \
            + [('normal %g %g %s' % (m, v, tr), lambda m=m, v=v, tr=tr: qd.NormalDistribution(m, v, trunc=tr), lambda m=m, v=v, tr=tr: st.norm(m, math.sqrt(v)) if tr is None else st.truncnorm((tr[0] - m) / math.sqrt(v), (tr[1] - m) / math.sqrt(v), m, math.sqrt(v)))
               for m, v, tr in ((0, 1e-12, None), (1e6, 4, None), (0, 1e10, None), (0, 1, (-np.inf, -1)), (0, 1, (2, np.inf)), (5, 1e-6, (5, np.inf)), (0, 1e6, (-10, 20)))] \
            + [('interpolated %d points' % k, lambda k=k: qd.InterpolatedUnivariateDistribution(st.norm(0.3, 0.5).pdf, 1, k), lambda: st.norm(0.3, 0.5)) for k in (900, 1500, 2500, 6000)] \
            + [('uniform %s' % (r,), lambda r=r: qd.UniformDistribution([r]), lambda r=r: st.uniform(r[0], r[1] - r[0])) for r in ((0, 1e-9), (5, 5.001), (-1e9, 1e9), (-3, -2), (0, 7))] \
            + [('slanted %s %g' % (r, wt), lambda r=r, wt=wt: qd.SlantedNormalDistribution([r], wt), None) for r in ((0, 1e-3), (0, 0.5), (2, 2.05), (0, 50)) for wt in (1e-6, 0.01, 0.3, 5)]:
        with c.case('edge law %s' % name):
            np.random.seed(31); n = 4000
            s = d().sample(n)
            c.ok(np.shape(s) == (n, 1), 'shape', got=np.shape(s))
            s = np.sort(np.asarray(s, dtype=float)[:, 0])
            if ref is not None: F = ref().cdf(s)
            else:
                r, wt = [(a, b) for a in ((0, 1e-3), (0, 0.5), (2, 2.05), (0, 50)) for b in (1e-6, 0.01, 0.3, 5) if 'slanted %s %g' % (a, b) == name][0]
                xs = r[0] + (np.arange(2000) + .5) / 2000 * (r[1] - r[0])
                F = np.mean(st.norm.cdf((s[:, None] - xs) / wt), axis=1)
            D = np.max(np.abs(F - (np.arange(n) + .5) / n))
            c.ok(D < 2.6 / math.sqrt(n), 'distribution function', distance=D)
            if name.startswith('interp'): c.ok(len(set(s)) > 0.99 * n, 'values between the grid points', got=len(set(s)))
            c.step(); c.trace(); c.state(name)
    for k, cov in enumerate(([[1, .8, 0], [.8, 1, 0], [0, 0, 2]], [[1, 0, 0, .9], [0, 1, 0, 0], [0, 0, 1, 0], [.9, 0, 0, 1]], [[1e-6, 9e-4, 0], [9e-4, 1, 0], [0, 0, 1e6]], [[4, -1.9], [-1.9, 1]], [[2.0]],
                             [[1, .5, .5], [.5, 1, .5], [.5, .5, 1]])):
        with c.case('edge normal with covariance %d' % k):
            cov = np.array(cov, dtype=float); mu = np.arange(len(cov)) * 10.0
            np.random.seed(37); n = 6000
            s = qd.MultivariateNormalDistribution(mu, cov).sample(n)
            y = np.linalg.solve(np.linalg.cholesky(cov), (s - mu).T)
            c.ok(s.shape == (n, len(cov)) and np.max(np.abs(y.mean(axis=1))) < 5 / math.sqrt(n) and np.max(np.abs(np.cov(y) - np.eye(len(cov)))) < 8 / math.sqrt(n), 'covariance of the samples', got=np.cov(y)); c.step(); c.trace()
    # factors and components that are one and the same object; what the caller does with samples
    un = qd.UniformDistribution([0, 1]); no = qd.NormalDistribution(0, 1)
    for name, d in (('product', qd.ProductDistribution(un, un)), ('product list', qd.ProductDistribution([un, un])), ('product of three', qd.ProductDistribution(un, no, un)), ('nested', qd.ProductDistribution(qd.ProductDistribution(un, no), un))):
        with c.case('edge same factor %s' % name):
            np.random.seed(41); s = d.sample(3000)
            c.ok(abs(np.corrcoef(s[:, 0], s[:, -1])[0, 1]) < 5 / math.sqrt(3000), 'factors are independent', got=np.corrcoef(s[:, 0], s[:, -1])[0, 1]); c.step()
            one = np.array([d.sample(1)[0] for _ in range(1000)])
            c.ok(abs(np.corrcoef(one[:, 0], one[:, -1])[0, 1]) < 5 / math.sqrt(1000), 'factors are independent'); c.step(); c.trace()
    mk_all = [('uniform', lambda: qd.UniformDistribution([[0, 1], [2, 3]])), ('constant', lambda: qd.ConstantDistribution([1.0, 2.0, 3.0])), ('constant one', lambda: qd.ConstantDistribution([4.0])), ('normal', lambda: qd.NormalDistribution(0, 1)),
              ('mvnormal', lambda: qd.MultivariateNormalDistribution([0, 1], np.eye(2))), ('slanted', lambda: qd.SlantedNormalDistribution()), ('lognormal', lambda: qd.LogNormalDistribution()),
              ('beta', lambda: qd.BetaDistribution(2, 3)), ('dirichlet', lambda: qd.DirichletDistribution([1, 2, 3])), ('betabinomial', lambda: qd.BetaBinomialDistribution(5, 2, 3)), ('gamma', lambda: qd.GammaDistribution(2, 3)),
              ('bits', lambda: qd.DiscreteUniformDistribution(3)), ('particles', lambda: qi.ParticleDistribution(particle_locations=np.arange(6.0).reshape(3, 2), particle_weights=np.array([.2, .3, .5]))),
              ('one particle', lambda: qi.ParticleDistribution(particle_locations=np.arange(2.0).reshape(1, 2), particle_weights=np.ones(1))), ('origin', lambda: qi.ParticleDistribution(n_mps=2)),
              ('mixture', lambda: qd.MixtureDistribution(np.array([.5, .5]), [qd.ConstantDistribution([1.0]), qd.ConstantDistribution([2.0])])), ('product', lambda: qd.ProductDistribution(qd.ConstantDistribution([1.0]), qd.UniformDistribution([0, 1]))),
              ('postselected', lambda: qd.PostselectedDistribution(qd.ConstantDistribution([0.3]), Half(0.5))), ('interpolated', lambda: qd.InterpolatedUnivariateDistribution(st.norm.pdf)),
              ('constrained', lambda: qd.ConstrainedSumDistribution(qd.ConstantDistribution([1.0, 3.0]), 2)), ('constrained particles', lambda: qd.ConstrainedSumDistribution(qi.ParticleDistribution(particle_locations=1 + np.arange(6.0).reshape(3, 2), particle_weights=np.array([.2, .3, .5])), 2))]
    for name, f in mk_all:
        for ns in ((1, 1), (3, 1), (1, 3), (4, 4), (1, 1, 1)):
            with c.case('edge overwritten samples %s %s' % (name, ns)):
                outs = []
                for spoil in (False, True):
                    d = f(); out = []
                    np.random.seed(43)
                    for n in ns:
                        s = d.sample(n)
                        out.append(np.array(s, copy=True))
                        if spoil:
                            c.ok(s.flags.writeable, 'samples can be written to'); s[...] = 77
                    outs.append(out)
                for a, b in zip(*outs): c.eq(b, a, 'samples after the caller overwrote earlier ones', tol=0)
                c.step(); c.trace(); c.state(name, ns)
    with c.case('edge construction leaves its arguments alone'):
        for w0 in (np.array([.2, .3, .5]), np.array([2.0, 3, 5]), np.array([-.2, .3, .5]), np.array([1, 2, 3])):
            X0 = np.arange(6.0).reshape(3, 2); w, X = w0.copy(), X0.copy()
            d = qi.ParticleDistribution(particle_locations=X, particle_weights=w); d.sample(5); d.est_mean(); d.est_covariance_mtx()
            c.ok(np.array_equal(w, w0) and np.array_equal(X, X0), 'particles given were modified', want=w0, got=w); c.step()
        r0 = np.array([[0, 1], [2, 5]]); r = r0.copy(); d = qd.UniformDistribution(r); d.sample(3); c.ok(np.array_equal(r, r0), 'ranges were modified')
        c0 = np.array([[2, 1], [1, 2.0]]); q = c0.copy(); d = qd.MultivariateNormalDistribution(np.zeros(2), q); d.sample(3); d.grad_log_pdf(np.ones(2)); c.ok(np.array_equal(q, c0), 'covariance was modified'); c.trace()


def us64():
    return (np.arange(64) + 0.5) / 64


# -- C13 -------------------------------------------------------------------------

def e13(c):
    base = np.array([[0.0, 1.0], [1.0, 2.5], [2.0, 0.5], [3.0, 3.0], [0.5, -1.0]])
    w = np.array(norm_w([1, 2, 3, 4, 2]))
    ref = qi.ParticleDistribution(particle_locations=base, particle_weights=w)
    R = ref.est_covariance_mtx(corr=True)
    mu = w.dot(base); C = (base - mu).T.dot((base - mu) * w[:, None])
    c.eq(R, C / np.sqrt(np.outer(np.diag(C), np.diag(C))), 'correlation')
    for s in (1e-9, 1e-7, 1e-5, 1e-3, 1e3, 1e6, 1e9):
        for cols in ((1, 1), (1, 0), (0, 1)):
            with c.case('edge scale %g %s' % (s, cols)):
                f = np.array([s if k else 1.0 for k in cols])
                for X, kind in ((base * f, 'distribution'), (base * f, 'updater')):
                    v = qi.ParticleDistribution(particle_locations=X, particle_weights=w) if kind == 'distribution' else mk(zoo.TableModel([[(0.5, 0.5)] * 5], [2], n_params=2), X, w)
                    c.ok(np.allclose(v.est_mean(), mu * f, rtol=1e-9, atol=0), 'mean follows the scale', got=v.est_mean())
                    got = v.est_covariance_mtx()
                    c.ok(np.all(np.abs(got - C * np.outer(f, f)) <= 1e-9 * np.outer(f, f) * 10), 'covariance follows the scale', got=got)
                    c.eq(v.est_covariance_mtx(corr=True), R, 'correlation does not depend on the scale', tol=1e-6)
                    c.step()
    # more than a handful of clusters
    for nc, per in ((30, 3), (100, 2), (300, 2)):
        with c.case('edge clusters %d' % nc):
            X = (np.arange(nc * per) // per * 10.0 + (np.arange(nc * per) % per) * 0.1)[:, None]
            w = np.array(norm_w([1 + i % 3 for i in range(nc * per)]))
            d = qi.ParticleDistribution(particle_locations=X, particle_weights=w)
            opts = dict(eps=0.5, min_particles=2)
            mom = list(d.est_cluster_moments(opts))
            c.ok(len(mom) == nc, 'every cluster is reported', got=len(mom))
            c.ok(abs(sum(m[1] for m in mom) - 1) < 1e-9, 'cluster weights')
            tot = d.est_cluster_covs(opts)[2]
            c.eq(tot, d.est_covariance_mtx(), 'law of total variance', tol=1e-6)
            c.step(); c.trace()


# -- C16 -------------------------------------------------------------------------

def e16(c):
    # posteriors of any width: the particle guess is scale free
    for scale in (1e-12, 1e-9, 1e-6, 1.0, 1e6):
        for rows in ([1.0, 2.0, 4.0, 4.0], [0.5, 3.0, 3.0, 3.0]):
            with c.case('edge pgh scale=%g %s' % (scale, rows)):
                laws = []
                for s in (1.0, scale):
                    u = mk(qi.SimpleInversionModel(), [[s * x] for x in rows])
                    h = qi.PGH(u, inv_field='w_', t_field='t', maxiters=2)
                    law = {}
                    for res, p, ch in core.explore(h, n_u=4):
                        k = 'none' if isinstance(res, core.Raised) else (float('%.6g' % (res['w_'][0] / s)), float('%.6g' % (res['t'][0] * s)))
                        law[k] = law.get(k, 0) + p
                    laws.append(law); c.step(); c.trace()
                c.ok(set(laws[0]) == set(laws[1]) and all(abs(laws[0][k] - laws[1][k]) < 1e-9 for k in laws[0]), 'particle guesses follow the scale of the posterior', got=laws[1], want=laws[0])
    # best guess among objectives that differ by little
    for s in (1e-2, 1e-5, 1e-8):
        for order in itertools.permutations(range(4)):
            with c.case('edge designer scale=%g %s' % (s, order)):
                m = qi.SimpleInversionModel()
                x = [1.0 + s * k for k in (0.1, 0.4, 0.8, 1.5)]
                u = mk(m, [[v] for v in x], resample_thresh=0.0)
                d = qi.ExperimentDesigner(u, qi.expdesign.OptimizationAlgorithms.NULL)
                gs = [np.array([(t / s, 1.0)], dtype=m.expparams_dtype) for t in (0.3, 1.0, 2.0, 0.05)]
                J = [float(np.ravel(u.bayes_risk(g))[0]) for g in gs]
                best = None
                for i in order:
                    out = d.design_expparams_field(gs[i].copy(), 't', cost_scale_k=0.0, store_guess=True)
                    if best is None or J[i] < J[best]: best = i
                    c.ok(out['t'][0] == gs[best]['t'][0], 'the best of the guesses, however close', got=out['t'][0], want=gs[best]['t'][0], objectives=J)
                    c.step()
                c.state(s, order)
    # number of data seen counts every datum, rejected ones included
    m = zoo.BY['precession'].make()
    for policy in ('skip', 'reset', 'error', 'warn'):
        with c.case('edge schedule %s' % policy):
            u = mk(m, [[1.0], [3.0]], resample_thresh=0.0, zero_weight_policy=policy)
            h = qi.ExpSparseHeuristic(u, scale=2.0, base=1.5)
            hist = [(0, 0.0), (1, 0.0), (0, 0.5), (1, 0.0), (0, 0.25)]      # (1, 0.0) is impossible
            if policy == 'warn': hist = [(0, 0.0), (0, 0.5), (0, 0.25)]
            for k, (o, t) in enumerate(hist):
                c.eq(float(h()[0]), 2.0 * 1.5 ** k, 'time of the schedule', k=k, policy=policy)
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    try:
                        u.update(o, np.array([t]))
                    except RuntimeError:
                        c.ok(policy == 'error', 'raised')
                c.step()
            c.eq(float(h()[0]), 2.0 * 1.5 ** len(hist), 'time of the schedule at the end', policy=policy)
    inv = qi.SimpleInversionModel()
    for policy in ('skip', 'reset', 'error'):
        with c.case('edge guess function %s' % policy):
            u = mk(inv, [[1.0], [3.0]], resample_thresh=0.0, zero_weight_policy=policy)
            D = qi.ExperimentDesigner(u, qi.expdesign.OptimizationAlgorithms.NULL)
            seen = []
            def guess(idx_exp, mean, cov):
                seen.append(idx_exp); return np.array([(1.0, 0.5)], dtype=inv.expparams_dtype)
            for k, (o, t) in enumerate([(0, 0.0), (1, 0.0), (0, 0.5), (1, 0.0)]):
                D.design_expparams_field(guess, 't')
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    try: u.update(o, np.array([(t, 0.0)], dtype=inv.expparams_dtype))
                    except RuntimeError: pass
                c.step()
            c.ok(seen == list(range(4)), 'guess functions are told how many data were seen', got=seen)


# -- C17 -------------------------------------------------------------------------

def e17(c):
    for cov in (np.diag([1.0, 1e-4]), np.diag([1.0, 1e-8]), np.diag([1e6, 1e-3]), np.array([[1.0, 0.999], [0.999, 1.0]]), 1e-10 * np.array([[2.0, 1.0], [1.0, 2.0]])):
        with c.case('edge prior gradient %s' % np.diag(cov)):
            mu = np.array([1.0, -2.0])
            d = qi.MultivariateNormalDistribution(mu, cov)
            sd = np.sqrt(np.diag(cov))
            X = mu + sd * np.array([[1.0, 0.5], [-2.0, 0.25], [0.0, 0.0], [0.5, 1.0]])
            det = cov[0, 0] * cov[1, 1] - cov[0, 1] ** 2
            inv = np.array([[cov[1, 1], -cov[0, 1]], [-cov[1, 0], cov[0, 0]]]) / det
            G = d.grad_log_pdf(X); W = -(X - mu).dot(inv)
            c.ok(G.shape == (4, 2) and np.all(np.abs(G - W) <= 1e-6 * (np.abs(W) + 1 / sd)), 'gradient of the log-density of the prior', got=G, want=W); c.step()
            for var in (cov[0, 0], cov[1, 1]):
                g = qi.NormalDistribution(0.5, var).grad_log_pdf(np.array([[0.5], [0.5 + math.sqrt(var)]]))
                c.ok(np.allclose(np.ravel(g), [0, -1 / math.sqrt(var)], rtol=1e-6, atol=1e-9 / math.sqrt(var)), 'gradient of a normal prior', got=g)


# -- C19 -------------------------------------------------------------------------

def e19(c):
    from .c19 import par
    m0 = qi.GaussianHyperparameterizedModel(qi.SimplePrecessionModel())
    for n, k in ((12, 3), (5, 8), (1, 2), (30, 7), (150, 100)):
        for var in (1e-4, 0.25, 4.0):
            with c.case('edge densities n=%d engines=%d var=%g' % (n, k, var)):
                P = np.stack([grid(n, 0.2, 3), np.zeros(n), np.ones(n), np.full(n, var), np.full(n, 2 * var)], 1)
                E = np.array([0.5, 1.5])
                o = np.array([0.0, 0.01, 1.0, 0.5])
                m = qi.GaussianHyperparameterizedModel(qi.SimplePrecessionModel())
                pm, view = par(m, k)
                a, b = m0.likelihood(o, P, E), pm.likelihood(o, P, E)
                c.ok(var > 1e-3 or a.max() > 2, 'densities above one occur')
                c.eq(b, a, 'densities are those of the wrapped model', tol=1e-12)
                with core.controlled(core.cycle_stream(5)):
                    S = pm.simulate_experiment(P, E, repeat=3)
                c.ok(np.shape(S) == (3, n, 2) and np.asarray(S).dtype.kind == 'f' and len(np.unique(S)) > 3, 'continuous data', got=np.shape(S))
                c.step(); c.trace(); c.state(n, k, var)
    for name in ('precession', 'rb'):
        for k in (65, 130):
            with c.case('edge many engines %s %d' % (name, k)):
                m, P, E, p0 = vec(name, 200, 3)
                pm, view = par(m, k)
                c.eq(pm.likelihood(np.array([1, 0]), P, E), np.stack([1 - p0, p0]), 'likelihood over many engines')
                with core.controlled(core.cycle_stream(6)):
                    S = pm.simulate_experiment(P, E, repeat=2)
                c.ok(np.shape(S) == (2, 200, 3), 'shape', got=np.shape(S)); c.step(); c.trace()


# -- C20 -------------------------------------------------------------------------

def e20(c):
    from .c20 import judge
    from .c20 import fixed as fx
    from qinfer import perf_testing as pt
    m = qi.BinomialModel(qi.SimplePrecessionModel())
    E = [np.array([(t, n)], dtype=m.expparams_dtype) for t, n in ((0.7, 1000), (1.9, 70000), (0.1, 3))]
    for n_exp in (40, 300):
        with c.case('edge long trial of many shots %d' % n_exp):
            P = grid(9, 0.2, 4)[:, None]
            uk = dict(resample_thresh=0.0, zero_weight_policy='skip')
            np.random.seed(77)
            perf = pt.perf_test(m, 9, zoo.ListPrior(P), n_exp, fx(E), extra_updater_args=uk, true_mps=np.array([[1.234]]))
            o = np.asarray(perf['outcome']).astype(int)
            c.ok(o.max() > 1000 and np.all(o >= 0) and np.all(o <= perf['n_meas']), 'counts', got=o[:6])
            p = np.sin(1.234 * perf['x'] / 2) ** 2
            sd = np.sqrt(perf['n_meas'] * p * (1 - p)) + 1
            c.ok(np.all(np.abs(o - perf['n_meas'] * p) < 7 * sd), 'counts are those of the true model', worst=np.max(np.abs(o - perf['n_meas'] * p) / sd))
            c.ok([int(v) for v in perf['n_meas'][:4]] == [1000, 70000, 3, 1000] and len(perf) == n_exp, 'experiments')
            judge(c, perf, m, m, P, fx(E), uk, [1.234], n_exp)
            c.step(n_exp); c.trace()


# -- C24 -------------------------------------------------------------------------

def e24(c):
    from .c24 import PREC, RB, IRB, data_arr, judge, hand_prec
    from qinfer import simple_est as SE
    ug = [0.0, 0.25, 0.5, 0.75, 0.999]
    # ranges that are not dyadic, or negative
    for lo, hi in ((0.1, 0.3), (1 / 3., 2 / 3.), (0.7, 1000.1), (-1.0, 1.0), (-2.3, -0.1), (1e-9, 1e-7)):
        for k in range(len(ug)):
            with c.case('edge range|%g %g %d' % (lo, hi, k)):
                m, v, ex = core.replay(lambda: SE.simple_est_prec(data_arr([(0, 0.0, 1)]), n_particles=1, return_all=True, freq_min=lo, freq_max=hi), [k], ugrid=ug)
                if ex['updater'].resample_count == 0:
                    c.ok(abs(m - (lo + (hi - lo) * ug[k])) <= 1e-12 * max(abs(lo), abs(hi)), 'prior frequency', got=m, want=lo + (hi - lo) * ug[k])
                c.step()
        with c.case('edge range hand|%g %g' % (lo, hi)):
            t = 1.5 / (hi - lo)
            rows = [(7, t, 10), (3, 2 * t, 10), (9, 0.5 * t, 10), (4, 4 * t, 10), (2, 7 * t, 10), (6, 11 * t, 10)]
            for sd in (1, 2, 3):
                with core.controlled(core.cycle_stream(sd, n_u=512)):
                    m, v, ex = SE.simple_est_prec(data_arr(rows), n_particles=200, return_all=True, freq_min=lo, freq_max=hi)
                with core.controlled(core.cycle_stream(sd, n_u=512)):
                    u = hand_prec(rows, 200, dict(freq_min=lo, freq_max=hi))
                c.ok(u.resample_count > 0, 'resamplings')
                x = np.asarray(ex['updater'].particle_locations); y = u.particle_locations
                c.ok(np.allclose(x, y, rtol=1e-9, atol=1e-9 * (hi - lo)), 'particles of a hand-run')
                c.ok(abs(m - u.est_mean()[0]) <= 1e-9 * (abs(lo) + abs(hi)) and abs(v - u.est_covariance_mtx()[0, 0]) <= 1e-9 * (hi - lo) ** 2 + 1e-12 * lo ** 2, 'answers of a hand-run')
                c.step()
    for kind in (RB, IRB):
        for lo, hi in ((0.1, 0.3), (1 / 3., 0.9)):
            with c.case('edge range %s|%g %g' % (kind.name, lo, hi)):
                with core.controlled(core.cycle_stream(9, n_u=64)):
                    m, v, ex = kind.call(data_arr([(0,) * len(kind.cols)]), n_particles=60, return_all=True, p_min=lo, p_max=hi)
                x = np.asarray(ex['updater'].particle_locations)[:, 0]
                g = lo + (hi - lo) * np.array(core.midpoints(64))
                c.ok(np.max(np.min(np.abs(x[:, None] - g[None, :]), axis=1)) < 1e-12, 'prior over exactly the requested range')
                c.step()
    # many rows, with resampling: a hand-run row by row
    for N in (600, 1300):
        with c.case('edge rows %d' % N):
            ts = 0.05 * (np.arange(N) % 50 + 1)
            rows = [(int(round(math.sin(0.61 * t / 2) ** 2 * 10)), float(t), 10) for t in ts]
            with core.controlled(core.cycle_stream(4, n_u=512)):
                m, v, ex = SE.simple_est_prec(data_arr(rows), n_particles=50, return_all=True)
            with core.controlled(core.cycle_stream(4, n_u=512)):
                u = hand_prec(rows, 50, {})
            c.ok(u.resample_count > 1, 'resamplings', got=u.resample_count)
            c.eq(ex['updater'].resample_count, u.resample_count, 'resamplings of a hand-run')
            c.eq(m, u.est_mean()[0], 'mean of a hand-run', tol=1e-9); c.eq(v, u.est_covariance_mtx()[0, 0], 'variance of a hand-run', tol=1e-9)
            c.step(N); c.trace()
    # large counts are taken as they are (the count fits one of the sixteen prior frequencies)
    for n in (255, 256, 32768, 65536, 100001, 2 ** 24 + 3, 2 ** 26 + 1):
        with c.case('edge counts %d' % n):
            for g in (2.5, 7.5, 14.5):
                k = int(round(n * math.sin(g / 16 * 2.7 / 2) ** 2))
                for form in (data_arr([(k, 2.7, n)]), io.StringIO('%d,2.7,%d\n' % (k, n))):
                    with core.controlled(core.cycle_stream(4, n_u=16)), core.quiet():
                        m, v, ex = SE.simple_est_prec(form, n_particles=64, return_all=True)
                    c.ok([int(np.ravel(o)[0]) for o in ex['updater'].data_record] == [k], 'counts are taken as they are', got=ex['updater'].data_record, want=k)
                    if ex['updater'].resample_count == 0: c.ok(abs(m - g / 16) < 0.01, 'estimate from many shots', got=m, want=g / 16)
                    c.step()
            c.trace()
    for N in (11000,):
        with c.case('edge text rows %d' % N):
            txt = ''.join('%d,%g,%d\n' % (int(k % 401 == 7), 0.01 + 0.001 * (k % 7), 2) for k in range(N))
            with core.controlled(core.cycle_stream(4, n_u=16)):
                m, v, ex = SE.simple_est_prec(io.StringIO(txt), n_particles=3, return_all=True)
            c.ok([int(np.ravel(o)[0]) for o in ex['updater'].data_record] == [int(k % 401 == 7) for k in range(N)], 'every row of a text file is used', got=len(ex['updater'].data_record))
            c.step(N); c.trace()


# -- C02: rounding noise below zero; what is recorded of impossible data --------

def e02(c):
    ref = zoo.TABLE3
    for eps in (1e-17, 1e-16, 3e-16, 1e-15, 1e-13, 1e-9, 1e-3):
        for pol in ('ignore', 'skip', 'warn', 'error', 'reset'):
            for row in ([0.5, -eps, 0.25], [-eps, 1.0, -eps / 2], [0.125, 0.5, -eps]):
                with c.case('edge negative %g %s %s' % (eps, pol, row)):
                    m = zoo.TableModel([[(v, 1 - v) for v in row]], [2])
                    u = mk(m, [[0.0], [1.0], [2.0]], resample_thresh=0.0, zero_weight_policy=pol)
                    for k in range(3):
                        with warnings.catch_warnings():
                            warnings.simplefilter('ignore')
                            u.update(0, EP(0))
                        w = np.asarray(u.particle_weights)
                        c.ok(np.all(w >= 0), 'a weight is negative', got=w)
                        pos = np.array([max(v, 0.0) for v in row]) ** (k + 1)
                        c.eq(w, pos / pos.sum(), 'weights', tol=max(1e-9, 20 * eps))
                        c.step()
    # the probability recorded for very unlikely and impossible data
    for p in (0.0, 1e-300, 1e-30, 1e-17, 1e-16, 1e-15, 1e-10):
        for pol in ('ignore', 'warn'):
            for thr in (None, 0.0):
                with c.case('edge recorded %g %s %s' % (p, pol, thr)):
                    m = zoo.TableModel([[(p, 1 - p), (p, 1 - p), (p / 2, 1 - p / 2)], [(.5, .5)] * 3], [2, 2])
                    u = mk(m, [[0.0], [1.0], [2.0]], resample_thresh=0.0, zero_weight_policy=pol, zero_weight_thresh=thr)
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        u.update(1, EP(1)); u.update(0, EP(0))
                        rec = [float(np.ravel(v)[0]) for v in u.normalization_record]
                        c.ok(len(rec) == 2 and abs(rec[1] - p * 5 / 6) <= 1e-9 * p, 'the recorded probability of an unlikely datum', got=rec)
                        with np.errstate(all='ignore'):
                            want = math.log(.5) + (math.log(p * 5 / 6) if p else -math.inf)
                            got = float(u.log_total_likelihood)
                        c.ok(got == want or abs(got - want) < 1e-6, 'total log-likelihood', got=got, want=want)
                    c.step()


# -- C04: resamplers that change the number of particles -------------------------

def e04(c):
    m = zoo.TableModel([[(0.9, 0.1), (0.05, 0.95), (0.5, 0.5), (0.2, 0.8), (0.1, 0.9), (0.6, 0.4), (0.7, 0.3)], [(.5, .5)] * 7], [2, 2])
    import qinfer.resamplers as RS

    class Fixed(object):
        def __init__(self, n): self.n = n
        def __call__(self, model, pd, n_particles=None, precomputed_mean=None, precomputed_cov=None):
            return qi.ParticleDistribution(particle_locations=np.arange(self.n, dtype=float)[:, None] % 7, particle_weights=np.ones(self.n) / self.n)

    for n0 in (3, 5, 7):
        for n1 in (1, 2, 4, 7, 40):
            for kind in ('liuwest', 'own'):
                for thr in (0.6, 0.99):
                    for auto in (True, False):
                        with c.case('edge count %d %d %s %g %s' % (n0, n1, kind, thr, auto)):
                            r = qi.LiuWestResampler(default_n_particles=n1) if kind == 'liuwest' else Fixed(n1)
                            with core.controlled(core.cycle_stream(n0 + n1)):
                                if kind == 'liuwest': mm = zoo.TableModel([[(0.9 / (1 + k), 1 - 0.9 / (1 + k)) for k in range(7)]] * 2, [2, 2]); mm.are_models_valid = lambda x: np.ones(len(x), dtype=bool)
                                else: mm = m
                                u = qi.SMCUpdater(mm, n0, zoo.ListPrior([[float(i)] for i in range(n0)]), resample_thresh=thr, resampler=r)
                                w0 = u.particle_weights
                                done = 0
                                for k in range(4):
                                    if kind == 'liuwest' and done: break
                                    L = mm.likelihood(np.array([0]), u.particle_locations, EP(0))[0, :, 0]
                                    w, z = ref_update(list(u.particle_weights), list(L)); nn = len(w)
                                    with warnings.catch_warnings():
                                        warnings.simplefilter('ignore')
                                        u.update(0, EP(0), check_for_resample=auto)
                                        if not auto: u.resample()
                                    due = not auto or ess(w) < nn * thr
                                    if abs(ess(w) - nn * thr) < 1e-9: break
                                    if due:
                                        done += 1
                                        c.eq(u.particle_weights, np.ones(n1) / n1, 'uniform weights over the new particles')
                                        c.ok(u.particle_locations.shape == (n1, 1) and u.n_particles == n1, 'number of particles the resampler made', got=u.particle_locations.shape)
                                    else:
                                        c.eq(u.particle_weights, np.array(w), 'weights when not due')
                                    c.ok(u.resample_count == done and bool(u.just_resampled) == due, 'count and flag', got=(u.resample_count, done))
                                    c.step()
                                u.est_mean(); u.est_covariance_mtx()
                                with core.controlled(core.cycle_stream(2)):
                                    u.reset()
                                c.ok(u.n_particles == len(u.particle_weights) == len(u.particle_locations), 'reset keeps the present number')
                                c.trace(); c.state(n0, n1, kind, thr, auto)


# -- C07: repeats, repeated experiments, shots that differ in the middle ---------

def cells(c, X, mean, var, R, what):
    """Real-valued draws of shape (repeat, cell): means of every cell and no dependence among cells or repeats (6.5 sigma)."""
    ok = var > 1e-12
    c.ok(np.all(np.abs(X - mean)[:, ~ok] < 1e-6), 'certain outcomes of ' + what)
    Z = (X[:, ok] - mean[ok]) / np.sqrt(var[ok])
    if Z.shape[1] == 0: return
    kurt = 1 / np.sqrt(var[ok]) + 1
    c.ok(np.all(np.abs(Z.mean(axis=0)) < (6.5 + 3 * kurt / math.sqrt(R)) / math.sqrt(R)), 'frequencies of ' + what, worst=np.abs(Z.mean(axis=0)).max() * math.sqrt(R))
    C = Z.T.dot(Z) / R
    D = C - np.diag(np.diag(C))
    c.ok(np.all(np.abs(D) < (6.5 + 3 * kurt.max() ** 2 / math.sqrt(R)) / math.sqrt(R)), 'independence of the cells of ' + what, worst=np.abs(D).max() * math.sqrt(R))
    for lag in (1, 2, 64, 128, 256):
        A = np.mean(Z[lag:] * Z[:-lag], axis=0)
        c.ok(np.all(np.abs(A) < (6.5 + 3 * kurt.max() ** 2 / math.sqrt(R)) / math.sqrt(R - lag)), 'independence of the repeats of ' + what, lag=lag)


def e07(c):
    R = 600
    for e in zoo.all_finite():
        with c.case('edge repeats %s' % e.name):
            m = e.make()
            np.random.seed(1234)
            rows = [0, 1 % len(e.params), 0]
            k = len(e.eps)
            for idx in sorted(set(((0, 1 % k, 0), (k - 1, 0, k - 1), (k // 2, k - 1, 0, k // 2), (k // 2,) * 3))):
                S = np.asarray(m.simulate_experiment(e.mps(rows), e.ep_array(m, list(idx)), repeat=R))
                if not c.ok(S.shape[:3] == (R, 3, len(idx)), 'shape', got=S.shape): break
                X = np.empty((R, 3, len(idx))); mean = np.empty((3, len(idx))); var = np.empty((3, len(idx)))
                for j, i in enumerate(idx):
                    os = e.outcomes(e.eps[i]); val = {o: (n * 7 + 3) % 11 + n for n, o in enumerate(os)}
                    for a, r in enumerate(rows):
                        ps = np.array([max(0.0, e.prob(o, e.params[r], e.eps[i])) for o in os]); vs = np.array([val[o] for o in os], dtype=float)
                        mean[a, j] = ps.dot(vs) / ps.sum(); var[a, j] = max(ps.dot(vs ** 2) / ps.sum() - mean[a, j] ** 2, 0)
                        col = [zoo.plain_outcome(o) for o in S[:, a, j]]
                        if not c.ok(all(o in val for o in col), 'outcomes in the domain', got=[o for o in col if o not in val][:3]): return
                        X[:, a, j] = [val[o] for o in col]
                if 'mle' in e.name: continue
                cells(c, X.reshape(R, -1), mean.ravel(), var.ravel(), R, e.name)
                c.step()
            c.trace(); c.state(e.name)
    # many shots, equal at the ends and different in the middle
    for pat in ((5, 9, 5), (9, 5, 9), (40, 3, 17, 40), (1, 1000, 1), (6, 6, 6), (30, 30)):
        for mname in ('binomial', 'multinomial'):
            with c.case('edge shots %s %s' % (mname, pat)):
                m = (qi.BinomialModel if mname == 'binomial' else qi.MultinomialModel)(qi.SimplePrecessionModel())
                E = np.array([(0.7 + 0.1 * (i % 2 if len(set(pat)) > 1 else 0), n) for i, n in enumerate(pat)], dtype=m.expparams_dtype)
                P = np.array([[0.9], [1.7], [0.9]])
                np.random.seed(77)
                S = m.simulate_experiment(P, E, repeat=R)
                X = (S['k'][..., 1] if S.dtype.names else S).astype(float)
                c.ok(X.shape == (R, 3, len(pat)) and np.all(X >= 0) and np.all(X <= np.array(pat)), 'counts', got=X.shape)
                p1 = np.sin(P * E['x'] / 2) ** 2
                cells(c, X.reshape(R, -1), (np.array(pat) * p1).ravel(), (np.array(pat) * p1 * (1 - p1)).ravel(), R, mname)
                c.ok(np.allclose(X.var(axis=0), np.array(pat) * p1 * (1 - p1), rtol=0.45), 'variance of the counts', got=X.var(axis=0))
                c.step(); c.trace()
    # continuous data
    for n, ne in ((1, 1), (1, 3), (3, 1), (3, 4)):
        with c.case('edge gaussian %d %d' % (n, ne)):
            m = qi.GaussianHyperparameterizedModel(qi.SimplePrecessionModel())
            P = np.array([[0.9, 0.0, 4.0, 0.25, 1.0], [1.7, 1.0, -1.0, 1.0, 0.04], [0.9, 0.0, 4.0, 0.25, 1.0]])[:n]
            E = np.array([0.7, 1.9, 0.7, 3.0])[:ne]
            np.random.seed(78)
            S = m.simulate_experiment(P, E, repeat=R)
            c.ok(S.shape == (R, n, ne), 'shape', got=S.shape)
            p1 = np.sin(P[:, :1] * E / 2) ** 2
            mu = (1 - p1) * P[:, 1:2] + p1 * P[:, 2:3]
            v = (1 - p1) * (P[:, 3:4] + P[:, 1:2] ** 2) + p1 * (P[:, 4:5] + P[:, 2:3] ** 2) - mu ** 2
            cells(c, S.reshape(R, -1), mu.ravel(), v.ravel(), R, 'continuous outcomes')
            c.ok(len(np.unique(S)) == S.size, 'continuous draws never coincide')
            # the noise around the two means is shared by no two draws
            z = np.concatenate([((S - P[:, 1 + k][None, :, None]) / np.sqrt(P[:, 3 + k])[None, :, None]).reshape(R, -1) for k in (0, 1)], axis=1)
            q = np.round(np.sort(z, axis=1), 9)
            dup = np.sum(np.diff(np.sort(q.ravel())) < 1e-9)
            c.ok(dup <= 2, 'noise is shared by draws', pairs=dup)
            c.step(); c.trace()


# -- C09 / C11: large counts of outcomes, tiny variances -------------------------

def e09(c):
    m = qi.GaussianHyperparameterizedModel(qi.SimplePrecessionModel())
    for v in (1e-3, 1e-9, 1e-13, 1e-20, 1e-200, 0.0, -1e-20):
        for k in (3, 4):
            with c.case('edge variance %g %d' % (v, k)):
                P = np.array([[0.5, 0.0, 1.0, 1.0, 1.0]] * 2); P[1, k] = v
                c.eq(m.are_models_valid(P), [True, v > 0], 'positive variances are valid, others are not'); c.step()
    for sides in (2, 3, 4):
        base = qi.NDieModel(n=sides)
        mm = qi.MultinomialModel(base)
        for n in (1, 10, 1000, 9999, 30001, 100003):
            with c.case('edge outcomes %d %d' % (sides, n)):
                E = np.zeros(2, dtype=mm.expparams_dtype); E['n_meas'] = (n, 3)
                want = [math.comb(n + sides - 1, sides - 1), math.comb(sides + 2, sides - 1)]
                if want[0] < 2 ** 50:
                    got = [int(v) for v in mm.n_outcomes(E)]
                    c.ok(abs(got[0] - want[0]) <= 1e-12 * want[0] and got[1] == want[1], 'number of outcomes', got=got, want=want)
                d = mm.domain(E[:1])[0]
                c.ok(abs(d.n_members - want[0]) <= 1e-12 * want[0], 'members of the domain', got=d.n_members, want=want[0])
                c.step()
    bm = qi.BinomialModel(qi.SimplePrecessionModel())
    for n in (0, 1, 254, 255, 256, 65535, 65536, 10 ** 6, 2 ** 31):
        with c.case('edge shots domain %d' % n):
            E = np.zeros(1, dtype=bm.expparams_dtype); E['n_meas'] = n
            d = bm.domain(E)[0]
            c.ok(int(bm.n_outcomes(E)[0]) == n + 1 == d.n_members and d.min == 0 and d.max == n, 'counts 0 to n', got=(d.min, d.max, d.n_members)); c.step()
    # each added parameter is named after the parameters whose step it scales, in the order given
    for idx in ([0], [1], [2], [0, 1], [0, 2], [1, 0], [2, 0], [2, 1, 0], [1, 2, 0], np.array([2, 0]), slice(1, 3), slice(0, 3, 2), 'all'):
        for diag in (True, False):
            with c.case('edge names of walks %s %s' % (idx, diag)):
                b = qi.RandomizedBenchmarkingModel()
                m = qi.GaussianRandomWalkModel(b, random_walk_idxs=idx, diagonal=diag)
                nm = list(b.modelparam_names); got = m.modelparam_names
                ix = list(np.arange(3)[idx]) if not isinstance(idx, str) else [0, 1, 2]
                pairs = [(i, i) for i in ix] if diag else [(ix[a], ix[k]) for a in range(len(ix)) for k in range(a + 1)]
                c.ok(list(got[:3]) == nm and len(got) == 3 + len(pairs) == m.n_modelparams, 'names of the wrapped model come first', got=got)
                for g, pr in zip(got[3:], pairs):
                    inner = g[g.index('{') + 1:g.rindex('}')]
                    c.ok(sorted(inner.split(',')) == sorted(set(nm[i] for i in pr)), 'added parameter is named after its step', got=g, want=pr)
                # ... and indeed scales these steps
                P = np.concatenate([[0.5, 0.3, 0.2], np.zeros(len(pairs))])[None, :].repeat(len(pairs), axis=0)
                for a in range(len(pairs)): P[a, 3 + a] = 1.0
                with core.controlled(core.cycle_stream(3, zgrid=((-1.0, .5), (1.0, .5)))):
                    r = m.update_timestep(P, np.array([(1,)], dtype=b.expparams_dtype))[:, :, 0]
                for a, pr in enumerate(pairs):
                    moved = set(np.nonzero(np.abs(r[a] - P[a]) > 1e-9)[0])
                    c.ok(moved == {pr[0]}, 'parameters that move', got=moved, want=pr)
                c.step(len(pairs)); c.trace(); c.state(str(idx), diag)


# -- C10: scales of walks --------------------------------------------------------

def walks(c):
    sp = qi.SimplePrecessionModel
    for s in (1e-12, 1e-9, 1e-6, 1e-3, 1.0, 1e3):
        for name in ('diag', 'dense'):
            with c.case('edge walk scale %s %g' % (name, s)):
                u = qi.UnknownT2Model()
                cov = s ** 2 * (np.array([1.0, 4.0]) if name == 'diag' else np.array([[1.0, 0.5], [0.5, 4.0]]))
                m = qi.GaussianRandomWalkModel(u, fixed_covariance=cov, diagonal=name == 'diag')
                full = np.diag(cov) if name == 'diag' else cov
                got = m.est_update_covariance(np.zeros((1, 2)))
                c.ok(np.all(np.abs(got - full) <= 1e-9 * s ** 2), 'stated covariance', got=got)
                E = np.zeros(2, dtype=u.expparams_dtype)
                law = {}
                S = []
                for res, p, ch in core.explore(lambda: m.update_timestep(np.zeros((1, 2)), E[:1]), zgrid=rng.GH2):
                    S.append((p, np.asarray(res)[0, :, 0]))
                V = sum(p * np.outer(x, x) for p, x in S)
                c.ok(np.all(np.abs(V - full) <= 1e-9 * s ** 2), 'covariance of the steps', got=V, want=full)
                c.step(); c.trace(); c.state(name, s)
    # durations that differ by little, or a lot
    for ts in ((1e-4, 3e-4, 2e-4), (1e-9, 5e-9), (1.0, 1.0 + 1e-5, 1.0 + 3e-5), (1e-6, 1e6), (0.0, 1e-5), (2.0, 2.0, 3.0, 2.0)):
        for learn in (True, False):
            for trans in (None, (lambda x: 2 * x, lambda x: x / 2)):
                with c.case('edge walk durations %s %s %s' % (ts, learn, trans is not None)):
                    b = qi.BinomialModel(sp())
                    m = qi.GaussianRandomWalkModel(b, fixed_covariance=None if learn else np.array([0.25]), scale_mult='x', model_transformation=trans)
                    E = np.array([(t, 1) for t in ts], dtype=m.expparams_dtype)
                    P = np.array([[0.0, 0.5], [0.0, 0.5]])[:, :2 if learn else 1]
                    with core.controlled(core.cycle_stream(3, zgrid=((-1.0, .5), (1.0, .5)))):
                        r = m.update_timestep(P, E)
                    c.ok(r.shape == (2, P.shape[1], len(ts)), 'shape', got=r.shape)
                    want = 0.5 * np.array(ts) / (2 if trans else 1)
                    c.ok(np.all(np.abs(np.abs(r[:, 0, :]) - want) <= 1e-9 * want), 'each step has its own duration', got=r[:, 0, :], want=want); c.step()


def e17b(c):
    for n in (1, 255, 40000, 65536, 70000, 10 ** 6):
        with c.case('edge information of shots %d' % n):
            m0 = qi.SimplePrecessionModel(); m = qi.DifferentiableBinomialModel(m0)
            E = np.array([(0.7, n), (1.9, 3)], dtype=m.expparams_dtype)
            P = np.array([[0.6], [1.1]])
            a = m0.fisher_information(P, E['x']); b = m.fisher_information(P, E)
            c.ok(np.allclose(b, a * np.array([float(n), 3.0]), rtol=1e-9, atol=0), 'information of n shots is n times that of one', got=b); c.step()


# -- C21: barely unphysical states, small probabilities, nested products ---------

def e21(c):
    from qinfer import tomography as T
    bases = [('pauli1', T.pauli_basis(1)), ('gm3', T.gell_mann_basis(3)), ('pauli2', T.pauli_basis(2)), ('gm8', T.gell_mann_basis(8))]
    for bn, b in bases:
        d = int(b.dim); D = np.asarray(b.data)
        r = np.random.RandomState(d)
        U = np.linalg.qr(r.randn(d, d) + 1j * r.randn(d, d))[0]
        for s in (1e-2, 1e-4, 1e-6, 1e-8, 1e-10):
            with c.case('edge truncation %s %g' % (bn, s)):
                w = np.full(d, 1.0 / (d - 1)) if d > 2 else np.array([1.0, 1.0]); w[0] = -s; w = w / w.sum()
                for V in (np.eye(d), U):
                    M = V.dot(np.diag(w)).dot(V.conj().T)
                    v = np.real(np.einsum('aij,ji->a', D, M))
                    x = T.TomographyModel(b).canonicalize(np.array([v, v]))
                    pos = np.clip(w, 0, None); want = V.dot(np.diag(pos / pos.sum())).dot(V.conj().T)
                    c.ok(np.abs(np.einsum('a,aij->ij', x[1], D) - want).max() < 1e-3 * s + 1e-14, 'a slightly negative eigenvalue is removed', got=np.linalg.eigvalsh(np.einsum('a,aij->ij', x[1], D)).min())
                    m = T.TomographyModel(b, allow_subnormalized=True)
                    x = m.canonicalize(np.array([v / 2]))
                    c.ok(np.abs(np.einsum('a,aij->ij', x[0], D) - V.dot(np.diag(pos / 2)).dot(V.conj().T)).max() < 1e-3 * s + 1e-14, 'also below trace one')
                    c.step()
            # probabilities near zero and one
            with c.case('edge probability %s %g' % (bn, s)):
                m = T.TomographyModel(b)
                w = np.full(d, (1 - s) / (d - 1)); w[0] = s
                M = U.dot(np.diag(w)).dot(U.conj().T); P = np.outer(U[:, 0], U[:, 0].conj())
                v, q = np.real(np.einsum('aij,ji->a', D, M)), np.real(np.einsum('aij,ji->a', D, P))
                E = np.zeros(2, dtype=m.expparams_dtype); E['meas'][0] = q; E['meas'][1] = np.real(np.einsum('aij,ji->a', D, np.eye(d) - P))
                L = m.likelihood(np.array([0, 1]), v[None], E)[:, 0, :]
                c.ok(np.all(np.abs(L - [[1 - s, s], [s, 1 - s]]) < 1e-5 * s + 1e-13), 'Born rule for rare outcomes', got=L, want=s); c.step()
    g = T.gell_mann_basis
    for fs, want in (((T.tensor_product_basis(g(3), g(2)), g(2)), [3, 2, 2]), ((g(2), T.tensor_product_basis(g(3), g(2))), [2, 3, 2]), ((T.pauli_basis(2), g(3)), [2, 2, 3]), ((g(3), T.pauli_basis(2)), [3, 2, 2])):
        with c.case('edge nested product %s' % (want,)):
            b = T.tensor_product_basis(*fs)
            c.ok([int(v) for v in b.dims] == want, 'dimensions of the factors in order', got=b.dims)
            n = len(fs[1].data)
            for i, j in ((0, 0), (1, 2), (3, 1), (2, 3)):
                c.eq(b.data[i * n + j], np.kron(fs[0].data[i], fs[1].data[j]), 'elements')
                c.ok(b.labels[i * n + j] == r'\otimes'.join([fs[0].labels[i], fs[1].labels[j]]), 'labels')
            q = b.modelparams_to_state(np.eye(1, len(b.data))[0] / math.sqrt(b.dim))
            c.ok(q.dims == [want, want], 'dims of states', got=q.dims); c.step()


# -- C22 ----------------------------------------------------------------------------

def e22(c):
    import qutip as qt
    from qinfer import tomography as T
    from .c22 import refvec, states, key, close_law, PAULIS
    # the covariance is that of the present posterior, whatever its scale
    for scale in (1.0, 1e-3, 1e-5):
        for order in (0, 1):
            with c.case('edge best of k %g %d' % (scale, order)):
                b = T.pauli_basis(1); m = T.TomographyModel(b)
                base = np.array([1 / math.sqrt(2), 0.1, 0.05, -0.1])
                dirs = np.array([[0, 1, 0.5, 0.25], [0, -1, 0.5, 0.25], [0, 0.25, -1, .125], [0, .5, .25, -1]]) * 0.3 * scale
                u = mk(m, base + dirs, weights=[0.25] * 4, resample_thresh=0.0)
                log = []; script = [0]
                cands = [np.array([[1 / math.sqrt(2)] + [(1 / math.sqrt(2) if k == j else 0.0) for k in range(3)]]) for j in range(3)]
                class H(object):
                    def __call__(self):
                        e = np.zeros(1, dtype=m.expparams_dtype); j = (script[0] * (2 if order else 1) + order) % 3; script[0] += 1
                        e['meas'] = cands[j]; log.append(e); return e
                h = T.BestOfKMetaheuristic(u, H(), k=3)
                for W in ([.25] * 4, [.49, .49, .01, .01], [.01, .01, .49, .49], [.01, .49, .01, .49], [.1, .1, .7, .1]):
                    u.particle_weights = np.array(W)
                    C = np.asarray(W)[:, None] * (dirs - np.array(W).dot(dirs)); C = C.T.dot(dirs - np.array(W).dot(dirs))
                    del log[:]
                    e = h()
                    vals = [float(q['meas'][0].dot(C).dot(q['meas'][0])) for q in log]
                    got = float(e['meas'][0].dot(C).dot(e['meas'][0]))
                    c.ok(len(vals) == 3 and got >= max(vals) * (1 - 1e-4), 'not the best candidate for the present posterior', got=got, vals=vals)
                    c.step()
    # every Pauli of three qubits
    with c.case('edge pauli three qubits'):
        b = T.pauli_basis(3); m = T.TomographyModel(b)
        S = np.eye(8) / 8
        u = mk(m, [refvec(b.data, S)] * 2)
        law = {}
        h = T.RandomPauliHeuristic(u)
        for e, p, ch in c.explore(lambda: h()):
            k = key(e['meas'][0]); law[k] = law.get(k, 0) + p
        want = {}
        for combo in itertools.product(range(4), repeat=3):
            if any(combo):
                M = np.eye(1)
                for i in combo: M = np.kron(M, PAULIS[i])
                want[key(refvec(b.data, (np.eye(8) + M) / 2))] = 1 / 63.0
        close_law(c, law, want, 'uniform over the Pauli measurements'); c.state(3)
    # priors whose mean is nearly on the boundary or nearly maximally mixed
    for d in (2, 3):
        b = T.gell_mann_basis(d); D = np.asarray(b.data)
        fids = [states(d)[1], np.eye(d) / d]
        class F(T.DensityOperatorDistribution):
            def __init__(self, f): super(F, self).__init__(b); self.f = f
            def _sample_dm(self): return qt.Qobj(self.f)
        for lam in (2e-2, 4e-3, 5e-4, (1 - 2e-2) / d, (1 - 4e-4) / d, (1 - 1e-6) / d):
            with c.case('edge informative prior d=%d %g' % (d, lam)):
                w = np.full(d, (1 - lam) / (d - 1)); w[0] = lam
                M = np.diag(w[::-1])
                out = []
                N = 1200
                for f in fids:
                    dist = T.GADFLIDistribution(F(f), qt.Qobj(M))
                    np.random.seed(5); out.append(dist.sample(N))
                k = np.argmax(np.abs(refvec(D, fids[0]) - refvec(D, fids[1])))
                one_minus = (out[0] - out[1])[:, k] / (refvec(D, fids[0]) - refvec(D, fids[1]))[k]
                beta = d * lam / (1 - d * lam)
                for t in (1e-6, 1e-3, 0.1, 0.5, 0.9, 0.99, 0.9995, 1 - 1e-5):
                    p = 1 - t ** beta            # the law of 1 - eps: density beta t^(beta - 1)
                    n = np.sum(one_minus > t)
                    if beta > 1e4 and t > 1 - 1e-4: continue
                    c.ok(abs(n - N * p) <= 6.5 * math.sqrt(N * p * (1 - p)) + 5, 'law of the weight of the fiducial state', t=t, got=n / N, want=p)
                rho = (M - lam * np.eye(d)) / (1 - d * lam)
                e = (1 - one_minus)[:, None]
                tol = 1e-9 / (1 - d * lam)
                c.ok(np.all(np.abs(out[0] - ((1 - e) * refvec(D, fids[0]) + e * refvec(D, rho))) < tol + 1e-9), 'samples lie between the fiducial state and the boundary'); c.step(); c.trace()


# -- C01: buffers used again, sizes just past powers of two -----------------------

def e01(c):
    for name in ('precession', 'unknownT2', 'noisycoin'):
        for n in (255, 257, 1025, 2049, 4097, 8193, 16385):
            with c.case('edge size %s %d' % (name, n)):
                m, P, E, p0 = vec(name, n, 3)
                u = mk(m, P, resample_thresh=0.0)
                w = np.ones(n) / n
                for k, o in enumerate((1, 0, 1)):
                    w = w * (p0[:, k] if o == 0 else 1 - p0[:, k]); z = w.sum(); w = w / z
                    u.update(o, E[k:k + 1])
                    c.eq(np.asarray(u.particle_weights) * n, w * n, 'posterior weights'); c.eq(float(np.ravel(u.normalization_record[-1])[0]), z, 'norm record')
                    c.step()
                c.trace(); c.state(name, n)
        # the caller keeps one array of experiments and one of outcomes and overwrites them
        with c.case('edge buffers %s' % name):
            m, P, E, p0 = vec(name, 30, 40)
            u = mk(m, P, resample_thresh=0.0)
            v = mk(m, P, resample_thresh=0.0)
            buf = E[:1].copy(); ob = np.array([0])
            w = np.ones(30) / 30
            for k in range(40):
                o = (k // 2) % 2
                buf[:] = E[k:k + 1]; ob[0] = o
                for act in (0, 1):
                    h, N = u.hypothetical_update(ob, buf, return_normalization=True)
                    t = w * (p0[:, k] if o == 0 else 1 - p0[:, k])
                    c.eq(np.asarray(N).ravel(), [t.sum()], 'hypothetical normalization with a reused array', datum=k)
                    c.eq(np.asarray(h)[0, 0], t / t.sum(), 'hypothetical weights with a reused array', datum=k)
                    buf[:] = E[(k + 7) % 40:(k + 7) % 40 + 1]; ob[0] = 1 - o
                    kk = (k + 7) % 40
                    t2 = w * (p0[:, kk] if o == 1 else 1 - p0[:, kk])
                    c.eq(np.asarray(u.hypothetical_update(ob, buf))[0, 0], t2 / t2.sum(), 'hypothetical weights with a reused array', datum=k)
                    buf[:] = E[k:k + 1]
                    t3 = w * (p0[:, k] if o == 1 else 1 - p0[:, k])
                    c.eq(np.asarray(u.hypothetical_update(ob, buf))[0, 0], t3 / t3.sum(), 'hypothetical weights with a reused array', datum=k)
                    buf[:] = E[k:k + 1]; ob[0] = o
                u.update(o, buf)
                w = t / t.sum()
                c.eq(np.asarray(u.particle_weights), w, 'posterior weights with a reused array', datum=k)
                c.step(4)
            # particles moved by hand in place, same experiment again
            u.particle_locations[:, 0] = u.particle_locations[::-1, 0].copy()
            p1 = VEC[name][3](np.array(u.particle_locations), buf)
            t = np.array(u.particle_weights) * p1[:, 0]
            c.eq(np.asarray(u.hypothetical_update(np.array([0]), buf))[0, 0], t / t.sum(), 'hypothetical weights after particles moved')
            c.trace(); c.state('buf', name)


# -- C11: large numbers ---------------------------------------------------------

def e11(c):
    from qinfer.domains import IntegerDomain, MultinomialDomain, ProductDomain, RealDomain
    for lo, n in ((2 ** 31 - 3, 8), (-2 ** 31 - 4, 8), (2 ** 40, 5), (-2 ** 40, 5), (2 ** 52 + 1, 4), (2 ** 60, 5), (2 ** 60 + 1, 300), (-2 ** 60 - 7, 3), (2 ** 62, 2), (0, 70000)):
        with c.case('edge integers %d %d' % (lo, n)):
            d = IntegerDomain(min=lo, max=lo + n - 1)
            v = d.values
            c.ok(v.dtype == np.dtype(d.dtype) and v.tolist() == list(range(lo, lo + n)), 'values', got=v[:3].tolist())
            c.ok(d.n_members == n and d.min == lo and d.max == lo + n - 1, 'count and bounds', got=(d.n_members, d.min, d.max))
            c.ok(bool(d.in_domain(v)) and bool(d.in_domain(d.example_point)), 'listed values are members')
            c.ok(not d.in_domain(np.array([lo - 1])) and not d.in_domain(np.append(v, lo + n)), 'points just outside')
            c.ok(not d.in_domain(np.append(v[:1], lo - 1)) and not d.in_domain(np.array([lo + n])), 'points just outside')
            c.ok(d.example_point.tolist()[0] in (lo, lo + n - 1) or bool(d.in_domain(d.example_point)), 'example')
            c.step(n); c.trace(); c.state('i', lo, n)
    for lo, hi in ((2 ** 40, np.inf), (-np.inf, -2 ** 40), (-np.inf, np.inf), (0, np.inf)):
        with c.case('edge half open %s %s' % (lo, hi)):
            d = IntegerDomain(min=lo, max=hi)
            for p in (0, 1, -1, 2 ** 31, 2 ** 32 + 5, 2 ** 40, 2 ** 40 - 1, 2 ** 40 + 1, -2 ** 40, 1 - 2 ** 40, 2 ** 52, -2 ** 52, 2 ** 62):
                c.ok(bool(d.in_domain(np.array([p]))) == (lo <= p <= hi), 'membership', point=p); c.step()
    d = IntegerDomain(min=-5, max=2 ** 40)
    with c.case('edge nearly integers'):
        for k in (-4, 0, 1, 3, 1000, 2 ** 33):
            for dx in (2.0 ** -10, 1e-6, 1e-9, 1e-12):
                for s in (1, -1):
                    x = k + s * dx
                    c.ok(bool(d.in_domain(np.array([x]))) == (float(x) == math.floor(x)), 'numbers that are almost integers are no members', point=x)
                    c.ok(bool(d.in_domain(np.array([1.0, 2.0, x]))) == (float(x) == math.floor(x)), 'numbers that are almost integers are no members', point=x)
                    c.step()
    for lo, hi in ((0.0, 1.0), (1e-12, 2e-12), (-1e6, 1e6), (1.0, 1.0 + 1e-9)):
        with c.case('edge real %g %g' % (lo, hi)):
            d = RealDomain(min=lo, max=hi)
            for x in (lo, hi, (lo + hi) / 2):
                c.ok(bool(d.in_domain(np.array([x]))), 'member', point=x)
            for x in (np.nextafter(lo, -9e9), np.nextafter(hi, 9e9), lo - (hi - lo) * 1e-6, hi + (hi - lo) * 1e-6):
                c.ok(not d.in_domain(np.array([x])) and not d.in_domain(np.array([lo, x, hi])), 'no member', point=x); c.step()
    for n, k in ((40000, 2), (70000, 2), (2 ** 33, 2), (33000, 3), (60, 30), (1000, 8), (2 ** 20, 1)):
        with c.case('edge multinomial %d %d' % (n, k)):
            d = MultinomialDomain(n_meas=n, n_elements=k)
            c.ok(d.n_members == math.comb(n + k - 1, k - 1), 'count', got=d.n_members, want=math.comb(n + k - 1, k - 1))
            c.ok(bool(d.in_domain(d.example_point)), 'example is a member')
            a = np.zeros((3, k), dtype=int); a[0, 0] = n; a[1, -1] = n; a[2, 0] = n - n // 3; a[2, -1] += n // 3
            x = d.from_regular_array(a)
            c.ok(bool(d.in_domain(x)), 'members'); c.eq(d.to_regular_array(x), a, 'there and back', tol=0)
            for off in (1, -1, 2 ** 16, -2 ** 16, 2 ** 32, -2 ** 32, 256):
                for r in range(3):
                    b = a.copy(); b[r, 0] += off
                    c.ok(not d.in_domain(d.from_regular_array(b)), 'other totals are no members', off=off, row=r)
            if k > 1:
                b = a.copy(); b[1, 0] -= 1; b[1, -1] += 1
                c.ok(not d.in_domain(d.from_regular_array(b)), 'negative counts are no members')
            c.step(20); c.trace(); c.state('m', n, k)
    for n in (1, 255, 65535, 65536, 2 ** 31 + 5, 2 ** 40):
        with c.case('edge shots %d' % n):
            m = qi.BinomialModel(qi.SimplePrecessionModel())
            d = m.domain(np.array([(0.5, 3), (0.5, n), (0.5, 1)], dtype=m.expparams_dtype))
            c.ok([int(x.n_members) for x in d] == [4, n + 1, 2] and [int(x.max) for x in d] == [3, n, 1] and [int(x.min) for x in d] == [0, 0, 0], 'outcomes of binomial experiments', got=[x.n_members for x in d])
            c.ok(bool(d[1].in_domain(np.array([0, n]))) and not d[1].in_domain(np.array([n + 1])), 'membership')
            mm_ = qi.MultinomialModel(qi.NDieModel(3))
            if n <= 2 ** 31 + 5:
                d = mm_.domain(np.array([(0, 3), (0, n)], dtype=mm_.expparams_dtype))
                c.ok([int(x.n_meas) for x in d] == [3, n] and d[1].n_elements == 3 and int(d[1].n_members) == math.comb(n + 2, 2), 'outcomes of multinomial experiments', got=[x.n_members for x in d])
            c.step()
    with c.case('edge products'):
        I = IntegerDomain
        class Named(IntegerDomain):
            def __init__(self, name, lo, hi):
                self._n = name; IntegerDomain.__init__(self, lo, hi)
            dtype = property(lambda s: np.dtype([(s._n, int)]))
            example_point = property(lambda s: np.array([(s.min,)], dtype=s.dtype))
            values = property(lambda s: np.array([(v,) for v in range(s.min, s.max + 1)], dtype=s.dtype))
            def in_domain(self, p): return IntegerDomain.in_domain(self, np.asarray(p)[self._n])
        for sizes in ((2 ** 33, 2 ** 33), (2 ** 40, 2 ** 40, 2 ** 40), (10, 10 ** 18, 10 ** 18), (3, 5)):
            doms = [Named('f%d' % i, 0, s - 1) for i, s in enumerate(sizes)]
            for form in (ProductDomain(*doms), ProductDomain(doms)):
                c.ok(form.n_members == math.prod(sizes), 'count of a product', got=form.n_members, want=math.prod(sizes))
                pt = np.array([tuple(s - 1 for s in sizes), tuple(0 for s in sizes)], dtype=form.dtype)
                c.ok(bool(form.in_domain(pt)), 'members'); c.step()
                parts = form.to_regular_arrays(pt)
                c.ok([p['f%d' % i].tolist() for i, p in enumerate(parts)] == [[s - 1, 0] for s in sizes], 'parts')
                c.ok(np.array_equal(form.from_regular_arrays(parts), pt), 'there and back')
                bad = pt.copy(); bad['f0'][1] = sizes[0]
                c.ok(not form.in_domain(bad), 'no member')
        c.trace()


# -- C14: nearly equal weights, many vertices --------------------------------------

def e14(c):
    for n in (3, 7, 40, 300):
        for dlt in (1e-15, 1e-12, 1e-10, 1e-8, 1e-6):
            with c.case('edge near equal n=%d %g' % (n, dlt)):
                perm = np.argsort(grid(n, 0, 1, 3), kind='stable')
                w = np.ones(n) / n * (1 + dlt * perm * 4)
                X = np.stack([np.arange(n) * 1.0, grid(n, -1, 1, 2)], 1)
                u = mk(zoo.TableModel([[(0.5, 0.5)] * 9], [2], n_params=2), X, w)
                u.particle_weights = w.copy()
                for lev in (0.1, 0.5, 0.9):
                    r, out = u.est_credible_region(level=lev, return_outside=True)
                    wi = w[r[:, 0].astype(int)]; wo = np.append(w[out[:, 0].astype(int)], 0.0)
                    c.ok(len(r) + len(out) == n and wi.min() >= wo.max(), 'heavier particles first, however small the difference', got=(wi.min(), wo.max()), level=lev)
                    c.ok(abs(len(r) - lev * n) <= 1.01, 'number of particles', got=len(r)); c.step()
                c.trace(); c.state(n, dlt)
    for n, d in ((400, 2), (2500, 2), (5000, 2), (1500, 3)):
        with c.case('edge hull n=%d d=%d' % (n, d)):
            t = 2 * np.pi * (np.arange(n) * 0.6180339887498949 % 1)
            if d == 2:
                X = np.stack([3 + 2 * np.cos(t), 1000 + np.sin(t)], 1)
            else:
                z = 1 - 2 * (np.arange(n) + 0.5) / n
                X = np.stack([np.sqrt(1 - z * z) * np.cos(t), np.sqrt(1 - z * z) * np.sin(t), z], 1)
            w = np.ones(n) / n
            dist = qi.ParticleDistribution(particle_locations=X, particle_weights=w)
            f, v = dist.region_est_hull(level=1.0)
            c.ok(set(map(tuple, v)) == set(map(tuple, X)) and len(v) == n, 'every extreme particle is a vertex', got=len(v), want=n)
            ctr = X.mean(axis=0)
            got = np.asarray(dist.in_credible_region(np.concatenate([ctr + 0.99 * (X - ctr), ctr + 1.01 * (X - ctr)]), level=1.0, method='hpd-hull'))
            c.ok(got[:n].all() and not got[n:].any(), 'membership in the hull', inside=int(got[:n].sum()), outside=int(got[n:].sum()))
            A, cc = dist.region_est_ellipsoid(level=1.0, tol=1e-2) if n <= 1500 else (None, None)
            if A is not None:
                y = X - cc
                far = np.einsum('ij,ij->i', y, np.linalg.solve(A, y.T).T)
                c.ok(far.max() <= 1 + 6 * (d + 1) * 1e-2 and far.min() > 0.8, 'ellipsoid of particles on an ellipsoid', reach=(far.min(), far.max()))
            c.step(2 * n); c.trace(); c.state('hull', n, d)
    # parameters of very different size
    for s in (1e-9, 1e-4, 1e4, 1e8):
        with c.case('edge scale %g' % s):
            n = 60
            X = np.stack([grid(n, -1, 1), s * grid(n, 2, 5, 2)], 1)
            w = 1 + np.floor(grid(n, 0, 9, 1)); w /= w.sum()
            dist = qi.ParticleDistribution(particle_locations=X, particle_weights=w)
            ref = qi.ParticleDistribution(particle_locations=X / [1, s], particle_weights=w)
            Q = np.stack([grid(50, -1.2, 1.2, 3), grid(50, 1.5, 5.5, 4)], 1)
            for lev in (0.5, 0.9):
                a = dist.est_credible_region(level=lev); b = ref.est_credible_region(level=lev)
                c.ok(np.allclose(a / [1, s], b, rtol=1e-12), 'region follows the units')
                for meth in ('pce', 'hpd-hull', 'hpd-mvee'):
                    g, h = np.asarray(dist.in_credible_region(Q * [1, s], level=lev, method=meth)), np.asarray(ref.in_credible_region(Q, level=lev, method=meth))
                    c.ok(np.sum(g != h) == 0, 'membership follows the units of the parameters', method=meth, level=lev, got=g.sum(), want=h.sum())
                A, ca = dist.region_est_ellipsoid(level=lev, tol=1e-4); B, cb = ref.region_est_ellipsoid(level=lev, tol=1e-4)
                c.ok(np.allclose(A / np.outer([1, s], [1, s]), B, rtol=1e-5), 'ellipsoid follows the units'); c.ok(np.allclose(ca / [1, s], cb, rtol=1e-6), 'centre follows the units')
                c.step(3)
            c.trace(); c.state('s', s)
    # covariance ellipsoids of any selection of parameters
    import scipy.stats as st
    for k in (1, 2, 3, 4):
        sels = [None] + [list(x) for r in range(1, k + 1) for x in itertools.permutations(range(k), r)] + [slice(a, b) for a in range(k) for b in range(a + 1, k + 1)]
        for sl in sels:
            with c.case('edge covariance ellipsoid k=%d %s' % (k, sl)):
                n = 40
                X = np.stack([(j + 1) * grid(n, -1, 1, j) + j for j in range(k)], 1); X[:, -1] += 0.4 * X[:, 0]
                w = 1 + np.floor(grid(n, 0, 9, 1)); w /= w.sum()
                dist = qi.ParticleDistribution(particle_locations=X, particle_weights=w)
                mu = w.dot(X); cov = (X - mu).T.dot((X - mu) * w[:, None])
                ix = np.arange(k) if sl is None else np.arange(k)[sl]
                mu, cov = mu[ix], cov[np.ix_(ix, ix)]
                L = np.linalg.cholesky(cov)
                d0 = np.stack([grid(30, -1, 1, j + 1) for j in range(len(ix))], 1); d0 /= np.linalg.norm(d0, axis=1)[:, None]
                for lev in (0.1, 0.5, 0.95, 0.999):
                    r = math.sqrt(st.chi2(len(ix)).ppf(lev))
                    for f, want in ((0.99, True), (1.01, False)):
                        got = np.asarray(dist.in_credible_region(mu + f * r * d0.dot(L.T), level=lev, method='pce', **({} if sl is None else dict(modelparam_slice=sl))))
                        c.ok(got.shape == (30,) and (got == want).all(), 'membership in the covariance ellipsoid', level=lev, reach=f, got=got)
                        c.step()
                c.trace(); c.state('pce', k, str(sl))


# -- C15: weights and probabilities that are very small -----------------------------

def e15(c):
    for tiny in (1e-4, 1e-8, 1e-11, 1e-13):
        for p in (1.0, 0.5):
            with c.case('edge tiny %g %g' % (tiny, p)):
                # outcome 0 is possible for the light particle only
                table = [[(p, (1 - p) / 2, (1 - p) / 2), (0.0, 0.75, 0.25), (0.0, 0.75, 0.25)]]
                m = zoo.TableModel(table, [3])
                rest = (1 - tiny) / 2
                ws = [tiny, rest, rest]
                u = mk(m, [[0.0], [1.0], [2.0]], ws, resample_thresh=0.0); u.particle_weights = np.array(ws)
                F = Fraction
                want = 0.0; risk = 0.0
                for o in range(3):
                    lo = [F(table[0][k][o]) * F(ws[k]) for k in range(3)]; z = sum(lo)
                    if z == 0: continue
                    post = [v / z for v in lo]
                    want += float(z) * math.fsum(float(q) * math.log(float(q) / w) for q, w in zip(post, ws) if q > 0)
                    mu = sum(q * k for k, q in enumerate(post)); risk += float(z * sum(q * (k - mu) ** 2 for k, q in enumerate(post)))
                got = float(np.ravel(u.expected_information_gain(EP(0)))[0])
                c.ok(abs(got - want) <= 1e-2 * want + 2e-15, 'gain from an outcome only light particles allow', got=got, want=want)
                c.eq(np.ravel(u.bayes_risk(EP(0)))[0], risk, 'risk', tol=1e-12)
                c.step(); c.trace(); c.state(tiny, p)
    # far away particles with a small spread, and large ones
    for off, sp in ((1e3, 1.0), (0.0, 1e-6), (0.0, 1e6), (5e2, 0.25), (-40.0, 1e-3)):
        with c.case('edge offset %g spread %g' % (off, sp)):
            class Far(zoo.TableModel):
                def likelihood(self, o, m_, e): return zoo.TableModel.likelihood(self, o, (m_ - off) / sp, e)
                def are_models_valid(self, m_): return np.ones(len(m_), dtype=bool)
            u = mk(Far(zoo.TABLE3, [len(r[0]) for r in zoo.TABLE3]), [[off], [off + sp], [off + 2 * sp]], [0.25, 0.5, 0.25], resample_thresh=0.0)
            v = mk(zoo.TableModel(zoo.TABLE3, [len(r[0]) for r in zoo.TABLE3]), [[0.0], [1.0], [2.0]], [0.25, 0.5, 0.25], resample_thresh=0.0)
            E = EP(*range(len(zoo.TABLE3)))
            c.ok(np.allclose(np.array(u.bayes_risk(E)) / sp ** 2, v.bayes_risk(E), rtol=1e-6, atol=1e-7), 'risk scales with the spread and ignores the offset', got=u.bayes_risk(E), want=np.array(v.bayes_risk(E)) * sp ** 2)
            c.eq(u.expected_information_gain(E), v.expected_information_gain(E), 'gain does not depend on the units'); c.step(2); c.trace(); c.state(off, sp)


# -- C28: fine grids, small and large units --------------------------------------------

def e28(c):
    from . import c28
    rows = [(-1.0, 0.3), (0.125, -0.4), (0.5, 0.0), (0.25, 0.9), (1.0, 0.6)]; w = [0.1, 0.3, 0.2, 0.25, 0.15]
    for res in (500, 999, 1000, 1001, 2000, 5001):
        with c.case('edge resolution %d' % res):
            u = c28.upd(rows, w)
            for lo, hi in ((-1.3127113, 1.7313177), (0.0113717, 0.9117131), (-0.9117, 0.8713131)):
                for idx in (0, 1):
                    c28.judge_marginal(c, u, idx, res, 0, lo, hi); c.step()
            c.trace(); c.state(res)
    for s in (1e-12, 1e-6, 1e-4, 1e-3, 1e3, 1e9):
        with c.case('edge units %g' % s):
            u = c28.upd(rows, w); v = c28.upd(np.array(rows) * s, w)
            for sm in (0, 0.05, 0.3):
                for lo, hi in ((None, None), (-1.3, 1.7)):
                    a = u.posterior_marginal(0, 40, sm, lo, hi)
                    b = v.posterior_marginal(0, 40, sm * s, None if lo is None else lo * s, None if hi is None else hi * s)
                    c.ok(np.allclose(b[0], a[0] * s, rtol=1e-9, atol=1e-12 * s) and np.allclose(np.asarray(b[1]) * s, a[1], rtol=1e-6, atol=1e-9), 'marginal follows the units', smoothing=sm, range=(lo, hi)); c.step()
            for sm in (0.05, 0.3):
                a = u.posterior_mesh(0, 1, 9, 7, sm); b = v.posterior_mesh(0, 1, 9, 7, sm * s)
                c.ok(np.allclose(np.asarray(b[0]), np.asarray(a[0]) * s, rtol=1e-9, atol=1e-12 * s) and np.allclose(np.asarray(b[2]) * s * s, a[2], rtol=1e-6, atol=1e-9), 'mesh follows the units', smoothing=sm); c.step()
            html = v._repr_html_()
            c.trace(); c.state('s', s)
    for off in (10.0, 1e3, -1e4):
        with c.case('edge offset %g' % off):
            u = c28.upd(rows, w); v = c28.upd(np.array(rows) + off, w)
            a = u.posterior_marginal(0, 33, 0.1, -1.25, 1.5); b = v.posterior_marginal(0, 33, 0.1, -1.25 + off, 1.5 + off)
            c.ok(np.allclose(b[1], a[1], rtol=1e-5, atol=1e-6), 'marginal follows an offset')
            a = u.posterior_mesh(0, 1, 9, 7, 0.2); b = v.posterior_mesh(0, 1, 9, 7, 0.2)
            c.ok(np.allclose(b[2], a[2], rtol=1e-5, atol=1e-6), 'mesh follows an offset'); c.step(2); c.trace(); c.state('o', off)


# -- C18: very many repeats ------------------------------------------------------

class Silent(qi.Simulatable):
    """Only counts."""
    n_modelparams = 1
    expparams_dtype = 'float'
    is_n_outcomes_constant = True
    def n_outcomes(self, e): return 2
    def domain(self, e): return qi.IntegerDomain(0, 1) if e is None else [qi.IntegerDomain(0, 1)] * len(e)
    def are_models_valid(self, m): return np.ones(len(m), dtype=bool)
    def simulate_experiment(self, m, e, repeat=1): return super(Silent, self).simulate_experiment(m, e, repeat)


class SilentModel(qi.FiniteOutcomeModel):
    n_modelparams = 1
    modelparam_names = ['x']
    expparams_dtype = 'float'
    is_n_outcomes_constant = True
    def n_outcomes(self, e): return 2
    def are_models_valid(self, m): return np.ones(len(m), dtype=bool)
    def likelihood(self, o, m, e): return super(SilentModel, self).likelihood(o, m, e)


def e18(c):
    with c.case('edge huge counts'):
        m = Silent(); tot = 0
        for nm, ne, r in ((3, 2, 10 ** 6), (1, 1, 2 ** 31), (1000, 7, 2 ** 33), (1, 1, 1), (2, 3, 2 ** 40), (1, 1, 2 ** 53), (1, 1, 1), (1, 1, 1), (3, 1, 1)):
            m.simulate_experiment(np.zeros((nm, 1)), np.zeros(ne), repeat=r); tot += nm * ne * r
            c.ok(m.sim_count == tot, 'simulations counted', got=m.sim_count, want=tot); c.step()
        m = SilentModel(); tot = 0
        big = np.broadcast_to(np.zeros((1, 1)), (2 ** 22, 1)); bo = np.broadcast_to(np.zeros(1, dtype=int), (2 ** 20,)); be = np.broadcast_to(np.zeros(1), (2 ** 12,))
        for o, mp, e in ((bo[:3], big[:5], be[:7]), (bo, big, be[:1]), (bo[:1], big, be), (bo, big, be), (bo[:1], big[:1], be[:1]), (bo[:1], big[:1], be[:1])):
            m.likelihood(o, mp, e); tot += len(o) * len(mp) * len(e)
            c.ok(m.call_count == tot, 'likelihood calls counted', got=m.call_count, want=tot); c.step()
        c.trace()
    from . import c18
    for e in c18.ents():
        if e.name.count('(') > 1 or 'gwalk' in e.tags: continue
        with c.case('edge repeats %s' % e.name):
            m = e.make(); spy = c18.Spy(m)
            with core.controlled(core.cycle_stream(5)):
                for nm, ne, r in ((1, 1, 257), (2, 1, 1001), (1, 2, 128)):
                    c18.simulate(e, m, nm, ne, r)
                    c18.judge(c, spy, e, (nm, ne, r)); c.step()
            c.ok(m.sim_count == 257 + 2002 + 256, 'simulations', got=m.sim_count)
            c.trace(); c.state(e.name)


# -- C25: one slow pair among many ------------------------------------------------

def e25(c):
    from .c25 import Even
    from qinfer.ale import ALEApproximateModel
    for nm, ne, at in ((400, 1, 399), (1, 400, 399), (1, 400, 0), (30, 40, 617), (1500, 1, 700)):
        for tol in (0.1, 0.05):
            with c.case('edge slow pair %d %d %g' % (nm, ne, tol)):
                sim = Even(lambda m, e: m[0] * e)
                mps = np.arange(nm)[:, None] * 1e-6; eps = 1e-3 * (1 + np.arange(ne) * 1e-4)
                i, j = divmod(at, ne)
                mps[i, 0] = 0.5 / eps[j] if nm > 1 else mps[i, 0]
                if nm == 1: mps[0, 0] = 1e-3; eps[j] = 500.0
                m = ALEApproximateModel(sim, error_tol=tol, min_samp=3, samp_step=2)
                L = m.likelihood(np.array([0, 1]), mps, eps)
                if not c.ok(all(a.shape == mps.shape and b.shape == eps.shape for a, b, _ in sim.log), 'all pairs are simulated together'): continue
                N = n = 0
                for k, (a, b, o) in enumerate(sim.log):
                    n = n + o.sum(axis=0)
                    N += len(o)
                    p = (n + 0.509) / (N + 1.018); er = np.sqrt(p * (1 - p) / (N + 2.018))
                    c.ok(N == 3 + 2 * k, 'stages', N=N)
                    if np.abs(er - tol).min() > 1e-9:
                        c.ok((er.max() < tol) == (k == len(sim.log) - 1), 'stops at the first stage at which every pair is within tolerance', N=N, worst=er.max(), tol=tol)
                c.eq(np.asarray(L)[1], p, 'hedged frequency', tol=1e-12); c.eq(np.asarray(L)[0], 1 - p, 'hedged frequency', tol=1e-12)
                c.ok(N >= 0.25 / tol ** 2 - 6, 'the slowest pair decides', N=N)
                c.step(); c.trace(); c.state(nm, ne, tol)


# -- C27: resetting in place --------------------------------------------------------

def e27(c):
    for name, mm, pr in (('precession', lambda: qi.SimplePrecessionModel(), lambda: qi.UniformDistribution([0, 1])),
                         ('rb', lambda: qi.RandomizedBenchmarkingModel(), lambda: qi.UniformDistribution([[.5, 1], [0, .4], [0, .4]]))):
        for n in (1, 4, 300):
            with c.case('edge reset %s %d' % (name, n)):
                m = mm(); E = np.array([1.3] if name == 'precession' else [(7,)], dtype=m.expparams_dtype)
                with core.controlled(core.cycle_stream(3)):
                    u = qi.SMCUpdater(m, n, pr(), resample_thresh=0.0)
                for rep in range(3):
                    for o in (0, 1, 1):
                        u.update(o, E)
                    w0 = np.array(u.particle_weights)
                    with core.controlled(core.cycle_stream(11 + rep)):
                        u.reset(reset_weights=False)
                    with core.controlled(core.cycle_stream(11 + rep)):
                        f = np.asarray(pr().sample(n))
                    c.eq(np.asarray(u.particle_locations), f, 'particles after a reset that keeps the weights', tol=1e-12)
                    c.eq(np.asarray(u.particle_weights), w0, 'weights after a reset that keeps them', tol=0)
                    u.update(0, E)
                    with core.controlled(core.cycle_stream(21 + rep)):
                        u.reset()
                    c.eq(np.asarray(u.particle_weights), np.ones(n) / n, 'weights after a reset', tol=1e-15)
                    c.step()
                c.trace(); c.state(name, n)


# -- C17: many outcomes ----------------------------------------------------------------

class Ladder(qi.FiniteOutcomeModel, qi.DifferentiableModel):
    """Pr(k | x) = (1 + x c_k) / n with sum of c zero: score c_k / (1 + x c_k)."""
    n_modelparams = 1
    modelparam_names = ['x']
    expparams_dtype = [('e', 'int')]
    def __init__(self, ns):
        self.ns = ns
        super(Ladder, self).__init__()
    @property
    def is_n_outcomes_constant(self): return len(set(self.ns)) == 1
    def n_outcomes(self, e): return self.ns[0] if self.is_n_outcomes_constant else np.array([self.ns[k] for k in np.atleast_1d(e['e'])])
    def are_models_valid(self, m): return np.abs(m[:, 0]) < 1
    def coef(self, o, n): return (2 * np.asarray(o) - (n - 1.0)) / (n - 1.0)
    def likelihood(self, o, m, e):
        super(Ladder, self).likelihood(o, m, e)
        return np.stack([(1 + np.outer(self.coef(o, self.ns[k]), m[:, 0])) / self.ns[k] for k in e['e']], 2)
    def score(self, o, m, e, return_L=False):
        cs = [self.coef(o, self.ns[k]) for k in e['e']]
        q = np.stack([k[:, None] / (1 + np.outer(k, m[:, 0])) for k in cs], 2)[None]
        return (q, self.likelihood(o, m, e)) if return_L else q


def e17c(c):
    for ns in ((2,), (70,), (300,), (2000,), (2, 70), (130, 3, 1000)):
        with c.case('edge fisher outcomes %s' % (ns,)):
            m = Ladder(list(ns))
            P = np.array([[0.0], [0.5], [-0.75], [0.99]])
            got = np.asarray(m.fisher_information(P, EP(*range(len(ns)))))
            want = np.zeros((1, 1, 4, len(ns)))
            for j, n in enumerate(ns):
                k = m.coef(np.arange(n), n)
                for i in range(4): want[0, 0, i, j] = math.fsum(k ** 2 / (1 + P[i, 0] * k) / n)
            c.ok(got.shape == want.shape and np.allclose(got, want, rtol=1e-9), 'Fisher information sums over all outcomes', got=got.ravel(), want=want.ravel())
            c.step(); c.trace(); c.state(ns)
