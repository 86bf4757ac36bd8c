"""C05: Liu-West resampling keeps the posterior moments and only valid particles."""
import itertools, warnings, math
import numpy as np
import qinfer as qi
from qinfer._exceptions import ResamplerWarning
from .. import zoo, core, rng
from ..util import *

BOUNDS = ('Complete law of the real resampler over every index draw (uniform grid fitting the dyadic weights), every '
          'noise draw (two-point rule reproducing mean and covariance) and every redraw up to 3 attempts, for 1-3 '
          'particles in, 1-3 out, 1-2 parameters, 5 values of a, h overrides, parameter scales from 1e-6 to 1e4 and parameters without spread and validity regions; extreme answers of '
          'the uniform source; scripted larger sets (up to 200 particles, 4 parameters).')
ASSUMPTIONS = ['normal noise is represented by a two-point quadrature, exact for first and second moments',
               'any matrix root S with S S^T equal to the covariance is accepted']


class Region(zoo.TableModel):
    """All parameters valid within [lo, hi] (per first parameter) apart from a hole."""
    def __init__(self, lo=-1e9, hi=1e9, d=1):
        self.lo, self.hi = lo, hi
        zoo.TableModel.__init__(self, zoo.TABLE3, [3, 3], n_params=d)

    def are_models_valid(self, m):
        return np.all((m >= self.lo) & (m <= self.hi), axis=1)


def dist(x, w):
    x = np.array(x, dtype=float)
    if x.ndim == 1:
        x = x[:, None]
    return qi.ParticleDistribution(particle_locations=x, particle_weights=np.array(w, dtype=float))


def moments(x, w):
    x = np.array(x, dtype=float)
    if x.ndim == 1:
        x = x[:, None]
    mu = [math.fsum(wi * r[k] for wi, r in zip(w, x)) for k in range(x.shape[1])]
    d = x.shape[1]
    cov = np.zeros((d, d))
    for a in range(d):
        for b in range(d):
            cov[a, b] = math.fsum(wi * (r[a] - mu[a]) * (r[b] - mu[b]) for wi, r in zip(w, x))
    return np.array(mu), cov


CASES1 = [([0.0, 1.0], [0.5, 0.5], 4), ([1.0, 3.0], [0.25, 0.75], 4), ([2.0, -1.0, 0.5], [0.5, 0.25, 0.25], 4),
          ([0.3, 5.0, 7.0], [0.0, 0.5, 0.5], 4), ([4.0, 1.0, 2.0], [0.125, 0.0, 0.875], 8), ([-1.0, -2.0, -4.0], [0.25, 0.75, 0.0], 4)]


def marg_prod_check(c, law, single, n):
    """law: canonical arrays -> [p, res]; single: list of (point, prob) 1-D.  Joint law must be the product."""
    keys = sorted(single)
    pts = np.array(keys)
    got = {}
    for p, res in law.values():
        ix = []
        for v in np.asarray(res[1]).reshape(-1):
            j = int(np.argmin(np.abs(pts - v)))
            if abs(pts[j] - v) > 1e-6 * (1 + abs(v)):
                c.fail('new particle %r is not a shrunk old particle plus scaled noise' % v, support=pts)
                return
            ix.append(j)
        got[tuple(ix)] = got.get(tuple(ix), 0) + p
    for ix in itertools.product(range(len(keys)), repeat=n):
        w = 1.0
        for j in ix:
            w *= single[keys[j]]
        if not c.ok(abs(got.get(ix, 0) - w) < 1e-9, 'probability of new particles', at=[keys[j] for j in ix], got=got.get(ix, 0), want=w):
            return


def call(rs, model, d, n=None, scale=1.0, **kw):
    def f():
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            r = rs(model, d, n_particles=n, **kw)
        return (np.array(r.particle_weights), np.array(r.particle_locations) / scale,
                sum(1 for x in rec if issubclass(x.category, ResamplerWarning)))
    return f


def merge(dct, v, p):
    for k in dct:
        if abs(k - v) < 1e-9:
            dct[k] += p
            return
    dct[v] = p


def s_law1(c):
    for (x, w, N), a, nout in itertools.product(CASES1, (0.98, 0.0, 0.5, 1.0, 0.6), (1, 2, 3, None)):
        n = nout or len(x)
        if n == 3 and N > 4 and not c.thorough:
            continue
        for h in (None, 0.0, 2.0):
            if h is not None and (n == 3 or a in (0.0, 0.6)):
                continue
            with c.case('law1 x=%s w=%s a=%g h=%s n=%s' % (x, w, a, h, nout)):
                mu, cov = moments(x, w)
                hh = math.sqrt(1 - a * a) if h is None else h
                s = hh * math.sqrt(cov[0, 0])
                law = c.law(call(qi.LiuWestResampler(a=a, h=h), Region(), dist(x, w), nout), n_u=N)
                single = {}
                for xi, wi in zip(x, w):
                    if wi > 0:
                        for z in (-1, 1):
                            merge(single, a * xi + (1 - a) * mu[0] + s * z, wi / 2)
                e1, e2 = 0.0, 0.0
                for p, (nw, nx, warn) in law.values():
                    c.eq(nw, np.ones(n) / n, 'uniform weights')
                    c.ok(nx.shape == (n, 1), 'shape')
                    c.ok(warn == 0, 'no warning')
                    e1 += p * nx.mean(); e2 += p * (nx[:, 0] ** 2).mean()
                c.eq(e1, mu[0], 'expected location is the weighted mean')
                if h is None:
                    c.eq(e2 - e1 ** 2, cov[0, 0], 'covariance is the weighted covariance')
                marg_prod_check(c, law, single, n)
    c.sample('last law has %d distinct particle sets' % len(law))


CASES2 = [([(0.0, 0.0), (1.0, 3.0), (2.0, -1.0)], [0.5, 0.25, 0.25]), ([(0.1, 7.0), (1.3, 3.0), (5.0, -1.0), (2.0, 2.0)], [0.25, 0.25, 0.0, 0.5]),
          ([(0.0, 1.0), (4.0, 3.0), (1.0, -1.0)], [0.25, 0.25, 0.5])]


def s_law2(c):
    for (x, w), a, n in itertools.product(CASES2, (0.98, 0.5, 0.9), (1, 2)):
        with c.case('law2 x=%s w=%s a=%g n=%s' % (x, w, a, n)):
            X = np.array(x)
            mu, cov = moments(x, w)
            h2 = 1 - a * a
            inv = np.linalg.inv(h2 * cov)
            law = c.law(call(qi.LiuWestResampler(a=a), Region(d=2), dist(x, w), n), n_u=4)
            J, E = {}, np.zeros(2)
            EE = np.zeros((2, 2))
            R = {}
            for p, (nw, nx, warn) in law.values():
                c.eq(nw, np.ones(n) / n, 'uniform weights')
                E += p * nx.mean(axis=0)
                EE += p * np.einsum('ni,nj->ij', nx, nx) / n
                cand = []
                for row in nx:
                    ok = []
                    for j in range(len(x)):
                        r = row - a * X[j] - (1 - a) * mu
                        if w[j] > 0 and abs(r.dot(inv).dot(r) - 2) < 1e-6:
                            ok.append((j, r))
                    cand.append(ok)
                if any(not k for k in cand):
                    c.fail('new particle is not a shrunk old particle plus scaled noise', got=nx)
                    break
                if all(len(k) == 1 for k in cand):
                    js = tuple(k[0][0] for k in cand)
                    J[js] = J.get(js, 0) + p
                    R.setdefault(js, []).append((p, np.concatenate([k[0][1] for k in cand])))
            c.eq(E, mu, 'expected location is the weighted mean')
            c.eq(EE - np.outer(E, E), cov, 'covariance is the weighted covariance')
            tot = sum(J.values())
            if tot > 1 - 1e-9:
                for js in itertools.product(range(len(x)), repeat=n):
                    want = np.prod([w[j] for j in js])
                    c.eq(J.get(js, 0.0), want, 'probability of the chosen particles %s' % (js,))
                    if want > 0:
                        P = np.array([q for q, _ in R[js]]); V = np.array([v for _, v in R[js]])
                        c.eq((P[:, None] * V).sum(0) / P.sum(), np.zeros(2 * n), 'noise has mean zero')
                        c.eq(np.einsum('k,ki,kj->ij', P, V, V) / P.sum(), np.kron(np.eye(n), h2 * cov), 'noise covariance, independent between particles')


def s_scales(c):
    """Parameters of any scale, alone or together: everything is as in units of order one."""
    for (x, w, N), a, sc in itertools.product(CASES1, (0.98, 0.5), (1e-6, 1e-4, 1e4)):
        with c.case('scales x=%s w=%s a=%g scale=%g' % (x, w, a, sc)):
            mu, cov = moments(x, w)
            s = math.sqrt(1 - a * a) * math.sqrt(cov[0, 0])
            law = c.law(call(qi.LiuWestResampler(a=a), Region(), dist(np.array(x) * sc, w), 2, scale=sc), n_u=N, digits=7)
            single = {}
            for xi, wi in zip(x, w):
                if wi > 0:
                    for z in (-1, 1):
                        merge(single, a * xi + (1 - a) * mu[0] + s * z, wi / 2)
            for p, (nw, nx, warn) in law.values():
                c.ok(warn == 0, 'no warning')
            marg_prod_check(c, law, single, 2)
    # several parameters: scales of their own, and one or all but one parameter without any spread
    for (x, w), a, sc in itertools.product(CASES2, (0.98, 0.5), ((1.0, 1e-5), (1e-4, 1e-4), (1e-3, 1e2), (1.0, 0.0), (0.0, 1e-3), (1e-6, 0.0), (1e-2, 1e-2), (1.0, 1e-3))):
        for shift in ((0.0, 0.0), (0.5, 0.0), (0.0, 0.25)):
            if any(t and 0 < q < 1e-2 for t, q in zip(shift, sc)):
                continue
            with c.case('scales x=%s w=%s a=%g scale=%s shift=%s' % (x, w, a, sc, shift)):
                X = np.array(x) * np.array(sc) + np.array(shift)
                unit = np.array([q or 1e-3 for q in sc])
                mu, cov = moments(np.array(x) * np.array([1.0 if q else 0.0 for q in sc]), w)
                law = c.law(call(qi.LiuWestResampler(a=a), Region(d=2), dist(X, w), 1, scale=unit), n_u=4, digits=7)
                E, EE = np.zeros(2), np.zeros((2, 2))
                for p, (nw, nx, warn) in law.values():
                    c.ok(warn == 0, 'no warning')
                    nx = nx - np.array(shift) / unit
                    E += p * nx[0]; EE += p * np.outer(nx[0], nx[0])
                c.eq(E, mu, 'expected location is the weighted mean', tol=1e-6)
                c.eq(EE - np.outer(E, E), cov, 'covariance is the weighted covariance', tol=1e-5)


def s_redraw(c):
    regs = [(-10, 10), (-0.05, 10), (0.2, 1.8), (0.9, 1.1), (5, 6), (-10, 0.5)]
    for (x, w, N), a, reg, mi, n in itertools.product(
            [([0.0, 1.0], [0.5, 0.5], 4), ([0.0, 1.0, 2.0], [0.25, 0.25, 0.5], 4), ([0.0, 1.0, 1.5], [0.5, 0.0, 0.5], 2)],
            (0.98, 0.6), regs, (1, 2, 3), (1, 2, 3)):
        if n == 3 and mi == 3 and not c.thorough and N == 4:
            continue
        with c.case('redraw x=%s w=%s a=%g valid=%s maxiter=%d n=%d' % (x, w, a, reg, mi, n)):
            mu, cov = moments(x, w)
            s = math.sqrt(1 - a * a) * math.sqrt(cov[0, 0])
            ok = lambda v: reg[0] <= v <= reg[1]
            single = {}
            for xi, wi in zip(x, w):
                if wi == 0:
                    continue
                pts = [a * xi + (1 - a) * mu[0] + s * z for z in (-1, 1)]
                q = sum(0.5 for v in pts if not ok(v))
                for v in pts:
                    merge(single, v, wi * 0.5 * (sum(q ** k for k in range(mi)) if ok(v) else q ** (mi - 1)))
            law = c.law(call(qi.LiuWestResampler(a=a, maxiter=mi), Region(*reg), dist(x, w), n), n_u=N)
            for p, (nw, nx, warn) in law.values():
                bad = [v for v in nx[:, 0] if not ok(v)]
                c.ok((warn > 0) == bool(bad), 'a warning iff invalid particles are left', got=nx, warn=warn)
                c.eq(nw, np.ones(n) / n, 'uniform weights')
            marg_prod_check(c, law, single, n)
    # postselection off: invalid particles kept, nothing redrawn
    with c.case('postselect off'):
        x, w = [0.0, 1.0], [0.5, 0.5]
        mu, cov = moments(x, w)
        single = {}
        for xi in x:
            for z in (-1, 1):
                merge(single, 0.6 * xi + 0.4 * 0.5 + 0.8 * 0.5 * z, 0.25)
        law = c.law(call(qi.LiuWestResampler(a=0.6, postselect=False), Region(5, 6), dist(x, w), 2), n_u=4)
        marg_prod_check(c, law, single, 2)


def s_redraw2(c):
    """Two parameters with redraws: the noise of a redrawn particle is its own."""
    x, w, a = [(0.0, 0.0), (4.0, 1.0)], [0.5, 0.5], 0.9
    x3, w3 = [(0.0, 0.0), (4.0, 1.0), (1.0, 3.0)], [0.25, 0.25, 0.5]
    for X, W in ((x3, w3),):
        mu, cov = moments(X, W)
        inv = np.linalg.inv((1 - a * a) * cov)
        for lo, mi in itertools.product((-0.2, 0.1, -5.0), (1, 2, 3)):
            with c.case('redraw2 lo=%g maxiter=%d' % (lo, mi)):
                m = Region(lo, 1e9, d=2)
                law = c.law(call(qi.LiuWestResampler(a=a, maxiter=mi), m, dist(X, W), 2 if mi < 3 else 1), n_u=4)
                J = {}
                for p, (nw, nx, warn) in law.values():
                    js = []
                    for row in nx:
                        k = [j for j in range(3) if abs((row - a * np.array(X[j]) - (1 - a) * mu).dot(inv).dot(row - a * np.array(X[j]) - (1 - a) * mu) - 2) < 1e-6]
                        js.append(k)
                    if not all(len(k) >= 1 for k in js):
                        c.fail('redrawn particle is not around an old one', got=nx)
                        break
                    if all(len(k) == 1 for k in js):
                        t = tuple(k[0] for k in js)
                        J[t] = J.get(t, 0) + p
                    c.ok(bool(warn) == (not np.all(nx >= lo)), 'warning iff invalid')
                if sum(J.values()) > 1 - 1e-9:
                    for t in itertools.product(range(3), repeat=len(js)):
                        c.eq(J.get(t, 0.0), float(np.prod([W[j] for j in t])), 'chosen particles keep their probability %s' % (t,))


def s_edges(c):
    """Extreme answers of the uniform source never select a weightless particle; rounding of weights."""
    eps = 1 - 2.0 ** -53
    wsets = [([0.1] * 10 + [0.0], 'trailing zero'), ([0.0] + [0.1] * 10, 'leading zero'), ([1 / 3.0] * 3 + [0.0, 0.0], 'thirds'),
             ([0.0, 1.0, 0.0], 'single'), ([0.7, 0.1, 0.1, 0.1, 0.0], 'sevenths'), ([0.0, 0.0, 0.2, 0.0, 0.8, 0.0], 'gaps'), ([1.0], 'one'),
             ([1 / 49.0] * 49 + [0.0], '49ths'), ([0.3, 0.3, 0.4 - 1e-12, 1e-12, 0.0], 'tiny last')]
    for w, nm in wsets:
        x = [float(i * i + 1) for i in range(len(w))]
        for a, h in ((1.0, 0.0),):
            with c.case('edges %s' % nm):
                good = [v for v, wi in zip(x, w) if wi > 0]
                for res, p, ch in c.explore(call(qi.LiuWestResampler(a=a, h=h), Region(), dist(x, w), 2),
                                            ugrid=[0.0, 1e-300, 0.05, 0.5, 0.95, eps - 2.0 ** -52, eps], zgrid=((0.0, 1.0),)):
                    for v in res[1][:, 0]:
                        c.ok(min(abs(v - g) for g in good) < 1e-9, 'a weightless particle was selected', got=v)
                    c.state(nm, res[1])
                # raw weights set on an updater, not renormalised
                m = Region()
                u = mk(m, x, w, resampler=qi.LiuWestResampler(a=a, h=h), resample_thresh=0.0, canonicalize=False)
                def f():
                    u.particle_locations = np.array(x)[:, None]
                    u.particle_weights = np.array(w)
                    u.resample()
                    return np.array(u.particle_locations)
                for res, p, ch in core.explore(f, ugrid=[0.0, eps], zgrid=((0.0, 1.0),), dev_bound=2):
                    if isinstance(res, core.Raised):
                        c.fail('resampling failed %r' % res)
                        break
                    c.step(); c.trace()
                    for v in res[:, 0]:
                        c.ok(min(abs(v - g) for g in good) < 1e-9, 'a weightless particle was selected', got=v)
    # degenerate covariance: warned about and separated by zero_cov_comp
    for comp in (1e-10, 0.25):
        for d in (1, 2):
            with c.case('zero covariance comp=%g d=%d' % (comp, d)):
                x = [[2.0] * d] * 3
                law = c.law(call(qi.LiuWestResampler(a=0.6, zero_cov_comp=comp), Region(d=d), dist(x, [0.25, 0.5, 0.25]), 1), n_u=4, digits=14)
                E = sum(p * r[1][0] for p, r in law.values())
                V = sum(p * np.outer(r[1][0] - 2.0, r[1][0] - 2.0) for p, r in law.values())
                c.eq(E, np.array([2.0] * d), 'mean')
                c.eq(V / (0.64 * comp), np.eye(d), 'covariance added', tol=1e-4)
                c.ok(all(r[2] > 0 for p, r in law.values()), 'zero covariance is warned about')


class Sweep(core.cycle_stream):
    """Uniform answers sweep the n cells in order (each cell once); normals cycle."""
    def __init__(self, n, stride=1):
        core.cycle_stream.__init__(self, 1)
        self.ugrid = core.midpoints(n)
        self.nu = 0
        self.n, self.stride = n, stride

    def choose(self, n, weights=None, kind=''):
        if kind == 'u':
            self.nu += 1
            return ((self.nu - 1) * self.stride) % self.n
        return core.cycle_stream.choose(self, n, weights, kind)


def s_large(c):
    r = np.random.RandomState(11)
    for n, d, nout in ((64, 1, 64), (128, 3, 128), (200, 4, 100), (100, 2, 200), (30, 3, 1), (150, 2, 150)):
        for a, lim in itertools.product((0.98, 0.9, 1.0), (None, 1.3)):
            with c.case('large n=%d d=%d out=%d a=%g lim=%s' % (n, d, nout, a, lim)):
                X = r.randn(n, d)
                if lim:
                    X = np.clip(X, -lim + 0.05, lim - 0.05)
                k = r.multinomial(nout, [0 if i % 5 == 0 else 1.0 / (n - (n + 4) // 5) for i in range(n)])
                w = k / float(nout)
                mu, cov = moments(X, w)
                h2 = 1 - a * a
                st = Sweep(nout, 1)
                norms = sorted(set(round(sum(t), 9) for t in itertools.combinations_with_replacement([z * z for z, _ in st.zgrid], d)))
                m = Region(-lim, lim, d=d) if lim else Region(d=d)
                h = None if a < 1 else 0.0
                with core.controlled(st):
                    with warnings.catch_warnings(record=True) as rec:
                        warnings.simplefilter('always')
                        res = qi.LiuWestResampler(a=a, h=h)(m, dist(X, w), n_particles=nout)
                c.step(nout); c.trace()
                nx = res.particle_locations
                c.eq(res.particle_weights, np.ones(nout) / nout, 'uniform weights')
                c.ok(nx.shape == (nout, d), 'shape')
                if lim and not any(issubclass(x.category, ResamplerWarning) for x in rec):
                    c.ok(np.all(np.abs(nx) <= lim), 'invalid particles')
                pos = np.nonzero(w > 0)[0]
                if a == 1.0:
                    cnt = [int(np.sum(np.all(np.abs(nx - X[j]) < 1e-9, axis=1))) for j in range(n)]
                    # identical rows may coincide after clipping; compare by row value
                    for j in pos:
                        want = sum(k[i] for i in range(n) if np.allclose(X[i], X[j]))
                        c.ok(cnt[j] == want, 'a sweep of the uniform cells draws each particle by its weight', got=cnt[j], want=want)
                elif nout > d + 1 and np.linalg.matrix_rank(cov) == d:
                    inv = np.linalg.inv(h2 * cov)
                    for row in nx:
                        R = row - a * X[pos] - (1 - a) * mu
                        q = np.einsum('ni,ij,nj->n', R, inv, R)
                        c.ok(any(min(abs(q - t)) < 1e-5 * (1 + t) for t in norms), 'particle is not a shrunk old one plus scaled noise', got=row)
                c.state(n, d, a, nx)


def s_options(c):
    """Precomputed moments, custom kernel, settings; the updater's own resampling."""
    x, w = [0.0, 1.0, 3.0], [0.25, 0.5, 0.25]
    for mean, cov, a in itertools.product((None, [7.0]), (None, [[4.0]]), (0.6, 0.98)):
        with c.case('precomputed mean=%s cov=%s a=%g' % (mean, cov, a)):
            mu, cv = moments(x, w)
            m0 = mu[0] if mean is None else mean[0]
            s = math.sqrt(1 - a * a) * math.sqrt(cv[0, 0] if cov is None else 4.0)
            single = {}
            for xi, wi in zip(x, w):
                for z in (-1, 1):
                    merge(single, a * xi + (1 - a) * m0 + s * z, wi / 2)
            law = c.law(call(qi.LiuWestResampler(a=a), Region(), dist(x, w), 2,
                             precomputed_mean=None if mean is None else np.array(mean),
                             precomputed_cov=None if cov is None else np.array(cov)), n_u=4)
            marg_prod_check(c, law, single, 2)
    with c.case('kernel'):
        shapes = []
        def ker(*sh):
            shapes.append(sh)
            return np.array([3.0, -0.5, 0.25, 1.0][:int(np.prod(sh))]).reshape(sh)
        mu, cv = moments(x, w)
        law = c.law(call(qi.LiuWestResampler(a=0.6, kernel=ker), Region(), dist(x, w), 1), n_u=4)
        single = {}
        for xi, wi in zip(x, w):
            merge(single, 0.6 * xi + 0.4 * mu[0] + 0.8 * math.sqrt(cv[0, 0]) * 3.0, wi)
        marg_prod_check(c, law, single, 1)
        c.ok(len(shapes) > 0, 'given kernel is used')
    with c.case('settings'):
        rs = qi.LiuWestResampler(a=0.6)
        rs.a = 0.8
        mu, cv = moments(x, w)
        law = c.law(call(rs, Region(), dist(x, w), 1), n_u=4)
        single = {}
        for xi, wi in zip(x, w):
            for z in (-1, 1):
                merge(single, 0.8 * xi + 0.2 * mu[0] + 0.6 * math.sqrt(cv[0, 0]) * z, wi / 2)
        marg_prod_check(c, law, single, 1)
    for dn, n in itertools.product((None, 1, 5), (None, 2)):
        with c.case('default_n %s %s' % (dn, n)):
            with core.controlled(core.cycle_stream(3)):
                r = qi.LiuWestResampler(default_n_particles=dn)(Region(), dist(x, w), n_particles=n)
            want = n or dn or 3
            c.ok(r.particle_locations.shape == (want, 1), 'number of particles', got=r.particle_locations.shape)
            c.eq(r.particle_weights, np.ones(want) / want, 'weights')
    # through the updater, with canonical form
    from .c01 import FoldModel
    with c.case('updater'):
        class F(FoldModel):
            pass
        for can in (True, False):
            u = mk(F(zoo.TABLE2, [2, 2, 2]), [0.0, 1.0], [0.5, 0.5], resampler=qi.LiuWestResampler(a=0.6), resample_thresh=0.0, canonicalize=can)
            def f():
                u.particle_locations = np.array([[0.0], [1.0]]); u.particle_weights = np.array([0.5, 0.5])
                u.resample()
                return (np.array(u.particle_weights), np.array(u.particle_locations))
            law = c.law(f, n_u=4)
            single = {}
            for xi in (0.0, 1.0):
                for z in (-1, 1):
                    v = 0.6 * xi + 0.2 + 0.4 * z
                    merge(single, abs(v) if can else v, 0.25)
            marg_prod_check(c, law, single, 2)


SCENARIOS = [('law1', s_law1), ('law2', s_law2), ('scales', s_scales), ('redraw', s_redraw), ('redraw2', s_redraw2), ('edges', s_edges), ('large', s_large), ('options', s_options)]

from . import bulk, edge  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b05)]
BOUNDS += ' Edge configurations: parameter scales from 1e-12 to 1e9, deep retries, objects used before, very many shots, engines, rows or clusters.'
SCENARIOS = SCENARIOS + [('edge', edge.e05)]

from . import edge2  # noqa: E402
BOUNDS += ' Further edge configurations: long histories, answers at cell boundaries, near ties, numbers of many digits.'
SCENARIOS = SCENARIOS + [('edge2', edge2.f05)]

from . import forms  # noqa: E402
BOUNDS += ' Arguments of equal values in every memory layout: column-major, strided, reversed, padded, read-only, broadcast, smaller integers.'
SCENARIOS = SCENARIOS + forms.fscenario(lambda: list(forms.resampling()))
