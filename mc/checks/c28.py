"""C28: posterior marginals, meshes, their plots and summaries."""
import itertools, math, re
import numpy as np
import qinfer as qi
from .. import zoo, core
from ..util import *
from . import c20

BOUNDS = ('All placements of one to four (thorough: five) particles on a five-point alphabet (coinciding, negative and far ones included) '
          'with every weight pattern, in one to three dimensions and every parameter index; resolutions 2 to 100 and unequal ones for '
          'meshes; six smoothing widths; sixteen requested ranges; histories of up to three data with and without resampling; plots and summaries of all of them.')
ASSUMPTIONS = ['particles that all share one value need a requested range', 'the kernel is cut off at four widths and reflected at the ends of the range']


class Plane(qi.FiniteOutcomeModel):
    def __init__(self, d):
        self._d = d
        super(Plane, self).__init__()
    n_modelparams = property(lambda s: s._d)
    modelparam_names = property(lambda s: ['alpha', 'beta_x', 'gamma'][:s._d])
    expparams_dtype = property(lambda s: [('e', int)])

    def n_outcomes(self, e): return 2

    def are_models_valid(self, m): return np.ones(len(m), dtype=bool)

    def likelihood(self, o, m, e):
        super(Plane, self).likelihood(o, m, e)
        pr0 = np.where(np.asarray(m)[:, :1] > 0.2, 0.7, 0.2) * np.ones((1, len(e)))
        return qi.FiniteOutcomeModel.pr0_to_likelihood_array(o, pr0)


def upd(rows, w):
    rows = np.array(rows, dtype=float)
    u = mk(Plane(rows.shape[1]), rows, weights=w, resample_thresh=0.0)
    return u


def cdf(xs, ws, q, first=True):
    """Cumulated weight, linear between particles, nothing below the first."""
    order = sorted(range(len(xs)), key=lambda i: xs[i])
    x = [float(xs[i]) for i in order]
    S = list(itertools.accumulate(float(ws[i]) for i in order))
    if q < x[0]: return 0.0
    if q >= x[-1]: return S[-1]
    k = max(i for i in range(len(x)) if x[i] <= q)
    return S[k] + (S[k + 1] - S[k]) * (q - x[k]) / (x[k + 1] - x[k])


def smooth(v, sigma):
    """Gaussian smoothing with reflection, written out."""
    n = len(v)
    r = int(4 * sigma + 0.5)
    k = [math.exp(-0.5 * (j / sigma) ** 2) for j in range(-r, r + 1)]
    t = math.fsum(k); k = [a / t for a in k]
    def at(i):
        i %= 2 * n
        return v[i] if i < n else v[2 * n - 1 - i]
    return [math.fsum(k[j + r] * at(i + j) for j in range(-r, r + 1)) for i in range(n)]


def marginal(xs, ws, res, sm, lo, hi):
    lo = min(xs) if lo is None else lo
    hi = max(xs) if hi is None else hi
    ps = [lo + (hi - lo) * k / (res - 1) for k in range(res)]
    ps[-1] = hi
    h = (hi - lo) / (res - 1)
    F = [cdf(xs, ws, q) for q in ps]
    pr = [(F[min(k + 1, res - 1)] - F[max(k - 1, 0)]) / (h * (min(k + 1, res - 1) - max(k - 1, 0))) for k in range(res)]
    if sm > 0: pr = smooth(pr, sm / h)
    return np.array(ps), np.array(pr), F


def judge_marginal(c, u, idx, res, sm, lo, hi):
    xs, ws = np.asarray(u.particle_locations)[:, idx].tolist(), np.asarray(u.particle_weights).tolist()
    before = snap(u)
    with core.quiet():
        got = u.posterior_marginal(idx_param=idx, res=res, smoothing=sm, range_min=lo, range_max=hi)
    c.ok(same_snap(before, snap(u)) is None, 'asking for a marginal changes the updater')
    if not c.ok(len(got) == 2 and np.shape(got[0]) == (res,) and np.shape(got[1]) == (res,), 'shape of the marginal', got=[np.shape(g) for g in got]): return None
    ps, pr, F = marginal(xs, ws, res, sm, lo, hi)
    c.eq(got[0], ps, 'points of the marginal', tol=1e-12)
    c.ok(bool(np.all(np.asarray(got[1]) >= -1e-9)), 'negative density', got=got[1])
    # jumps (a first particle or coinciding ones exactly on a grid point) may fall to either side by rounding
    c.eq(got[1], pr, 'density of the marginal', tol=1e-9, xs=xs, ws=ws, res=res, smoothing=sm, range=(lo, hi))
    g = np.asarray(got[1]); h = ps[1] - ps[0]
    if sm == 0:
        c.eq(h * (g[1:] + g[:-1]).sum() / 2, F[-1] - F[0], 'integral over the range', tol=1e-9)
    return got


RANGES = [(None, None), (-2.0, None), (None, 3.0), (-2.0, 3.0), (-0.3125, 0.6875), (0.3, 0.7), (-3.0, -2.5), (5.0, 6.0), (None, 0.8125), (-0.8125, None), (-40.0, 50.0), (0.26, 0.27), (0.0, 2.0), (-2.0, 0.0), (None, 0.0), (0.0, None)]
ALPH = [-1.0, 0.0, 0.25, 0.25001, 1.0]
RES = [2, 3, 8, 33, 100]
SM = [0, 0.05, 0.3]


def sc_marginal(part, of):
    def sc(c):
        k = 0
        for n in range(1, 6 if c.thorough else 5):
            for xs in itertools.combinations_with_replacement(ALPH, n):
                pats = weight_patterns(n, full=n <= 3 or c.thorough)
                for wi, w in enumerate(pats):
                    k += 1
                    if k % of != part: continue
                    # order of the particles must not matter
                    perm = list(range(n)); perm = perm[(k % n):] + perm[:k % n]; perm = perm[::-1] if k % 2 else perm
                    X = [[xs[i]] for i in perm]; W = [w[i] for i in perm]
                    with c.case('x=%s w=%s' % (xs, tuple(round(float(a), 3) for a in w))):
                        u = upd(X, W)
                        for ri, (lo, hi) in enumerate(RANGES):
                            a, b = (min(xs) if lo is None else lo), (max(xs) if hi is None else hi)
                            if a >= b: continue
                            for res in RES if (ri < 4 or c.thorough) else RES[(ri + k) % 2::2]:
                                # skip grids that meet a jump: first particle or coinciding particles, except at the very ends
                                grid = np.linspace(a, b, res)
                                jumps = [min(xs)] + [x for x in xs if xs.count(x) > 1]
                                if any(np.min(np.abs(grid[1:-1] - j)) < 1e-9 for j in jumps if res > 2): continue
                                for sm in SM:
                                    if sm and (sm / (b - a) * res > 400): continue
                                    judge_marginal(c, u, 0, res, sm, lo, hi)
                                    c.step(); c.state(xs, wi, ri, res, sm)
                        c.trace()
    return sc


def sc_index(c):
    """Every parameter of several-parameter posteriors; defaults; large sets."""
    pts = [(-1.0, 0.5), (0.3, -0.7), (0.31, 2.0), (1.0, 0.5), (0.0, 0.0)]
    for d in (1, 2, 3):
        for n in (2, 3, 4):
            for rows in itertools.combinations([p + (p[0] * p[1] + 0.1 * i,) for i, p in enumerate(pts)], n):
                X = [r[:d] for r in rows]
                for w in weight_patterns(n):
                    with c.case('d=%d %s' % (d, rows)):
                        u = upd(X, w)
                        for idx in range(-d, d):
                            if len(set(x[idx] for x in X)) < 2: continue
                            for res, sm in ((5, 0), (12, 0.2), (40, 0.1)):
                                xs = [x[idx] for x in X]
                                grid = np.linspace(min(xs), max(xs), res)
                                if any(np.min(np.abs(grid[1:-1] - x)) < 1e-9 for x in xs if xs.count(x) > 1): continue
                                judge_marginal(c, u, idx, res, sm, None, None)
                                c.step(); c.state(d, rows, idx, res)
                        # defaults
                        if len(set(x[0] for x in X)) > 1:
                            xs = [x[0] for x in X]
                            with core.quiet(): g = u.posterior_marginal()
                            ps, pr, _ = marginal(xs, w, 100, 0, None, None)
                            c.eq(g[0], ps, 'points by default'); c.eq(g[1], pr, 'density by default', tol=1e-8)
    for n in (50, 400):
        X = np.array([[math.sin(1.7 * i), math.cos(2.3 * i) * 5, (i * 0.6180339887) % 1.0] for i in range(n)])
        w = norm_w([1.0 + (i * 7 % 13) for i in range(n)])
        with c.case('n=%d' % n):
            u = upd(X, w)
            for idx in range(3):
                for res, sm in ((2, 0), (30, 0), (64, 0.05), (100, 0.4), (250, 0.01)):
                    for lo, hi in ((None, None), (-0.5, 0.5), (None, 0.123), (-7, None), (-50, 70)):
                        judge_marginal(c, u, idx, res, sm, lo, hi); c.step(); c.state(n, idx, res, lo)
    # scale and shift
    for sc, sh in ((1e-9, 0), (1e9, 0), (1e-3, 1e3), (-1, 0), (1, 1e5)):
        base = [-1.0, 0.0, 0.3, 1.1]; w = [0.1, 0.2, 0.3, 0.4]
        X = [[sc * x + sh] for x in base]
        with c.case('scale %g shift %g' % (sc, sh)):
            u = upd(X, w)
            for res in (5, 24):
                for sm in (0, 0.25):
                    with core.quiet(): g = u.posterior_marginal(0, res, sm * abs(sc))
                    lo, hi = min(x[0] for x in X), max(x[0] for x in X)
                    ps, pr, _ = marginal([x[0] for x in X], w, res, sm * abs(sc), None, None)
                    c.eq(np.asarray(g[1]) * abs(sc), pr * abs(sc), 'density of a scaled posterior', tol=1e-5)
                    c.step(); c.state(sc, res, sm)


def mesh(X, w, i, j, r1, r2, s):
    a = [x[i] for x in X]; b = [x[j] for x in X]
    g1 = np.linspace(min(a), max(a), r1); g2 = np.linspace(min(b), max(b), r2)
    P = np.zeros((r2, r1))
    for k2 in range(r2):
        for k1 in range(r1):
            P[k2, k1] = math.fsum(wk * math.exp(-0.5 * ((g1[k1] - ak) / s) ** 2 - 0.5 * ((g2[k2] - bk) / s) ** 2) for wk, ak, bk in zip(w, a, b)) / (2 * math.pi * s * s)
    return g1, g2, P


def judge_mesh(c, u, i, j, r1, r2, s):
    X, w = np.asarray(u.particle_locations).tolist(), np.asarray(u.particle_weights).tolist()
    before = snap(u)
    p1, p2, pr = u.posterior_mesh(i, j, r1, r2, s)
    c.ok(same_snap(before, snap(u)) is None, 'asking for a mesh changes the updater')
    if not c.ok(np.shape(p1) == np.shape(p2) == np.shape(pr) == (r2, r1), 'shape of the mesh', got=[np.shape(q) for q in (p1, p2, pr)], want=(r2, r1)): return None
    g1, g2, P = mesh(X, w, i, j, r1, r2, s)
    c.eq(p1, np.tile(g1, (r2, 1)), 'first parameter on the mesh', tol=1e-12)
    c.eq(p2, np.tile(g2[:, None], (1, r1)), 'second parameter on the mesh', tol=1e-12)
    c.eq(pr, P, 'density on the mesh', tol=1e-9 * (1 + np.abs(P).max()), i=i, j=j, res=(r1, r2), smoothing=s)
    # the other way round is the transpose
    q1, q2, qr = u.posterior_mesh(j, i, r2, r1, s)
    c.eq(q1, np.asarray(p2).T, 'mesh with parameters swapped', tol=1e-12)
    c.eq(qr, np.asarray(pr).T, 'density with parameters swapped', tol=1e-9 * (1 + np.abs(P).max()))
    return p1, p2, pr


def sc_mesh(part, of):
    def sc(c):
        pts = [(-1.0, 0.5, 2.0), (0.3, -0.7, 0.0), (0.31, 2.0, -1.0), (1.0, 0.5, 0.5)]
        k = 0
        for d in (2, 3):
            for n in (1, 2, 3, 4):
                for rows in itertools.product(pts, repeat=n) if n < 4 else itertools.permutations(pts):
                    k += 1
                    if k % of != part: continue
                    X = [r[:d] for r in rows]
                    for w in weight_patterns(n, full=n < 3):
                        with c.case('d=%d %s' % (d, rows)):
                            u = upd(X, w)
                            for i, j in itertools.product(range(d), repeat=2) if k % 7 == 0 else [(0, 1), (d - 1, 0)]:
                                for r1, r2 in ((2, 2), (3, 5), (5, 3), (1, 4), (7, 6)) if c.thorough or k % 5 == 0 else ((3, 5), (4, 4)):
                                    for s in (0.05, 0.5):
                                        judge_mesh(c, u, i, j, r1, r2, s); c.step(); c.state(d, rows, i, j, r1, r2, s)
                            c.trace()
    return sc


def sc_mesh_big(c):
    for n in (30, 200):
        X = np.array([[math.sin(1.7 * i), math.cos(2.3 * i) * 5, (i * 0.6180339887) % 1.0] for i in range(n)])
        w = norm_w([1.0 + (i * 7 % 13) for i in range(n)])
        with c.case('n=%d' % n):
            u = upd(X, w)
            for i, j in itertools.product(range(3), repeat=2):
                judge_mesh(c, u, i, j, 9, 14, 0.3); c.step(); c.state(n, i, j)
    # defaults
    with c.case('defaults'):
        u = upd([[0.0, 1.0, 5.0], [0.05, 1.02, 4.0], [0.1, 1.1, 3.0]], [0.2, 0.3, 0.5])
        p1, p2, pr = u.posterior_mesh()
        g1, g2, P = mesh(u.particle_locations.tolist(), [0.2, 0.3, 0.5], 0, 1, 100, 100, 0.01)
        c.eq(p1[0], g1, 'mesh by default'); c.eq(p2[:, 0], g2, 'mesh by default'); c.eq(pr, P, 'density by default', tol=1e-6)
        c.step()
    # integrating out one parameter (well inside the mesh): outer particles of no weight make room
    for s in (0.3, 0.6):
        for rows in ([(-0.5, 0.4), (0.2, -0.3)], [(0.0, 0.0), (0.5, 1.0)]):
            for w in ([0.5, 0.5], [0.9, 0.1]):
                with c.case('integral %s %s %s' % (rows, w, s)):
                    X = list(rows) + [(-6.0, -6.0), (6.0, 6.0)]
                    u = upd(X, list(w) + [0.0, 0.0])
                    p1, p2, pr = u.posterior_mesh(0, 1, 121, 91, s)
                    h1, h2 = p1[0, 1] - p1[0, 0], p2[1, 0] - p2[0, 0]
                    c.eq(np.sum(pr) * h1 * h2, 1.0, 'total weight on a wide mesh', tol=1e-3)
                    for ax, col, g in ((0, 0, p1[0]), (1, 1, p2[:, 0])):
                        one = np.sum(pr, axis=ax) * (h2 if ax == 0 else h1)
                        want = [sum(wk * math.exp(-0.5 * ((q - r[col]) / s) ** 2) / math.sqrt(2 * math.pi) / s for wk, r in zip(w, rows)) for q in g]
                        c.eq(one, want, 'one parameter integrated out', tol=1e-3)
                    mu = [np.sum(pr * p) * h1 * h2 for p in (p1, p2)]
                    c.eq(mu, u.est_mean(), 'mean of the mesh density', tol=1e-2)
                    cov = np.sum(pr * (p1 - mu[0]) * (p2 - mu[1])) * h1 * h2
                    c.eq(cov, u.est_covariance_mtx()[0, 1], 'covariance of the mesh density', tol=1e-2)
                    c.step(); c.state(rows, w, s)


def sc_history(c):
    """After any history the marginal is that of the current particles."""
    for d in (1, 2):
        for th in (0.0, 1.1):
            for L in range(0, 4):
                for outs in itertools.product((0, 1), repeat=L):
                    for seed in (1, 2, 5):
                        with c.case('history d=%d thresh=%s %s' % (d, th, outs)):
                            with core.quiet(), core.controlled(core.cycle_stream(seed, n_u=64)):
                                prior = qi.UniformDistribution([[-1, 1], [0, 2]][:d])
                                u = qi.SMCUpdater(Plane(d), 7, prior, resample_thresh=th, resampler=qi.LiuWestResampler(0.9))
                                for o in outs: u.update(o, np.array([(0,)], dtype=[('e', int)]))
                            xs = np.asarray(u.particle_locations)
                            for idx in range(d):
                                if len(set(xs[:, idx])) == 7:
                                    judge_marginal(c, u, idx, 13, 0, None, None)
                                    judge_marginal(c, u, idx, 30, 0.1, -1.5, 1.6)
                            if d == 2: judge_mesh(c, u, 0, 1, 4, 5, 0.2)
                            c.step(L + 1); c.trace(); c.state(d, th, outs, seed)


def sc_plots(c):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    sets = [([[0.1, 1.0, 5.0], [0.4, -1.0, 4.0], [0.9, 0.3, 3.0]], [0.2, 0.3, 0.5]), ([[0.0, 0.0, 1.0], [1.0, 2.0, 3.0]], [0.5, 0.5])]
    for X, w in sets:
        u = upd(X, w)
        for idx in range(3):
            for res, sm, lo, hi in ((11, 0, None, None), (20, 0.1, -1.03, 5.57)):
                for label in (True, False):
                    for truth in (None, np.array([0.3, 0.7, 4.2]), np.array([[0.2, 0.6, 3.3]])):
                        with c.case('plot %s idx=%d' % (X, idx)):
                            plt.close('all')
                            fig = plt.figure()
                            r = u.plot_posterior_marginal(idx, res, sm, lo, hi, label_xaxis=label, other_plot_args=dict(color='r', linewidth=3), true_model=truth)
                            ax = fig.gca()
                            want = u.posterior_marginal(idx, res, sm, lo, hi)
                            if c.ok(len(ax.lines) == 1, 'one curve'):
                                c.eq(ax.lines[0].get_xdata(), want[0], 'abscissae of the curve'); c.eq(ax.lines[0].get_ydata(), want[1], 'ordinates of the curve')
                                c.ok(ax.lines[0].get_color() == 'r' and ax.lines[0].get_linewidth() == 3, 'plot arguments')
                                c.ok(ax.lines[0] is r[0], 'what is returned')
                            c.ok(ax.get_xlabel() == ('$%s$' % ['alpha', 'beta_x', 'gamma'][idx] if label else ''), 'label', got=ax.get_xlabel())
                            segs = [s for col in ax.collections for s in col.get_segments()]
                            if truth is None: c.ok(not segs, 'no line for a true model')
                            else:
                                c.ok(len(segs) == 1 and np.allclose(segs[0][:, 0], np.ravel(truth)[idx]), 'line at the true model', got=segs)
                                y0, y1 = ax.get_ylim()
                                c.ok(y0 <= min(want[1]) and y1 >= max(want[1]), 'curve in view')
                            c.step(); c.state(idx, res, label, truth is None)
        for i, j in ((0, 1), (1, 0), (2, 0), (1, 2)):
            with c.case('contour %d %d' % (i, j)):
                plt.close('all'); plt.figure()
                keep = plt.contour
                seen = []
                try:
                    plt.contour = lambda *a, **kw: seen.append((a, kw)) or keep(*a, **kw)
                    cs = u.plot_posterior_contour(i, j, 6, 9, 0.4)
                finally:
                    plt.contour = keep
                want = u.posterior_mesh(i, j, 6, 9, 0.4)
                if seen:
                    for a, b in zip(seen[0][0], want): c.eq(a, b, 'what the contours are drawn from')
                c.ok(cs is not None and cs.zmax is not None and abs(cs.zmax - np.max(want[2])) < 1e-9, 'contours of the density')
                xs = np.concatenate([p for lv in cs.allsegs for p in lv if len(p)])
                c.ok(xs[:, 0].min() >= want[0].min() - 1e-9 and xs[:, 0].max() <= want[0].max() + 1e-9, 'contours within the first parameter')
                c.ok(xs[:, 1].min() >= want[1].min() - 1e-9 and xs[:, 1].max() <= want[1].max() + 1e-9, 'contours within the second parameter')
                c.step(); c.state('contour', i, j)
        plt.close('all')


class Outer(qi.FiniteOutcomeModel): pass


def sc_summary(c):
    """The HTML summary shows the model, each parameter with its estimate, and the resample count."""
    vals = [([[0.1, 1.0, 5.0], [0.4, -1.0, 4.0], [0.9, 0.3, 3.0]], [0.2, 0.3, 0.5]), ([[1e3, 1e-4, -2.0], [1.1e3, 3e-4, -2.0]], [0.5, 0.5]), ([[2e7, 0.0, 1.0]], [1.0])]
    num = r'[-+]?\d+(?:\.\d+)?'
    for X, w in vals:
        for d in (1, 2, 3):
            for wrap in (0, 1, 2):
                for nres in (0, 1, 2):
                    with c.case('summary %s d=%d wrap=%d' % (X, d, wrap)):
                        m = Plane(d)
                        names = list(m.modelparam_names)
                        chain = ['Plane']
                        for k in range(wrap):
                            m = qi.PoisonedModel(m, tol=0.01) if k else qi.BinomialModel(m)
                            chain.insert(0, type(m).__name__)
                        u = mk(m, [x[:d] for x in X], weights=w, resample_thresh=0.0, resampler=RotResampler())
                        for _ in range(nres): u.resample()
                        w2, X2 = np.asarray(u.particle_weights), np.asarray(u.particle_locations)
                        h = u._repr_html_()
                        for nm in chain: c.ok(nm in h, 'name of the model', name=nm)
                        c.ok('SMCUpdater' in h, 'name of the updater')
                        cells = re.findall(r'<td>\$(.*?)\$</td>', h)
                        if not c.ok(len(cells) == 2 * d, 'a name and a value for each parameter', got=cells): continue
                        c.ok(cells[:d] == names, 'names', got=cells)
                        mu = w2 @ X2; sd = np.sqrt(np.clip(w2 @ X2 ** 2 - mu ** 2, 0, None))
                        for k in range(d):
                            t = cells[d + k]
                            e = re.search(r'\\times 10\^\{?([-+]?\d+)\}?', t)
                            p = 10.0 ** int(e.group(1)) if e else 1.0
                            q = re.findall(num, t.split(r'\times')[0])
                            v = float(q[0]) * p
                            dig = len(q[0].split('.')[1]) if '.' in q[0] else 0
                            c.ok(abs(v - mu[k]) <= 0.51 * 10.0 ** -dig * p + 1e-12, 'estimate shown', got=t, want=mu[k])
                            if len(q) > 1:
                                c.ok(abs(float(q[1]) * p - sd[k]) <= 0.51 * 10.0 ** -dig * p + 1e-12, 'uncertainty shown', got=t, want=sd[k])
                            else: c.ok(sd[k] < 1e-6, 'uncertainty missing', got=t, want=sd[k])
                        mm = re.search(r'Resample count:</em>\s*(\d+)', h)
                        c.ok(mm and int(mm.group(1)) == u.resample_count == nres, 'resample count', got=mm and mm.group(1), want=nres)
                        c.step(); c.state(d, wrap, nres)


SCENARIOS = [('marginal%d' % k, sc_marginal(k, 3)) for k in range(3)] + [('index', sc_index)] + [('mesh%d' % k, sc_mesh(k, 3)) for k in range(3)] + \
            [('mesh_big', sc_mesh_big), ('history', sc_history), ('plots', sc_plots), ('summary', sc_summary)]

from . import bulk  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b28)]

from . import edge  # noqa: E402
BOUNDS += ' Edge configurations: unusual scales and sizes, almost equal or vanishing numbers, reused arrays.'
SCENARIOS = SCENARIOS + [('edge', edge.e28)]

from . import forms  # noqa: E402
BOUNDS += ' Arguments of equal values in every memory layout: column-major, strided, reversed, padded, read-only, broadcast, smaller integers.'
SCENARIOS = SCENARIOS + forms.fscenario(lambda: forms.clouds(('marginal',)))
