"""C14: credible regions."""
import itertools, math
from fractions import Fraction as Fr
import numpy as np
import scipy.stats as st
import qinfer as qi
from .. import zoo, core, rng
from ..util import *
from .c13 import M, views

BOUNDS = ('Every weighting of 1-5 particles in eighths and of 4 particles in tenths with every level at, just below and just '
          'above each partial sum, plus fixed levels from 0 to 1, every slice form, as distribution and as updater; every '
          'set of 4-5 points of a 3x3 lattice (2 parameters) and every set of 5 corners-and-centre points in 3 parameters '
          'for hulls, ellipsoids (4 tolerances) and membership of all lattice points and midpoints; scripted sets of up to '
          '300 particles and 4 parameters.')
ASSUMPTIONS = ['regions of fewer than two parameters or flat point sets have no hull and are left out, as the library raises on them',
               'points within 1e-6 of a boundary are not judged; ellipsoids may exceed the optimum by the stated tolerance']


def region_of(d, level, **kw):
    return d.est_credible_region(level=level, **kw)


def levels_for(ws):
    ps, t = [], Fr(0)
    for w in sorted(ws, reverse=True):
        t += w
        ps.append(t)
    out = {Fr(0), Fr(1), Fr(1, 20), Fr(1, 2), Fr(19, 20)}
    for p in ps:
        for dlt in (Fr(0), Fr(-1, 4096), Fr(1, 4096)):
            if 0 <= p + dlt <= 1:
                out.add(p + dlt)
    return sorted(out)


def check_region(c, d, x, ws, exact):
    """x: rows with unique first entry; ws: Fractions."""
    n = len(x)
    ident = {float(r[0]): i for i, r in enumerate(x)}
    eps = Fr(0) if exact else Fr(1, 10 ** 9)
    last = set()
    for lev in levels_for(ws):
        ins = region_of(d, float(lev))
        if not c.ok(ins.ndim == 2 and ins.shape[1] == len(x[0]), 'shape of the region', got=np.shape(ins)):
            return
        ids = [ident.get(float(r[0])) for r in ins]
        if not c.ok(None not in ids and len(set(ids)) == len(ids) and len(ids) >= 1 and all(tuple(r) == tuple(float(v) for v in x[i]) for r, i in zip(ins, ids)),
                    'region consists of distinct particles', got=ins):
            return
        mass = sum(ws[i] for i in ids)
        c.ok(mass >= lev - eps, 'mass of the region is at least the level', level=float(lev), mass=float(mass))
        lightest = min(ws[i] for i in ids)
        rest = [ws[i] for i in range(n) if i not in ids]
        c.ok(not rest or lightest >= max(rest), 'heavier particles before lighter ones', level=float(lev), inside=ids)
        c.ok(len(ids) == 1 or mass - lightest < lev + eps, 'no more particles than needed', level=float(lev), inside=ids, weights=[float(w) for w in ws])
        c.ok(last <= set(ids), 'region grows with the level', level=float(lev), before=sorted(last), now=sorted(ids))
        last = set(ids)
        if lev == 1:
            c.ok(all(ws[i] <= eps for i in range(n) if i not in ids), 'level one holds every particle of positive weight', inside=ids)
        a, b = region_of(d, float(lev), return_outside=True)
        c.eq(a, ins, 'inside part is the region')
        ob = [ident.get(float(r[0])) for r in b]
        c.ok(b.shape == (n - len(ids), len(x[0])) and sorted(ob + ids) == list(range(n)), 'inside and outside partition the particles', outside=b)
        c.step()
        c.state('reg', [float(w) for w in ws], float(lev))
    for sl in slices(len(x[0])):
        for lev in (0.5, 0.95):
            full = region_of(d, lev)
            part = region_of(d, lev, modelparam_slice=sl)
            c.eq(part, full[:, sl], 'slice reports just those parameters', slice=sl)
            a, b = region_of(d, lev, modelparam_slice=sl, return_outside=True)
            a0, b0 = region_of(d, lev, return_outside=True)
            c.eq(a, a0[:, sl], 'inside slice'); c.eq(b, b0[:, sl], 'outside slice')


def slices(k):
    out = [slice(0, 1)]
    if k >= 2:
        out += [slice(1, 2), slice(0, 2), [1, 0], slice(None)]
    if k >= 3:
        out += [slice(0, 3, 2), slice(1, 3), [2, 0], np.array([0, 2])]
    return out


def s_levels(part):
    def f(c):
        k = 0
        for n in (1, 2, 3, 4, 5):
            for N in ((8,) if n != 4 else (8, 10)):
                for comp in rng.compositions(N, n):
                    k += 1
                    if k % 3 != part:
                        continue
                    ws = [Fr(v, N) for v in comp]
                    x = [(float(i), float(i * i), -float(i)) for i in range(n)]
                    with c.case('levels %s/%d' % (comp, N)):
                        for kind, d in views(x, ws):
                            before = (d.particle_locations.copy(), d.particle_weights.copy())
                            check_region(c, d, x, ws, N == 8)
                            c.ok(np.array_equal(before[0], d.particle_locations) and np.array_equal(before[1], d.particle_weights), 'reporting leaves the particles as they are')
                        c.trace()
    return f


def s_uniform(c):
    # equal weights that do not sum to one exactly; tiny weights; many particles
    for n in list(range(2, 40)) + [100, 300]:
        for pat in range(3):
            with c.case('many n=%d pat=%d' % (n, pat)):
                if pat == 0:
                    ks = [1] * n
                elif pat == 1:
                    ks = [(i * 37) % 11 for i in range(n)]
                else:
                    ks = [Fr(1, 4 ** (i % 30)) for i in range(n)]
                if sum(ks) == 0:
                    continue
                ws = [Fr(k) / sum(ks) for k in ks]
                x = [(float(i), float((i * 31) % 17)) for i in range(n)]
                d = list(views(x, ws))[n % 2][1]
                if n > 60:
                    lv = [0.0, 0.1, 0.5, 0.9, 0.95, 0.99, 1.0]
                    big(c, d, x, ws, lv)
                else:
                    check_region(c, d, x, ws, False)
                c.trace()


def big(c, d, x, ws, lv):
    last = set()
    n = len(x)
    for lev in lv:
        a, b = region_of(d, lev, return_outside=True)
        ids = [int(r[0]) for r in a]
        mass = sum(ws[i] for i in ids)
        c.ok(mass >= Fr(lev) - Fr(1, 10 ** 9), 'mass of the region is at least the level', level=lev, mass=float(mass))
        lightest = min(ws[i] for i in ids)
        rest = [ws[i] for i in range(n) if i not in set(ids)]
        c.ok(not rest or lightest >= max(rest), 'heavier particles before lighter ones', level=lev)
        c.ok(len(ids) == 1 or mass - lightest < Fr(lev) + Fr(1, 10 ** 9), 'no more particles than needed', level=lev)
        c.ok(sorted(ids + [int(r[0]) for r in b]) == list(range(n)), 'inside and outside partition the particles')
        c.ok(last <= set(ids), 'region grows with the level')
        last = set(ids)
        c.step()


# -- hulls and ellipsoids ---------------------------------------------------

def affine_rank(pts):
    p = np.array(pts, dtype=float)
    return np.linalg.matrix_rank(p[1:] - p[0], tol=1e-9) if len(p) > 1 else 0


def in_hull_margin(pts, q):
    """Largest t such that q is in the hull shrunk by.. : returns signed margin by linear programming over facets (brute force)."""
    p = np.array(pts, dtype=float)
    d = p.shape[1]
    best = np.inf
    for idx in itertools.combinations(range(len(p)), d):
        s = p[list(idx)]
        if d == 2:
            e = s[1] - s[0]
            nrm = np.array([e[1], -e[0]])
        else:
            nrm = np.cross(s[1] - s[0], s[2] - s[0])
        ln = np.linalg.norm(nrm)
        if ln < 1e-12:
            continue
        nrm = nrm / ln
        h = p.dot(nrm) - s[0].dot(nrm)
        if h.max() <= 1e-9:
            best = min(best, s[0].dot(nrm) - q.dot(nrm))
        elif h.min() >= -1e-9:
            best = min(best, q.dot(nrm) - s[0].dot(nrm))
    return best


def extreme(pts):
    """Extreme points: not in the hull of the others."""
    out = []
    uniq = sorted(set(map(tuple, pts)))
    for i, q in enumerate(uniq):
        rest = uniq[:i] + uniq[i + 1:]
        if len(rest) <= len(q) or affine_rank(rest) < len(q):
            out.append(q)
        elif in_hull_margin(rest, np.array(q)) < -1e-9:
            out.append(q)
    return out


def ref_mvee(pts, iters=4000):
    """Multiplicative algorithm for the minimum-volume ellipsoid: covariance form."""
    p = np.array(sorted(set(map(tuple, pts))), dtype=float)
    n, d = p.shape
    Q = np.hstack([p, np.ones((n, 1))]).T
    u = np.ones(n) / n
    for _ in range(iters):
        X = (Q * u).dot(Q.T)
        Mx = np.einsum('ij,ij->j', Q, np.linalg.solve(X, Q))
        if Mx.max() < (d + 1) * (1 + 1e-7):
            break
        u = u * Mx / (d + 1)
    ctr = p.T.dot(u)
    C = d * ((p.T * u).dot(p) - np.outer(ctr, ctr))
    return C, ctr


def hull_check(c, d, reg, lev, sl=None, queries=(), tols=(1e-2, 1e-3, 1e-4), full=None):
    """reg: points of the region in the sliced parameters."""
    k = reg.shape[1]
    kw = {} if sl is None else dict(modelparam_slice=sl)
    faces, verts = d.region_est_hull(level=lev, **kw)
    rs = set(map(tuple, reg))
    c.ok(faces.ndim == 3 and faces.shape[1:] == (k, k), 'shape of the faces', got=np.shape(faces))
    c.ok(verts.ndim == 2 and set(map(tuple, verts)) <= rs and len(set(map(tuple, verts))) == len(verts), 'vertices are distinct particles of the region', got=verts)
    c.ok(set(map(tuple, faces.reshape(-1, k))) <= rs, 'faces join particles of the region')
    ext = extreme(reg) if len(reg) <= 12 else None
    if ext is not None:
        c.ok(set(ext) <= set(map(tuple, verts)), 'every extreme particle is a vertex', missing=set(ext) - set(map(tuple, verts)))
        c.ok(set(map(tuple, verts)) <= set(ext), 'every vertex is an extreme particle', extra=set(map(tuple, verts)) - set(ext))
    # all points of the region on one side of each face
    for f in faces:
        A = f[1:] - f[0]
        _, s, vt = np.linalg.svd(A)
        nrm = vt[-1]
        h = (reg - f[0]).dot(nrm)
        c.ok(h.max() <= 1e-7 or h.min() >= -1e-7, 'face is on the boundary of the region', face=f)
    C0, c0 = ref_mvee(reg)
    v0 = np.linalg.det(C0)
    for tol in tols:
        A, ctr = d.region_est_ellipsoid(level=lev, tol=tol, **kw)
        c.ok(A.shape == (k, k) and ctr.shape == (k,), 'shapes of the ellipsoid', got=(A.shape, ctr.shape))
        y = reg - ctr
        far = np.einsum('ij,ij->i', y, np.linalg.solve(A, y.T).T).max()
        c.ok(far <= 1 + 6 * (k + 1) * tol, 'ellipsoid contains the particles of the region', tol=tol, reach=far)
        c.ok(abs(far - 1) <= 6 * (k + 1) * tol + 1e-6, 'ellipsoid touches the region', tol=tol, reach=far)
        v = np.linalg.det(A)
        c.ok(v <= v0 * (1 + 6 * k * (k + 1) * tol + 1e-4), 'ellipsoid has the least volume', got=v, want=v0, tol=tol)
        if len(queries):
            dd = np.einsum('ij,ij->i', queries - ctr, np.linalg.solve(A, (queries - ctr).T).T)
            got = d.in_credible_region(queries, level=lev, method='hpd-mvee', tol=tol, **kw)
            sel = np.abs(dd - 1) > 1e-6
            c.eq(np.asarray(got)[sel], (dd <= 1)[sel], 'membership in the ellipsoid', tol=tol)
        c.step()
    A1, c1 = d.region_est_ellipsoid(level=lev, **kw)
    A2, c2 = d.region_est_ellipsoid(level=lev, tol=0.0001, **kw)
    c.eq(A1, A2, 'default tolerance'); c.eq(c1, c2, 'default tolerance centre')
    if len(queries):
        if k <= 3 and len(reg) <= 12:
            mg = np.array([in_hull_margin(reg, q) for q in queries])
            got = np.asarray(d.in_credible_region(queries, level=lev, method='hpd-hull', **kw))
            sel = np.abs(mg) > 1e-7
            c.eq(got[sel], (mg > 0)[sel], 'membership in the hull')
            g0 = np.asarray(d.in_credible_region(queries, level=lev, **kw))
            c.eq(g0, got, 'default method is the hull')
            for q, m in list(zip(queries, mg))[:3]:
                g = d.in_credible_region(q, level=lev, method='hpd-hull', **kw)
                c.ok(np.size(g) == 1, 'single point gives a single answer', got=g)
                if abs(m) > 1e-7:
                    c.ok(bool(np.ravel(g)[0]) == (m > 0), 'membership of a single point in the hull')
        inside = np.asarray(d.in_credible_region(reg, level=lev, method='hpd-hull', **kw))
        c.ok(inside.shape == (len(reg),) and inside.all(), 'particles of the region are in its hull', got=inside)
        # covariance ellipsoid
        ix = list(range(d.n_rvs)) if sl is None else list(np.arange(d.n_rvs)[sl])
        W = d.particle_weights; X = d.particle_locations
        mu = W.dot(X); cov = (X - mu).T.dot((X - mu) * W[:, None])
        mu, cov = mu[ix], cov[np.ix_(ix, ix)]
        if np.linalg.cond(cov) < 1e8:
            lev = min(lev, 0.9)      # an ellipsoid of level one has no finite matrix
            q = st.chi2(len(ix)).ppf(lev)
            dd = np.einsum('ij,ij->i', queries - mu, np.linalg.solve(cov, (queries - mu).T).T) / q
            got = np.asarray(d.in_credible_region(queries, level=lev, method='pce', **kw))
            sel = np.abs(dd - 1) > 1e-6
            c.ok(got.shape == (len(queries),), 'one answer per point', got=got.shape)
            c.eq(got[sel], (dd <= 1)[sel], 'membership in the covariance ellipsoid')
            g = d.in_credible_region(queries[0], level=lev, method='pce', **kw)
            c.ok(np.size(g) == 1 and (not sel[0] or bool(np.ravel(g)[0]) == bool(dd[0] <= 1)), 'membership of a single point in the covariance ellipsoid')


def s_hull2(part):
    def f(c):
        pts = list(itertools.product((0.0, 1.0, 2.0), repeat=2))
        Q = np.array([(a, b) for a in (-0.5, 0.0, 0.5, 1.0, 1.6) for b in (-0.4, 0.3, 1.0, 2.2)])
        k = 0
        for n in (4, 5):
            for sub in itertools.combinations(pts, n):
                k += 1
                if k % 5 != part:
                    continue
                if n == 5 and k % 3 and not c.thorough:
                    continue
                for wi, ws in enumerate(([Fr(1, n)] * n, [Fr(2 ** i, 2 ** n - 1) for i in range(n)])):
                    lev = 1.0 if wi == 0 else 0.9
                    with c.case('hull2 %s w%d' % (sub, wi)):
                        d = list(views(sub, ws))[k % 2][1]
                        reg = d.est_credible_region(level=lev)
                        if len(reg) < 3 or affine_rank(reg) < 2:
                            continue
                        hull_check(c, d, reg, lev, queries=Q, tols=(1e-2, 1e-3))
                        c.state('h2', sub, wi); c.trace()
    return f


def s_hull3(c):
    cube = list(itertools.product((0.0, 1.0), repeat=3)) + [(0.5, 0.5, 0.5), (2.0, 0.25, 0.5)]
    Q = np.array(list(itertools.product((-0.3, 0.45, 1.2), repeat=3)))
    for k, sub in enumerate(itertools.combinations(cube, 5)):
        if k % 3 and not c.thorough:
            continue
        with c.case('hull3 %s' % (sub,)):
            ws = [Fr(1, 5)] * 5
            d = list(views(sub, ws))[k % 2][1]
            reg = d.est_credible_region(level=1.0)
            if affine_rank(reg) == 3:
                hull_check(c, d, reg, 1.0, queries=Q, tols=(1e-2,))
                c.state('h3', sub)
            for sl in (slice(0, 2), slice(1, 3), [0, 2], slice(0, 3, 2)):
                r2 = reg[:, sl]
                if affine_rank(r2) == 2:
                    hull_check(c, d, r2, 1.0, sl=sl, queries=Q[:, sl], tols=(1e-2,))
                    c.state('h3', sub, str(sl))
            c.trace()


def s_large(c):
    for n, k, seed in ((60, 2, 1), (150, 3, 2), (300, 2, 3), (120, 4, 4)):
        with c.case('large n=%d k=%d' % (n, k)):
            cyc = core.cycle_stream(seed)
            x = [[(cyc.choose(1000) + cyc.choose(1000) + cyc.choose(1000)) / 500.0 * (j + 1) - 3 for j in range(k)] for _ in range(n)]
            ks = [1 + cyc.choose(50) for _ in range(n)]
            ws = [Fr(v, sum(ks)) for v in ks]
            Q = np.array([[cyc.choose(100) / 16.0 * (j + 1) - 3 for j in range(k)] for _ in range(60)])
            for kind, d in views(x, ws):
                for lev in (0.5, 0.95, 1.0):
                    reg = d.est_credible_region(level=lev)
                    hull_check(c, d, reg, lev, queries=Q if lev < 1 else Q[:0], tols=(1e-3, 1e-4))
                if k > 2:
                    for sl in (slice(0, 2), [k - 1, 0]):
                        reg = d.est_credible_region(level=0.9, modelparam_slice=sl)
                        hull_check(c, d, reg, 0.9, sl=sl, queries=Q[:, sl], tols=(1e-3,))
                c.trace(); c.state('lg', n, k, kind)


SCENARIOS = [('levels%d' % k, s_levels(k)) for k in range(3)] + [('many', s_uniform)] + [('hull2_%d' % k, s_hull2(k)) for k in range(5)] + [('hull3', s_hull3), ('large', s_large)]

from . import bulk  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b14)]

from . import edge  # noqa: E402
BOUNDS += ' Edge configurations: unusual scales and sizes, almost equal or vanishing numbers, reused arrays.'
SCENARIOS = SCENARIOS + [('edge', edge.e14)]

from . import forms  # noqa: E402
BOUNDS += ' Arguments of equal values in every memory layout: column-major, strided, reversed, padded, read-only, broadcast, smaller integers.'
SCENARIOS = SCENARIOS + forms.fscenario(lambda: forms.clouds(('region', 'ellipsoid', 'hull')))
