"""C23: numerical helpers satisfy their defining identities."""
import itertools, math, re, warnings
from fractions import Fraction
import numpy as np
import qinfer as qi
from qinfer import utils as U, metrics as M
from .. import zoo, core, rng
from ..util import *
from ..rng import compositions

BOUNDS = ('Central differences of quadratics and cubics of 1-4 arguments on lattices with every mixture of steps; simplex coordinates on every rational lattice point of the simplex (vertices and faces included) and every lattice of '
          'free coordinates in dimension 1 to 5, alone and in batches; roots of every lattice Hermitian matrix up to dimension '
          '3 at several scales, singular and indefinite included; every count vector of up to 5 throws and up to 4 sides with '
          'zero and certain probabilities, both ways of giving probabilities, up to 3 experiment axes, and thousands of throws; '
          'exact laws of sampled counts; every pair and triple of field types; lattice point sets in dimension 1 to 3 for '
          'enclosing ellipsoids; every sequence to length 6 for uniquify; every second of several days in strides plus every '
          'boundary; values and uncertainties over 13 decades.')
ASSUMPTIONS = ['point sets of enclosing ellipsoids are not contained in a hyperplane',
               'an uncertainty of exactly zero is printed with six decimals, as the code documents']


# --- simplex -----------------------------------------------------------------

def stick(y):
    """Reference: x_k = z_k (1 - z_{k-1}) ... , z_k = expit(y_k - log(K-k)), z_K = 1."""
    K = len(y)
    x, left = [], 1.0
    for k in range(K - 1):
        t = y[k] - math.log(K - k - 1)
        z = 1 / (1 + math.exp(-t)) if t > -700 else 0.0
        x.append(z * left); left *= 1 - z
    x.append(left)
    return x


def sc_simplex(c):
    for K in (1, 2, 3, 4, 5):
        m = {1: 1, 2: 24, 3: 12, 4: 6, 5: 6}[K] * (2 if c.thorough else 1)
        pts = [np.array(p, dtype=float) / m for p in compositions(m, K)]
        with c.case('from|%d' % K):
            for p in pts:
                p0 = p.copy()
                y = U.from_simplex(p)
                c.ok(np.array_equal(p, p0), 'argument changed')
                c.ok(y.shape == p.shape and not np.any(np.isnan(y)), 'simplex point has no coordinates', p=p, y=y)
                c.ok(y[-1] == 0, 'last coordinate', y=y)
                c.eq(U.to_simplex(y), p, 'simplex point does not come back', tol=1e-9)
                if p.min() > 0:
                    left = 1 - np.concatenate([[0], np.cumsum(p)[:-1]])
                    z = (p / left)[:-1]
                    want = np.log(z) - np.log1p(-z) + np.log(np.arange(K - 1, 0, -1))
                    c.eq(y[:-1], want, 'coordinates of a simplex point', tol=1e-8)
                c.step()
                c.state(K, p)
            c.eq(U.from_simplex(np.ones(K) / K), np.zeros(K), 'uniform point', tol=1e-12)
            B = np.array(pts)
            c.eq(U.from_simplex(B), np.array([U.from_simplex(p) for p in pts]), 'batch of points', tol=1e-12)
            if len(pts) % 2 == 0:
                S = B.reshape((2, -1, K))
                c.eq(U.from_simplex(S), U.from_simplex(B).reshape(S.shape), 'batch axes', tol=1e-12)
            c.eq(U.from_simplex(np.asfortranarray(B)), U.from_simplex(B), 'memory layout', tol=1e-12)
        vals = (-40.0, -3.0, -0.5, 0.0, 1.25, 6.0, 30.0) if K < 5 else (-3.0, 0.0, 1.25, 30.0)
        with c.case('to|%d' % K):
            ys = [np.array(v + (0.0,)) for v in itertools.product(vals, repeat=K - 1)]
            for y in ys:
                x = U.to_simplex(y)
                c.ok(x.shape == y.shape and x.min() >= 0 and abs(x.sum() - 1) < 1e-12, 'not on the simplex', y=y, x=x)
                c.eq(x, np.array(stick(list(y))), 'stick breaking', tol=1e-12)
                if np.abs(y).max() < 7:
                    c.eq(U.from_simplex(x), y, 'coordinates do not come back', tol=1e-6)
                c.step()
                c.state('y', y)
            if ys:
                Y = np.array(ys)
                c.eq(U.to_simplex(Y), np.array([U.to_simplex(y) for y in ys]), 'batch of coordinates', tol=1e-12)
                c.eq(U.to_simplex(Y[None, :, None, :])[0, :, 0], U.to_simplex(Y), 'batch axes', tol=1e-12)


# --- linear algebra ----------------------------------------------------------

def mats(c):
    out = []
    for v in (0.0, 1.0, 2.25, -3.0):
        out.append(np.array([[v]]))
    for a, b, d in itertools.product((0, 1, 2, -1), (0, 1, -2), (0, 1, 3)):
        out.append(np.array([[a, b], [b, d]], dtype=float))
    for B in itertools.product((0, 1, -1), repeat=4):
        Bm = np.array(B, dtype=float).reshape(2, 2); Bm = Bm + 1j * Bm.T[::-1]
        out.append(Bm.dot(Bm.conj().T))
    vals3 = (0, 1, -1) if c.thorough else (0, 1)
    for B in itertools.product(vals3, repeat=6):
        L = np.zeros((3, 3)); L[np.tril_indices(3)] = B
        out.append(L.dot(L.T))
        out.append(L + L.T)
        out.append(L + L.T + 1j * (L - L.T))
    out.append(np.diag([1.0, 4.0, 9.0, 0.0])); out.append(np.ones((4, 4))); out.append(np.eye(4) * 2.5)
    return out


def sc_roots(c):
    for n, A in enumerate(mats(c)):
        for s in (1.0, 1e-9, 1e6):
            with c.case('root|%d %g' % (n, s)):
                X = A * s
                X0 = X.copy()
                R, err = U.sqrtm_psd(X)
                c.ok(np.array_equal(X, X0), 'argument changed')
                w, v = np.linalg.eigh(X)
                pos = (v * np.clip(w, 0, None)).dot(v.conj().T)
                sc = max(np.abs(w).max(), 1e-300)
                c.ok(R.shape == X.shape and np.abs(R - R.conj().T).max() <= 1e-9 * math.sqrt(sc), 'root is not Hermitian', R=R)
                c.ok(np.linalg.eigvalsh((R + R.conj().T) / 2).min() >= -1e-7 * math.sqrt(sc), 'root is not positive', R=R)
                c.ok(np.abs(R.dot(R) - pos).max() <= 1e-9 * sc, 'root does not square to the positive part', A=X, R=R)
                c.ok(abs(err - np.linalg.norm(R.dot(R) - X)) <= 1e-9 * sc + 1e-12 * abs(err), 'error estimate', err=err)
                if w.min() >= 0:
                    c.ok(err <= 1e-8 * sc, 'error of a positive matrix', err=err)
                R2 = U.sqrtm_psd(X, est_error=False)
                c.ok(isinstance(R2, np.ndarray) and np.abs(R2 - R).max() <= 1e-12 * math.sqrt(sc), 'root without the estimate')
                R3 = U.sqrtm_psd(X, est_error=False, check_finite=False)
                c.ok(np.abs(R3 - R).max() <= 1e-9 * math.sqrt(sc), 'root without the finiteness test')
                c.state(X)
                c.step(3)


def sc_products(c):
    for d in (1, 2, 3):
        for v in itertools.product((-2.0, 0.0, 1.0, 0.5), repeat=d):
            with c.case('outer|%s' % (v,)):
                a = np.array(v)
                c.eq(U.outer_product(a), np.array([[x * y for y in v] for x in v]), 'outer product', tol=1e-14)
                c.eq(U.outer_product(a[:, None]), np.array([[x * y for y in v] for x in v]), 'outer product of a column', tol=1e-14)
                c.step(); c.state('o', a)
    rowsets = [[[0.0]], [[1.0], [3.0]], [[0.0, 1.0], [2.0, -1.0], [1.0, 1.0]], [[1.0, 2.0, 3.0], [0.0, 0.0, 1.0], [5.0, -2.0, 2.0], [1.0, 1.0, 1.0]]]
    for rows in rowsets:
        for wt in weight_patterns(len(rows), True):
            with c.case('particles|%s %s' % (rows, wt)):
                x, w = np.array(rows), np.array(wt)
                mu = [sum(a * r[i] for a, r in zip(wt, rows)) for i in range(x.shape[1])]
                c.eq(U.particle_meanfn(w, x), np.array(mu), 'mean')
                f = lambda z: np.stack([z[:, 0] ** 2, z.sum(axis=1), z[:, -1] * 0 + 1], axis=1)
                fv = f(x)
                c.eq(U.particle_meanfn(w, x, f), np.array([sum(a * r[i] for a, r in zip(wt, fv)) for i in range(3)]), 'mean of a function')
                C = [[sum(a * (r[i] - mu[i]) * (r[j] - mu[j]) for a, r in zip(wt, rows)) for j in range(len(mu))] for i in range(len(mu))]
                c.eq(U.particle_covariance_mtx(w, x), np.array(C), 'covariance')
                c.step(3); c.state('p', x, w)
    # distances
    A = [np.array(r) for r in ([[0.0, 1.0]], [[1.0, 2.0], [0.0, -3.0]], [[0.5, 0.5], [2.0, 1.0], [4.0, -1.0]])]
    class QM(zoo.TableModel):
        Q = np.array([4.0, 0.25])
    m = QM(zoo.TABLE3, [3, 3], n_params=2)
    Qs = [1.0, 1.0], [4.0, 0.25]
    def ref(p, q, Q):
        return np.array([[math.sqrt(sum(Q[k] * (a[k] - b[k]) ** 2 for k in range(2))) for b in q] for a in p])
    for p, q in itertools.product(A, repeat=2):
        with c.case('dist|%d %d' % (len(p), len(q))):
            c.eq(M.rescaled_distance_mtx(p, q), ref(p, q, Qs[0]), 'distances of locations')
            pd, qd = [qi.ParticleDistribution(particle_locations=z, particle_weights=np.ones(len(z)) / len(z)) for z in (p, q)]
            up, uq = mk(m, p), mk(m, q)
            c.eq(M.rescaled_distance_mtx(pd, qd), ref(p, q, Qs[0]), 'distances of particle distributions')
            c.eq(M.rescaled_distance_mtx(pd, q), ref(p, q, Qs[0]), 'distances of mixed arguments')
            c.eq(M.rescaled_distance_mtx(up, uq), ref(p, q, Qs[1]), 'distances of updaters')
            c.eq(M.rescaled_distance_mtx(up, q), ref(p, q, Qs[1]), 'distances of an updater to locations')
            c.eq(M.rescaled_distance_mtx(p, uq), ref(p, q, Qs[1]), 'distances of locations to an updater')
            c.step(6); c.state('d', p, q)
    for p in A + [np.array([[0.0], [1.0], [3.0], [3.0]])]:
        n = len(p)
        for wt in weight_patterns(n) + [[0.125] * n]:
            if min(wt) == 0: continue
            for metric in ('euclidean', 'cityblock'):
                for pw in (0.0, 0.5, 1.0, 2.0):
                    with c.case('weighted|%d %s %s %g' % (n, wt, metric, pw)):
                        got = M.weighted_pairwise_distances(p, np.array(wt), metric=metric, w_pow=pw)
                        base = [[math.sqrt(((a - b) ** 2).sum()) if metric == 'euclidean' else np.abs(a - b).sum() for b in p] for a in p]
                        want = np.array([[base[i][j] / (wt[i] * wt[j] * n ** 2) ** pw for j in range(n)] for i in range(n)])
                        c.eq(got, want, 'weighted distances', tol=1e-7)
                        if metric == 'euclidean' and pw == 0.5:
                            c.eq(M.weighted_pairwise_distances(p, np.array(wt)), want, 'weighted distances by default', tol=1e-7)
                        c.step()


# --- counts ------------------------------------------------------------------

def exact_multinomial(ns, ps):
    r = Fraction(math.factorial(sum(ns)))
    for n, p in zip(ns, ps):
        r = r / math.factorial(n) * (p ** n if n else 1)
    return r


def plist(K, m):
    return [tuple(Fraction(a, m) for a in q) for q in compositions(m, K)]


def sc_counts(c):
    for K in (2, 3, 4):
        for N in range(0, 6 if K < 4 else 5):
            ns = list(compositions(N, K))
            for ps in plist(K, {2: 8, 3: 4, 4: 4}[K]):
                with c.case('pdf|%s %d' % (ps, N)):
                    want = np.array([float(exact_multinomial(n, ps)) for n in ns])
                    p = np.array([float(q) for q in ps])
                    n2 = np.array(ns).T
                    P2 = np.repeat(p[:, None], len(ns), axis=1)
                    n20 = n2.copy(); P20 = P2.copy()
                    got = U.multinomial_pdf(n2, P2)
                    c.ok(np.array_equal(n2, n20) and np.array_equal(P2, P20), 'arguments changed')
                    c.eq(got, want, 'multinomial probabilities', tol=1e-11)
                    c.ok(abs(got.sum() - 1) < 1e-10, 'multinomial probabilities do not sum to one', got=got)
                    c.eq(U.multinomial_pdf(n2, P2[:-1]), want, 'multinomial probabilities with the last one implied', tol=1e-11)
                    one = np.array([float(np.asarray(U.multinomial_pdf(np.array(n), p))) for n in ns])
                    c.eq(one, want, 'multinomial probabilities one at a time', tol=1e-11)
                    c.step(3); c.state(K, N, p)
            # every experiment has its own counts and probabilities
            with c.case('axes|%d %d' % (K, N)):
                qs = plist(K, 4)
                n3 = np.array(ns).T[:, :, None] * np.ones((1, 1, len(qs)), dtype=int)
                p3 = np.array([[float(x) for x in q] for q in qs]).T[:, None, :] * np.ones((1, len(ns), 1))
                want = np.array([[float(exact_multinomial(n, q)) for q in qs] for n in ns])
                c.eq(U.multinomial_pdf(n3, p3), want, 'several axes', tol=1e-11)
                c.eq(U.multinomial_pdf(n3, p3[:-1]), want, 'several axes with the last side implied', tol=1e-11)
                n4, p4 = np.stack([n3, n3], axis=-1), np.stack([p3, p3[::-1]], axis=-1)
                got = U.multinomial_pdf(n4, p4)
                c.eq(got[..., 0], want, 'three axes', tol=1e-11)
                c.eq(got[..., 1], np.array([[float(exact_multinomial(n, q[::-1])) for q in qs] for n in ns]), 'three axes', tol=1e-11)
                c.step(3)
    for K, q in itertools.product((3, 4, 5), (3, 7, 10)):
        for row in over_one(K, q)[:30]:
            with c.case('rounded|%s' % (row,)):
                p = np.array(row)
                for N in (1, 2, 3):
                    for n in compositions(N, K):
                        want = float(exact_multinomial(n, [Fraction(x).limit_denominator(1000) for x in row]))
                        for pp in (p, p[:-1]):
                            got = float(np.asarray(U.multinomial_pdf(np.array(n)[:, None], pp[:, None]))[0])
                            c.ok(abs(got - want) < 1e-12, 'multinomial probability with rounded sides', got=got, want=want, at=n)
                        c.step()
    for ns in ((1000, 0), (500, 500), (999, 1), (400, 350, 250), (0, 0, 900), (2000, 1, 0), (10 ** 4, 10 ** 4)):
        with c.case('many|%s' % (ns,)):
            K = len(ns); T = sum(ns)
            for ps in [tuple(Fraction(n, T) for n in ns), tuple(Fraction(1, K) for n in ns)]:
                want = float(exact_multinomial(ns, ps)) if T < 5000 else math.exp(math.log(math.comb(T, ns[0])) + sum(n * math.log(float(p)) for n, p in zip(ns, ps) if n))
                got = float(np.asarray(U.multinomial_pdf(np.array(ns)[:, None], np.array([[float(p)] for p in ps]))[0]))
                c.ok(abs(got - want) <= 1e-8 * want + 1e-300, 'many throws', got=got, want=want)
                c.step()
    for N in (0, 1, 2, 5, 30):
        for p in (0.0, 1.0, 0.5, 0.125, 0.999):
            with c.case('binom|%d %g' % (N, p)):
                ks = np.arange(N + 1)
                P = Fraction(p)
                want = np.array([float(math.comb(N, int(k)) * (P ** int(k)) * ((1 - P) ** int(N - k))) for k in ks])
                c.eq(U.binomial_pdf(N, ks, p), want, 'binomial probabilities', tol=1e-11)
                c.eq(U.binomial_pdf(np.full(N + 1, N), ks, np.full(N + 1, p)), want, 'binomial probabilities by array', tol=1e-11)
                for h in (0.0, 0.5, 2.0):
                    if N + 2 * h > 0:
                        for k in ks[:4]:
                            c.eq(U.binom_est_p(int(k), N, h), (k + h) / (N + 2 * h), 'hedged estimate')
                        c.eq(U.binom_est_p(ks, N, hedge=h), (ks + h) / (N + 2 * h), 'hedged estimates')
                    c.eq(U.binom_est_error(p, N, h), math.sqrt(p * (1 - p) / (N + 2 * h + 1)), 'hedged error')
                if N: c.eq(U.binom_est_p(ks, N), ks / N, 'plain estimate')
                c.eq(U.binom_est_error(p, N), math.sqrt(p * (1 - p) / (N + 1)), 'plain error')
                c.step(4)


def sc_samples(c):
    P = [np.array([0.25, 0.75]), np.array([0.0, 0.5, 0.5]), np.array([1.0, 0.0]),
         np.array([[0.25, 1.0], [0.75, 0.0]]), np.array([[0.25, 0.5], [0.75, 0.5]]), np.array([[[0.5, 0.25]], [[0.5, 0.75]]])]
    for n, p in enumerate(P):
        for N in (0, 1, 2):
            for size in (None, 1, 2, (1,), (2,), (1, 2), (2, 1), (1, 1, 2)):
                cols = int(np.prod(p.shape[1:])); k = 1 if size is None else int(np.prod(size))
                if (p > 0).sum() * N * k > 10: continue
                with c.case('sample|%d %d %s' % (n, N, size)):
                    shape = p.shape + (() if size is None else ((size,) if isinstance(size, int) else tuple(size)))
                    law = c.law(lambda: np.asarray(U.sample_multinomial(N, p, size)))
                    pc = p.reshape(p.shape[0], cols)
                    tot = 0.0
                    for kk, (pr, r) in law.items():
                        if not c.ok(r.shape == shape, 'shape of the sample', got=r.shape, want=shape): break
                        rc = r.reshape(p.shape[0], cols, k)
                        want = 1.0
                        for i in range(cols):
                            for j in range(k):
                                if rc[:, i, j].sum() != N: want = 0
                                else: want *= float(exact_multinomial([int(v) for v in rc[:, i, j]], [Fraction(v) for v in pc[:, i]]))
                        c.ok(abs(pr - want) < 1e-9, 'law of the sample', r=r, got=pr, want=want)
                        tot += want
                    c.ok(abs(tot - 1) < 1e-9, 'counts never sampled', tot=tot)
    # distinct entries do not get mixed up, at real sizes
    with c.case('identity'):
        p = np.zeros((3, 2, 4))
        for i in range(2):
            for j in range(4): p[(i + j) % 3, i, j] = 1.0
        with core.controlled(core.cycle_stream(1)):
            for size in (None, 2, (2, 3)):
                s = U.sample_multinomial(7, p, size)
                w = 7 * p.reshape(p.shape + (1,) * (s.ndim - 3)) * np.ones(s.shape)
                c.eq(np.asarray(s, dtype=float), w, 'each distribution has its own samples')
                c.step()


# --- structured arrays -------------------------------------------------------

FIELDS = [[('a', '<i8')], [('b', '<f8')], [('c', '<f4'), ('d', '|i1')], [('e', '<f8', (2,))], [('f', '<c16')], [('g', '|S3')], [('h', '<u2', (2, 2)), ('i', '<f8')]]


def fillarr(dt, shape, k):
    a = np.zeros(shape, dtype=dt)
    for n in a.dtype.names:
        v = a[n]
        for i, ix in enumerate(np.ndindex(*v.shape)):
            v[ix] = (b'abc', b'x', b'zz')[(i + k) % 3] if v.dtype.kind == 'S' else (i * 7 + k * 3 + 1) % 100
    return a


def sc_structs(c):
    for r in (1, 2, 3):
        for combo in itertools.product(range(len(FIELDS)), repeat=r):
            if len(set(combo)) < r: continue
            for shape in ((1,), (3,), (2, 2)):
                for layout in ('plain', 'strided', 'reversed'):
                    if r == 3 and (layout != 'plain' or shape == (2, 2)) and not c.thorough: continue
                    with c.case('join|%s %s %s' % (combo, shape, layout)):
                        arrs = []
                        for k, f in enumerate(combo):
                            if layout == 'plain': a = fillarr(FIELDS[f], shape, k)
                            elif layout == 'strided': a = fillarr(FIELDS[f], (shape[0] * 2,) + shape[1:], k)[::2]
                            else: a = fillarr(FIELDS[f], shape, k)[::-1]
                            arrs.append(a)
                        j = U.join_struct_arrays(arrs)
                        names = [n for a in arrs for n in a.dtype.names]
                        c.ok(list(j.dtype.names) == names, 'fields', got=j.dtype)
                        c.ok(j.size == arrs[0].size, 'number of records', got=j.shape)
                        for a in arrs:
                            for n in a.dtype.names:
                                c.ok(np.array_equal(j[n], a[n].reshape((-1,) + a[n].shape[a.ndim:])), 'field content', field=n)
                        back = U.separate_struct_array(j, [a.dtype for a in arrs])
                        c.ok(len(back) == len(arrs), 'number of arrays back')
                        for a, b in zip(arrs, back):
                            c.ok(b.dtype == a.dtype and np.array_equal(b, a.ravel()), 'array does not come back', got=b, want=a)
                        if shape != (1,):
                            back = U.separate_struct_array(j[::2], [a.dtype for a in arrs])
                            for a, b in zip(arrs, back):
                                c.ok(np.array_equal(b, a.ravel()[::2]), 'separating part of an array', got=b)
                        c.step(2); c.state(combo, shape, layout)
    # one repeated type, the number found by counting bytes; plain arrays
    for k in (1, 2, 3):
        with c.case('same|%d' % k):
            arrs = [np.arange(4.0) * 10 ** i for i in range(k)]
            dt = np.dtype([('x%d' % i, '<f8') for i in range(k)])
            j = np.zeros(4, dtype=dt)
            for i in range(k): j['x%d' % i] = arrs[i]
            back = U.separate_struct_array(j, float)
            c.ok(len(back) == k and all(np.array_equal(a, b) for a, b in zip(arrs, back)), 'columns of one type', got=back)
            c.step()
    with c.case('shape'):
        for o, sh in ((3.0, ()), ([1, 2], (2,)), (np.zeros((2, 0, 4)), (2, 0, 4)), ([[1], [2]], (2, 1))):
            for i in range(4):
                c.ok(U.safe_shape(o, i) == (sh[i] if i < len(sh) else 1), 'safe_shape', o=o, i=i)
                c.ok(U.safe_shape(o, i, default=7) == (sh[i] if i < len(sh) else 7), 'safe_shape default', o=o, i=i)
            c.ok(U.safe_shape(o) == (sh[0] if sh else 1), 'safe_shape of the first axis')
            c.step()


# --- ellipsoids --------------------------------------------------------------

def sc_ellipsoids(c):
    V = {1: 2.0, 2: math.pi, 3: 4 * math.pi / 3, 4: math.pi ** 2 / 2}
    for d in (1, 2, 3, 4):
        for ax in itertools.product((0.25, 1.0, 3.0), repeat=d):
            with c.case('volume|%s' % (ax,)):
                for th in (0.0, 0.7):
                    R = np.eye(d)
                    if d > 1:
                        R[:2, :2] = [[math.cos(th), -math.sin(th)], [math.sin(th), math.cos(th)]]
                    S = R.dot(np.diag(np.array(ax) ** 2)).dot(R.T)     # inverse of the quadratic form
                    want = V[d] * float(np.prod(ax))
                    c.eq(float(np.real(U.ellipsoid_volume(invA=S))), want, 'volume from the inverse matrix', tol=1e-7)
                    c.eq(float(np.real(U.ellipsoid_volume(A=np.linalg.inv(S)))), want, 'volume from the matrix', tol=1e-7)
                    c.eq(float(np.real(U.ellipsoid_volume(np.linalg.inv(S)))), want, 'volume from the matrix', tol=1e-7)
                    cen = np.arange(d) - 0.5
                    for s in itertools.product((-1.0, 0.0, 1.0), repeat=d):
                        sv = np.array(s); nrm = np.linalg.norm(sv)
                        for t, inside in ((0.999, True), (1.001, False)):
                            if nrm == 0: continue
                            x = cen + R.dot(np.array(ax) * sv / nrm * t)
                            c.ok(bool(U.in_ellipsoid(x, S, cen)) == inside, 'membership of one point', x=x, t=t)
                    pts = np.array([cen + R.dot(np.array(ax) * np.array(s)) * t for s in itertools.product((-1.0, 0.0, 1.0), repeat=d) for t in (0.4, 0.8, 1.2)])
                    want = [bool((y - cen).dot(np.linalg.inv(S)).dot(y - cen) <= 1) for y in pts]
                    edge = [abs((y - cen).dot(np.linalg.inv(S)).dot(y - cen) - 1) < 1e-9 for y in pts]
                    got = U.in_ellipsoid(pts, S, cen)
                    c.ok(got.shape == (len(pts),) and all(e or bool(g) == w for g, w, e in zip(got, want, edge)), 'membership of many points', got=got, want=want)
                    c.step(4); c.state(ax, th)
    with c.case('volume|none'):
        try:
            U.ellipsoid_volume(); c.fail('volume of nothing')
        except ValueError: pass
    # simplices and boxes: closed forms
    for d in (1, 2, 3):
        with c.case('closed|%d' % d):
            for sc in (0.5, 2.0):
                box = np.array(list(itertools.product((-sc, sc), repeat=d)))
                A, cen = U.mvee(box, tol=1e-5)
                c.eq(cen, np.zeros(d), 'centre of a box', tol=1e-4)
                c.eq(A, np.eye(d) / (d * sc ** 2), 'ellipsoid of a box', tol=1e-4)
                smp = np.vstack([np.zeros(d), np.eye(d) * sc])
                A, cen = U.mvee(smp, tol=1e-5)
                c.eq(cen, np.ones(d) * sc / (d + 1), 'centre of a simplex', tol=1e-4)
                q = np.einsum('ni,ij,nj->n', smp - cen, A, smp - cen)
                c.eq(q, np.ones(d + 1), 'every vertex of a simplex is on its ellipsoid', tol=1e-4)
                c.step(2)


def sc_mvee(k4):
    def sc(c):
        sets = []
        g2 = [np.array(v, dtype=float) for v in itertools.product((0, 1, 2), repeat=2)]
        for k in (3, 4, 5, 6):
            for combo in itertools.islice(itertools.combinations(g2, k), 0, None, 1 if c.thorough else {3: 2, 4: 5, 5: 6, 6: 5}[k]):
                sets.append(np.array(combo))
        g1 = [[0.0], [1.0], [4.0]]
        for k in (2, 3): sets += [np.array(q) for q in itertools.combinations(g1, k)]
        g3 = [np.array(v, dtype=float) for v in itertools.product((0, 1), repeat=3)]
        for k in (4, 5, 8):
            sets += [np.array(q) for q in itertools.islice(itertools.combinations(g3, k), 0, None, 1 if c.thorough else 4)]
        for n, pts in enumerate(sets):
            if n % 4 != k4: continue
            d = pts.shape[1]
            if np.linalg.matrix_rank(pts - pts.mean(axis=0)) < d: continue
            with c.case('mvee|%d' % n):
                for scale, shift in ((1.0, 0.0), (1e-3, 0.01), (100.0, -50.0)):
                    x = pts * (scale * (1 + 2 * np.arange(d))) + shift
                    x0 = x.copy()
                    A, cen = U.mvee(x)
                    c.ok(np.array_equal(x, x0), 'argument changed')
                    q = np.einsum('ni,ij,nj->n', x - cen, A, x - cen)
                    c.ok(A.shape == (d, d) and cen.shape == (d,), 'shapes')
                    c.ok(np.linalg.eigvalsh((A + A.T) / 2).min() > 0 and np.allclose(A, A.T, rtol=1e-4, atol=1e-6 * np.abs(A).max()), 'not an ellipsoid', A=A)
                    c.ok(q.max() <= 1 + 0.004 * (d + 1), 'points outside their enclosing ellipsoid', q=q)
                    A2, cen2 = U.mvee(x, tol=1e-4)
                    q2 = np.einsum('ni,ij,nj->n', x - cen2, A2, x - cen2)
                    c.ok(q2.max() <= 1 + 4e-4 * (d + 1), 'points outside their enclosing ellipsoid at small tolerance', q=q2)
                    # Kiefer-Wolfowitz: u concentrated on contact points, whose weighted second moment is A^-1/d:
                    # no ellipsoid containing the points can be smaller by more than the tolerance.  John's bound from
                    # the other side: shrunk by the dimension it lies in the convex hull
                    hull_ok = john(x, A2, cen2)
                    c.ok(hull_ok, 'ellipsoid is not minimal: shrunk by the dimension it leaves the convex hull', A=A2, c=cen2)
                    v1, v2 = [float(np.real(U.ellipsoid_volume(A=B))) for B in (A, A2)]
                    c.ok(abs(v1 - v2) <= 0.05 * v2, 'volume depends on the tolerance', v1=v1, v2=v2)
                    if scale == 1.0: base = (v2, cen2)
                    else:
                        want = base[0] * scale ** d
                        c.ok(abs(v2 - want) <= 1e-2 * want, 'scaled points have a scaled ellipsoid', got=v2, want=want)
                        c.eq((cen2 - shift) / scale, base[1], 'moved points have a moved centre', tol=1e-2)
                    p = x[::-1]
                    A3, cen3 = U.mvee(p, tol=1e-4)
                    c.ok(abs(float(np.real(U.ellipsoid_volume(A=A3))) - v2) <= 1e-2 * v2, 'order of points matters')
                    c.step(3)
                c.state('mvee', pts)
    return sc


def john(x, A, cen):
    """(E - c)/d inside the convex hull: support functions on a net of directions."""
    d = x.shape[1]
    S = np.linalg.inv(A)
    for v in itertools.product((-1.0, -0.4, 0.0, 0.7, 1.0), repeat=d):
        u = np.array(v)
        if not u.any(): continue
        u = u / np.ptp(x, axis=0)
        h = (x - cen).dot(u).max()
        if math.sqrt(max(u.dot(S).dot(u), 0)) / d > h * 1.02 + 1e-12: return False
    return True


# --- text and order ----------------------------------------------------------

def parse_time(s):
    days = 0
    m = re.match(r'^(\d+) days?, (.*)$', s)
    if m: days, s = int(m.group(1)), m.group(2)
    m = re.match(r'^([\d.]+) seconds$', s)
    if m: return days * 86400 + float(m.group(1)), 's'
    m = re.match(r'^(?:(\d+):)?(\d+):(\d\d)$', s)
    if not m: return None
    h, mi, se = int(m.group(1) or 0), int(m.group(2)), int(m.group(3))
    if se >= 60 or (m.group(1) is not None and mi >= 60) or (m.group(1) is not None and len(m.group(2)) != 2):
        return None
    return days * 86400 + h * 3600 + mi * 60 + se, 'm'


def sc_text(c):
    secs = [0, 0.004, 0.25, 1, 9.99, 59, 59.5, 60, 60.5, 61, 119, 599, 600, 3599, 3600, 3601, 3660, 7199.5, 36000, 86399, 86400, 86401, 86460, 90000, 90061.7, 172800, 172801, 1e6, 86400 * 400 + 1]
    secs += list(range(0, 4 * 86400, 97 if c.thorough else 997))
    for s in secs:
        for kw in ({}, {'force_m': True}, {'force_h': True}):
            with c.case('time|%r %s' % (s, sorted(kw))):
                t = U.pretty_time(s, **kw)
                p = parse_time(t)
                if c.ok(p is not None, 'unreadable time', secs=s, text=t):
                    c.ok(abs(p[0] - s) <= (0.0051 if p[1] == 's' else 1.0) and (p[1] == 's' or p[0] <= s), 'time reads back wrong', secs=s, text=t, read=p[0])
                    if kw: c.ok(p[1] == 'm', 'forced fields are missing', text=t)
                    if 'force_h' in kw and s < 86400: c.ok(t.count(':') == 2, 'forced hours are missing', text=t)
                c.step(); c.state('t', s, sorted(kw))
    for n in range(0, 7):
        for seq in itertools.product((0, 1, 2) if n > 4 else ('a', 'b', 'c', 'd'), repeat=n):
            if n == 6 and not c.thorough and seq[0] != 1: continue
            got = U.uniquify(seq)
            want = []
            for x in seq:
                if x not in want: want.append(x)
            c.ok(list(got) == want and list(U.uniquify(list(seq))) == want and list(U.uniquify(iter(seq))) == want, 'unique elements in order', seq=seq, got=got)
            c.step(); c.state('u', seq)
    # formatted values
    num = r'(-?[\d.]+)'
    mant = (1.0, 1.04, 2.5, 4.96, 7.3, 9.4, 9.96)
    cases = []
    for e in range(-6, 8):
        for f in range(-6, 8):
            for m1, m2 in itertools.product(mant, mant if c.thorough else mant[::2]):
                cases.append((m1 * 10.0 ** e, m2 * 10.0 ** f))
    cases += [(0.0, m * 10.0 ** f) for m in mant for f in range(-6, 8)]
    for v, u in cases:
        for sg in (1, -1):
            for br in (4, 1, 8):
                with c.case('uncertainty|%g %g %d' % (sg * v, u, br)):
                    t = U.format_uncertainty(sg * v, u, **({} if br == 4 else {'scinotn_break': br}))
                    m = re.match(r'^%s \\pm %s$' % (num, num), t); s = 1.0
                    if not m:
                        m = re.match(r'^\(%s \\pm %s\) \\times 10\^\{?(-?\d+)\}?$' % (num, num), t)
                        if m: s = 10.0 ** int(m.group(3))
                    if not c.ok(m is not None, 'unreadable', text=t): continue
                    rv, ru = float(m.group(1)) * s, float(m.group(2)) * s
                    c.ok(abs(rv - sg * v) <= u * (1 + 1e-9), 'value reads back outside its uncertainty', v=sg * v, u=u, text=t)
                    c.ok(abs(ru - u) <= 0.5 * u * (1 + 1e-9), 'uncertainty reads back wrong', v=sg * v, u=u, text=t)
                    d1, d2 = [len(g.split('.')[1]) if '.' in g else 0 for g in m.groups()[:2]]
                    c.ok(d1 == d2, 'value and uncertainty have different numbers of decimals', text=t)
                    if s != 1.0:
                        c.ok(max(abs(math.log10(abs(z))) for z in (v, u) if z) >= br, 'scientific notation below the break', text=t)
                    c.step()
        c.state('f', v, u)
    for v in (0.0, 1.5, -2.25, 123456.0, 0.000001):
        with c.case('exact|%g' % v):
            c.ok(float(U.format_uncertainty(v, 0)) == v and '\\pm' not in U.format_uncertainty(v, 0), 'exact number', text=U.format_uncertainty(v, 0))


def sc_misc(c):
    for n in (1, 2, 3, 10, 101):
        for s in (0.1, 1.0, 25.0):
            with c.case('compact|%d %g' % (n, s)):
                x = U.compactspace(s, n)
                c.ok(x.shape == (n,) and np.all(np.isfinite(x)) and np.all(np.diff(x) > 0), 'not increasing', x=x)
                c.eq(1 / (1 + np.exp(-x / s)), np.arange(1, n + 1) / (n + 1.0), 'not evenly spaced in the compact coordinate')
                c.eq(x, -x[::-1], 'not symmetric', tol=1e-8)
                c.step(); c.state(n, s)
    def agree(x, y, k):
        try:
            U.assert_sigfigs_equal(np.array(x), np.array(y), *(() if k is None else (k,)))
            return True
        except AssertionError:
            return False
    for k in (None, 1, 2, 3, 5):
        kk = 3 if k is None else k
        for e in (-12, -4, 0, 3, 9):
            for m in (1.0, 2.3456, 9.9):
                for sg in (1, -1):
                    x = sg * m * 10.0 ** e
                    d = 10.0 ** (e - kk)
                    with c.case('sigfigs|%s %g' % (k, x)):
                        for dd, want in ((0, True), (0.4, True), (-0.4, True), (2, False), (-2, False), (50, False)):
                            c.ok(agree([x], [x + dd * d], k) == want, 'agreement to %d figures' % kk, x=x, y=x + dd * d)
                            c.ok(agree([1.0, x, -2.0], [1.0, x + dd * d, -2.0], k) == want, 'agreement among several', x=x, y=x + dd * d)
                        c.ok(not agree([x], [-x], k), 'sign ignored', x=x)
                        c.step(); c.state(k, x)
    with c.case('qutip'):
        import qutip
        v = tuple(int(q) for q in re.findall(r'\d+', qutip.__version__)[:3])
        for req in ('3.2', '2.9', '%d.%d.%d' % v, '4.10', '4.6.99', '4.7.7', '10.0', '99', '4'):
            r = tuple(int(q) for q in req.split('.'))
            want = r <= v
            c.ok(U.check_qutip_version(req) == want, 'version test', required=req, have=v)
            m = U.get_qutip_module(req)
            c.ok((m is qutip) if want else m is None, 'module for the version', required=req)
            c.step(2)
        c.ok(U.check_qutip_version() is True, 'default version')
    with c.case('decorate'):
        log = []
        def deco(f):
            def g(self, *a, **k):
                log.append(type(self).__name__); return f(self, *a, **k)
            return g
        @U.decorate_init(deco)
        class A(object):
            def __init__(self, x=1): self.x = x
        class B(A):
            pass
        c.ok(A(3).x == 3 and B(x=4).x == 4 and log == ['A', 'B'], 'decorated construction', log=log)


def sc_differences(c):
    """Central differences of quadratics are exact gradients; of cubics they exceed them by a quarter of the squared step."""
    from qinfer.finite_difference import FiniteDifference
    HS = {1: [0.5, np.array([0.25])], 2: [0.5, 0.25, np.array([0.5, 0.125])], 3: [1.0, np.array([0.5, 2.0, 0.25])], 4: [0.5, np.array([1.0, 0.5, 0.25, 2.0])]}
    for n in (1, 2, 3, 4):
        lat = list(itertools.product((-1.0, 0.0, 2.5) if n < 4 else (-1.0, 2.5), repeat=n))
        A = np.array([[(1 + (3 * i + 5 * j) % 7) * 0.5 for j in range(n)] for i in range(n)])
        A = A + A.T; b = np.arange(1, n + 1) * 0.5; g3 = np.array([1.0, -2.0, 0.5, 3.0])[:n]
        for cubic in (False, True):
            for h in HS[n]:
                hv = np.broadcast_to(h, (n,))
                for x in lat:
                    with c.case('difference|%d %s h=%s x=%s' % (n, 'cubic' if cubic else 'quadratic', h, x)):
                        seen = []
                        def f(z):
                            seen.append(np.array(z))
                            z = np.asarray(z)
                            return float(z.dot(A).dot(z) / 2 + b.dot(z) + 7 + (g3.dot(z ** 3) if cubic else 0))
                        xv = np.array(x); keep = xv.copy()
                        h0 = np.array(h)
                        d = FiniteDifference(f, n, h=h)
                        want = A.dot(xv) + b + (3 * g3 * xv ** 2 + g3 * hv ** 2 / 4 if cubic else 0)
                        for got in (d(xv), d.central(xv), d(xv)):
                            c.ok(np.shape(got) == (n,), 'one difference per argument', got=np.shape(got))
                            c.eq(got, want, 'central difference')
                        c.ok(np.array_equal(xv, keep) and np.array_equal(h0, h), 'arguments are left alone')
                        c.ok(all(z.shape == (n,) for z in seen), 'shape of the points')
                        c.step(3); c.trace(); c.state('fd', n, cubic, str(h), x)


def sc_fidelity(c):
    """Gate fidelities and depolarizing parameters convert into each other."""
    from qinfer import rb
    for d in range(2, 18):
        for k in range(0, 65):
            with c.case('fidelity|d=%d k=%d' % (d, k)):
                q = Fraction(k, 64)                      # survives with probability q, else maximally mixed
                f = q + (1 - q) / d
                c.eq(rb.F(float(q), d), float(f), 'fidelity of a depolarizing channel', tol=1e-12)
                c.eq(rb.p(float(f), d), float(q), 'depolarizing parameter', tol=1e-12)
                if d == 2:
                    c.eq(rb.F(float(q)), float(f), 'fidelity of a qubit channel', tol=1e-12)
                    c.eq(rb.p(float(f)), float(q), 'depolarizing parameter of a qubit channel', tol=1e-12)
                c.step(2); c.state('fid', d, k)
        with c.case('fidelities|d=%d' % d):
            a = np.arange(0, 65) / 64.0
            c.eq(rb.p(rb.F(a, d), d), a, 'arrays', tol=1e-12)
            c.eq(rb.F(rb.p(a, d), d), a, 'arrays', tol=1e-12)
            c.trace()


SCENARIOS = [('fidelity', sc_fidelity), ('differences', sc_differences), ('simplex', sc_simplex), ('roots', sc_roots), ('products', sc_products), ('counts', sc_counts), ('samples', sc_samples),
             ('structs', sc_structs), ('ellipsoids', sc_ellipsoids), ('mvee0', sc_mvee(0)), ('mvee1', sc_mvee(1)), ('mvee2', sc_mvee(2)), ('mvee3', sc_mvee(3)), ('text', sc_text), ('misc', sc_misc)]

from . import bulk, edge  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b23)]
BOUNDS += ' Edge configurations: parameter scales from 1e-12 to 1e9, deep retries, objects used before, very many shots, engines, rows or clusters.'
SCENARIOS = SCENARIOS + [('edge', edge.e23)]

from . import forms  # noqa: E402
BOUNDS += ' Arguments of equal values in every memory layout: column-major, strided, reversed, padded, read-only, broadcast, smaller integers.'
SCENARIOS = SCENARIOS + forms.fscenario(forms.helpers)
