"""C22: random states and measurements in tomography are always physical."""
import itertools, math
import numpy as np
import qinfer as qi
import qutip as qt
from qinfer import tomography as T
from .. import zoo, core, rng
from ..util import *
from .c21 import PAULIS, refvec, unitaries, states

BOUNDS = ('Every answer of a two-point normal quadrature (and every sign pattern over generic magnitudes) for Ginibre, real Ginibre, channel, '
          'fiducial-average and product priors in dimensions 2 to 4 (channels on 2 and 3), whole laws compared with enumerations of the '
          'defining ensembles, means of fiducial-average priors over fine grids including pure, rank-deficient and maximally mixed means; '
          'all answers of the Pauli, stabilizer, product and best-of-k heuristics in several bases, plain, multi-shot and diffusive models.')
ASSUMPTIONS = ['stabilizer property checked in prime dimensions (2, 3, 5)', 'priors of channels assume the answers do not make the reduced operator singular']


class Var(object):
    """Signs of the normals are the choices; magnitudes are generic and differ from draw to draw."""
    def __init__(self, phase=0.0):
        self.k, self.phase = -1, phase

    def reset(self):
        self.k = -1

    def _g(self):
        m = 0.35 + 1.4 * ((math.sin((self.k + 1) * 12.9898 + self.phase * 78.233) * 43758.5453) % 1.0)
        return ((-m, 0.5), (m, 0.5))

    def __len__(self):
        self.k += 1
        return 2

    def __iter__(self):
        return iter(self._g())

    def __getitem__(self, i):
        return self._g()[i]


def mat(b, v):
    return np.einsum('a,aij->ij', v, np.asarray(b.data))


def physical(c, b, v, rank=None, exact=False):
    d = int(b.dim)
    if not c.ok(v.shape == (d * d,) and np.all(np.isfinite(v)) and not np.iscomplexobj(v), 'a finite real vector', got=v):
        return None
    R = mat(b, v)
    w = np.linalg.eigvalsh((R + R.conj().T) / 2)
    c.ok(abs(np.trace(R).real - 1) < 1e-9, 'trace of a sampled state', got=np.trace(R), v=v)
    c.ok(w.min() > -1e-9, 'a sampled state is not positive', got=w, v=v)
    if rank is not None:
        r = int(np.sum(w > 1e-11))
        c.ok(r <= rank and (not exact or r == rank), 'rank of a sampled state', got=r, want=rank, w=w)
    return R


def key(v):
    return tuple(round(float(x), 7) + 0.0 for x in np.ravel(v))


def close_law(c, law, want, msg):
    """law, want: dict key -> prob (keys up to rounding)."""
    want = dict(want)
    for k, p in law.items():
        q = k if k in want else next((q for q in want if max(abs(a - b) for a, b in zip(q, k)) < 2e-6), None)
        if q is None:
            c.fail(msg + ': a sample outside the ensemble', got=k)
            return
        want[q] -= p
    c.ok(all(abs(v) < 1e-9 for v in want.values()), msg, left={k: v for k, v in want.items() if abs(v) > 1e-9})


def ensemble(b, d, rank, real=False, zgrid=rng.GH2):
    n = d * rank * (1 if real else 2)
    D = np.asarray(b.data)
    out = {}
    for zs in itertools.product(zgrid, repeat=n):
        z = np.array([x for x, _ in zs]); p = float(np.prod([q for _, q in zs]))
        Xm = z.reshape(d, rank) if real else (z[:n // 2] + 1j * z[n // 2:]).reshape(d, rank)
        M = Xm.dot(Xm.conj().T)
        t = np.trace(M).real
        if t < 1e-12:
            continue
        k = key(refvec(D, M / t))
        out[k] = out.get(k, 0) + p
    return out


def some_bases(d):
    g, p, tp = T.gell_mann_basis, T.pauli_basis, T.tensor_product_basis
    if d == 2: return [('gm', g(2)), ('pauli', p(1))]
    if d == 3: return [('gm', g(3))]
    if d == 4: return [('gm', g(4)), ('pauli', p(2)), ('2x2', tp(g(2), g(2)))]
    if d == 6: return [('2x3', tp(g(2), g(3)))]
    return [('gm', g(d))]


def sc_ginibre(c):
    confs = []
    for d, ranks in ((2, (None, 1, 2)), (3, (1, 2)), (4, (1,))):
        for r in ranks:
            confs.append((T.GinibreDistribution, False, d, r))
    for d, ranks in ((2, (None, 1, 2)), (3, (None, 1, 2, 3)), (4, (1, 2))):
        for r in ranks:
            confs.append((T.GinibreReditDistribution, True, d, r))
    for cls, real, d, r in confs:
        for bn, b in some_bases(d):
            with c.case('law|%s d=%d rank=%s %s' % (cls.__name__, d, r, bn)):
                rank = d if r is None else r
                n = d * rank * (1 if real else 2)
                if n >= 12 and bn != 'gm':
                    continue
                mk_ = lambda: (cls(b) if r is None else cls(b, rank=r))
                dist = mk_()
                c.ok(int(dist.n_rvs) == d * d and int(dist.dim) == d and dist.basis is b, 'dimensions', got=(dist.n_rvs, dist.dim))
                law, D = {}, np.asarray(b.data)
                for x, p, ch in c.explore(lambda: mk_().sample()):
                    if not np.all(np.isfinite(x)):
                        continue
                    c.ok(x.shape == (1, d * d), 'shape of one sample', got=x.shape)
                    R = physical(c, b, x[0], rank)
                    if real and R is not None:
                        c.ok(np.abs(R.imag).max() < 1e-9, 'a rebit state has a complex entry', got=R)
                    law[key(x)] = law.get(key(x), 0) + p
                close_law(c, law, ensemble(b, d, rank, real), 'law of the ensemble')
                for k, p in law.items():
                    c.state(cls.__name__, d, r, bn, k)
    # generic magnitudes: exact rank
    for cls, real in ((T.GinibreDistribution, False), (T.GinibreReditDistribution, True)):
        for d in (2, 3, 4, 6):
            for bn, b in some_bases(d):
                for r in [None] + list(range(1, d + 1)):
                    for ph in (0.0, 0.37):
                        with c.case('rank|%s d=%d r=%s %s' % (cls.__name__, d, r, bn)):
                            V = Var(ph)
                            def run():
                                V.reset()
                                return cls(b, rank=r).sample(2)
                            for x, p, ch in c.explore(run, zgrid=V, dev_bound=1 if not c.thorough else 2):
                                c.ok(x.shape == (2, d * d), 'shape of two samples', got=x.shape)
                                for row in x:
                                    R = physical(c, b, row, d if r is None else r, exact=True)
                                    if real:
                                        c.ok(np.abs(R.imag).max() < 1e-9, 'a rebit state has a complex entry')
                                c.ok(np.abs(x[0] - x[1]).max() > 1e-6, 'two samples are the same draw', got=x)
                                c.state(cls.__name__, d, r, bn, ph, ch)
    with c.case('too much rank'):
        for b in (T.gell_mann_basis(2), 2):
            try:
                T.GinibreDistribution(b, rank=3)
                c.fail('rank above the dimension accepted')
            except ValueError:
                pass
    with c.case('integer basis'):
        for cls in (T.GinibreDistribution, T.GinibreReditDistribution):
            for d in (2, 3):
                with core.controlled(core.cycle_stream(3)):
                    a = cls(d).sample(3)
                with core.controlled(core.cycle_stream(3)):
                    e = cls(T.gell_mann_basis(d)).sample(3)
                c.eq(a, e, 'an integer stands for the Gell-Mann basis')
    with c.case('independent samples'):
        b = T.pauli_basis(1)
        one = ensemble(b, 2, 1, True)
        law = {}
        for x, p, ch in c.explore(lambda: T.GinibreReditDistribution(b, rank=1).sample(3)):
            law[key(x)] = law.get(key(x), 0) + p
        want = {}
        for (k1, p1), (k2, p2), (k3, p3) in itertools.product(one.items(), repeat=3):
            want[k1 + k2 + k3] = want.get(k1 + k2 + k3, 0) + p1 * p2 * p3
        close_law(c, law, want, 'samples are independent')


def reduced(b, v, d):
    """Both partial traces of a bipartite d x d operator."""
    R = mat(b, v).reshape(d, d, d, d)
    return np.einsum('ijkj->ik', R), np.einsum('ijil->jl', R)


def sc_channels(c):
    for d in (2, 3):
        for bn, b0 in some_bases(d) + [('int', d)]:
            for tp in (True, False):
                for rank in ((None, 1, 2, 3, 4) if d == 2 else (None, 1, 2)):
                    for ph in (0.0, 0.21, 0.43) if d == 2 else (0.1,):
                        if d == 3 and bn == 'int':
                            continue
                        with c.case('choi|d=%d %s tp=%s rank=%s %s' % (d, bn, tp, rank, ph)):
                            V = Var(ph)
                            dist = T.BCSZChoiDistribution(b0, rank=rank, enforce_tp=tp)
                            B = dist.basis
                            c.ok(int(dist.n_rvs) == d ** 4 and int(dist.dim) == d * d, 'dimensions')
                            def run():
                                V.reset()
                                return dist.sample()
                            db = None if (d == 2 and rank == 1 and ph == 0.0) else (2 if d == 2 and (rank or 4) < 4 else 1)
                            worst = 0.0
                            for x, p, ch in c.explore(run, zgrid=V, dev_bound=db):
                                v = x[0]
                                physical(c, B, v, rank if rank else d * d)
                                A, Bm = reduced(B, v, d)
                                J = B.modelparams_to_state(v)
                                c.ok(J.type == 'super' and J.superrep == 'choi', 'samples are Choi states', got=(J.type, J.superrep))
                                if tp:
                                    c.ok(np.abs(A - np.eye(d) / d).max() < 1e-8 or np.abs(Bm - np.eye(d) / d).max() < 1e-8, 'reduced state of a trace preserving channel', got=(A, Bm))
                                    if len(ch) % 3 == 0 or sum(ch) < 2:
                                        S = qt.to_super(J * d)
                                        for s in states(d)[::7]:
                                            dims = J.dims[0][0]
                                            o = qt.vector_to_operator(S * qt.operator_to_vector(qt.Qobj(s, dims=[dims, dims]))).full()
                                            c.ok(abs(np.trace(o).real - 1) < 1e-8, 'the channel does not preserve the trace', got=np.trace(o))
                                            c.ok(np.linalg.eigvalsh((o + o.conj().T) / 2).min() > -1e-8, 'the channel does not preserve positivity')
                                worst = max(worst, min(np.abs(A - np.eye(d) / d).max(), np.abs(Bm - np.eye(d) / d).max()))
                                c.state(d, bn, tp, rank, ph, ch)
                            c.ok(tp or worst > 1e-3, 'channels are trace preserving although this was not asked for')
    with c.case('not always trace preserving'):
        dist = T.BCSZChoiDistribution(2, enforce_tp=False)
        worst = 0
        for k in range(4):
            with core.controlled(core.cycle_stream(k)):
                A, Bm = reduced(dist.basis, dist.sample()[0], 2)
            worst = max(worst, min(np.abs(A - np.eye(2) / 2).max(), np.abs(Bm - np.eye(2) / 2).max()))
        c.ok(worst > 1e-3, 'channels are trace preserving although this was not asked for')


class Basis1(T.DensityOperatorDistribution):
    """Uniform over an orthonormal basis: mean is maximally mixed."""
    def __init__(self, basis, U=None):
        T.DensityOperatorDistribution.__init__(self, basis)
        self.U = np.eye(int(basis.dim)) if U is None else U

    def _sample_dm(self):
        k = np.random.choice(int(self.dim))
        v = self.U[:, k]
        return qt.Qobj(np.outer(v, v.conj()), dims=[self.basis.dims, self.basis.dims])


class Mixed(Basis1):
    def _sample_dm(self):
        return qt.Qobj(np.eye(int(self.dim)) / int(self.dim), dims=[self.basis.dims, self.basis.dims])


def means(d):
    ws = {2: [(1, 0), (0.5, 0.5), (0.75, 0.25), (0.9, 0.1), (0.999, 0.001), (0.51, 0.49)],
          3: [(1, 0, 0), (0.5, 0.5, 0), (1 / 3., 1 / 3., 1 / 3.), (0.5, 0.25, 0.25), (0.7, 0.2, 0.1), (0.4, 0.35, 0.25)],
          4: [(1, 0, 0, 0), (0.25,) * 4, (0.4, 0.3, 0.2, 0.1), (0.5, 0.5, 0, 0), (0.3, 0.3, 0.2, 0.2)]}[d]
    for w in ws:
        for u in unitaries(d):
            M = u.dot(np.diag(w)).dot(u.conj().T)
            yield w, (M + M.conj().T) / 2


def sc_gadfli4(c):
    sc_gadfli(c, (4,), False)


def sc_gadfli3(c):
    sc_gadfli(c, (3,), False)


def sc_gadfli(c, ds=(2,), rest=True):
    for d in ds:
        for bn, b in some_bases(d):
            D = np.asarray(b.data)
            for n, (w, M) in enumerate(means(d)):
                if d == 4 and n % 2 and not c.thorough:
                    continue
                q = qt.Qobj(M, dims=[b.dims, b.dims])
                with c.case('mean|d=%d %s %s #%d' % (d, bn, w, n)):
                    for fid in (Basis1(b, unitaries(d)[1]), Mixed(b)):
                        if d == 4 and isinstance(fid, Mixed):
                            continue
                        dist = T.GADFLIDistribution(fid, q)
                        n_u = 100
                        acc = np.zeros(d * d)
                        tot = 0
                        for x, p, ch in c.explore(lambda: dist.sample(), n_u=n_u):
                            c.ok(x.shape == (1, d * d), 'shape', got=x.shape)
                            physical(c, b, x[0])
                            acc += p * x[0]; tot += p
                        c.ok(np.abs(acc - refvec(D, M)).max() < 6e-3, 'mean of the prior', got=acc, want=refvec(D, M))
                        c.state(d, bn, w, n, type(fid).__name__)
                    # generic fiducials
                    for fid in (T.GinibreDistribution(b), T.GinibreDistribution(b, rank=1), T.GinibreReditDistribution(b)):
                        dist = T.GADFLIDistribution(fid, q)
                        c.ok(int(dist.n_rvs) == d * d and dist.basis is b, 'dimensions')
                        for seed in range(3):
                            with core.controlled(core.cycle_stream(seed * 5 + n)):
                                x = dist.sample(4)
                            for row in x:
                                physical(c, b, row)
                            c.step(); c.trace()
                        if w[-1] == 0 or w[0] == 1:
                            with core.controlled(core.cycle_stream(n)):
                                x = dist.sample(2)
                            for row in x:
                                c.ok(np.abs(row - refvec(D, M)).max() < 1e-8, 'a mean on the boundary is the only state with that mean along the segment', got=row, want=refvec(D, M))
    if not rest:
        return
    # fiducial dependence is linear: same answers, other fiducial
    for d in (2, 3):
        b = T.gell_mann_basis(d)
        with c.case('linear|%d' % d):
            w, M = list(means(d))[12]
            q = qt.Qobj(M)
            for seed in range(8):
                out = []
                for f in (np.eye(d) / d, states(d)[3], states(d)[-4]):
                    class F(T.DensityOperatorDistribution):
                        def _sample_dm(self): return qt.Qobj(f)
                    with core.controlled(core.cycle_stream(seed)):
                        out.append(T.GADFLIDistribution(F(b), q).sample()[0] )
                fs = [refvec(b.data, f) for f in (np.eye(d) / d, states(d)[3], states(d)[-4])]
                # out_i = (1-e) f_i + e r: differences are proportional with a common factor in [0, 1]
                k1 = np.dot(out[1] - out[0], fs[1] - fs[0]) / np.dot(fs[1] - fs[0], fs[1] - fs[0])
                k2 = np.dot(out[2] - out[0], fs[2] - fs[0]) / np.dot(fs[2] - fs[0], fs[2] - fs[0])
                c.ok(abs(k1 - k2) < 1e-9 and -1e-12 <= k1 <= 1 + 1e-12, 'common weight of the fiducial state', got=(k1, k2))
                c.eq(out[1] - out[0], k1 * (fs[1] - fs[0]), 'convex mixture with the fiducial state')
                c.step()
    # channel means
    with c.case('channels'):
        b0 = T.pauli_basis(1)
        fid = T.BCSZChoiDistribution(b0)
        B = fid.basis
        D = np.asarray(B.data)
        for ps in ((0.4, 0.3, 0.2, 0.1), (1, 0, 0, 0), (0.25,) * 4, (0.7, 0.1, 0.1, 0.1)):
            S = sum(p * qt.to_super(qt.Qobj(P)) for p, P in zip(ps, PAULIS))
            for mean in (S, qt.to_choi(S).unit()):
                dist = T.GADFLIDistribution(fid, mean)
                for seed in range(4):
                    with core.controlled(core.cycle_stream(seed)):
                        x = dist.sample(2)
                    for row in x:
                        physical(c, B, row)
                        A, Bm = reduced(B, row, 2)
                        c.ok(min(np.abs(A - np.eye(2) / 2).max(), np.abs(Bm - np.eye(2) / 2).max()) < 1e-8, 'not trace preserving', got=(A, Bm))
                    c.step()
                class F(T.DensityOperatorDistribution):
                    def _sample_dm(self):
                        q = qt.to_choi(sum(0.25 * qt.to_super(qt.Qobj(P)) for P in PAULIS)).unit()
                        return q
                acc = 0
                for x, p, ch in c.explore(lambda: T.GADFLIDistribution(F(B), mean).sample()[0], n_u=200):
                    acc = acc + p * x
                J = qt.to_choi(S).unit().full()
                c.ok(np.abs(acc - refvec(D, J)).max() < 4e-3, 'mean of a channel prior', got=acc, want=refvec(D, J))
                c.state('channel', ps)
    with c.case('unphysical mean'):
        for bad in (np.diag([1.2, -0.2]), np.diag([1.001, -0.001])):
            try:
                T.GADFLIDistribution(T.GinibreDistribution(2), qt.Qobj(bad))
                c.fail('a mean with a negative eigenvalue was accepted', bad=bad)
            except ValueError:
                pass


def sc_products(c):
    g, p = T.gell_mann_basis, T.pauli_basis
    R = T.GinibreReditDistribution
    G = T.GinibreDistribution
    with c.case('product law'):
        for fs in ([R(p(1), rank=1), R(g(2), rank=1)], [R(g(2)), R(g(2), rank=1)], [G(p(1), rank=1), R(g(2), rank=1)], [R(g(2), rank=1)] * 3, [R(g(2), rank=1), R(g(3), rank=1)],
                   [G(p(1), rank=1)] * 2):
            dist = T.TensorProductDistribution(fs)
            ds = [int(f.dim) for f in fs]
            c.ok(list(dist.basis.dims) == ds and int(dist.n_rvs) == int(np.prod(ds)) ** 2, 'dimensions', got=dist.basis.dims)
            law = {}
            for x, pr, ch in c.explore(lambda: dist.sample()):
                physical(c, dist.basis, x[0])
                law[key(x)] = law.get(key(x), 0) + pr
            parts = [ensemble(f.basis, int(f.dim), f._rank or int(f.dim), isinstance(f, R)) for f in fs]
            want = {}
            for combo in itertools.product(*[q.items() for q in parts]):
                k = np.ones(1); pr = 1.0
                for kk, pp in combo:
                    k = np.kron(k, kk); pr *= pp
                want[key(k)] = want.get(key(k), 0) + pr
            close_law(c, law, want, 'law of a product of states')
            c.state('product', tuple(ds))
    with c.case('product samples'):
        q = qt.Qobj(0.8 * states(2)[0] + 0.1 * np.eye(2))
        for fs in ([G(p(1)), G(g(3))], [G(p(2), rank=1), G(p(1))], [T.GADFLIDistribution(G(p(1)), q), G(p(1), rank=1)], (G(p(1)), G(p(1)), G(p(1))),
                   [T.TensorProductDistribution([G(p(1)), G(g(2))]), G(g(2))]):
            dist = T.TensorProductDistribution(fs)
            ds = [int(f.dim) for f in fs]
            for seed in range(10 if not c.thorough else 60):
                with core.controlled(core.cycle_stream(seed, zgrid=((-1.3, 1), (-0.41, 1), (0.23, 1), (0.9, 1), (1.6, 1)))):
                    x = dist.sample(3)
                c.ok(x.shape == (3, int(np.prod(ds)) ** 2), 'shape', got=x.shape)
                for row in x:
                    M = physical(c, dist.basis, row)
                    if not np.all(np.isfinite(row)):
                        continue
                    k = np.eye(1)
                    t = M.reshape(ds + ds)
                    for i in range(len(ds)):
                        a = list(range(len(ds))); bb = list(range(len(ds)))
                        bb[i] = len(ds)
                        k = np.kron(k, np.einsum(t, a + bb, [i, len(ds)]))
                    c.ok(np.abs(k - M).max() < 1e-8, 'not a product state', got=M)
                c.step(); c.trace(); c.state('samples', tuple(ds), seed)
    with c.case('as priors'):
        for dist in (G(p(1)), T.TensorProductDistribution([G(p(1)), G(p(1))]), T.GADFLIDistribution(G(p(1)), qt.Qobj(0.5 * np.eye(2) + 0.2 * PAULIS[1]))):
            with core.controlled(core.cycle_stream(5)):
                m = T.TomographyModel(dist.basis)
                u = qi.SMCUpdater(m, 6, dist)
                for row in u.particle_locations:
                    physical(c, dist.basis, row)
                u2 = qi.SMCUpdater(T.DiffusiveTomographyModel(dist.basis), 6, qi.ProductDistribution(dist, qi.UniformDistribution([0.1, 0.2])))
                for row in u2.particle_locations:
                    physical(c, dist.basis, row[:-1])
                    c.ok(0.1 <= row[-1] <= 0.2, 'rate')
            c.step()


def models_for(b):
    yield 'plain', T.TomographyModel(b), {}, lambda rows: rows
    yield 'diffusive', T.DiffusiveTomographyModel(b), {'t': 2.5}, lambda rows: [np.concatenate([r, [0.1]]) for r in rows]
    yield 'shots', qi.BinomialModel(T.TomographyModel(b)), {'n_meas': 7}, lambda rows: rows


def fits(c, u, e, other):
    m = u.model
    c.ok(e.shape == (1,) and e.dtype == np.dtype(m.expparams_dtype), 'experiment type', got=(e.shape, e.dtype))
    for k, v in other.items():
        c.ok(e[k][0] == v, 'further fields', field=k, got=e[k])
    L = m.likelihood(np.array([0, 1]), u.particle_locations, e)
    c.ok(np.all(L >= -1e-12) and np.all(L <= 1 + 1e-12), 'likelihood of the measurement', got=L)


def hw_states(d):
    """Eigenprojectors of the non-identity clock-and-shift operators (prime d)."""
    w = np.exp(2j * np.pi / d)
    Xm = np.roll(np.eye(d), 1, axis=0); Zm = np.diag(w ** np.arange(d))
    out = []
    for i in range(d):
        for j in range(d):
            if i == j == 0:
                continue
            M = np.linalg.matrix_power(Xm, i).dot(np.linalg.matrix_power(Zm, j))
            vals, vecs = np.linalg.eig(M)
            for k in range(d):
                v = vecs[:, k] / np.linalg.norm(vecs[:, k])
                P = np.outer(v, v.conj())
                if not any(np.abs(P - q).max() < 1e-7 for q in out):
                    out.append(P)
    return out


def sc_heuristics(c):
    for d in (2, 4):
        for bn, b in some_bases(d):
            D = np.asarray(b.data)
            nq = {2: 1, 4: 2}[d]
            for mn, m, other, wrap in models_for(b):
                for given in (None, b, 'other'):
                    with c.case('pauli|d=%d %s %s %s' % (d, bn, mn, given if given is None or isinstance(given, str) else 'same')):
                        rows = wrap([refvec(D, s) for s in states(d)[:4]])
                        u = mk(m, rows)
                        hb = None if given is None else (T.gell_mann_basis(d) if given is not None and isinstance(given, str) else b)
                        DD = D if hb is None else np.asarray(hb.data)
                        h = T.RandomPauliHeuristic(u, basis=hb, other_fields=other)
                        law = {}
                        for e, p, ch in c.explore(lambda: h()):
                            fits(c, u, e, other) if not isinstance(given, str) else None
                            k = key(e['meas'][0]); law[k] = law.get(k, 0) + p
                        want = {}
                        for combo in itertools.product(range(4), repeat=nq):
                            if not any(combo):
                                continue
                            M = np.eye(1)
                            for i in combo:
                                M = np.kron(M, PAULIS[i])
                            want[key(refvec(DD, (np.eye(d) + M) / 2))] = 1.0 / (4 ** nq - 1)
                        close_law(c, law, want, 'uniform over the Pauli measurements')
                        c.state('pauli', d, bn, mn, str(given))
    with c.case('pauli only for qubits'):
        b = T.gell_mann_basis(3)
        u = mk(T.TomographyModel(b), [refvec(b.data, s) for s in states(3)[:3]])
        try:
            T.RandomPauliHeuristic(u)
            c.fail('a Pauli heuristic for a qutrit')
        except ValueError:
            pass
    for d in (2, 3, 4, 5):
        for bn, b in some_bases(d):
            D = np.asarray(b.data)
            for mn, m, other, wrap in models_for(b):
                with c.case('stabilizer|d=%d %s %s' % (d, bn, mn)):
                    rows = wrap([refvec(D, s) for s in states(d)[:4]])
                    u = mk(m, rows)
                    h = T.RandomStabilizerStateHeuristic(u, other_fields=other)
                    S = hw_states(d) if d in (2, 3, 5) else None
                    seen = set()
                    tot = 0
                    for e, p, ch in c.explore(lambda: h()):
                        fits(c, u, e, other)
                        P = physical(c, b, e['meas'][0], 1, exact=True)
                        tot += p
                        if S is not None and P is not None:
                            hit = [k for k, q in enumerate(S) if np.abs(P - q).max() < 1e-6]
                            if c.ok(hit, 'not a stabilizer state', got=P):
                                seen.add(hit[0])
                    c.ok(abs(tot - 1) < 1e-9, 'total probability')
                    if S is not None:
                        c.ok(len(seen) == d * (d + 1), 'stabilizer states which are never measured', got=len(seen), want=d * (d + 1))
                    c.state('stab', d, bn, mn)
    for d in (2, 3, 4):
        with c.case('clock and shift|%d' % d):
            for f in (T.heisenberg_weyl_operators, T.models.heisenberg_weyl_operators, T.expdesign.heisenberg_weyl_operators):
                ops = [o.full() for o in f(d)]
                c.ok(len(ops) == d * d, 'number of operators')
                G = np.array([[abs(np.trace(a.conj().T.dot(e))) / d for e in ops] for a in ops])
                c.eq(G, np.eye(d * d), 'operators are orthogonal unitaries', tol=1e-9)
                for a in ops:
                    c.eq(a.dot(a.conj().T), np.eye(d), 'unitary', tol=1e-9)
                c.step()


def sc_process(c):
    for d in (2, 3):
        for bn, b0 in some_bases(d):
            fid = T.BCSZChoiDistribution(b0)
            B = fid.basis
            D = np.asarray(B.data)
            rows = []
            for k in range(3):
                with core.controlled(core.cycle_stream(k)):
                    rows.append(fid.sample()[0])
            confs = [(T.RandomStabilizerStateHeuristic, T.RandomStabilizerStateHeuristic)]
            if d == 2:
                confs += [(T.RandomPauliHeuristic, T.RandomPauliHeuristic), (T.RandomStabilizerStateHeuristic, T.RandomPauliHeuristic)]
            for ph, mh in confs:
                for mn, m, other, wrap in models_for(B):
                    with c.case('process|d=%d %s %s %s %s' % (d, bn, ph.__name__, mh.__name__, mn)):
                        u = mk(m, wrap(rows))
                        h = T.ProductHeuristic(u, b0, ph, mh, other_fields=other)
                        law = {}
                        for e, p, ch in c.explore(lambda: h(), max_runs=20000):
                            fits(c, u, e, other)
                            M = mat(B, e['meas'][0])
                            c.ok(abs(np.trace(M).real - d) < 1e-6, 'normalisation of the measurement', got=np.trace(M))
                            law[key(e['meas'][0])] = law.get(key(e['meas'][0]), 0) + p
                        def parts(hc):
                            out = {}
                            ub = mk(T.TomographyModel(b0), [refvec(np.asarray(b0.data), s) for s in states(d)[:3]])
                            hh = hc(ub)
                            for e, p, ch in core.explore(lambda: hh()):
                                k = key(e['meas'][0]); out[k] = out.get(k, 0) + p
                            return out
                        want = {}
                        for (k1, p1), (k2, p2) in itertools.product(parts(ph).items(), parts(mh).items()):
                            M = d * np.kron(mat(b0, np.array(k1)), mat(b0, np.array(k2)))
                            k = key(refvec(D, M)); want[k] = want.get(k, 0) + p1 * p2
                        close_law(c, law, want, 'independent preparations and measurements')
                        c.state(d, bn, ph.__name__, mh.__name__, mn)
    # complementary measurements of one preparation exhaust the probability
    with c.case('complement'):
        b0 = T.pauli_basis(1)
        fid = T.BCSZChoiDistribution(b0)
        B = fid.basis
        m = T.TomographyModel(B)
        with core.controlled(core.cycle_stream(3)):
            x = fid.sample(6)
        for r in states(2)[:6]:
            for e in states(2)[:5]:
                ep = np.zeros(2, dtype=m.expparams_dtype)
                ep['meas'][0] = refvec(B.data, 2 * np.kron(r, e)); ep['meas'][1] = refvec(B.data, 2 * np.kron(r, np.eye(2) - e))
                L = m.likelihood(np.array([1]), x, ep)[0]
                c.eq(L.sum(axis=1), np.ones(len(x)), 'probabilities of an effect and its complement', tol=1e-8)
                c.step()


def sc_best(c):
    b = T.pauli_basis(1)
    D = np.asarray(b.data)
    rowsets = [[0, 1, 2], [3, 7, 9], [0, 0, 1, 5, 11], [4, 8, 2]]
    for mn, m, other, wrap in models_for(b):
        for rs in rowsets:
            for k in (1, 2, 3):
                for wt in (None, 'skew'):
                    for hc in (T.RandomPauliHeuristic, T.RandomStabilizerStateHeuristic):
                        with c.case('best|%s %s k=%d %s %s' % (mn, rs, k, wt, hc.__name__)):
                            if k == 3 and hc is T.RandomStabilizerStateHeuristic:
                                continue
                            S = states(2)
                            rows = wrap([refvec(D, S[i]) for i in rs])
                            if mn == 'diffusive':
                                for i, r in enumerate(rows):
                                    r[-1] = 0.1 + i
                            u = mk(m, rows, weights=None if wt is None else norm_w([1.0 + 2 * i for i in range(len(rows))]))
                            log = []
                            base = hc(u, other_fields=other)
                            class H(object):
                                def __call__(self):
                                    e = base(); log.append(e.copy()); return e
                            h = T.BestOfKMetaheuristic(u, H(), k=k, other_fields=other)
                            w = np.asarray(u.particle_weights); x = np.asarray(u.particle_locations)[:, :4]
                            mu = w.dot(x)
                            C = np.einsum('n,ni,nj->ij', w, x - mu, x - mu)
                            def run():
                                del log[:]
                                return h()
                            for e, p, ch in c.explore(run):
                                fits(c, u, e, other)
                                c.ok(len(log) == k, 'number of candidates', got=len(log))
                                vals = [float(q['meas'][0].dot(C).dot(q['meas'][0])) for q in log]
                                got = float(e['meas'][0].dot(C).dot(e['meas'][0]))
                                c.ok(any(np.abs(e['meas'] - q['meas']).max() < 1e-12 for q in log), 'not one of the candidates', got=e)
                                c.ok(got >= max(vals) - 1e-9, 'not the best candidate', got=got, vals=vals)
                                c.state(mn, rs, k, wt, hc.__name__, ch)


SCENARIOS = [('ginibre', sc_ginibre), ('channels', sc_channels), ('gadfli', sc_gadfli), ('gadfli3', sc_gadfli3), ('gadfli4', sc_gadfli4), ('products', sc_products),
             ('heuristics', sc_heuristics), ('process', sc_process), ('best', sc_best)]

from . import bulk, edge  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b22)]
BOUNDS += ' Edge configurations: posterior scales to 1e-5, three qubits, prior means next to the boundary and to the centre (partly fixed seed).'
SCENARIOS = SCENARIOS + [('edge', edge.e22)]

from . import edge2  # noqa: E402
BOUNDS += ' Further edge configurations: long histories, answers at cell boundaries, near ties, numbers of many digits.'
SCENARIOS = SCENARIOS + [('edge2', edge2.f22)]
