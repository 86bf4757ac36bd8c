"""C21: tomography bases and models represent quantum states and the Born rule exactly."""
import itertools, math
import numpy as np
import qinfer as qi
import qutip as qt
from qinfer import tomography as T
from .. import zoo, core, rng
from ..util import *

BOUNDS = ('Every shipped basis up to dimension 8 and every product of up to three of them up to dimension 12, conversions of whole lattices '
          'of Hermitian matrices (all 2x2 and 3x3 matrices with entries on a lattice, conjugated diagonal lattices in dimensions 4, 6 and 8), '
          'truncation judged by the defining identities of the positive part, the Born rule for every state and effect of the lattices, '
          'several experiments at once, diffusion for every answer of a quadrature, histories of measurement, update and resampling.')
ASSUMPTIONS = ['matrix entries are of order one; eigenvalues below 1e-9 count as zero',
               'the legacy module (not imported by the package, its models are abstract) is not covered']

X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]])
Z = np.diag([1.0 + 0j, -1])
I2 = np.eye(2, dtype=complex)
PAULIS = [I2, X, Y, Z]


def bases(big=True):
    B = []
    for d in range(1, 9):
        B.append(('gm%d' % d, T.gell_mann_basis(d), [d]))
    for n in (1, 2, 3):
        B.append(('pauli%d' % n, T.pauli_basis(n), [2] * n))
    g, p, tp = T.gell_mann_basis, T.pauli_basis, T.tensor_product_basis
    for ns in [(2,), (2, 2), (2, 3), (3, 2), (2, 4), (4, 2), (2, 2, 2), (3, 3), (2, 3, 2), (1, 3), (5, 2)]:
        B.append(('gm' + 'x'.join(map(str, ns)), tp(*[g(n) for n in ns]), list(ns)))
    B.append(('pauli x gm3', tp(p(1), g(3)), [2, 3]))
    B.append(('gm3 x pauli', tp(g(3), p(1)), [3, 2]))
    B.append(('pauli2 x gm2', tp(p(2), g(2)), [2, 2, 2]))
    B.append(('nested', tp(tp(g(2), p(1)), g(3)), [2, 2, 3]))
    return B


def sc_bases(c):
    for name, b, dims in bases():
        with c.case('basis|%s' % name):
            d = int(np.prod(dims))
            D = np.asarray(b.data)
            c.ok(D.shape == (d * d, d, d), 'shape', got=D.shape)
            c.ok(int(b.dim) == d and list(b.dims) == dims and len(b) == d * d, 'dimensions', got=(b.dim, b.dims, len(b)))
            c.eq(D, np.conj(np.transpose(D, (0, 2, 1))), 'elements are Hermitian', tol=1e-12)
            G = np.einsum('aij,bij->ab', D.conj(), D)
            c.eq(G, np.eye(d * d), 'elements are orthonormal', tol=1e-10)
            c.eq(D[0], np.eye(d) / math.sqrt(d), 'first element is proportional to the identity', tol=1e-12)
            c.eq(np.einsum('aii->a', D)[1:], np.zeros(d * d - 1), 'other elements are traceless', tol=1e-10)
            c.eq(np.asarray(b.flat()), D.reshape(d * d, d * d), 'flattened basis', tol=1e-12)
            c.ok(len(b.labels) == d * d and len(set(b.labels)) == d * d, 'one distinct label for each element', got=len(set(b.labels)))
            els = list(b)
            c.ok(len(els) == d * d, 'iteration')
            for k in sorted(set([0, 1, d * d // 2, d * d - 1]) & set(range(d * d))):
                for e in (els[k], b[k], b[[k]][0]):
                    c.ok(e.dims == [dims, dims], 'dimensions of an element', got=e.dims)
                    c.eq(e.full(), D[k], 'element as operator', tol=1e-12)
            c.ok(isinstance(repr(b), str) and (d == 1 or isinstance(b._repr_html_(), str)), 'representations')
            c.step(d * d); c.state(name); c.trace()
    # what the elements are
    for n in (1, 2, 3):
        with c.case('pauli|%d' % n):
            b = T.pauli_basis(n)
            for k, combo in enumerate(itertools.product(range(4), repeat=n)):
                M = np.eye(1)
                for i in combo:
                    M = np.kron(M, PAULIS[i])
                c.eq(b.data[k], M / math.sqrt(2 ** n), 'element %s of the Pauli basis' % (combo,), tol=1e-12)
                lab = '\\otimes'.join([u'\U0001d7d9', r'\sigma_x', r'\sigma_y', r'\sigma_z'][i] for i in combo)
                c.ok(b.labels[k] == lab, 'label of the element', got=b.labels[k], want=lab)
                c.step()
    for d in range(2, 9):
        with c.case('gell-mann|%d' % d):
            D = T.gell_mann_basis(d).data
            found = set()
            for M in D[1:]:
                nz = sorted(zip(*np.nonzero(np.abs(M) > 1e-12)))
                if all(i == j for i, j in nz):
                    v = np.diag(M).real
                    l = len(nz) - 1
                    c.eq(v, np.array([1.0] * l + [-l] + [0.0] * (d - l - 1)) / math.sqrt(l * (l + 1)), 'diagonal Gell-Mann matrix', tol=1e-12)
                    found.add(('d', l))
                else:
                    c.ok(len(nz) == 2 and nz[0] == nz[1][::-1], 'off-diagonal Gell-Mann matrix', got=nz)
                    kind = 's' if abs(M[nz[0]].imag) < 1e-12 else 'a'
                    c.ok(abs(abs(M[nz[0]]) - 1 / math.sqrt(2)) < 1e-12 and (kind == 's' or abs(M[nz[0]].real) < 1e-12), 'entries', got=M)
                    found.add((kind,) + tuple(int(i) for i in nz[0]))
                c.step()
            c.ok(len(found) == d * d - 1, 'every Gell-Mann matrix occurs', got=len(found))
    g2, g3, p1 = T.gell_mann_basis(2), T.gell_mann_basis(3), T.pauli_basis(1)
    for name, fs in (('2x3', (g2, g3)), ('3xp', (g3, p1)), ('2x2xp', (g2, g2, p1))):
        with c.case('product|%s' % name):
            b = T.tensor_product_basis(*fs)
            for k, combo in enumerate(itertools.product(*[range(len(f)) for f in fs])):
                M = np.eye(1)
                for f, i in zip(fs, combo):
                    M = np.kron(M, f.data[i])
                c.eq(b.data[k], M, 'element of a product basis', tol=1e-12, combo=combo)
                c.ok(b.labels[k] == '\\otimes'.join(f.labels[i] for f, i in zip(fs, combo)), 'label of a product element', got=b.labels[k])
                c.step()
    with c.case('labels'):
        D = p1.data
        b = T.TomographyBasis(D, [2])
        c.ok(len(b.labels) == 4 and len(set(b.labels)) == 4, 'default labels')
        c.ok(list(T.TomographyBasis(D, [2], 'A').labels) == ['A_0', 'A_1', 'A_2', 'A_3'], 'labels from a stem', got=T.TomographyBasis(D, [2], 'A').labels)
        c.ok(list(T.TomographyBasis(D, [2], ['a', 'b', 'c', 'd']).labels) == ['a', 'b', 'c', 'd'], 'given labels')
        for n, b in (('x', T.TomographyBasis(D, [2], name='x')), ('pauli_basis', p1)):
            c.ok(b.name == n and n in repr(b), 'name', got=b.name)


def unitaries(d):
    F = np.exp(2j * np.pi * np.outer(range(d), range(d)) / d) / math.sqrt(d)
    P = np.roll(np.eye(d), 1, axis=0)
    H = np.eye(d, dtype=complex)
    if d >= 2:
        H[:2, :2] = np.array([[1, 1], [1, -1]]) / math.sqrt(2)
    R = np.eye(d, dtype=complex)
    for i in range(d - 1):
        G = np.eye(d, dtype=complex)
        t, f = 0.4 + 0.3 * i, 0.7 * i + 0.2
        G[i, i] = math.cos(t); G[i + 1, i + 1] = math.cos(t)
        G[i, i + 1] = -math.sin(t) * np.exp(1j * f); G[i + 1, i] = math.sin(t) * np.exp(-1j * f)
        R = R.dot(G)
    return [np.eye(d, dtype=complex), F, H, P.dot(F).dot(np.diag(np.exp(0.5j * np.arange(d)))), R]


def hermitians(d, thorough=False):
    """Simplest first."""
    for n, w in enumerate([(1.0, -1e-3), (1.0, -1e-6), (0.5, -1e-5), (0.999, 1e-3), (1.0, 1e-6), (30.0, -2.0)]):
        for u in unitaries(d):
            if d > 1:
                M = u.dot(np.diag(np.roll((list(w) * d)[:d], n))).dot(u.conj().T)
                yield (M + M.conj().T) / 2
    if d == 2:
        v = (0.0, 1.0, -1.0, 0.5, -0.5)
        for a, e, x, y in itertools.product(v, repeat=4):
            yield np.array([[a, x + 1j * y], [x - 1j * y, e]])
    elif d == 3:
        v = (0.0, 1.0, -1.0)
        for n, (a, b, e, x1, y1, x2, y2, x3, y3) in enumerate(itertools.product(v, repeat=9)):
            if not thorough and n % 7:
                continue
            yield np.array([[a, x1 + 1j * y1, x2 + 1j * y2], [x1 - 1j * y1, b, x3 + 1j * y3], [x2 - 1j * y2, x3 - 1j * y3, e]])
    else:
        v = (0.0, 1.0, -0.5, 0.25)
        U = unitaries(d)
        for n, w in enumerate(itertools.combinations_with_replacement(v, d)):
            for k, u in enumerate(U):
                w2 = np.roll(w, n + k)
                M = u.dot(np.diag(w2)).dot(u.conj().T)
                yield (M + M.conj().T) / 2


def states(d):
    """Density matrices: pure, degenerate, mixed."""
    out = []
    ws = {2: [(1, 0), (0.5, 0.5), (0.75, 0.25), (0.9, 0.1)],
          3: [(1, 0, 0), (0.5, 0.5, 0), (1 / 3., 1 / 3., 1 / 3.), (0.5, 0.25, 0.25), (0.7, 0.2, 0.1)]}.get(d)
    if ws is None:
        ws = [tuple([1.0] + [0] * (d - 1)), tuple([0.5, 0.5] + [0] * (d - 2)), tuple([1.0 / d] * d),
              tuple(norm_w([2.0 ** -k for k in range(d)])), tuple(norm_w([1.0 + (k % 2) for k in range(d)]))]
    for w in ws:
        for u in unitaries(d):
            M = u.dot(np.diag(w)).dot(u.conj().T)
            out.append((M + M.conj().T) / 2)
    return out


def refvec(D, M):
    """Coordinates by the definition."""
    return np.real(np.einsum('aij,ij->a', D.conj(), M))


CONV = ['gm2', 'gm3', 'gm4', 'gm6', 'gm8', 'pauli1', 'pauli2', 'pauli3', 'gm2x2', 'gm2x3', 'gm3x2', 'pauli x gm3', 'gm2x2x2', 'pauli2 x gm2']


def sc_convert(c):
    for name, b, dims in bases():
        if name not in CONV:
            continue
        d = int(np.prod(dims))
        with c.case('convert|%s' % name):
            D = np.asarray(b.data)
            batch, mats = [], []
            for n, M in enumerate(hermitians(d, c.thorough)):
                if d > 4 and n % 5 and not c.thorough:
                    continue
                if d == 3 and n % 5 and not c.thorough:
                    continue
                q = qt.Qobj(M, dims=[dims, dims])
                v = b.state_to_modelparams(q)
                c.ok(isinstance(v, np.ndarray) and v.shape == (d * d,) and v.dtype.kind == 'f', 'a vector of reals', got=v)
                c.eq(v, refvec(D, M), 'coordinates of an operator', tol=1e-10)
                s = b.modelparams_to_state(v)
                c.ok(s.dims == [dims, dims], 'dimensions of the operator', got=s.dims)
                c.eq(s.full(), M, 'back to the operator', tol=1e-10)
                c.ok(abs(v.dot(v) - np.trace(M.dot(M)).real) < 1e-8 * (1 + v.dot(v)), 'inner products are kept')
                c.step()
                if len(batch) < 40:
                    batch.append(v); mats.append(M)
            for k in (0, 1, 2, len(batch)):
                L = b.modelparams_to_state(np.array(batch[:k]).reshape(k, d * d))
                c.ok(len(L) == k, 'one operator for each row', got=len(L))
                for s, M in zip(L, mats):
                    c.eq(s.full(), M, 'operators of a batch', tol=1e-10)
            for k in range(d * d):
                v = np.zeros(d * d); v[k] = 1.0
                c.eq(b.state_to_modelparams(b.modelparams_to_state(v)), v, 'parameters back and forth', tol=1e-10)
                c.eq(b.state_to_modelparams(b[k]), v, 'parameters of an element', tol=1e-10)
            c.trace(); c.state(name)
    # superoperators from covariances: <<A| S |B>> = a.C.b
    for name, b, dims in bases():
        d = int(np.prod(dims))
        if name not in ('gm2', 'gm3', 'pauli1', 'pauli2', 'gm2x3', 'pauli x gm3'):
            continue
        with c.case('covariance|%s' % name):
            n = d * d
            R = np.array([[((7 * i + 3 * j) % 11 - 5) / 5.0 for j in range(n)] for i in range(n)])
            for C in (np.eye(n), np.diag(np.arange(n) * 1.0), R.dot(R.T) / n, np.outer(R[0], R[0]), np.zeros((n, n))):
                S = b.covariance_mtx_to_superop(C)
                c.ok(S.type == 'super' and S.dims == [[dims, dims]] * 2, 'a superoperator on the space of the basis', got=(S.type, S.dims))
                for k in range(min(n, 9)):
                    out = qt.vector_to_operator(S * qt.operator_to_vector(b[k]))
                    c.eq(out.full(), np.einsum('a,aij->ij', C[:, k], b.data), 'action of the covariance superoperator', tol=1e-9)
                    c.step()


def positive_part_ok(c, A, R, msg):
    """R is the positive part of A: R >= 0, R - A >= 0, R (R - A) = 0."""
    s = 1 + np.abs(A).max()
    c.ok(np.linalg.eigvalsh((R + R.conj().T) / 2).min() > -1e-9 * s, msg + ': not positive', A=A, R=R)
    c.ok(np.linalg.eigvalsh(((R - A) + (R - A).conj().T) / 2).min() > -1e-9 * s, msg + ': positive eigenvalues changed', A=A, R=R)
    c.ok(np.abs(R.dot(R - A)).max() < 1e-8 * s * s, msg + ': eigenvectors changed', A=A, R=R)


def sc_canon(c, which=0):
    todo = [b for b in bases() if b[0] in ('gm2', 'gm3', 'gm4', 'gm6', 'gm8', 'pauli1', 'pauli2', 'pauli3', 'gm2x3', 'pauli x gm3', 'gm2x2')]
    for n, (name, b, dims) in enumerate(todo):
        if n % 2 != which:
            continue
        d = int(np.prod(dims))
        D = np.asarray(b.data)
        ms, mn = T.TomographyModel(b, allow_subnormalized=True), T.TomographyModel(b)
        md = T.DiffusiveTomographyModel(b)
        with c.case('canonicalize|%s' % name):
            rows, mats = [], []
            for M in hermitians(d, c.thorough):
                if d > 4 and len(mats) % 2 and not c.thorough and len(mats) > 400:
                    continue
                # at least one clearly positive eigenvalue, and no doubtful sign
                w = np.linalg.eigvalsh(M)
                if w.max() < 0.05:
                    continue
                for sc in (1.0, 3.0) if len(mats) % 9 == 0 else (1.0,):
                    rows.append(refvec(D, M * sc)); mats.append(M * sc)
            rows = np.array(rows)
            sizes = [0] + [1] * 6 + [2, 5, len(rows)]
            at = 0
            for sz in sizes:
                sub = rows[at:at + sz]; sm = mats[at:at + sz]
                at += sz
                if sz == 0:
                    continue
                keep = sub.copy()
                out = ms.canonicalize(sub); outn = mn.canonicalize(sub)
                c.eq(sub, keep, 'the given parameters were changed in place', tol=0)
                c.ok(out.shape == sub.shape and outn.shape == sub.shape, 'shape of the result', got=(out.shape, sub.shape))
                ext = np.concatenate([sub, np.linspace(0.1, 2, len(sub))[:, None]], axis=1)
                outd = md.canonicalize(ext)
                c.eq(outd[:, :-1], outn, 'diffusive model: the state part', tol=1e-9)
                c.eq(outd[:, -1], ext[:, -1], 'diffusive model: the rate is kept', tol=0)
                for v, M, o, on in zip(sub, sm, out, outn):
                    R = np.einsum('a,aij->ij', o, D)
                    positive_part_ok(c, M, R, 'truncation')
                    tr = np.trace(R).real
                    c.eq(on, o / tr, 'renormalisation', tol=1e-8, M=M)
                    w = np.linalg.eigvalsh(M)
                    if w.min() >= 0 or abs(w.min()) < 1e-12:
                        c.eq(o, v, 'a positive operator is left as it is', tol=1e-9)
                    c.step()
                again = mn.canonicalize(outn)
                c.eq(again, outn, 'canonical parameters are left as they are', tol=1e-8)
            c.trace(len(rows)); c.state(name, len(rows))
            for M in states(d):
                v = refvec(D, M)[None]
                c.eq(mn.canonicalize(v), v, 'a state is left as it is', tol=1e-9, M=M)
                c.eq(ms.canonicalize(0.5 * v), 0.5 * v, 'a subnormalised state is left as it is', tol=1e-9, M=M)
                c.eq(mn.canonicalize(0.5 * v), v, 'a subnormalised state is renormalised', tol=1e-9, M=M)
                c.step()


def sc_canon1(c):
    sc_canon(c, 1)


def effects(d):
    E = []
    for u in unitaries(d):
        for r in range(0, d + 1):
            P = u[:, :r].dot(u[:, :r].conj().T)
            E.append((P + P.conj().T) / 2)
        M = u.dot(np.diag(np.linspace(0, 1, d))).dot(u.conj().T)
        E.append((M + M.conj().T) / 2)
    E.append(0.3 * np.eye(d, dtype=complex))
    return E


def sc_born(c):
    todo = [b for b in bases() if b[0] in ('gm2', 'gm3', 'gm4', 'gm8', 'pauli1', 'pauli2', 'pauli3', 'gm2x3', 'gm3x2', 'pauli x gm3')]
    for name, b, dims in todo:
        d = int(np.prod(dims))
        D = np.asarray(b.data)
        S = states(d)
        unphys = []
        for n, M in enumerate(hermitians(d)):
            if n % (11 if d == 2 else 301) == 0:
                unphys.append(M)
        S = S + unphys
        E = effects(d)
        mps = np.array([refvec(D, s) for s in S])
        for diff in (False, True):
            with c.case('born|%s|%s' % (name, 'diffusive' if diff else 'plain')):
                m = (T.DiffusiveTomographyModel if diff else T.TomographyModel)(b)
                x = np.concatenate([mps, np.linspace(0.1, 2, len(mps))[:, None]], axis=1) if diff else mps
                c.ok(m.n_modelparams == x.shape[1] and len(m.modelparam_names) == x.shape[1], 'number of parameters', got=(m.n_modelparams, len(m.modelparam_names)))
                c.ok(int(m.dim) == d and m.basis is b and m.is_n_outcomes_constant, 'dimension and basis')
                ep = np.zeros(len(E), dtype=m.expparams_dtype)
                for k, e in enumerate(E):
                    ep['meas'][k] = refvec(D, e)
                if diff:
                    ep['t'] = np.linspace(0.5, 3, len(E))
                c.ok(np.all(np.asarray(m.n_outcomes(ep)) == 2), 'two outcomes')
                want = np.array([[np.clip(np.trace(e.dot(s)).real, 0, 1) for e in E] for s in S])
                keep = x.copy()
                for lo, hi in ((0, len(E)), (0, 1), (3, 5), (len(E) - 1, len(E))):
                    for outs in (np.array([0, 1]), np.array([1]), np.array([0]), np.array([1, 0, 1]), 1):
                        L = m.likelihood(outs, x, ep[lo:hi])
                        oo = np.atleast_1d(outs)
                        ref = np.array([want[:, lo:hi] if o == 1 else 1 - want[:, lo:hi] for o in oo])
                        c.eq(L, ref, 'Born rule', tol=1e-9)
                        c.step(ref.size)
                c.eq(x, keep, 'parameters changed by the likelihood', tol=0)
                c.trace(); c.state(name, diff)
    # simulated data obey the rule
    with c.case('simulate'):
        for name, b, dims in todo[:2] + todo[4:5]:
            d = int(np.prod(dims)); D = np.asarray(b.data)
            for s in states(d)[::3]:
                for e in effects(d)[::4]:
                    for cls in (T.TomographyModel, T.DiffusiveTomographyModel):
                        m = cls(b)
                        x = refvec(D, s)[None]
                        if cls is T.DiffusiveTomographyModel:
                            x = np.concatenate([x, [[0.3]]], axis=1)
                        ep = np.zeros(1, dtype=m.expparams_dtype); ep['meas'][0] = refvec(D, e)
                        p = min(max(np.trace(e.dot(s)).real, 0), 1)
                        got = 0.0
                        n_u = 200
                        for r, pr, ch in c.explore(lambda: int(m.simulate_experiment(x, ep)), n_u=n_u):
                            got += pr * r
                        c.ok(abs(got - p) <= 1.0 / n_u + 1e-9, 'frequency of simulated outcomes', got=got, want=p)


def sc_diffuse(c):
    for name, d in (('pauli1', 2), ('gm2', 2), ('gm3', 3)):
        b = dict((n, x) for n, x, _ in bases())[name]
        D = np.asarray(b.data)
        m = T.DiffusiveTomographyModel(b)
        n = d * d - 1
        c.eq(m.are_models_valid(np.array([[0.5] * (d * d) + [e] for e in (-1.0, 0.0, 1e-9, 2.0)])), np.array([False, False, True, True]), 'validity needs a positive rate')
        for s in (states(d)[::2] if d == 2 else states(d)[::11]):
            for eps in (0.01, 0.3, 1.0):
                for t in ((0.0,), (1.0,), (4.0,), (0.25, 4.0)):
                    with c.case('diffuse|%s %s %s' % (name, eps, t)):
                        if d == 3 and (len(t) > 1 or eps == 0.3):
                            continue
                        x = np.concatenate([refvec(D, s), [eps]])[None]
                        ep = np.zeros(len(t), dtype=m.expparams_dtype); ep['t'] = t
                        ep['meas'][:, 0] = 1.0
                        keep = x.copy()
                        laws = [dict() for _ in t]
                        bound = None if (d == 2 and len(t) == 1) else 2
                        # with one particle the walk uses at most one normal per coordinate and experiment
                        for r, p, ch in c.explore(lambda: m.update_timestep(x, ep), zgrid=rng.GH2, dev_bound=bound, max_runs=5000):
                            c.ok(r.shape == (1, d * d + 1, len(t)), 'shape', got=r.shape)
                            for k, tt in enumerate(t):
                                y = r[0, :, k]
                                c.ok(y[-1] == eps, 'the rate does not move', got=y[-1])
                                R = np.einsum('a,aij->ij', y[:-1], D)
                                c.ok(abs(np.trace(R).real - 1) < 1e-9 and np.linalg.eigvalsh(R).min() > -1e-9, 'not a state after diffusion', got=R)
                                # undisturbed where the step keeps it physical
                                key = canon_vec(y[:-1])
                                laws[k][key] = laws[k].get(key, 0) + p
                        c.eq(x, keep, 'parameters changed in place', tol=0)
                        for k, tt in enumerate(t):
                            want = {}
                            for z in itertools.product((-1.0, 1.0), repeat=n):
                                v = refvec(D, s).copy()
                                v[1:] += eps * math.sqrt(tt) * np.array(z)
                                A = np.einsum('a,aij->ij', v, D)
                                w, V = np.linalg.eigh((A + A.conj().T) / 2)
                                w = np.clip(w, 0, None)
                                R = (V * w).dot(V.conj().T); R = R / np.trace(R).real
                                key = canon_vec(refvec(D, R))
                                want[key] = want.get(key, 0) + 0.5 ** n
                            if bound is None:
                                c.ok(same_law(laws[k], want), 'law of the step', got=laws[k], want=want)
                            else:
                                c.ok(all(near_key(q, want) for q in laws[k]), 'a step outside the law', got=laws[k], want=want)
                        c.state(name, eps, t, s)


def sc_diffuse_many(c):
    """Several particles and experiments at once: each moves by its own rate and the duration of the experiment."""
    b = T.pauli_basis(1)
    D = np.asarray(b.data)
    m = T.DiffusiveTomographyModel(b)
    S = states(2)
    def target(v, eps, t, z):
        y = v.copy(); y[1:] += eps * math.sqrt(t) * np.array(z)
        A = np.einsum('a,aij->ij', y, D)
        w, V = np.linalg.eigh((A + A.conj().T) / 2)
        w = np.clip(w, 0, None)
        R = (V * w).dot(V.conj().T)
        return refvec(D, R / np.trace(R).real)
    for seed in range(30 if not c.thorough else 200):
        for n in (2, 3, 5):
            for t in ((1.0,), (0.25, 4.0), (0.5, 2.0, 9.0)):
                with c.case('diffuse many|%d %d %s' % (seed, n, t)):
                    x = np.array([np.concatenate([refvec(D, S[(seed + 5 * k) % len(S)]), [0.1 * (k + 1)]]) for k in range(n)])
                    ep = np.zeros(len(t), dtype=m.expparams_dtype); ep['t'] = t
                    with core.controlled(core.cycle_stream(seed * 31 + n, zgrid=rng.GH2)):
                        r = m.update_timestep(x, ep)
                    c.ok(r.shape == (n, 5, len(t)), 'shape', got=r.shape)
                    for k in range(n):
                        for e, tt in enumerate(t):
                            c.ok(any(np.abs(r[k, :4, e] - target(x[k, :4], x[k, 4], tt, z)).max() < 1e-9 for z in itertools.product((-1.0, 1.0), repeat=3)),
                                 'step of a particle', k=k, e=e, got=r[k, :, e])
                            c.ok(r[k, 4, e] == x[k, 4], 'rate of a particle')
                            c.step()
                    c.trace(); c.state(seed, n, t)


def canon_vec(v):
    return tuple(round(float(x), 7) + 0.0 for x in v)


def near_key(q, want):
    return q in want or any(max(abs(a - b) for a, b in zip(q, k)) < 1e-6 for k in want)


def same_law(a, b):
    b = dict(b)
    for q, p in a.items():
        k = q if q in b else next((k for k in b if max(abs(x - y) for x, y in zip(q, k)) < 1e-6), None)
        if k is None:
            return False
        b[k] -= p
    return all(abs(v) < 1e-9 for v in b.values())


def sc_history(c):
    """Measurement, update and resampling: particles stay states, weights follow the Born rule."""
    for name, dims in (('pauli1', [2]), ('gm3', [3]), ('pauli2', [2, 2])):
        b = dict((n, x) for n, x, _ in bases())[name]
        d = int(np.prod(dims)); D = np.asarray(b.data)
        E = effects(d)[1:6]
        S = states(d)
        for cls in (T.TomographyModel, T.DiffusiveTomographyModel):
            for a in (0.5, 0.9, 0.98):
                for seed in range(6 if not c.thorough else 40):
                    for depth in (3,):
                        for outs in itertools.product((0, 1), repeat=depth):
                            with c.case('history|%s %s a=%s %d %s' % (name, cls.__name__, a, seed, outs)):
                                if (seed + sum(outs)) % 2 and not c.thorough:
                                    continue
                                m = cls(b)
                                rows = [refvec(D, S[(seed + 3 * k) % len(S)]) for k in range(5)]
                                rows = [0.9 * r + 0.1 * refvec(D, np.eye(d) / d) for r in rows]
                                if cls is not T.TomographyModel:
                                    rows = [np.concatenate([r, [0.05 + 0.02 * k]]) for k, r in enumerate(rows)]
                                with core.controlled(core.cycle_stream(seed * 17 + 1)):
                                    u = mk(m, rows, resampler=qi.LiuWestResampler(a=a), resample_thresh=2.0, zero_weight_policy='skip')
                                    for k, o in enumerate(outs):
                                        ep = np.zeros(1, dtype=m.expparams_dtype)
                                        ep['meas'][0] = refvec(D, E[(seed + k) % len(E)])
                                        if 't' in ep.dtype.names:
                                            ep['t'] = 0.5
                                        u.update(o, ep)
                                        x = u.particle_locations
                                        for row in x:
                                            R = np.einsum('a,aij->ij', row[:d * d], D)
                                            c.ok(abs(np.trace(R).real - 1) < 1e-8 and np.linalg.eigvalsh(R).min() > -1e-8, 'a particle is not a state', got=R)
                                        c.step()
                                    c.ok(u.resample_count >= 1, 'no resampling happened', got=u.resample_count)
                                c.trace(); c.state(name, cls.__name__, a, seed, outs)


def sc_plots(c):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    covs = [np.array(x, dtype=float) for x in ([[1, 0], [0, 1]], [[4, 0], [0, 1]], [[1, 0], [0, 4]], [[2, 1], [1, 2]], [[2, -1], [-1, 2]], [[3, 0.5], [0.5, 0.2]], [[1e-4, 0], [0, 2]])]
    for C in covs:
        for pos in ((0, 0), (1.5, -2)):
            for ns in (1, 2, 3.5):
                with c.case('ellipse'):
                    fig, ax = plt.subplots()
                    el = T.plot_cov_ellipse(C, pos, nstd=ns, ax=ax)
                    P = el.get_patch_transform().transform([(math.cos(t), math.sin(t)) for t in np.linspace(0, 2 * np.pi, 17)])
                    q = P - np.array(pos)
                    c.eq(np.einsum('ni,ij,nj->n', q, np.linalg.inv(C), q), np.ones(17) * ns ** 2, 'ellipse boundary is at the stated number of standard deviations', tol=1e-7, C=C)
                    c.ok(el in ax.get_children(), 'ellipse drawn on the given axes')
                    plt.close(fig); c.step()
    b = T.pauli_basis(1)
    for axes in ([1, 2], [1, 3], [3, 1]):
        for seed in range(3):
            with c.case('scatter|%s %d' % (axes, seed)):
                mps = np.array([refvec(b.data, s) for s in states(2)[seed::3]])
                fig = plt.figure()
                T.plot_rebit_modelparams(mps, rebit_axes=axes)
                c.eq(np.asarray(plt.gca().collections[0].get_offsets()), np.array([[np.trace(PAULIS[a].dot(np.einsum('a,aij->ij', v, b.data))).real for a in axes] for v in mps]), 'plotted points are Bloch vectors', tol=1e-9)
                plt.close(fig)
                pos = [(0.1, 0.5, -0.2), (-0.6, 0.1, 0.3), (0.3, -0.4, 0.5), (0.2, 0.2, -0.7), (-0.1, 0.8, 0.4), (0.5, 0.1 * seed, 0.2)]
                mps = np.array([refvec(b.data, 0.5 * (I2 + x * X + y * Y + z * Z)) for x, y, z in pos])
                for method in ('cov', 'hull', None):
                    fig = plt.figure()
                    m = T.TomographyModel(b)
                    u = mk(m, mps, weights=norm_w([1.0 + (k % 3) for k in range(len(mps))]))
                    T.plot_rebit_posterior(u, true_state=mps[:1], rebit_axes=axes, region_est_method=method)
                    ax = plt.gca()
                    off = [np.asarray(x.get_offsets()) for x in ax.collections]
                    c.eq(off[0], mps[:, axes] * math.sqrt(2), 'posterior particles', tol=1e-9)
                    c.eq(off[1], mps[:1, axes] * math.sqrt(2), 'true state', tol=1e-9)
                    c.eq(off[-1], u.est_mean()[None, axes] * math.sqrt(2), 'posterior mean', tol=1e-9)
                    if method == 'cov':
                        from matplotlib.patches import Ellipse
                        el = [x for x in ax.get_children() if isinstance(x, Ellipse) and not isinstance(x, plt.Circle)][0]
                        P = el.get_patch_transform().transform([(math.cos(t), math.sin(t)) for t in np.linspace(0, 2 * np.pi, 9)])
                        q = P - u.est_mean()[axes] * math.sqrt(2)
                        C = 2 * u.est_covariance_mtx()[np.ix_(axes, axes)]
                        c.ok(len([x for x in ax.get_children() if isinstance(x, Ellipse) and not isinstance(x, plt.Circle)]) == 1, 'one ellipse')
                        if np.linalg.det(C) > 1e-6:
                            c.eq(np.einsum('ni,ij,nj->n', q, np.linalg.inv(C), q), 9.0 * np.ones(9), 'covariance ellipse at three standard deviations', tol=1e-6)
                    plt.close(fig); c.step()
                # what is drawn for every choice of true state, prior, level, deviations and legend
                from matplotlib.patches import Ellipse, Polygon
                gin = T.GinibreDistribution(b)
                known = qt.Qobj(states(2)[1] * 0.6 + 0.2 * np.eye(2))
                gad = T.GADFLIDistribution(gin, known)
                bloch = np.array([[np.trace(PAULIS[a].dot(np.einsum('a,aij->ij', v, b.data))).real for a in axes] for v in mps])
                labs = [r'$\langle\!\langle %s | \rho \rangle\!\rangle$' % b.labels[a] for a in axes]
                for true, prior, (method, extra), legend in itertools.product((None, mps[:1], mps[1:3]), (None, gin, gad),
                                                                              (('cov', 1.0), ('cov', 2.5), ('hull', 0.8), ('hull', 1.0), (None, None)), (True, False)):
                    fig = plt.figure()
                    m = T.TomographyModel(b)
                    ws = norm_w([1.0 + (k % 3) for k in range(len(mps))])
                    u = mk(qi.BinomialModel(m) if legend else m, mps, weights=ws)
                    kw = {'n_std': extra} if method == 'cov' else {'level': extra} if method == 'hull' else {}
                    T.plot_rebit_posterior(u, prior=prior, true_state=true, rebit_axes=axes, region_est_method=method, legend=legend, **kw)
                    ax = plt.gca()
                    off = [np.asarray(x.get_offsets()) for x in ax.collections]
                    want = [bloch]
                    if true is not None: want.append(np.asarray(true)[:, axes] * math.sqrt(2))
                    if prior is gad: want.append(np.array([[np.trace(PAULIS[a].dot(known.full())).real for a in axes]]))
                    want.append(np.average(bloch, weights=ws, axis=0)[None])
                    if c.ok(len(off) == len(want), 'what is plotted', got=len(off), want=len(want)):
                        for o, w in zip(off, want):
                            c.eq(o, w, 'plotted points are Bloch vectors', tol=1e-9)
                    els = [x for x in ax.get_children() if isinstance(x, Ellipse) and not isinstance(x, plt.Circle)]
                    pols = [x for x in ax.get_children() if isinstance(x, Polygon)]
                    c.ok(len(els) == (method == 'cov') and len(pols) == (method == 'hull'), 'the region asked for', got=(len(els), len(pols)))
                    if method == 'cov' and els:
                        P = els[0].get_patch_transform().transform([(math.cos(t), math.sin(t)) for t in np.linspace(0, 2 * np.pi, 9)])
                        q = P - want[-1][0]
                        C = np.cov(bloch.T, aweights=ws, ddof=0)
                        c.eq(np.einsum('ni,ij,nj->n', q, np.linalg.inv(C), q), extra ** 2 * np.ones(9), 'covariance ellipse at the stated standard deviations', tol=1e-6)
                    if method == 'hull' and pols:
                        v = pols[0].get_xy()
                        heavy = [y for y, w in zip(bloch, ws) if extra == 1.0 or w > 0.1]     # at 0.8 the four heaviest
                        c.ok(all(any(np.allclose(x, y, atol=1e-9) for y in heavy) for x in v), 'vertices are particles of the credible region')
                        d = np.diff(v, axis=0)
                        turn = [d[k, 0] * d[(k + 1) % len(d), 1] - d[k, 1] * d[(k + 1) % len(d), 0] for k in range(len(d))]
                        c.ok(np.allclose(v[0], v[-1]) and (min(turn) > 0 or max(turn) < 0), 'convex polygon')
                        if extra == 1.0:
                            from scipy.spatial import ConvexHull
                            h = ConvexHull(bloch)
                            c.ok({tuple(np.round(x, 9)) for x in v} == {tuple(np.round(bloch[k], 9)) for k in h.vertices}, 'hull of all particles')
                    c.ok([ax.get_xlabel(), ax.get_ylabel()] == labs, 'axes named after the basis', got=(ax.get_xlabel(), ax.get_ylabel()))
                    c.ok((ax.get_legend() is not None) == legend, 'legend')
                    circ = [x for x in ax.get_children() if isinstance(x, plt.Circle)]
                    c.ok(len(circ) == 1 and tuple(circ[0].center) == (0, 0) and circ[0].radius == 1, 'unit circle of pure states')
                    plt.close(fig); c.step(); c.state('posterior', axes, seed, true is None, str(type(prior)), method, extra, legend)
                for true, prior, force in itertools.product((None, mps[:1]), (gin, gad), (None, known)):
                    fig = plt.figure()
                    with core.controlled(core.cycle_stream(seed)):
                        want = [prior.sample(5)[:, axes] * math.sqrt(2)]
                    if true is not None: want.append(np.asarray(true)[:, axes] * math.sqrt(2))
                    if prior is gad or (force is not None and hasattr(prior, '_basis')):
                        want.append(np.array([[np.trace(PAULIS[a].dot(known.full())).real for a in axes]]))
                    with core.controlled(core.cycle_stream(seed)):
                        T.plot_rebit_prior(prior, rebit_axes=axes, n_samples=5, true_state=true, force_mean=force, legend=False)
                    off = [np.asarray(x.get_offsets()) for x in plt.gca().collections]
                    if c.ok(len(off) == len(want), 'what is plotted', got=len(off), want=len(want)):
                        for o, w in zip(off, want):
                            c.eq(o, w, 'plotted points are Bloch vectors', tol=1e-9)
                    c.ok([plt.gca().get_xlabel(), plt.gca().get_ylabel()] == labs, 'axes named after the basis')
                    plt.close(fig); c.step()
                fig = plt.figure()
                mean = qt.Qobj(states(2)[0] * 0.8 + 0.1 * np.eye(2))
                prior = T.GADFLIDistribution(T.GinibreDistribution(b), mean)
                with core.controlled(core.cycle_stream(seed)):
                    want = prior.sample(6)
                with core.controlled(core.cycle_stream(seed)):
                    T.plot_rebit_prior(prior, rebit_axes=axes, n_samples=6, true_state=mps[:1])
                off = [np.asarray(x.get_offsets()) for x in plt.gca().collections]
                c.eq(off[0], want[:, axes] * math.sqrt(2), 'prior samples', tol=1e-9)
                c.eq(off[-1][0], np.array([np.trace(PAULIS[a].dot(mean.full())).real for a in axes]), 'prior mean', tol=1e-9)
                plt.close(fig); c.step(); c.state(axes, seed)


SCENARIOS = [('bases', sc_bases), ('convert', sc_convert), ('canon', sc_canon), ('canon1', sc_canon1), ('born', sc_born),
             ('diffuse', sc_diffuse), ('diffuse many', sc_diffuse_many), ('history', sc_history), ('plots', sc_plots)]

from . import bulk, edge  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b21), ('edge', edge.e10), ('edge2', edge.e21)]
BOUNDS += ' Edge configurations: eigenvalues and probabilities down to 1e-10 from the boundary, nested products, hundreds of experiments.'

from . import reuse  # noqa: E402
BOUNDS += ' Every pair of calls on one model, in new and in reused arrays, the second answer against a fresh model.'
SCENARIOS = SCENARIOS + reuse.scenario(('tomo',), None, 3)

from . import forms  # noqa: E402
BOUNDS += ' Arguments of equal values in every memory layout: column-major, strided, reversed, padded, read-only, broadcast, smaller integers.'
SCENARIOS = SCENARIOS + forms.scenario(('tomo',), None, 1)
