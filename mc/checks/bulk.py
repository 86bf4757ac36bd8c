"""Selected very large configurations, one per check: thousands of particles, parameters, experiments or data.

The references are written with whole-array NumPy formulas, independent of the code under test."""
import math, itertools, warnings
import numpy as np
import qinfer as qi
from qinfer import distributions as qd
from .. import zoo, core, rng
from ..util import *


def grid(n, lo, hi, k=1):
    """n scattered numbers in (lo, hi), no two alike (golden-ratio sequence)."""
    return lo + (hi - lo) * np.mod((np.arange(n) + 1) * (0.6180339887498949, 0.7548776662466927, 0.8191725133961645, 0.5698402909980532)[k - 1] + 0.1234567, 1.0)


def rb_p(P, E):
    return 1 - (P[:, 1:2] * P[:, 0:1] ** E['m'][None, :] + P[:, 2:3])


def irb_p(P, E):
    base = np.where(E['reference'][None, :], P[:, 1:2], P[:, 0:1] * P[:, 1:2])
    return 1 - (P[:, 2:3] * base ** E['m'][None, :] + P[:, 3:4])


def ep(model, *cols):
    dt = model.expparams_dtype
    if isinstance(dt, str):
        return np.array(cols[0], dtype=dt)
    a = np.zeros(len(cols[0]), dtype=dt)
    for (f, t), v in zip([x[:2] for x in dt], cols):
        a[f] = v
    return a


VEC = {
    'coin': (lambda: qi.CoinModel(), lambda n: grid(n, 0, 1)[:, None], lambda m, n: np.zeros(n, dtype=m.expparams_dtype), lambda P, E: np.repeat(P, len(E), axis=1)),
    'noisycoin': (lambda: qi.NoisyCoinModel(), lambda n: grid(n, 0, 1)[:, None], lambda m, n: ep(m, grid(n, 0, 1), grid(n, 0, 1, 2)),
                  lambda P, E: P * E['alpha'] + (1 - P) * E['beta']),
    'precession': (lambda: qi.SimplePrecessionModel(), lambda n: grid(n, 0.01, 6)[:, None], lambda m, n: ep(m, grid(n, 0, 30)), lambda P, E: np.cos(P * E / 2) ** 2),
    'inversion': (lambda: qi.SimpleInversionModel(), lambda n: grid(n, 0.01, 6)[:, None], lambda m, n: ep(m, grid(n, 0, 30), grid(n, 0, 6, 2)),
                  lambda P, E: np.cos((P - E['w_']) * E['t'] / 2) ** 2),
    'unknownT2': (lambda: qi.UnknownT2Model(), lambda n: np.stack([grid(n, 0, 6), grid(n, 0, 1, 2)], 1), lambda m, n: ep(m, grid(n, 0, 20)),
                  lambda P, E: np.exp(-P[:, 1:] * E['t']) * np.cos(P[:, :1] * E['t'] / 2) ** 2 + (1 - np.exp(-P[:, 1:] * E['t'])) / 2),
    'rb': (lambda: qi.RandomizedBenchmarkingModel(), lambda n: np.stack([grid(n, 0, 1), grid(n, 0, .5, 2), grid(n, 0, .5, 3)], 1),
           lambda m, n: ep(m, (np.arange(n) * 37) % 301), rb_p),
    'rb_il': (lambda: qi.RandomizedBenchmarkingModel(interleaved=True), lambda n: np.stack([grid(n, 0, 1), grid(n, 0, 1, 2), grid(n, 0, .5, 3), grid(n, 0, .5, 4)], 1),
              lambda m, n: ep(m, (np.arange(n) * 37) % 301, np.arange(n) % 3 == 0), irb_p),
}


def vec(name, n, ne):
    mk_, gp, ge, f = VEC[name]
    m = mk_()
    P, E = gp(n), ge(m, ne)
    p0 = f(P, E)
    return m, P, E, p0


SIZES = ((1100, 30), (10500, 3), (7, 1100), (1, 10500))


# -- C01 ---------------------------------------------------------------------

def b01(c):
    """Tens of thousands of particles, over a thousand data, hundreds of hypothetical experiments."""
    for name in VEC:
        n = 20000 if name == 'precession' else 3000
        with c.case('bulk particles %s' % name):
            m, P, E, p0 = vec(name, n, 12)
            u = mk(m, P, resample_thresh=0.0)
            w = np.ones(n) / n
            for k in range(12):
                o = (k * k) % 2
                w = w * (p0[:, k] if o == 0 else 1 - p0[:, k]); z = w.sum(); w = w / z
                u.update(o, E[k:k + 1])
                c.eq(u.particle_weights * n, w * n, 'posterior weights'); c.eq(float(np.ravel(u.normalization_record[-1])[0]), z, 'norm record'); c.step()
            c.eq(u.particle_locations, P, 'locations', tol=0)
            b = mk(m, P, resample_thresh=0.0)
            b.batch_update(np.array([(k * k) % 2 for k in range(12)]), E, resample_interval=5)
            c.eq(b.particle_weights * n, w * n, 'weights after a batch')
            c.trace(); c.state('bulk', name)
        with c.case('bulk hypothetical %s' % name):
            m, P, E, p0 = vec(name, 150, 1200)
            u = mk(m, P, resample_thresh=0.0)
            w = 1 + np.arange(150.0) % 7; w /= w.sum(); u.particle_weights = w.copy()
            H, L, N = u.hypothetical_update(np.array([0, 1]), E, return_likelihood=True, return_normalization=True)
            W = np.stack([p0.T * w, (1 - p0.T) * w])
            c.eq(L, np.stack([p0.T, 1 - p0.T]), 'likelihood'); c.eq(N[..., 0], W.sum(axis=2), 'norm')
            good = W.sum(axis=2) > 1e-6
            c.eq(H[good], (W / W.sum(axis=2)[..., None])[good], 'hypothetical weights'); c.eq(u.particle_weights, w, 'weights', tol=0)
            c.trace(); c.step(2400)
    with c.case('bulk history'):
        m, P, E, p0 = vec('unknownT2', 40, 2500)
        o = np.where(p0[7] > 0.5, 0, 1)
        u = mk(m, P, resample_thresh=0.0); b = mk(m, P, resample_thresh=0.0)
        w = np.ones(40) / 40; ll = 0.0
        for k in range(2500):
            u.update(int(o[k]), E[k:k + 1])
            w = w * (p0[:, k] if o[k] == 0 else 1 - p0[:, k]); z = w.sum(); w = w / z; ll += math.log(z)
            if k % 50 == 49 or k > 2480:
                c.eq(u.particle_weights, w, 'posterior weights', tol=1e-8)
            c.step()
        b.batch_update(o, E, resample_interval=7)
        c.eq(b.particle_weights, w, 'weights after a batch', tol=1e-8)
        for v in (u, b):
            c.ok(len(v.data_record) == 2500 and len(v.normalization_record) == 2500, 'records', got=(len(v.data_record), len(v.normalization_record)))
            c.ok([int(np.ravel(x)[0]) for x in v.data_record] == o.tolist(), 'data record')
            c.ok(abs(float(np.ravel(v.log_total_likelihood)[0]) - ll) < 1e-6 * abs(ll), 'log total likelihood', got=v.log_total_likelihood, want=ll)
        c.trace()
    for nshots in (1500, 12000):
        with c.case('bulk shots %d' % nshots):
            import scipy.special as sp
            m = qi.BinomialModel(qi.SimplePrecessionModel())
            P = grid(2000, 0.2, 1.4)[:, None]
            w = np.ones(2000) / 2000
            u = mk(m, P, resample_thresh=0.0)
            for k, t in enumerate((1.0, 1.3)):
                q = 1 - np.cos(P[:, 0] * t / 2) ** 2
                o = int(nshots * (1 - math.cos(0.8 * t / 2) ** 2))
                ll = sp.gammaln(nshots + 1) - sp.gammaln(o + 1) - sp.gammaln(nshots - o + 1) + o * np.log(q) + (nshots - o) * np.log1p(-q)
                w = w * np.exp(ll); w /= w.sum()
                u.update(o, ep(m, [t], [nshots]))
                c.eq(u.particle_weights, w, 'posterior weights', tol=1e-7)
            c.trace(); c.step(2)


# -- C02 ---------------------------------------------------------------------

class ArrTable(zoo.TableModel):
    """The table model, evaluated as whole arrays."""
    def __init__(self, T):
        self._A = np.array(T)
        zoo.TableModel.__init__(self, T, [len(T[0][0])] * len(T))

    def likelihood(self, outcomes, modelparams, expparams):
        qi.FiniteOutcomeModel.likelihood(self, outcomes, modelparams, expparams)
        r = np.clip(np.rint(modelparams[:, 0]).astype(int), 0, self._A.shape[1] - 1)
        return np.transpose(self._A[expparams['e']][:, r][:, :, np.asarray(outcomes, dtype=int)], (2, 1, 0))


def EPT(*i): return np.array([(k,) for k in i], dtype=[('e', 'int')])


class Prior2(zoo.ListPrior):
    """First sample: rows in order; later samples: the same rows reversed."""
    def __init__(self, rows):
        zoo.ListPrior.__init__(self, rows); self.calls = 0

    def sample(self, n=1):
        self.calls += 1
        x = self._rows if self.calls == 1 else self._rows[::-1]
        return np.resize(x, (n, x.shape[1])).copy()


def b02(c):
    n = 12000
    T = np.zeros((2, 40, 3))
    T[0, :, 0] = grid(40, 0.2, 0.8); T[0, :, 1] = 1 - T[0, :, 0]
    T[1, :, 0] = grid(40, 0.2, 0.8, 2); T[1, :, 1] = 1 - T[1, :, 0]
    rows = (np.arange(n) % 40).astype(float)[:, None]
    for pol in ('error', 'warn', 'ignore', 'skip', 'reset'):
        for pos in (0, 3):
            with c.case('bulk %s at %d' % (pol, pos)):
                m = ArrTable(T.tolist())
                u = qi.SMCUpdater(m, n, Prior2(rows), resample_thresh=0.0, zero_weight_policy=pol)
                x, w = rows, np.ones(n) / n
                for k in range(6):
                    i, o = k % 2, (k // 2) % 2
                    if k == pos:
                        nd = len(u.data_record)
                        try:
                            with warnings.catch_warnings(record=True) as rec:
                                warnings.simplefilter('always')
                                u.update(2, EPT(i))
                            hit = any(issubclass(r.category, qi.ApproximationWarning) for r in rec)
                            c.ok(pol != 'error', 'no error for impossible data'); c.ok(hit == (pol == 'warn') or pol not in ('warn', 'ignore'), 'warning for impossible data', got=[str(r.message) for r in rec])
                        except RuntimeError:
                            c.ok(pol == 'error', 'error for impossible data')
                        if pol == 'reset':
                            x, w = rows[::-1], np.ones(n) / n
                        if pol in ('warn', 'ignore'):
                            break
                        c.eq(u.particle_weights, w, 'weights after impossible data'); c.eq(u.particle_locations, x, 'locations after impossible data', tol=0)
                    u.update(o, EPT(i))
                    w = w * T[i, x[:, 0].astype(int), o]; w /= w.sum()
                    c.eq(u.particle_weights * n, w * n, 'weights'); c.eq(u.particle_locations, x, 'locations', tol=0); c.step()
                c.trace(); c.state(pol, pos)
    with c.case('bulk many impossible data'):
        m = ArrTable(T.tolist())
        u = qi.SMCUpdater(m, 40, Prior2(rows[:40]), resample_thresh=0.0, zero_weight_policy='skip')
        w = np.ones(40) / 40
        outs = np.array([2 if k % 3 == 1 else k % 2 for k in range(1200)]); es = np.arange(1200) % 2
        for k in range(1200):
            if outs[k] != 2:
                w = w * T[es[k], :, outs[k]]; w /= w.sum()
        u.batch_update(outs, EPT(*es), resample_interval=5)
        c.eq(u.particle_weights, w, 'weights after a batch of 1200 with 400 impossible data', tol=1e-8); c.trace(); c.step(1200)


# -- C03 ---------------------------------------------------------------------

def b03(c):
    from .c03 import queries, ask
    for name, n in (('unknownT2', 1500), ('precession', 2500)):
        mk_, gp, ge, f = VEC[name]
        base = zoo.BY[name]
        P = gp(n)
        e = zoo.Entry(name + ' bulk', mk_, [tuple(r) for r in P], base.eps, base.outcomes, base.prob, scalar=base.scalar, tags=base.tags)
        m = e.make()
        qs = queries(e, m, P.shape[1])
        skip = {'clusters', 'in_mvee', 'ellipsoid', 'contour_plot', 'marginal_plot', 'design'}

        def run(q=None):
            u = mk(m, P, resample_thresh=0.0, resampler=qi.LiuWestResampler(a=0.95), zero_weight_policy='skip')
            with core.controlled(core.cycle_stream(3)):
                u.update(0, e.ep_array(m, [1])); u.update(1, e.ep_array(m, [0]))
            if q:
                a = snap(u)
                with core.controlled(core.cycle_stream(9)):
                    ask(qs[q], u)
                bad = same_snap(a, snap(u))
                c.ok(bad is None, 'query %s changed %s' % (q, bad))
            with core.controlled(core.cycle_stream(4)):
                u.resample(); u.update(0, e.ep_array(m, [1]))
            return snap(u)
        ref = run()
        for q in sorted(qs):
            if q in skip:
                continue
            with c.case('bulk %s %s' % (name, q)):
                bad = same_snap(ref, run(q))
                c.ok(bad is None, 'history with query %s differs in %s' % (q, bad)); c.step(); c.trace()
        c.state(name)


# -- C04 ---------------------------------------------------------------------

def b04(c):
    T = np.zeros((3, 50, 2))
    for i in range(3):
        T[i, :, 0] = grid(50, 0.05, 0.95, i + 1); T[i, :, 1] = 1 - T[i, :, 0]
    for n in (1025, 3000):
        for thr in (0.0, 0.3, 0.8):
            with c.case('bulk n=%d thr=%g' % (n, thr)):
                m = ArrTable(T.tolist())
                x0 = (np.arange(n) % 50).astype(float)[:, None]
                u = mk(m, x0, resample_thresh=thr, resampler=RotResampler())
                w = np.ones(n) / n; cnt = 0; mn = float(n); x = x0
                for k in range(40):
                    i, o = k % 3, (k * k // 2) % 2
                    w = w * T[i, x[:, 0].astype(int), o]; w /= w.sum()
                    e = 1 / np.sum(w ** 2); mn = min(mn, e)
                    due = e < n * thr
                    if due:
                        cnt += 1; x = np.roll(x, 1, axis=0); w = np.ones(n) / n
                    u.update(o, EPT(i))
                    c.eq(u.particle_weights * n, w * n, 'weights', tol=1e-8); c.eq(u.particle_locations, x, 'locations', tol=0)
                    c.ok(u.resample_count == cnt and bool(u.just_resampled) == due, 'resampling exactly when due', got=(u.resample_count, u.just_resampled), want=(cnt, due))
                    c.eq(float(u.min_n_ess), mn, 'min_n_ess', tol=1e-8); c.step()
                c.trace(); c.state(n, thr)
    with c.case('bulk long'):
        m = ArrTable(T.tolist())
        x = np.arange(50.0)[:, None]
        u = mk(m, x, resample_thresh=0.5, resampler=RotResampler())
        w = np.ones(50) / 50; cnt = 0
        for k in range(2200):
            i, o = k % 3, (k * k // 2) % 2
            w = w * T[i, x[:, 0].astype(int), o]; w /= w.sum()
            e = 1 / np.sum(w ** 2)
            if e < 25:
                cnt += 1; x = np.roll(x, 1, axis=0); w = np.ones(50) / 50
            u.update(o, EPT(i))
            if not c.ok(u.resample_count == cnt, 'resampling exactly when due', at=k, got=u.resample_count, want=cnt): break
            c.step()
        c.eq(u.particle_weights, w, 'weights'); c.eq(u.particle_locations, x, 'locations', tol=0); c.trace()
    with c.case('bulk real resampler'):
        m = qi.SimplePrecessionModel()
        u = mk(m, grid(4000, 0.01, 6)[:, None], resample_thresh=0.5, resampler=qi.LiuWestResampler(a=0.98))
        with core.controlled(core.cycle_stream(2)):
            for k in range(8):
                u.update(k % 2, np.array([1.0 + k]))
                c.ok(u.particle_locations.shape == (4000, 1) and u.particle_weights.shape == (4000,), 'number of particles')
                c.ok(abs(u.particle_weights.sum() - 1) < 1e-9 and np.all(np.isfinite(u.particle_locations)) and np.all(u.particle_locations > 0), 'a distribution over valid models'); c.step()
        c.ok(u.resample_count > 0, 'no resampling'); c.trace()


# -- C05 ---------------------------------------------------------------------

def b05(c):
    from .c05 import Region, Sweep, dist, moments
    for n, d, nout in ((5000, 1, 5000), (1030, 2, 2000), (2000, 3, 1500), (12000, 1, 12000), (300, 5, 1024)):
        for a in (0.98, 1.0):
            with c.case('bulk n=%d d=%d out=%d a=%g' % (n, d, nout, a)):
                X = np.stack([np.tan(1.2 * (grid(n, -1, 1, 1 + j % 4) + 0.01 * j)) for j in range(d)], 1)
                k = np.floor(np.cumsum(np.where(np.arange(n) % 5 == 0, 0.0, nout / float(n - (n + 4) // 5))) + 1e-6)
                k = np.diff(np.concatenate([[0], k])); k[-1] += nout - k.sum()
                w = k / nout
                mu = w.dot(X); cov = (X * w[:, None]).T.dot(X) - np.outer(mu, mu)
                st = Sweep(nout, 1)
                st.zgrid = ((-1.0, .25), (0.5, .25), (2.0, .25), (-0.25, .25))
                with core.controlled(st):
                    res = qi.LiuWestResampler(a=a, h=None if a < 1 else 0.0)(Region(d=d), dist(X, w), n_particles=nout)
                Y = res.particle_locations
                c.ok(Y.shape == (nout, d), 'shape', got=Y.shape); c.eq(res.particle_weights, np.ones(nout) / nout, 'uniform weights')
                if a == 1.0:
                    want = np.repeat(X, k.astype(int), axis=0)
                    o1, o2 = np.lexsort(Y.T[::-1]), np.lexsort(want.T[::-1])
                    c.ok(np.allclose(Y[o1], want[o2], atol=1e-7), 'a sweep of the uniform cells draws each particle by its weight')
                else:
                    inv = np.linalg.inv((1 - a * a) * cov)
                    norms = np.array(sorted(set(round(sum(t), 9) for t in itertools.combinations_with_replacement([z * z for z, _ in st.zgrid], d))))
                    C = a * X[w > 0] + (1 - a) * mu
                    bad = 0
                    for row in Y[::max(1, nout // 250)]:
                        R = row - C
                        q = np.einsum('ni,ij,nj->n', R, inv, R)
                        bad += not np.any(np.abs(q[:, None] - norms) < 1e-5 * (1 + norms))
                    c.ok(bad == 0, 'particles are shrunk old ones plus scaled noise', bad=bad)
                    # (loose) the moments of the whole set
                    c.ok(np.all(np.abs(Y.mean(0) - mu) < 3 * np.sqrt(np.diag(cov) * (1 - a * a)) + 0.1 * np.sqrt(np.diag(cov))), 'mean far away', got=Y.mean(0), want=mu)
                c.step(nout); c.trace(); c.state(n, d, nout, a)
    for n in (3000,):
        with c.case('bulk region'):
            X = np.stack([grid(n, -1, 1), grid(n, -1, 1, 2)], 1)
            with core.controlled(core.cycle_stream(3)):
                res = qi.LiuWestResampler(a=0.9)(Region(-1.0, 1.0, d=2), dist(X, np.ones(n) / n))
            c.ok(res.particle_locations.shape == (n, 2) and np.all(np.abs(res.particle_locations) <= 1.0), 'invalid particles'); c.step(n); c.trace()


# -- C06 ---------------------------------------------------------------------

def b06(c):
    for name in VEC:
        for n, ne in SIZES:
            with c.case('bulk %s %dx%d' % (name, n, ne)):
                m, P, E, p0 = vec(name, n, ne)
                L = m.likelihood(np.array([1, 0]), P, E)
                c.eq(L, np.stack([1 - p0, p0]), 'likelihood'); c.trace(); c.step(n * ne)
                c.ok(np.allclose(L.sum(axis=0), 1, atol=1e-9) and L.min() >= -1e-12, 'a distribution')
        with c.case('bulk outcomes %s' % name):
            m, P, E, p0 = vec(name, 30, 20)
            outs = (np.arange(1500) ** 2 // 3) % 2
            L = m.likelihood(outs, P, E)
            c.eq(L, np.where(outs[:, None, None] == 0, p0, 1 - p0), 'likelihood of 1500 outcomes'); c.trace(); c.step()
        with c.case('bulk binomial %s' % name):
            mk_, gp, ge, f = VEC[name]
            b = qi.BinomialModel(mk_())
            P = gp(60); E = np.zeros(8, dtype=b.expparams_dtype); E0 = ge(mk_(), 8)
            if E0.dtype.names: 
                for fld in E0.dtype.names: E[fld] = E0[fld]
            elif 'x' in E.dtype.names: E['x'] = E0
            E['n_meas'] = [1024, 2000, 1, 3, 1025, 500, 5000, 10001]
            import scipy.special as sp
            q = np.clip(1 - f(P, E0), 0, 1)
            outs = np.array([0, 1, 2, 500, 1024, 1500, 3000])
            L = b.likelihood(outs, P, E)
            N = E['n_meas'][None, None, :]; O = outs[:, None, None]
            with np.errstate(all='ignore'):
                ref = np.where(O > N, 0.0, np.exp(sp.gammaln(N + 1) - sp.gammaln(O + 1) - sp.gammaln(np.maximum(N - O, 0) + 1) + sp.xlogy(O, q) + sp.xlog1py(np.maximum(N - O, 0), -q)))
            c.eq(L, ref, 'binomial likelihood', tol=1e-7); c.trace(); c.step()
    for kd in (2, 6, 40):
        with c.case('bulk die %d' % kd):
            m = qi.NDieModel(kd)
            P = np.abs(np.stack([grid(1500, 0.1, 1, 1 + j % 4) * (1 + j) for j in range(kd)], 1)); P /= P.sum(axis=1)[:, None]
            L = m.likelihood(np.arange(kd), P, np.zeros(30, dtype=m.expparams_dtype))
            c.eq(L, np.repeat(P.T[:, :, None], 30, axis=2), 'likelihood'); c.trace(); c.step()


# -- C07 ---------------------------------------------------------------------

def b07(c):
    from .c07 import Sweep
    for name in VEC:
        for n, ne, rep in ((1100, 5, 2), (3, 1100, 2), (2, 2, 2500)):
            with c.case('bulk %s %s' % (name, (n, ne, rep))):
                m, P, E, p0 = vec(name, n, ne)
                with core.controlled(core.cycle_stream(n + ne)):
                    R = m.simulate_experiment(P, E, repeat=rep)
                c.ok(R.shape == (rep, n, ne), 'shape', got=R.shape)
                c.ok(np.all((R == 0) | (R == 1)), 'outcomes outside the domain')
                c.ok(not np.any((R == 0) & (p0 <= 0)) and not np.any((R == 1) & (p0 >= 1)), 'impossible outcome')
                # shares over the whole block
                sd = math.sqrt(np.sum(p0 * (1 - p0)) * rep) + 1
                c.ok(abs(np.sum(R == 0) - rep * p0.sum()) < 8 * sd, 'share of an outcome over the block', got=np.sum(R == 0), want=rep * p0.sum())
                c.step(R.size); c.trace()
        with c.case('bulk repeats %s' % name):
            m, P, E, p0 = vec(name, 1, 1)
            with core.controlled(Sweep(5000)):
                R = m.simulate_experiment(P, E, repeat=5000)
            c.ok(R.shape == (5000, 1, 1), 'shape'); c.ok(abs(np.sum(R == 0) - 5000 * p0[0, 0]) <= 1.01, 'share of an outcome', got=np.sum(R == 0), want=5000 * p0[0, 0])
            c.step(5000); c.trace(); c.state(name)


# -- C08 ---------------------------------------------------------------------

def b08(c):
    for name in ('precession', 'rb', 'unknownT2', 'rb_il', 'noisycoin'):
        mk_, gp, ge, f = VEC[name]
        under = mk_(); P = gp(1300); E = ge(under, 4); p0 = f(P, E)
        base = np.stack([p0, 1 - p0])
        with c.case('bulk wrappers %s' % name):
            for nm, m, ref in (('mle', qi.MLEModel(mk_(), 3), base ** 3), ('walk', qi.RandomWalkModel(mk_(), zoo.ZeroDist(P.shape[1])), base),
                               ('gwalk', qi.GaussianRandomWalkModel(mk_(), fixed_covariance=np.ones(P.shape[1])), base), ('poison', qi.PoisonedModel(mk_(), tol=1e-9), base)):
                with core.controlled(core.cycle_stream(3)):
                    L = m.likelihood(np.array([0, 1]), P, E)
                c.eq(L, ref, 'likelihood through a wrapper', tol=1e-6 if nm == 'poison' else 1e-9); c.step()
                with core.controlled(core.cycle_stream(3)):
                    a = m.simulate_experiment(P, E, repeat=2)
                with core.controlled(core.cycle_stream(3)):
                    b = under.simulate_experiment(P, E, repeat=2)
                c.ok(np.array_equal(a, b), 'simulation through a wrapper'); c.step()
            c.trace()
        with c.case('bulk multinomial %s' % name):
            mm = qi.MultinomialModel(mk_())
            X = np.zeros(4, dtype=mm.expparams_dtype)
            if E.dtype.names:
                for fld in E.dtype.names: X[fld] = E[fld]
            else: X['x'] = E
            X['n_meas'] = 30
            outs = np.zeros(31, dtype=[('k', int, 2)]); outs['k'][:, 0] = np.arange(31); outs['k'][:, 1] = 30 - np.arange(31)
            L = mm.likelihood(outs, P, X)
            k0 = np.arange(31)[:, None, None]
            ref = np.array([math.comb(30, int(k)) for k in range(31)], dtype=float)[:, None, None] * np.clip(p0, 0, 1) ** k0 * np.clip(1 - p0, 0, 1) ** (30 - k0)
            c.eq(L, ref, 'multinomial likelihood', tol=1e-9); c.trace(); c.step()


# -- C10 ---------------------------------------------------------------------

def b10(c):
    for n, ne in ((3000, 5), (1025, 1), (3, 1100)):
        for diag in (True, False):
            with c.case('bulk gauss %s %s' % ((n, ne), diag)):
                m0 = qi.UnknownT2Model()
                cov = np.array([0.25, 4.0]) if diag else np.array([[1.0, 0.5], [0.5, 2.0]])
                m = qi.GaussianRandomWalkModel(m0, fixed_covariance=cov, diagonal=diag, scale_mult='t')
                P = np.stack([grid(n, 0, 6), grid(n, 0, 1, 2)], 1); E = ep(m0, 0.5 + grid(ne, 0, 5))
                st = core.cycle_stream(3)
                with core.controlled(st):
                    N = m.update_timestep(P, E)
                c.ok(N.shape == (n, 2, ne), 'shape', got=N.shape)
                D = (N - P[:, :, None]) / E['t']
                C = np.diag(cov) if diag else cov
                q = np.einsum('nik,ij,njk->nk', D, np.linalg.inv(C), D)
                z2 = [z * z for z, _ in st.zgrid]
                sums = np.array(sorted(set(round(a + b, 12) for a in z2 for b in z2)))
                c.ok(np.all(np.min(np.abs(q[..., None] - sums), axis=-1) < 1e-5 * (1 + q)), 'displacement is not noise of the stated covariance')
                c.ok(len(np.unique(np.round(D[:, 0, :], 6))) >= 4, 'noise does not vary')
                c.step(n * ne); c.trace(); c.state(n, ne, diag)
        with c.case('bulk static %s' % ((n, ne),)):
            for name in ('precession', 'rb'):
                m, P, E, p0 = vec(name, n, ne)
                N = m.update_timestep(P, E)
                c.ok(N.shape == (n, P.shape[1], ne) and np.all(N == P[:, :, None]), 'static models must not move'); c.step()
            c.trace()
    with c.case('bulk walk update'):
        class Step(qd.Distribution):
            n_rvs = 1
            def sample(self, n=1): return 0.01 * (np.arange(n) % 3)[:, None]
        P = grid(3000, 1, 5)[:, None]
        u = mk(qi.RandomWalkModel(qi.SimplePrecessionModel(), Step()), P, resample_thresh=0.0)
        w = np.ones(3000) / 3000; x = P.copy()
        for k, t in enumerate((1.0, 2.5, 0.7)):
            w = w * (np.cos(x[:, 0] * t / 2) ** 2 if k % 2 == 0 else np.sin(x[:, 0] * t / 2) ** 2); w /= w.sum()
            u.update(k % 2, np.array([t])); x = x + 0.01 * (np.arange(3000) % 3)[:, None]
            c.eq(u.particle_locations, x, 'locations', tol=1e-12); c.eq(u.particle_weights * 3000, w * 3000, 'weights'); c.step()
        c.trace()


# -- C13 / C14 ----------------------------------------------------------------

def b13(c):
    for n, d in ((20000, 1), (5000, 3), (1025, 2), (1500, 6)):
        X = np.stack([grid(n, -3, 5, 1 + j % 4) * (1 + j) + (grid(n, 0, 1, 1 + (j + 1) % 4) if j > 3 else 0) for j in range(d)], 1)
        w = 1 + np.floor(grid(n, 0, 50, 2)) * (np.arange(n) % 4 != 1); w /= w.sum()
        D = qi.ParticleDistribution(particle_locations=X, particle_weights=w)
        U = mk(zoo.TableModel([[(0.5, 0.5)] * 9], [2], n_params=d), X, w)
        for kind, v in (('distribution', D), ('updater', U)):
            with c.case('bulk %s n=%d d=%d' % (kind, n, d)):
                mu = np.array([math.fsum(w * X[:, j]) for j in range(d)])
                Y = X - mu
                cov = np.array([[math.fsum(w * Y[:, i] * Y[:, j]) for j in range(d)] for i in range(d)])
                c.eq(v.est_mean(), mu, 'mean'); c.eq(v.est_covariance_mtx(), cov, 'covariance', tol=1e-8)
                sd = np.sqrt(np.diag(cov)); c.eq(v.est_covariance_mtx(corr=True), cov / np.outer(sd, sd), 'correlation', tol=1e-8)
                c.eq(v.est_meanfn(lambda x: x ** 3), np.array([math.fsum(w * X[:, j] ** 3) for j in range(d)]), 'third moment', tol=1e-8)
                c.eq(v.est_entropy(), -math.fsum(a * math.log(a) for a in w if a > 0), 'entropy'); c.eq(v.n_ess, 1 / math.fsum(w * w), 'effective sample size')
                c.ok(v.n_particles == n, 'number of particles'); c.step(); c.trace(); c.state(kind, n, d)


def b14(c):
    for n, d in ((5000, 1), (12000, 2), (1100, 3)):
        X = np.stack([grid(n, -3, 5, j + 1) for j in range(d)], 1)
        w = 1 + np.floor(grid(n, 0, 50, 2)); w /= w.sum()
        for v in (qi.ParticleDistribution(particle_locations=X, particle_weights=w), mk(zoo.TableModel([[(0.5, 0.5)] * 9], [2], n_params=d), X, w)):
            for lev in (0.1, 0.5, 0.9, 0.95, 0.999):
                with c.case('bulk n=%d d=%d level=%g' % (n, d, lev)):
                    r, out = v.est_credible_region(level=lev, return_outside=True)
                    c.ok(r.shape[1] == d and len(r) + len(out) == n, 'region and rest make up all particles', got=(r.shape, out.shape))
                    o = np.argsort(-w, kind='stable'); cum = np.cumsum(w[o])
                    k = int(np.searchsorted(cum, lev - 1e-12)) + 1
                    c.ok(abs(len(r) - k) <= 1, 'number of particles in the region', got=len(r), want=k)
                    val = {tuple(x): a for x, a in zip(X, w)}
                    wr = np.array([val[tuple(x)] for x in r]); wo = np.array([val[tuple(x)] for x in out]) if len(out) else np.zeros(1)
                    c.ok(math.fsum(wr) >= lev - 1e-9 and wr.min() >= wo.max() - 1e-15, 'heaviest particles making up the level', got=(wr.sum(), wr.min(), wo.max()))
                    c.step(); c.trace()
            c.state(n, d)


# -- C15 ---------------------------------------------------------------------

def b15(c):
    for name, n, ne in (('precession', 3000, 40), ('precession', 50, 1100), ('unknownT2', 1100, 30), ('rb', 1200, 20), ('coin', 2000, 3), ('noisycoin', 1025, 9)):
        with c.case('bulk %s %dx%d' % (name, n, ne)):
            m, P, E, p0 = vec(name, n, ne)
            w = 1 + np.floor(grid(n, 0, 9, 2)); w /= w.sum()
            u = mk(m, P, w, resample_thresh=0.0)
            L = np.clip(np.stack([p0, 1 - p0]), 0, 1)
            N = np.einsum('oie,i->oe', L, w)
            risk = np.zeros(ne); eig = np.zeros(ne)
            for o in (0, 1):
                H = L[o] * w[:, None] / np.where(N[o] > 0, N[o], 1)
                mu = H.T.dot(P)                                 # ne, d
                var = np.einsum('ie,ied->ed', H, (P[:, None, :] - mu[None]) ** 2)
                risk += N[o] * var.sum(axis=1) if n * ne < 1e6 else N[o] * var.sum(axis=1)
                with np.errstate(all='ignore'):
                    eig += N[o] * np.where(H > 0, H * np.log(H / w[:, None]), 0).sum(axis=0)
            c.eq(u.bayes_risk(E), risk, 'expected posterior variance', tol=1e-8); c.eq(u.expected_information_gain(E), eig, 'expected information gain', tol=1e-8)
            c.eq(u.particle_weights, w, 'weights', tol=0); c.step(2 * ne); c.trace(); c.state(name, n, ne)


# -- C17 ---------------------------------------------------------------------

def b17(c):
    for name, dp in (('precession', lambda P, E: (-np.sin(P * E) * E / 2)[None]), ('rb', None), ('coin', lambda P, E: np.ones((1, len(P), len(E)))),
                     ('inversion', lambda P, E: (-np.sin((P - E['w_']) * E['t']) * E['t'] / 2)[None])):
        for n, ne in ((1100, 6), (5, 1100)):
            with c.case('bulk %s %dx%d' % (name, n, ne)):
                m, P, E, p0 = vec(name, n, ne)
                if name == 'rb':
                    E['m'] = 1 + np.arange(ne) % 40
                    p0 = rb_p(P, E); k = E['m'].astype(float)
                    D = -np.stack([P[:, 1:2] * k * P[:, :1] ** (k - 1), P[:, :1] ** k, np.ones((n, ne))])
                else:
                    D = dp(P, E)
                good = (p0 > 1e-3) & (p0 < 1 - 1e-3)
                F = np.asarray(m.fisher_information(P, E))
                ref = D[:, None] * D[None] * (1 / np.where(good, p0, 1) + 1 / np.where(good, 1 - p0, 1))
                c.ok(F.shape == (D.shape[0], D.shape[0], n, ne), 'shape', got=F.shape)
                for i, j in itertools.product(range(D.shape[0]), repeat=2):
                    c.eq(F[i, j][good], ref[i, j][good], 'information', tol=1e-5)
                S = np.asarray(m.score(np.array([0, 1]), P, E))
                c.ok(S.shape[-2:] == (n, ne), 'shape of the score', got=S.shape)
                S = S.reshape((D.shape[0], 2, n, ne))
                for i in range(D.shape[0]):
                    c.eq(S[i, 0][good], (D[i] / p0)[good], 'score of outcome 0', tol=1e-5); c.eq(S[i, 1][good], (-D[i] / (1 - p0))[good], 'score of outcome 1', tol=1e-5)
                c.step(n * ne); c.trace(); c.state(name, n, ne)


# -- C18 ---------------------------------------------------------------------

def b18(c):
    from .c18 import UNCOUNTED
    for name in VEC:
        with c.case('bulk %s' % name):
            m, P, E, p0 = vec(name, 1100, 3)
            calls = not any(x in name for x in UNCOUNTED)
            m.likelihood(np.array([0, 1]), P, E); m.likelihood(np.array([0]), P[:5], E[:1])
            if calls: c.ok(m.call_count == 6600 + 5, 'calls', got=m.call_count)
            with core.controlled(core.cycle_stream(3)):
                m.simulate_experiment(P, E, repeat=2); m.simulate_experiment(P[:2], E[:2], repeat=3000)
            c.ok(m.sim_count == 6600 + 12000, 'simulations', got=m.sim_count); c.step(4); c.trace()
        with c.case('bulk many calls %s' % name):
            m, P, E, p0 = vec(name, 4, 3)
            for k in range(1500):
                m.likelihood(np.array([k % 2]), P[:1 + k % 4], E[:1])
            if calls: c.ok(m.call_count == 1500 * 5 // 2, 'calls', got=m.call_count)
            with core.controlled(core.cycle_stream(3)):
                for k in range(1200):
                    m.simulate_experiment(P[:1 + k % 4], E[:1], repeat=1 + k % 2)
            want = sum((1 + k % 4) * (1 + k % 2) for k in range(1200))
            c.ok(m.sim_count == want, 'simulations', got=m.sim_count, want=want)
            c.state(name); c.trace(); c.step(2700)


# -- C19 ---------------------------------------------------------------------

def b19(c):
    from .c19 import par
    for name, n, ne, k in (('precession', 20000, 2, 7), ('rb', 1100, 5, 3), ('unknownT2', 10, 1100, 4), ('rb_il', 1025, 2, 16)):
        for th in (0, 1, 1024, n * ne + 1):
            with c.case('bulk %s %dx%d engines=%d threshold=%d' % (name, n, ne, k, th)):
                m, P, E, p0 = vec(name, n, ne)
                pm, view = par(m, k, th=th)
                L = pm.likelihood(np.array([0, 1]), P, E)
                c.eq(L, np.stack([p0, 1 - p0]), 'distributed likelihood'); c.step(k); c.trace()
        with c.case('bulk simulate %s' % name):
            m, P, E, p0 = vec(name, min(n, 1100), min(ne, 1100))
            pm, view = par(m, k)
            with core.controlled(core.cycle_stream(5)):
                R = pm.simulate_experiment(P, E, repeat=2)
            c.ok(R.shape == (2,) + p0.shape and np.all((R == 0) | (R == 1)), 'shape and domain', got=R.shape)
            c.ok(not np.any((R == 0) & (p0 <= 0)) and not np.any((R == 1) & (p0 >= 1)), 'impossible outcome'); c.step(); c.trace(); c.state(name)
    with c.case('bulk updater'):
        m, P, E, p0 = vec('precession', 5000, 6)
        pm, view = par(m, 5)
        u = mk(pm, P, resample_thresh=0.0); w = np.ones(5000) / 5000
        for k in range(6):
            o = k % 2; w = w * (p0[:, k] if o == 0 else 1 - p0[:, k]); w /= w.sum()
            u.update(o, E[k:k + 1]); c.eq(u.particle_weights * 5000, w * 5000, 'posterior weights'); c.step()
        c.trace()


# -- C24 ---------------------------------------------------------------------

def b24(c):
    from qinfer import simple_est as SE
    for N in (1100, 3000):
        with c.case('bulk prec %d' % N):
            ts = 0.05 * (np.arange(N) % 50 + 1); w = 0.61
            rows = np.stack([np.round(np.sin(w * ts / 2) ** 2 * 10), ts, 10 * np.ones(N)], 1)
            with core.controlled(core.cycle_stream(1, n_u=512)):
                m, v, ex = SE.simple_est_prec(rows, n_particles=120, return_all=True)
            u = ex['updater']
            c.ok(len(u.data_record) == N, 'data used', got=len(u.data_record))
            c.ok([int(np.ravel(o)[0]) for o in u.data_record] == rows[:, 0].astype(int).tolist(), 'counts used')
            c.eq(m, u.est_mean()[0], 'mean'); c.eq(v, u.est_covariance_mtx()[0, 0], 'variance')
            c.ok(abs(m - w) < 0.05, 'far from the truth', got=m); c.step(N); c.trace(); c.state(N)


# -- C26 ---------------------------------------------------------------------

def b26(c):
    for n in (1500, 6000):
        for ratio, th in ((0.5, 1.0), (0.9, 1.0), (0.2, 1.0), (1.0, 1.0), (0.0, 1.0)):
            with c.case('bulk n=%d ratio=%g' % (n, ratio)):
                g, a = qi.SimplePrecessionModel(), qi.MLEModel(qi.SimplePrecessionModel(), 2)
                P = grid(n, 0.5, 5)[:, None]
                W = 1 + np.floor(grid(n, 0, 40, 2)); W = W + 1e-3 * grid(n, 0, 1, 3); W /= W.sum()
                u = qi.MixedApproximateSMCUpdater(g, a, n, zoo.ListPrior(P), mixture_ratio=ratio, mixture_thresh=th, min_good=0, resample_thresh=0.0)
                u.particle_weights = W.copy()
                u.update(0, np.array([1.3]))
                L = np.cos(P[:, 0] * 1.3 / 2) ** 2
                r = u.particle_weights / W
                # every particle got weight times one of the two likelihoods, on a common scale
                best = None
                for i in (int(np.argmax(W)), int(np.argmin(W)), n // 2):
                    for p in (1, 2):
                        s = r[i] / L[i] ** p
                        good = np.abs(r / s - L) < 1e-9; app = np.abs(r / s - L ** 2) < 1e-9
                        if np.all(good | app): best = (good, app)
                if c.ok(best is not None, 'weights are not weight times one of the two likelihoods'):
                    good = best[0] & ~best[1]; app = best[1] & ~best[0]
                    if good.any() and app.any():
                        c.ok(W[good].min() >= W[app].max() - 1e-15, 'the heaviest particles get the good model', got=(W[good].min(), W[app].max()))
                        share = W[good | (best[0] & best[1] & (W >= W[good].min()))].sum()
                        c.ok(abs(share - ratio) <= 2 * W.max() + 0.02 or ratio in (0.0, 1.0), 'share of weight of the good model', got=share, want=ratio)
                    elif ratio not in (0.0, 1.0):
                        c.fail('only one of the models used')
                c.step(); c.trace(); c.state(n, ratio)


# -- C28 ---------------------------------------------------------------------

def b28(c):
    from .c28 import upd
    for n in (1100, 4000):
        X = np.stack([grid(n, -1, 3), grid(n, 0, 1, 2)], 1)
        w = 1 + np.floor(grid(n, 0, 9, 3)); w /= w.sum()
        with c.case('bulk marginal %d' % n):
            u = upd(X, w)
            for idx in (0, 1):
                for res in (100, 1200):
                    xs, pr = u.posterior_marginal(idx, res=res)
                    o = np.argsort(X[:, idx]); S = np.cumsum(w[o])
                    c.eq(xs, np.linspace(X[:, idx].min(), X[:, idx].max(), res), 'range of the marginal', tol=1e-9)
                    F = np.interp(xs, X[o, idx], S)
                    h = xs[1] - xs[0]
                    tot = np.sum(pr) * h
                    c.ok(abs(tot - 1) < 0.05, 'total weight of the marginal', got=tot)
                    c.ok(np.max(np.abs(np.cumsum(pr) * h - F)) < 0.05, 'cumulated marginal'); c.step()
            c.trace()
        with c.case('bulk mesh %d' % n):
            u = upd(X, w)
            a, b, pr = u.posterior_mesh(0, 1, res1=7, res2=5, smoothing=0.3)
            s = 0.3
            ref = np.array([[math.fsum(w * np.exp(-0.5 * (((X[:, 0] - x) / s) ** 2 + ((X[:, 1] - y) / s) ** 2)) / (2 * math.pi * s * s)) for x, y in zip(p, q)] for p, q in zip(a, b)])
            c.eq(pr, ref, 'density on the mesh', tol=1e-6); c.step(35); c.trace(); c.state(n)


# -- C09 / C11 ----------------------------------------------------------------

def b09(c):
    """Over a thousand experiments and outcomes asked about at once."""
    for name in VEC:
        for wrap, f in (('plain', lambda m: m), ('binomial', qi.BinomialModel), ('mle', lambda m: qi.MLEModel(m, 2)), ('poison', lambda m: qi.PoisonedModel(m, tol=0.1))):
            with c.case('bulk %s %s' % (name, wrap)):
                mk_, gp, ge, g = VEC[name]
                m = f(mk_()); E0 = ge(mk_(), 1200)
                E = np.zeros(1200, dtype=m.expparams_dtype)
                if E.dtype.names is None: E = E0
                elif E0.dtype.names:
                    for n in E0.dtype.names: E[n] = E0[n]
                elif 'x' in E.dtype.names: E['x'] = E0
                if wrap == 'binomial': E['n_meas'] = 1 + np.arange(1200)
                want = 2 + np.arange(1200) if wrap == 'binomial' else np.full(1200, 2)
                got = np.asarray(m.n_outcomes(E))
                c.eq(np.broadcast_to(got, (1200,)), want, 'number of outcomes')
                doms = m.domain(E)
                c.ok(len(doms) == 1200 if isinstance(doms, (list, tuple)) else True, 'one domain per experiment')
                if isinstance(doms, (list, tuple)):
                    for k in list(range(0, 1200, 97)) + [1023, 1024, 1199]:
                        c.eq(np.ravel(doms[k].values), np.arange(want[k]), 'outcomes of an experiment', at=k); c.step()
                P = gp(1500)
                c.ok(np.asarray(m.are_models_valid(P)).shape == (1500,), 'one verdict per parameter vector')
                bad = P.copy(); bad[1024:1027, 0] = -5
                base = np.asarray(mk_().are_models_valid(P)); v = np.asarray(m.are_models_valid(bad))
                c.ok(not v[1024:1027].any() and np.array_equal(np.delete(v, [1024, 1025, 1026]), np.delete(base, [1024, 1025, 1026])), 'validity row by row')
                c.trace(); c.state(name, wrap)


def b11(c):
    from qinfer.domains import IntegerDomain, RealDomain, MultinomialDomain, ProductDomain
    for lo, n in ((0, 20000), (-7, 1025), (10 ** 6, 5000)):
        with c.case('bulk integer %d %d' % (lo, n)):
            d = IntegerDomain(min=lo, max=lo + n - 1)
            c.eq(d.values, np.arange(lo, lo + n), 'values'); c.ok(d.n_members == n and d.in_domain(d.values), 'members')
            for bad in (lo - 1, lo + n):
                for at in (0, 1023, n - 1):
                    x = d.values.copy(); x[at] = bad
                    c.ok(not d.in_domain(x), 'one point outside among many', at=at, bad=bad); c.step()
            x = d.values.astype(float); x[1000] += 0.5
            c.ok(not d.in_domain(x), 'one fraction among many'); c.trace(); c.state(lo, n)
    with c.case('bulk real'):
        d = RealDomain(min=0, max=1)
        x = grid(20000, 0, 1)
        c.ok(d.in_domain(x), 'members')
        for at in (0, 1024, 19999):
            for bad in (-1e-6, 1 + 1e-6, np.nan):
                y = x.copy(); y[at] = bad
                c.ok(not d.in_domain(y), 'one point outside among many', at=at, bad=bad); c.step()
        c.trace()
    for n, k in ((40, 3), (1100, 2), (12, 5)):
        with c.case('bulk multinomial %d %d' % (n, k)):
            d = MultinomialDomain(n_meas=n, n_elements=k)
            want = math.comb(n + k - 1, k - 1)
            v = d.values
            rows = np.asarray(v['k'])
            c.ok(d.n_members == want and rows.shape == (want, k), 'number of members', got=(d.n_members, rows.shape), want=want)
            c.ok(np.all(rows.sum(axis=1) == n) and rows.min() >= 0 and len(np.unique(rows, axis=0)) == want, 'all count vectors, each once')
            c.ok(d.in_domain(v), 'members')
            for at in (0, want // 2, want - 1):
                y = v.copy(); y['k'][at, 0] += 1
                c.ok(not d.in_domain(y), 'one point outside among many', at=at); c.step()
            arr = d.to_regular_array(v)
            c.ok(np.array_equal(arr, rows), 'regular array'); c.ok(np.array_equal(np.asarray(d.from_regular_array(arr)['k']), rows), 'back from the regular array')
            c.trace(); c.state(n, k)
    with c.case('bulk product'):
        a, b = IntegerDomain(min=0, max=39), IntegerDomain(min=-3, max=36)
        class B(IntegerDomain):
            dtype = property(lambda s: int)
        d = ProductDomain(a, MultinomialDomain(n_meas=8, n_elements=3))
        c.ok(d.n_members == 40 * 45, 'number of members', got=d.n_members)
        v = d.values
        c.ok(len(v) == 1800 and d.in_domain(v), 'members', got=len(v))
        c.ok(len(set(map(repr, v.tolist()))) == 1800, 'all members, each once'); c.trace(); c.step()


# -- C12 ---------------------------------------------------------------------

def b12(c):
    n = 12000
    import scipy.stats as st
    cases = [('uniform', lambda: qd.UniformDistribution([[0, 1], [-2, 5]]), [st.uniform(0, 1), st.uniform(-2, 7)]),
             ('normal', lambda: qd.NormalDistribution(1, 4.0), [st.norm(1, 2)]), ('truncated', lambda: qd.NormalDistribution(0, 1.0, trunc=(-1, 2)), [st.truncnorm(-1, 2)]),
             ('lognormal', lambda: qd.LogNormalDistribution(0, 1), [st.lognorm(1)]), ('beta', lambda: qd.BetaDistribution(alpha=2, beta=5), [st.beta(2, 5)]),
             ('gamma', lambda: qd.GammaDistribution(alpha=2, beta=3), [st.gamma(2, scale=1 / 3.)]),
             ('product', lambda: qd.ProductDistribution(qd.UniformDistribution([0, 1]), qd.BetaDistribution(alpha=2, beta=2)), [st.uniform(), st.beta(2, 2)]),
             ('mvn', lambda: qd.MultivariateNormalDistribution(np.array([1.0, -2.0]), np.array([[1.0, 0.3], [0.3, 4.0]])), [st.norm(1, 1), st.norm(-2, 2)])]
    for name, mk_, laws in cases:
        for m in (1025, n):
            with c.case('bulk %s %d' % (name, m)):
                np.random.seed(7)
                d = mk_()
                s = np.asarray(d.sample(m))
                if c.ok(s.shape == (m, d.n_rvs) and np.all(np.isfinite(s)), 'shape', got=s.shape):
                    for j, l in enumerate(laws):
                        F = np.sort(l.cdf(s[:, j])); D = np.max(np.abs(F - (np.arange(m) + 0.5) / m))
                        c.ok(D < 2.5 / math.sqrt(m), 'distribution of many samples', distance=D); c.ok(len(np.unique(s[:, j])) > 0.99 * m, 'samples repeat')
                    if name in ('product', 'uniform'):
                        c.ok(abs(np.corrcoef(s.T)[0, 1]) < 5 / math.sqrt(m), 'factors are correlated', got=np.corrcoef(s.T)[0, 1])
                    if name == 'mvn': c.ok(np.allclose(np.cov(s.T), [[1.0, 0.3], [0.3, 4.0]], atol=20 / math.sqrt(m)), 'covariance', got=np.cov(s.T))
                c.step(); c.trace(); c.state(name, m)
    # random qubit states: coordinates of uniform points of the sphere (pure) or of the ball (Hilbert-Schmidt) are known
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        states = [('haar', lambda: qd.HaarUniform(), True), ('ginibre 1', lambda: qd.GinibreUniform(k=1), True), ('ginibre 2', lambda: qd.GinibreUniform(k=2), False), ('hilbert-schmidt', lambda: qd.HilbertSchmidtUniform(), False)]
    for name, mk_, pure in states:
        with c.case('bulk %s' % name):
            np.random.seed(17); m = 4000
            s = np.asarray(mk_().sample(m))
            if not c.ok(s.shape == (m, 3), 'shape', got=s.shape): continue
            for v, F in [(s[:, j], (lambda x: (x + 1) / 2) if pure else (lambda x: 0.5 + 0.25 * (3 * x - x ** 3))) for j in range(3)] + ([] if pure else [(np.sqrt((s ** 2).sum(axis=1)), lambda r: r ** 3)]):
                D = np.max(np.abs(np.sort(F(v)) - (np.arange(m) + 0.5) / m))
                c.ok(D < 2.5 / math.sqrt(m), 'distribution of random states', distance=D)
            c.ok(np.max(np.abs(np.corrcoef(s.T) - np.eye(3))) < 6 / math.sqrt(m), 'coordinates are correlated', got=np.corrcoef(s.T))
            c.step(); c.trace()
    for m in (1025, 5000):
        with c.case('bulk constrained %d' % m):
            np.random.seed(3)
            d = qd.PostselectedDistribution(qd.UniformDistribution([[0, 1], [0, .5], [0, 1]]), qi.RandomizedBenchmarkingModel(), maxiters=100)
            s = d.sample(m); v = qi.RandomizedBenchmarkingModel().are_models_valid(s)
            c.ok(s.shape == (m, 3) and np.all(v), 'samples of a postselected distribution are valid models', bad=np.sum(~v)); c.step(); c.trace()
            w = 1 + np.arange(40.0) % 7; w /= w.sum(); X = grid(40, 0, 9)[:, None]
            s = qi.ParticleDistribution(particle_locations=X, particle_weights=w).sample(m)
            cnt = np.array([np.sum(s[:, 0] == x) for x in X[:, 0]])
            c.ok(s.shape == (m, 1) and cnt.sum() == m and np.max(np.abs(cnt - m * w)) < 6 * math.sqrt(m * w.max()), 'particles drawn by weight', got=cnt)
            s = qd.MixtureDistribution(np.array([0.25, 0.75]), [qd.UniformDistribution([0, 1]), qd.UniformDistribution([2, 3])]).sample(m)
            k = np.sum(s < 1.5); c.ok(s.shape == (m, 1) and abs(k - m / 4.) < 6 * math.sqrt(m), 'components by weight', got=k); c.step(2)


# -- C16 ---------------------------------------------------------------------

def b16(c):
    for n in (1100, 4000):
        with c.case('bulk pgh %d' % n):
            P = grid(n, 0.1, 6)[:, None]
            w = 1 + np.floor(grid(n, 0, 9, 2)); w[::3] = 0; w /= w.sum()
            u = mk(qi.SimpleInversionModel(), P, w, resample_thresh=0.0)
            h = qi.PGH(u, inv_field='w_', t_field='t')
            with core.controlled(core.cycle_stream(4, n_u=4096)):
                for k in range(60):
                    e = h(); d = 1 / e['t'][0]
                    i = np.nonzero(np.abs(P[:, 0] - e['w_'][0]) < 1e-9)[0]
                    c.ok(len(i) == 1 and w[i[0]] > 0, 'inversion is a particle of positive weight', got=e)
                    c.ok(np.min(np.abs(np.abs(P[w > 0, 0] - e['w_'][0]) - d)) < 1e-6, 'time is the inverse distance to another particle', got=e); c.step()
            c.eq(u.particle_weights, w, 'weights', tol=0); c.trace(); c.state(n)
    with c.case('bulk sparse'):
        m, P, E, p0 = vec('precession', 30, 1)
        u = mk(m, P, resample_thresh=0.0, zero_weight_policy='skip')
        h = qi.ExpSparseHeuristic(u, scale=2.0, base=1.001)
        for k in range(1100):
            if k % 50 == 0 or k > 1020:
                c.eq(float(h()[0]), 2.0 * 1.001 ** k, 'time of the schedule', k=k)
            u.update(k % 2, E); c.step()
        c.trace()
    with c.case('bulk designer'):
        m, P, E, p0 = vec('inversion', 1500, 1)
        u = mk(m, P, resample_thresh=0.0)
        d = qi.ExperimentDesigner(u)
        for t in (0.5, 3.0):
            d.new_exp()
            g = np.array([(t, 0.3)], dtype=m.expparams_dtype)
            r0 = u.bayes_risk(g)[0]
            out = d.design_expparams_field(g.copy(), 't', cost_scale_k=1.0, maxiter=5)
            e = out[0] if isinstance(out, tuple) else out
            c.ok(np.ravel(u.bayes_risk(e.copy()))[0] <= r0 + 1e-9, 'designed experiment no worse than the guess', got=e); c.step()
        c.trace()


# -- C20 ---------------------------------------------------------------------

def b20(c):
    from .c20 import judge, e_
    from .c20 import fixed as fx
    from qinfer import perf_testing as pt
    for n, n_exp in ((1500, 6), (12, 1100), (300, 300)):
        with c.case('bulk trial %d %d' % (n, n_exp)):
            P = grid(n, 0.2, 4)[:, None]; truth = [1.234]
            heur = fx([np.array([0.7]), np.array([1.9]), np.array([3.1])])
            uk = dict(resample_thresh=0.0, zero_weight_policy='skip')
            with core.controlled(core.cycle_stream(3, n_u=64)):
                perf = pt.perf_test(qi.SimplePrecessionModel(), n, zoo.ListPrior(P), n_exp, heur, extra_updater_args=uk, true_mps=np.array([truth]))
            judge(c, perf, qi.SimplePrecessionModel(), qi.SimplePrecessionModel(), P, heur, uk, truth, n_exp)
            c.step(n_exp); c.trace(); c.state(n, n_exp)
    with c.case('bulk trials'):
        P = grid(12, 0.2, 4)[:, None]
        with core.controlled(core.cycle_stream(3, n_u=64)):
            perf = pt.perf_test_multiple(300, qi.SimplePrecessionModel(), 12, zoo.ListPrior(P), 4, fx([np.array([0.7]), np.array([1.9])]),
                                         extra_updater_args=dict(zero_weight_policy='skip', resample_thresh=0.0), true_mps=np.array([[1.234]]))
        c.ok(perf.shape == (300, 4), 'one row per trial', got=perf.shape)
        o = np.asarray(perf['outcome']).astype(int)
        c.eq(np.asarray(perf['true']).reshape(300, 4), np.full((300, 4), 1.234), 'true parameters')
        ref = {}
        for k in range(300):
            key = tuple(o[k])
            if key not in ref:
                w = np.ones(12) / 12; r = []
                for i, oo in enumerate(key):
                    t = (0.7, 1.9)[i % 2]; L = np.cos(P[:, 0] * t / 2) ** 2
                    w = w * (L if oo == 0 else 1 - L); w /= w.sum(); r.append(w.dot(P[:, 0]))
                ref[key] = r
            c.eq(np.asarray(perf['est'][k]).ravel(), ref[key], 'estimates of a trial', trial=k)
            c.eq(np.asarray(perf['loss'][k]).ravel(), (np.array(ref[key]) - 1.234) ** 2, 'loss of a trial', trial=k); c.step()
        c.ok(len(ref) > 2, 'trials all alike'); c.trace()


# -- C21 / C22 ----------------------------------------------------------------

def b21(c):
    from qinfer import tomography as T
    for b, d in ((T.pauli_basis(1), 2), (T.gell_mann_basis(3), 3), (T.pauli_basis(2), 4)):
        with c.case('bulk born d=%d' % d):
            n, ne = 1500, 40
            D = np.asarray(b.data)
            G = np.stack([np.stack([grid(n, -1, 1, 1 + (i + j) % 4) * (1 + i) + 0.3 * j + 1j * grid(n, -1, 1, 1 + (i * j + 1) % 4) for j in range(d)], 1) for i in range(d)], 1)
            R = np.einsum('nij,nkj->nik', G, G.conj()); R /= np.trace(R, axis1=1, axis2=2).real[:, None, None]
            M = np.einsum('nij,nkj->nik', G[:ne], G[:ne].conj()); M /= np.linalg.eigvalsh(M).max(axis=1)[:, None, None] * 1.01
            x = np.einsum('aij,nij->na', D.conj(), R).real; e = np.einsum('aij,nij->na', D.conj(), M).real
            m = T.TomographyModel(b)
            E = np.zeros(ne, dtype=m.expparams_dtype); E['meas'] = e
            want = np.einsum('nij,mji->nm', R, M).real
            L = m.likelihood(np.array([0, 1]), x, E)
            c.eq(L, np.stack([1 - want, want]), 'Born rule', tol=1e-9)
            bad = x.copy(); bad[1024, 1:] *= 9
            can = m.canonicalize(x); c.eq(can, x, 'canonical form of states', tol=1e-7)
            can = m.canonicalize(bad); c.eq(np.delete(can, 1024, 0), np.delete(x, 1024, 0), 'canonical form of the other states', tol=1e-7)
            c.ok(np.linalg.eigvalsh(np.einsum('na,aij->nij', can, D)).min() > -1e-7, 'canonical form is a state')
            w = np.ones(n) / n; u = mk(m, x, resample_thresh=0.0)
            for k in range(6):
                o = k % 2; w = w * (want[:, k] if o else 1 - want[:, k]); w /= w.sum(); u.update(o, E[k:k + 1])
                c.eq(u.particle_weights * n, w * n, 'posterior weights', tol=1e-8)
            c.step(n * ne); c.trace(); c.state(d)


def b22(c):
    from qinfer import tomography as T
    for nm, mk_ in (('ginibre', lambda: T.GinibreDistribution(T.pauli_basis(1))), ('ginibre rank', lambda: T.GinibreDistribution(T.gell_mann_basis(3), rank=1)),
                    ('rebit', lambda: T.GinibreReditDistribution(T.pauli_basis(1))), ('ginibre 2', lambda: T.GinibreDistribution(T.pauli_basis(2))), ):
        with c.case('bulk %s' % nm):
            np.random.seed(5)
            d = mk_(); s = d.sample(1200)
            D = np.asarray(d.basis.data); R = np.einsum('na,aij->nij', s, D)
            w = np.linalg.eigvalsh((R + np.transpose(R.conj(), (0, 2, 1))) / 2)
            c.ok(s.shape == (1200, d.n_rvs), 'shape', got=s.shape)
            c.ok(np.allclose(np.trace(R, axis1=1, axis2=2), 1, atol=1e-9), 'trace'); c.ok(w.min() > -1e-9, 'positive', got=w.min())
            if nm == 'ginibre rank': c.ok(np.allclose(w[:, -1], 1, atol=1e-9), 'rank one')
            if nm == 'rebit': c.ok(np.abs(R.imag).max() < 1e-12, 'real')
            c.ok(len(np.unique(np.round(s[:, 1], 9))) > 1150, 'samples repeat'); c.ok(np.abs(R.mean(0) - np.eye(len(R[0])) / len(R[0])).max() < 0.08, 'mean state', got=R.mean(0))
            c.step(1200); c.trace(); c.state(nm)


# -- C23 ---------------------------------------------------------------------

def b23(c):
    import qinfer.utils as U
    import scipy.special as sp
    with c.case('bulk simplex'):
        for d in (2, 4, 30):
            x = np.stack([grid(5000, 0.01, 1, 1 + j % 4) * (1 + j % 3) + 0.01 for j in range(d)], 1); x /= x.sum(axis=1)[:, None]
            c.eq(U.to_simplex(U.from_simplex(x)), x, 'simplex and back', tol=1e-7); c.step()
    with c.case('bulk moments'):
        X = np.stack([grid(20000, -2, 7, j + 1) for j in range(3)], 1); w = 1 + np.floor(grid(20000, 0, 9)); w /= w.sum()
        mu = w.dot(X); Y = X - mu
        c.eq(U.particle_meanfn(w, X, lambda x: x), mu, 'mean'); c.eq(U.particle_covariance_mtx(w, X), (Y * w[:, None]).T.dot(Y), 'covariance', tol=1e-8); c.step(2)
    with c.case('bulk counts'):
        for N in (1025, 5000):
            p = np.array([0.1, 0.35, 0.9]); k = np.array([5, 400, 1000])
            got = np.array([float(U.binomial_pdf(N, n_, p_)) for n_, p_ in zip(k, p)])
            ref = np.exp(sp.gammaln(N + 1) - sp.gammaln(k + 1) - sp.gammaln(N - k + 1) + k * np.log(1 - p) + (N - k) * np.log(p))
            ref2 = np.exp(sp.gammaln(N + 1) - sp.gammaln(k + 1) - sp.gammaln(N - k + 1) + k * np.log(p) + (N - k) * np.log(1 - p))
            c.ok(np.allclose(got, ref, rtol=1e-7, atol=1e-12) or np.allclose(got, ref2, rtol=1e-7, atol=1e-12), 'binomial probabilities', got=got, want=(ref, ref2)); c.step()
        for N in (1, 100, 1500, 20000):
            n_ = np.arange(0, N + 1, max(1, N // 50))
            for h in (0.0, 0.5, 1.0):
                c.eq(U.binom_est_p(n_, N, h), (n_ + h) / (N + 2 * h), 'estimate'); c.step()
    with c.case('bulk structs'):
        a = np.zeros(3000, dtype=[('x', float), ('n', int)]); a['x'] = grid(3000, 0, 1); a['n'] = np.arange(3000)
        b = np.zeros(3000, dtype=[('v', float, 2)]); b['v'] = np.stack([grid(3000, 0, 1, 2), grid(3000, 0, 1, 3)], 1)
        j = U.join_struct_arrays([a, b])
        c.ok(j.shape == (3000,) and np.array_equal(j['x'], a['x']) and np.array_equal(j['n'], a['n']) and np.array_equal(j['v'], b['v']), 'joined')
        s = U.separate_struct_array(j, [a.dtype, b.dtype])
        c.ok(np.array_equal(s[0], a) and np.array_equal(s[1]['v'], b['v']), 'separated'); c.step(2)
    with c.case('bulk ellipsoid'):
        X = np.stack([grid(1050, -2, 2), grid(1050, -1, 1, 2)], 1)
        A, ctr = U.mvee(X, 0.001)
        q = np.einsum('ni,ij,nj->n', X - ctr, A, X - ctr)
        c.ok(q.max() <= 1.02, 'all points inside', got=q.max()); vol = U.ellipsoid_volume(A=A)
        c.ok(8 < vol <= math.pi * 4 * 1.02, 'volume', got=vol)
        c.eq(U.in_ellipsoid(X, np.linalg.inv(A / 1.05), ctr), q <= 1.05, 'points of the ellipsoid')
        c.ok(not np.any(U.in_ellipsoid(X + 50, np.linalg.inv(A), ctr)), 'far points'); c.step()
    with c.case('bulk outer products'):
        v = np.arange(1100.0); o = U.outer_product(v); c.eq(o, np.outer(v, v), 'outer product'); c.step(); c.trace()
    with c.case('bulk uniquify'):
        s = [k % 700 for k in range(5000)]; c.ok(list(U.uniquify(s)) == list(range(700)), 'first occurrences in order'); c.step()


# -- C27 ---------------------------------------------------------------------

def b27(c):
    """Large runs from one seed are equal, whatever ran in between."""
    def run(name, n, steps):
        m, P, E, p0 = vec(name, n, steps)
        prior = {'precession': qd.UniformDistribution([0.1, 6]), 'rb': qd.PostselectedDistribution(qd.UniformDistribution([[0, 1], [0, .5], [0, .5]]), m), 'unknownT2': qd.UniformDistribution([[0.1, 6], [0, 1]])}[name]
        u = qi.SMCUpdater(m, n, prior, resample_thresh=0.5, zero_weight_policy='skip')
        t = P[:1]; outs = []
        for k in range(steps):
            o = m.simulate_experiment(t, E[k:k + 1]); outs.append(int(np.ravel(o)[0])); u.update(o, E[k:k + 1])
        return u.particle_locations.copy(), u.particle_weights.copy(), outs, u.sample(50), u.resample_count, float(np.ravel(u.log_total_likelihood)[0])
    for name, n, steps in (('precession', 2500, 40), ('rb', 1100, 25), ('unknownT2', 12000, 8), ('precession', 20, 1200)):
        with c.case('bulk %s %d %d' % (name, n, steps)):
            np.random.seed(11); a = run(name, n, steps)
            np.random.seed(5); run('precession', 50, 3)
            np.random.seed(11); b = run(name, n, steps)
            c.ok(a[2] == b[2] and a[4] == b[4], 'outcomes and resamplings of the same seed')
            c.eq(b[0], a[0], 'particles of the same seed', tol=1e-12); c.eq(b[1], a[1], 'weights of the same seed', tol=1e-12); c.eq(b[3], a[3], 'samples of the same seed', tol=1e-12)
            c.ok(a[5] == b[5], 'evidence of the same seed')
            np.random.seed(12); d = run(name, n, steps)
            c.ok(not np.array_equal(d[0], a[0]), 'another seed, another run'); c.step(3 * steps); c.trace(); c.state(name, n)
