"""More edge configurations: long histories, answers at the edge of a cell, near ties, many digits.  One function per check."""
import math, itertools, warnings, io
import numpy as np
import qinfer as qi
from .. import zoo, core, rng
from ..util import *
from .bulk import grid, ep, vec, VEC
EP = lambda *i: np.array([(k,) for k in i], dtype=[('e', 'int')])


class Still(object):
    """A resampler without randomness: the same places, uniform weights."""
    def __call__(self, model, pd, n_particles=None, precomputed_mean=None, precomputed_cov=None):
        n = pd.n_particles
        return qi.ParticleDistribution(particle_locations=np.array(pd.particle_locations), particle_weights=np.ones(n) / n)


# -- C04: hundreds of resamplings -------------------------------------------------

def f04(c):
    for N in (60, 300, 700):
        for track in (True, False):
            with c.case('edge resamplings %d %s' % (N, track)):
                m = zoo.TableModel(zoo.TABLE3, [3, 3])
                u = mk(m, [[0.0], [1.0], [2.0]], resample_thresh=1.0, resampler=Still(), track_resampling_divergence=track, zero_weight_policy='skip')
                done, low, prev = 0, 3.0, []
                for k in range(N):
                    L = m.likelihood(np.array([k % 3]), u.particle_locations, EP(k % 2))[0, :, 0]
                    w, z = ref_update(list(u.particle_weights), list(L))
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        u.update(k % 3, EP(k % 2))
                    low = min(low, ess(w)); done += ess(w) < 3 - 1e-9
                    if abs(ess(w) - 3) < 1e-9: done = u.resample_count
                    c.step()
                c.ok(u.resample_count == done and done > N / 2, 'count of resamplings', got=u.resample_count, want=done)
                c.ok(abs(u.min_n_ess - low) < 1e-9, 'smallest effective sample size', got=u.min_n_ess, want=low)
                if track:
                    c.ok(len(u.resampling_divergences) == done, 'one divergence per resampling', got=len(u.resampling_divergences), want=done)
                else:
                    c.ok(u.resampling_divergences is None, 'no divergences unless tracked')
                c.ok([int(o) for o in u.data_record] == [k % 3 for k in range(N)], 'data record'); c.trace(); c.state(N, track)


# -- C05, C12: answers next to the edge of a particle's share -----------------------

def shares(n, pat):
    w = {'even': [1.0] * n, 'mixed': [1.0 + (i * 7) % 5 for i in range(n)], 'peaked': [math.exp(-0.5 * ((i - n / 3.) / (n / 20.)) ** 2) for i in range(n)]}[pat]
    s = math.fsum(w)
    w = [x / s for x in w]
    return w


class Cell(object):
    """Uniform answers come from the list in turn; a drawn index is judged by its own probability."""
    zgrid = rng.GH2
    def __init__(self, ug, k, n): self.ugrid, self.k, self.n, self.i, self.bad = ug, k, n, 0, None
    def choose(self, m, weights=None, kind=''):
        self.i += 1
        if kind == 'u': return (self.i - 1) % m
        if kind == 'i' and m == self.n: return self.k
        return 0


def under(ctx, f):
    with core.controlled(ctx):
        return f()


def drawn(c, pick, what):
    for n in (2, 50, 1500, 20000):
        for pat in ('even', 'mixed', 'peaked'):
            with c.case('edge shares %s n=%d %s' % (what, n, pat)):
                w = shares(n, pat)
                X = np.arange(n, dtype=float)[:, None]
                ks = sorted(set([0, 1, n // 3, n // 3 + 1, n // 2, n - 2, n - 1]) & set(range(n)))
                for k in ks:
                    if w[k] < 1e-5: continue
                    hi = math.fsum(w[:k + 1]); lo = math.fsum(w[:k])
                    d = min(2e-9, w[k] / 4)
                    ug = [lo + d, (lo + hi) / 2, hi - d]
                    got = under(Cell(ug, k, n), lambda: pick(w, X))
                    c.ok(list(np.ravel(got)) == [float(k)] * 3, 'a particle is drawn by exactly its share', got=got, want=k, answers=ug)
                    c.step()
                c.trace(); c.state(what, n, pat)


def f05(c):
    from .c05 import Region, dist
    def pick(w, X):
        return qi.LiuWestResampler(a=1.0, h=0.0, kernel=lambda d, n: np.zeros((d, n)))(Region(d=1, lo=-1e99, hi=1e99), dist(X, w), n_particles=3).particle_locations
    drawn(c, pick, 'resampler')


def f12(c):
    def pick(w, X):
        return qi.ParticleDistribution(particle_locations=X, particle_weights=np.array(w)).sample(3)
    drawn(c, pick, 'sample')


# -- C20: many resamplings; priors outside the canonical form -------------------------

def f20(c):
    from .c20 import judge, fixed as fx
    from .c01 import FoldModel
    from qinfer import perf_testing as pt
    for N in (300, 40):
        with c.case('edge trial with many resamplings %d' % N):
            m = zoo.TableModel(zoo.TABLE3, [3, 3])
            uk = dict(resample_thresh=1.0, zero_weight_policy='skip', resampler=Still())
            P = [[0.0], [1.0], [2.0], [3.0]]
            np.random.seed(5)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                perf = pt.perf_test(m, 4, zoo.ListPrior(P), N, fx([EP(0), EP(1)]), extra_updater_args=uk, true_mps=np.array([2.0]))
                judge(c, perf, m, m, P, fx([EP(0), EP(1)]), uk, [2.0], N)
            c.ok(perf['resample_count'][-1] > N / 2, 'resamplings happened', got=perf['resample_count'][-1]); c.step(N); c.trace()
    with c.case('edge truth outside the canonical form'):
        for v in (-1.0, -2.0, 1.0):
            m = FoldModel(zoo.TABLE2, [2, 2, 2])
            tp = zoo.ListPrior([[v]])
            uk = dict(resample_thresh=0.0, zero_weight_policy='skip')
            np.random.seed(3)
            for kw in (dict(true_prior=tp), dict(true_mps=np.array([v])), dict(true_mps=np.array([[v]]))):
                try:
                    perf = pt.perf_test(m, 2, zoo.ListPrior([[0.0], [1.0]]), 3, fx([EP(0)]), extra_updater_args=uk, **kw)
                except Exception as e:
                    c.fail('raised', error=repr(e)); continue
                c.eq(np.ravel(perf['true']), [v] * 3, 'the true parameters are those given or drawn', kw=list(kw)); c.step()


# -- C24: long sequences and times of many digits ----------------------------------------

def f24(c):
    from .c24 import PREC, RB, IRB, data_arr
    for kind in (RB, IRB):
        for m in (127, 255, 256, 32768, 65535, 65536, 65537, 100000, 2 ** 24 + 1):
            with c.case('edge lengths %s %d' % (kind.name, m)):
                row = (3, m, 10) + ((1,) if kind is IRB else ())
                row2 = (5, m + 1, 11) + ((0,) if kind is IRB else ())
                kw = dict(n_particles=30, p_min=1 - 3.0 / m, p_max=1.0)
                outs = []
                for form in (data_arr([row, row2]), io.StringIO(''.join(','.join(map(str, r)) + '\n' for r in (row, row2)))):
                    with core.controlled(core.cycle_stream(4, n_u=16)), core.quiet():
                        outs.append(kind.call(form, return_all=True, **kw))
                with core.controlled(core.cycle_stream(4, n_u=16)), core.quiet():
                    u = kind.hand([row, row2], 30, dict(p_min=1 - 3.0 / m, p_max=1.0))
                for mean, cov, ex in outs:
                    c.eq(np.asarray(ex['updater'].particle_locations), u.particle_locations, 'particles of a hand-run', tol=1e-12)
                    c.eq(np.asarray(ex['updater'].particle_weights), u.particle_weights, 'weights of a hand-run', tol=1e-9)
                    c.eq(mean, u.est_mean(), 'mean of a hand-run', tol=1e-9)
                c.step(2); c.trace()
    for t in (1234567.890123, 98765.4321012345, 1.0000000123, 3.25e7 + 1 / 3., 12.00000003333):
        with c.case('edge times %r' % t):
            rows = [(3, t, 10), (5, t / 2, 10), (1, t / 3, 4)]
            outs = []
            txt = ''.join('%d,%r,%d\n' % r for r in rows)
            for form in (data_arr(rows), io.StringIO(txt)):
                with core.controlled(core.cycle_stream(4, n_u=16)), core.quiet():
                    outs.append(SE_prec(form))
            with core.controlled(core.cycle_stream(4, n_u=16)), core.quiet():
                u = PREC.hand(rows, 16, {})
            for mean, var, ex in outs:
                c.eq(np.asarray(ex['updater'].particle_weights), u.particle_weights, 'weights of a hand-run', tol=1e-10)
                c.eq(np.asarray(ex['updater'].particle_locations), u.particle_locations, 'particles of a hand-run', tol=1e-12)
            c.ok(outs[0][0] == outs[1][0] and outs[0][1] == outs[1][1], 'the same answer from text as from an array'); c.step(2); c.trace()


def SE_prec(form):
    from qinfer import simple_est as SE
    return SE.simple_est_prec(form, n_particles=16, return_all=True)


# -- C25: asked again; thousands of simulations with two hedges ------------------------------

def f25(c):
    from .c25 import Even, judge, Sim
    from qinfer.ale import ALEApproximateModel
    # asking again simulates again, and the answer is that of the new simulations
    for nm, ne in ((1, 1), (3, 1), (1, 2), (2, 2)):
        for same in (True, False):
            with c.case('edge asked again %d %d %s' % (nm, ne, same)):
                for seed in range(4):
                    sim = Sim(bias=lambda m, e: 0.5)
                    m = ALEApproximateModel(sim, error_tol=0.2, min_samp=4, samp_step=3)
                    P = np.array([[0.25 + i] for i in range(nm)]); E = np.array([1.0 + 2 * j for j in range(ne)])
                    with core.controlled(core.cycle_stream(seed)):
                        for rep in range(4):
                            del sim.log[:]
                            before = sim.made
                            L = m.likelihood(np.array([0, 1]), P if same else P.copy(), E if same else E.copy())
                            if not c.ok(sim.made > before, 'the likelihood is estimated anew', made=sim.made): break
                            judge(c, sim, (0.2, 4, 3, 0.509, 0.509), (0, 1), P, E, L)
                            c.ok(m.sim_count == sim.made and m.call_count == (rep + 1) * 2 * nm * ne, 'counts', got=(m.sim_count, m.call_count))
                            c.step()
                c.trace()
    # extreme hedges decide the end of long runs
    for eh, ah in ((0.509, 0.0), (0.0, 0.509), (0.5, 40.0), (7.0, 2.0), (0.0, 300.0)):
        for p in (0.0, 0.02, 0.5):
            for tol in (0.02, 0.008, 0.004):
                with c.case('edge long run hedges %g %g p=%g tol=%g' % (eh, ah, p, tol)):
                    sim = Even(lambda m, e: p)
                    m = ALEApproximateModel(sim, error_tol=tol, min_samp=50, samp_step=37, est_hedge=eh, adapt_hedge=ah)
                    L = np.asarray(m.likelihood(np.array([0, 1]), np.array([[1.0]]), np.array([1.0])))
                    n = N = 0
                    for k, (a, b, o) in enumerate(sim.log):
                        n += int(o.sum()); N += len(o)
                        q = (n + ah) / (N + 2 * ah); er = math.sqrt(q * (1 - q) / (N + 2 * ah + 1))
                        c.ok(N == 50 + 37 * k, 'stages', N=N)
                        if abs(er - tol) > 1e-9:
                            c.ok((er < tol) == (k == len(sim.log) - 1), 'stops at the first stage within tolerance', N=N, error=er, tol=tol)
                    c.ok(abs(L[1, 0, 0] - (n + eh) / (N + 2 * eh)) < 1e-12, 'hedged frequency', got=L.ravel()); c.step(len(sim.log)); c.trace(); c.state(eh, ah, p, tol)


# -- C26: near ties of the mixing ratio -------------------------------------------------------

def f26(c):
    from .c26 import Logged, rows_for, split_ok, who
    from qinfer.smc import MixedApproximateSMCUpdater as Mixed
    for n in (5, 40, 400):
        for pat in ('mixed', 'peaked', 'slope'):
            w = shares(n, pat) if pat != 'slope' else norm_w([1.0 + i / (3.0 * n) for i in range(n)])
            order = sorted(w)
            for frac in (0.2, 0.5, 0.8):
                j = int(n * frac)
                edge = math.fsum(order[j:])
                for d in (-2e-8, -4e-9, 4e-9, 2e-8):
                    ratio = edge + d
                    if not 0 < ratio < 1: continue
                    with c.case('edge ratio n=%d %s %g %g' % (n, pat, frac, d)):
                        g, b = Logged('good'), Logged('apx', 0.25)
                        R = rows_for(n)
                        with core.controlled(core.cycle_stream(n)):
                            u = Mixed(g, b, n, zoo.ListPrior(R), resample_thresh=0.0, mixture_ratio=ratio)
                            u.particle_weights = np.array(w); u.particle_locations = R.copy()
                            del g.asked[:], b.asked[:]
                            u.hypothetical_update(0, EP(0))
                        asked_g, asked_b = who(g, R), who(b, R)
                        c.ok(np.all(asked_g + asked_b == 1), 'every particle is evaluated by exactly one model')
                        split_ok(c, w, asked_g > 0, ratio, 1.0, 0)
                        c.step(); c.trace(); c.state(n, pat, frac, d)


# -- C17: information in the tails --------------------------------------------------------------

def f17(c):
    for tail in (1e-3, 1e-5, 1e-7, 1e-9):
        with c.case('edge information of light particles %g' % tail):
            m = qi.SimplePrecessionModel()
            rows = np.array([[0.3], [0.7], [1.1]]); w = [1 - 2 * tail, tail, tail]
            class Pr(zoo.ListPrior):
                def grad_log_pdf(self, x): return np.ones_like(x)
            u = qi.SMCUpdaterBCRB(m, 3, Pr(rows), adaptive=True, initial_bim=np.array([[0.0]]), resample_thresh=0.0)
            u.particle_locations = rows.copy(); u.particle_weights = np.array(w)
            for t in (1.0, 10.0, 1000.0):
                F = m.fisher_information(rows, np.array([t]))[0, 0, :, 0]
                got = float(np.ravel(u.posterior_bayes_information(np.array([t])))[0])
                want = math.fsum(a * b for a, b in zip(w, F))
                c.ok(abs(got - want) <= 1e-12 * abs(want), 'information averages over all particles', got=got, want=want); c.step()
            u2 = qi.SMCUpdaterBCRB(qi.BinomialModel(m) if False else m, 3, Pr(rows), adaptive=True, initial_bim=np.array([[0.0]]), resample_thresh=0.0)
            tot = 0.0
            for t in (0.5, 2.0, 5.0):
                F = m.fisher_information(u2.particle_locations, np.array([t]))[0, 0, :, 0]
                tot += float(np.dot(u2.particle_weights, F))
                u2.update(0, np.array([t]))
            c.ok(abs(float(u2.adaptive_bim[0, 0]) - tot) < 1e-9 * tot, 'adaptive information', got=u2.adaptive_bim, want=tot); c.trace()


# -- C22: channels of high rank; informative priors next to the limits ----------------------------

def f22(c):
    import qutip as qt
    from qinfer import tomography as T
    from .c22 import refvec, states, mat
    for bn, b, d in (('pauli', T.pauli_basis(1), 2), ('gm', T.gell_mann_basis(2), 2), ('gm3', T.gell_mann_basis(3), 3)):
        for rank in (1, 2, 3, 4, 5, 9):
            if rank > d * d: continue
            for tp in (True, False):
                with c.case('edge channel rank %s %d %s' % (bn, rank, tp)):
                    dist = T.BCSZChoiDistribution(b, rank=rank, enforce_tp=tp)
                    np.random.seed(11)
                    for x in dist.sample(4):
                        ev = np.linalg.eigvalsh(mat(dist.basis, x))
                        c.ok(int(np.sum(ev > 1e-9)) == rank, 'generic samples have exactly the stated rank', got=ev, want=rank)
                    c.step(); c.trace()
    for bn, b, d in (('gm', T.gell_mann_basis(3), 3), ('pauli', T.pauli_basis(2), 4)):
        for rank in range(1, d + 1):
            for cls in (T.GinibreDistribution, T.GinibreReditDistribution):
                with c.case('edge state rank %s %d %s' % (bn, rank, cls.__name__)):
                    np.random.seed(12)
                    for x in cls(b, rank=rank).sample(4):
                        ev = np.linalg.eigvalsh(mat(b, x))
                        c.ok(int(np.sum(ev > 1e-9)) == rank, 'generic samples have exactly the stated rank', got=ev, want=rank)
                    c.step(); c.trace()
    for d in (2, 3):
        b = T.gell_mann_basis(d); D = np.asarray(b.data)
        class F(T.DensityOperatorDistribution):
            def _sample_dm(self): return qt.Qobj(states(d)[1])
        for x in (1e-3, 1e-5, 1e-6, 1e-7):
            with c.case('edge nearly mixed d=%d %g' % (d, x)):
                lam = (1 - x) / d
                w = np.full(d, (1 - lam) / (d - 1)); w[0] = lam
                M = np.diag(w[::-1])
                N = 1500
                np.random.seed(5)
                out = T.GADFLIDistribution(F(b), qt.Qobj(M)).sample(N)
                rho = (M - lam * np.eye(d)) / (1 - d * lam)
                f, r = refvec(D, states(d)[1]), refvec(D, rho)
                k = np.argmax(np.abs(f - r))
                e = (out[:, k] - f[k]) / (r - f)[k]
                beta = d * lam / (1 - d * lam)
                for q in (0.1, 0.3, 0.5, 0.8):
                    s = 1 - (1 - q) ** (1 / beta)       # Pr(eps <= s) = q for the law Beta(1, beta)
                    n = np.sum(e <= s)
                    c.ok(abs(n - N * q) <= 6.5 * math.sqrt(N * q * (1 - q)), 'law of the weight of the fixed state', q=q, got=n / N)
                c.step(); c.trace()
