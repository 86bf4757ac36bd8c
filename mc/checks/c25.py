"""C25: likelihood estimation from simulation is hedged, bounded and stops as promised."""
import itertools, math
import numpy as np
import qinfer as qi
from qinfer import ale as A, utils as U
from .. import zoo, core, rng
from ..util import *

BOUNDS = ('Every sequence of simulator outcomes of one parameter and experiment pair to the natural stop (or 12 to 16 simulations), '
          'and of up to four pairs at once to 10 to 12 simulations; every combination of first batch, step, tolerance and both hedges of the '
          'alphabet; simulators that count, that draw from the controlled source and that are deterministic per pair; models '
          'with scalar and record experiments; hundreds of pairs and thousands of simulations under scripted answers; updates '
          'with the estimated likelihood.')
ASSUMPTIONS = ['the simulator has two outcomes, as the constructor demands']


class Enough(Exception):
    pass


class Sim(qi.Simulatable):
    """A two-outcome simulator every outcome of which is a choice of the explorer; keeps what it was asked."""
    def __init__(self, cap=10 ** 9, bias=None, record=False):
        self.log, self.cap, self.made, self.bias, self.record = [], cap, 0, bias, record
        super(Sim, self).__init__()

    n_modelparams = property(lambda s: 1)
    expparams_dtype = property(lambda s: [('t', 'f8'), ('k', 'i4')] if s.record else 'float')
    is_n_outcomes_constant = property(lambda s: True)

    def n_outcomes(self, e): return 2

    def domain(self, e):
        d = qi.IntegerDomain(min=0, max=1)
        return d if e is None else [d for _ in range(e.shape[0])]

    def are_models_valid(self, m): return np.ones(m.shape[0], dtype=bool)

    def simulate_experiment(self, modelparams, expparams, repeat=1):
        super(Sim, self).simulate_experiment(modelparams, expparams, repeat)
        n = repeat * modelparams.shape[0] * expparams.shape[0]
        self.made += n
        if self.made > self.cap: raise Enough()
        out = np.zeros((repeat, modelparams.shape[0], expparams.shape[0]), dtype=int)
        for ix in np.ndindex(*out.shape):
            if self.bias is None: out[ix] = int(np.random.randint(0, 2))
            else: out[ix] = int(np.random.random() < self.bias(modelparams[ix[1]], expparams[ix[2]]))
        self.log.append((np.array(modelparams), np.array(expparams), out))
        return out[0, 0, 0] if out.size == 1 else out


def est(n, N, h): return (n + h) / (N + 2.0 * h)


def err(n, N, h):
    p = est(n, N, h)
    return math.sqrt(max(p * (1 - p), 0) / (N + 2 * h + 1))


def judge(c, sim, par, outcomes, mps, eps, L):
    """Decide from the simulations made what the answer must be, and that they were the right number."""
    tol, mn, st, eh, ah = par
    nm, ne = len(mps), len(eps)
    seq = [[[] for _ in range(ne)] for _ in range(nm)]
    for m, e, o in sim.log:
        # every simulated pair is one of the pairs asked for, found by its values
        for i in range(m.shape[0]):
            hi = [a for a in range(nm) if np.array_equal(m[i], mps[a])]
            for j in range(e.shape[0]):
                hj = [b for b in range(ne) if e[j] == eps[b]]
                if not c.ok(hi and hj, 'a simulation of something else', m=m[i], e=e[j]): return
                seq[hi[0]][hj[0]] += [int(v) for v in o[:, i, j]]
    Ns = set(len(s) for r in seq for s in r)
    if not c.ok(len(Ns) == 1, 'pairs were simulated unequally often', got=Ns): return
    N = Ns.pop()
    c.ok(N >= mn and (N - mn) % st == 0, 'number of simulations is not a stage', N=N, par=par)
    for stage in range(mn, N + 1, st):
        es = [err(sum(s[:stage]), stage, ah) for r in seq for s in r]
        if any(abs(x - tol) < 1e-9 for x in es): continue
        if stage < N: c.ok(max(es) >= tol, 'went on although every error was within tolerance', stage=stage, N=N, errors=es, par=par)
        else: c.ok(max(es) < tol, 'stopped although an error was above tolerance', N=N, errors=es, par=par)
    c.ok(L.shape == (len(outcomes), nm, ne), 'shape', got=L.shape)
    want = np.zeros(L.shape)
    for k, o in enumerate(outcomes):
        for i in range(nm):
            for j in range(ne):
                p1 = est(sum(seq[i][j]), N, eh)
                want[k, i, j] = p1 if o == 1 else 1 - p1
    c.eq(L, want, 'not the hedged frequency of the outcome', tol=1e-12, par=par, N=N)
    c.ok(L.min() >= -1e-15 and L.max() <= 1 + 1e-15, 'not a probability', L=L)
    if eh > 0: c.ok(L.min() > 0 and L.max() < 1, 'hedged estimate is extreme', L=L)
    return N


PARS = [(tol, mn, st, eh, ah) for tol in (1.0, 0.3, 0.23, 0.18) for mn in (1, 2, 3, 5) for st in (1, 2, 4) for eh, ah in ((0.509, 0.509), (0.0, 1.0), (2.0, 0.25), (0.5, 0.0))]


def one(c, par, pairs, cap, outcomes=(0, 1), record=False):
    nm, ne = pairs
    mps = np.array([[0.25 + i] for i in range(nm)])
    eps = np.array([(1.5 * j, 7 - j) for j in range(ne)], dtype=[('t', 'f8'), ('k', 'i4')]) if record else np.array([1.0 + 2 * j for j in range(ne)])
    tol, mn, st, eh, ah = par
    def run():
        sim = Sim(cap, record=record)
        m = A.ALEApproximateModel(sim, error_tol=tol, min_samp=mn, samp_step=st, est_hedge=eh, adapt_hedge=ah)
        try:
            return sim, m, m.likelihood(np.array(outcomes), mps, eps)
        except Enough:
            return sim, m, None
    stops = 0
    for (sim, m, L), p, ch in c.explore(run, max_runs=500000):
        if L is None: continue
        stops += 1
        m0, e0 = mps.copy(), eps.copy()
        judge(c, sim, par, outcomes, mps, eps, L)
        c.ok(m.sim_count == sim.made and m.underlying_model.sim_count == sim.made, 'simulations are not counted', got=(m.sim_count, sim.made))
        c.ok(m.call_count == len(outcomes) * nm * ne, 'likelihood calls are not counted', got=m.call_count)
        c.state(par, pairs, outcomes, ch)
    return stops


def sc_single(k4):
    def sc(c):
        total = 0
        for n, par in enumerate(PARS):
            if n % 4 != k4: continue
            with c.case('%s' % (par,)):
                total += one(c, par, (1, 1), 16 if c.thorough else 12)
        c.ok(total > 50, 'no execution reached its stop')
    return sc


def sc_pairs(c):
    total = 0
    for par in PARS[::5]:
        for pairs in ((2, 1), (1, 2), (2, 2), (3, 1), (1, 3)):
            if par[1] * pairs[0] * pairs[1] > 8: continue
            with c.case('%s %s' % (par, pairs)):
                total += one(c, par, pairs, 12 if c.thorough else 10, record=pairs[1] > 1)
    c.ok(total > 50, 'no execution reached its stop')
    for outcomes in ((0,), (1,), (1, 0), (0, 1, 1), (1, 1)):
        for record in (False, True):
            with c.case('outcomes %s %s' % (outcomes, record)):
                one(c, (0.3, 2, 1, 0.509, 0.25), (2, 1), 8, outcomes, record)
                one(c, (0.3, 2, 2, 0.509, 0.25), (1, 2), 8, outcomes, record)
                one(c, (1.0, 1, 1, 0.0, 0.25), (1, 1), 8, outcomes, record)


def sc_own(c):
    """Each pair is judged by its own simulations: simulators that are deterministic per pair."""
    for nm, ne in itertools.product((1, 2, 5), (1, 3, 4)):
        for pat in range(6):
            f = lambda m, e: [0, 1, (int(m[0]) % 2), (int(e) % 2), (int(m[0]) + int(e)) % 2, int(int(m[0]) * int(e) % 3 == 1)][pat]
            for par in ((0.05, 10, 10, 0.509, 0.509), (0.02, 30, 7, 0.5, 2.0), (0.1, 1, 1, 0.0, 0.5), (0.04, 3, 50, 1.0, 0.1)):
                with c.case('%d %d %d %s' % (nm, ne, pat, par)):
                    sim = Sim(bias=lambda m, e: f(m, e))
                    m = A.ALEApproximateModel(sim, error_tol=par[0], min_samp=par[1], samp_step=par[2], est_hedge=par[3], adapt_hedge=par[4])
                    mps = np.array([[float(i)] for i in range(nm)]); eps = np.array([float(j) for j in range(ne)])
                    with core.controlled(core.cycle_stream(1)):
                        L = m.likelihood(np.array([0, 1]), mps, eps)
                    N = judge(c, sim, par, (0, 1), mps, eps, L)
                    if N:
                        for i in range(nm):
                            for j in range(ne):
                                c.ok(abs(L[1, i, j] - est(N * f(mps[i], eps[j]), N, par[3])) < 1e-12, 'estimate of one pair used simulations of another', i=i, j=j)
                    c.step(nm * ne); c.state(nm, ne, pat, par)


def sc_models(c):
    """Stock simulators: the exact law of the estimate, and real sizes."""
    for k, (p, mn, st, tol) in enumerate([(0.25, 2, 1, 0.3), (0.5, 3, 2, 0.27), (0.75, 4, 3, 0.24), (0.0, 2, 2, 0.3), (1.0, 1, 1, 0.25)]):
        with c.case('law %d' % k):
            class T2(zoo.TableModel):
                pass
            m = A.ALEApproximateModel(T2([[[p], [0.5]], [[1 - p], [0.5]]], [2]) if False else Biased(p), error_tol=tol, min_samp=mn, samp_step=st)
            law = c.law(lambda: m.likelihood(np.array([1]), np.array([[0.0]]), np.array([1.0]))[0, 0, 0], dev_bound=None, max_runs=300000)
            # reference: walk over counts with the stated stopping rule
            want = {}
            def walk(n, N, pr):
                if pr == 0: return
                if N >= mn and (N - mn) % st == 0 and err(n, N, 0.509) < tol:
                    key = round(est(n, N, 0.509), 9); want[key] = want.get(key, 0) + pr; return
                walk(n + 1, N + 1, pr * p); walk(n, N + 1, pr * (1 - p))
            walk(0, 0, 1.0)
            got = {round(float(r), 9): q for q, r in law.values()}
            c.ok(set(got) == set(want), 'values of the estimate', got=sorted(got), want=sorted(want))
            for key in set(got) & set(want):
                c.ok(abs(got[key] - want[key]) < 1e-9, 'law of the estimate', value=key, got=got[key], want=want[key])
            c.step()
    ents = [(zoo.BY['precession'], [[0.1], [0.5], [0.9]], np.array([1.0, 5.0, 2.0])),
            (zoo.BY['rb'], [[0.9, 0.4, 0.5], [0.5, 0.3, 0.3]], np.array([(1,), (7,), (30,)], dtype=[('m', 'uint')])),
            (zoo.BY['inversion'], [[0.2], [0.7]], np.array([(1.0, 0.3), (9.0, 0.5)], dtype=zoo.BY['inversion'].make().expparams_dtype))]
    for k, (ent, rows, eps) in enumerate(ents):
        for tol, mn, st in ((0.05, 10, 10), (0.03, 100, 3), (0.02, 5, 64)):
            with c.case('stock %d %g' % (k, tol)):
                base = ent.make()
                log = []
                class Logged(type(base)):
                    def simulate_experiment(self, modelparams, expparams, repeat=1):
                        o = np.asarray(super(Logged, self).simulate_experiment(modelparams, expparams, repeat=repeat))
                        log.append((np.array(modelparams), np.array(expparams), o.reshape(repeat, modelparams.shape[0], expparams.shape[0])))
                        return o if o.ndim else o[()]
                base.__class__ = Logged
                m = A.ALEApproximateModel(base, error_tol=tol, min_samp=mn, samp_step=st)
                for seed in (1, 2):
                    del log[:]
                    s0, c0 = m.sim_count, m.call_count
                    x = np.array(rows)
                    with core.controlled(core.cycle_stream(seed, n_u=997)):
                        L = m.likelihood(np.array([0, 1]), x, eps)
                    class S: pass
                    S.log = log
                    N = judge(c, S, (tol, mn, st, 0.509, 0.509), (0, 1), x, eps, L)
                    if N:
                        c.ok(m.sim_count - s0 == N * len(x) * len(eps), 'simulations are not counted', got=m.sim_count - s0, N=N)
                        ex = ent.make().likelihood(np.array([0, 1]), x, eps)
                        c.ok(np.abs(L - ex).max() < 6 * tol, 'estimate is far from the exact likelihood', got=L, want=ex)
                    c.ok(m.call_count - c0 == 2 * len(x) * len(eps), 'likelihood calls are not counted', got=m.call_count - c0)
                    c.ok(np.array_equal(x, np.array(rows)), 'parameters changed')
                    c.step(len(log)); c.trace(); c.state(k, tol, seed)


class Even(Sim):
    """Outcomes spread evenly with a given frequency per pair; cheap enough for tens of thousands."""
    def __init__(self, freq):
        Sim.__init__(self)
        self.freq, self.k = freq, 0

    def simulate_experiment(self, modelparams, expparams, repeat=1):
        qi.Simulatable.simulate_experiment(self, modelparams, expparams, repeat)
        t = (self.k + np.arange(repeat))[:, None, None] * 0.6180339887498949 % 1.0
        self.k += repeat
        p = np.array([[self.freq(m, e) for e in expparams] for m in modelparams])
        out = (t < p[None]).astype(int)
        self.log.append((np.array(modelparams), np.array(expparams), out))
        return out[0, 0, 0] if out.size == 1 else out


def sc_many(c):
    """Tight tolerances: tens of thousands of simulations of every pair."""
    for tol, mn, st in ((0.002, 10, 977), (0.0021, 40000, 1500), (0.004, 1, 250), (0.01, 10, 10), (0.02, 1, 1)):
        for rows, eps in (([[0.5]], [1.0]), ([[0.0], [0.4], [1.0]], [1.0, 0.9])):
            with c.case('many %g %d %d %d' % (tol, mn, st, len(rows))):
                sim = Even(lambda m, e: m[0] * e)
                m = A.ALEApproximateModel(sim, error_tol=tol, min_samp=mn, samp_step=st)
                L = m.likelihood(np.array([1, 0]), np.array(rows), np.array(eps))
                N = judge(c, sim, (tol, mn, st, 0.509, 0.509), (1, 0), np.array(rows), np.array(eps), L)
                if N:
                    want = np.array([[r[0] * e for e in eps] for r in rows])
                    c.ok(np.abs(L[0] - want).max() < 2 * tol, 'estimate is far from the frequency', got=L[0], want=want)
                    c.ok(m.sim_count == N * want.size, 'simulations are not counted', got=m.sim_count)
                    c.step(N); c.state(tol, mn, st, len(rows), N)


class Biased(Sim):
    """Draws outcome 1 with a fixed probability, as one weighted choice."""
    def __init__(self, p):
        Sim.__init__(self)
        self.p = p

    def simulate_experiment(self, modelparams, expparams, repeat=1):
        qi.Simulatable.simulate_experiment(self, modelparams, expparams, repeat)
        o = np.random.choice(2, size=(repeat, modelparams.shape[0], expparams.shape[0]), p=[1 - self.p, self.p])
        return o[0, 0, 0] if o.size == 1 else o


def sc_updates(c):
    """Inference with the estimated likelihood uses exactly what was estimated."""
    class Spy(A.ALEApproximateModel):
        def likelihood(self, outcomes, modelparams, expparams):
            L = super(Spy, self).likelihood(outcomes, modelparams, expparams)
            self.seen.append((list(np.asarray(outcomes).ravel()), L.copy()))
            return L
    for rows in ([0.2, 0.7], [0.1, 0.5, 0.9, 0.95]):
        for wt in weight_patterns(len(rows)):
            for data in itertools.product((0, 1), repeat=3 if c.thorough else 2):
                with c.case('%s %s %s' % (rows, wt, data)):
                    sim = Sim(bias=lambda m, e: math.sin(m[0] * e / 2) ** 2)
                    m = Spy(sim, error_tol=0.1, min_samp=4, samp_step=3)
                    m.seen = []
                    u = mk(m, rows, weights=wt, resample_thresh=0.0)
                    with core.controlled(core.cycle_stream(len(rows), n_u=101)):
                        w = list(wt)
                        for k, d in enumerate(data):
                            del m.seen[:]; del sim.log[:]
                            e = np.array([2.0 + k])
                            u.update(d, e)
                            c.ok(len(m.seen) >= 1, 'no likelihood was asked for')
                            o, L = m.seen[-1]
                            judge(c, sim, (0.1, 4, 3, 0.509, 0.509), o, np.array(rows)[:, None], e, L)
                            w, z = ref_update(w, [float(L[o.index(d), i, 0]) for i in range(len(rows))])
                            c.eq(np.asarray(u.particle_weights), np.array(w), 'posterior is not that of the estimated likelihood')
                            c.step()
                    c.trace(); c.state(rows, wt, data)


def sc_interface(c):
    sim = Sim()
    def bad(exc, msg, *a, **k):
        with c.case(msg + repr(k)):
            try:
                A.ALEApproximateModel(*a, **k)
                c.fail(msg + ' was accepted', kw=k)
            except exc: pass
        c.step()
    for v in (0, -0.1, 1.5, 2): bad(ValueError, 'tolerance', sim, error_tol=v)
    for v in (0, -3): bad(ValueError, 'first batch', sim, min_samp=v)
    for v in (0, -1): bad(ValueError, 'step', sim, samp_step=v)
    bad(ValueError, 'hedge', sim, est_hedge=-0.1)
    bad(ValueError, 'hedge', sim, adapt_hedge=-1e-3)
    for o in (None, 3, 'model', lambda: 0, qi.UniformDistribution([0, 1])): bad(TypeError, 'not a simulator', o)
    class Three(Sim):
        def n_outcomes(self, e): return 3
    class Vary(Sim):
        is_n_outcomes_constant = property(lambda s: False)
    bad(ValueError, 'three outcomes', Three())
    bad(ValueError, 'changing outcomes', Vary())
    bad(ValueError, 'many shots', qi.BinomialModel(qi.SimplePrecessionModel()))
    with c.case('boundary'):
        for kw in (dict(error_tol=1), dict(error_tol=1e-6), dict(est_hedge=0), dict(adapt_hedge=0), dict(min_samp=1), dict(samp_step=1)):
            A.ALEApproximateModel(sim, **kw); c.step()
    with c.case('defaults'):
        s = Sim(bias=lambda m, e: 0.0)
        m = A.ALEApproximateModel(s)
        with core.controlled(core.cycle_stream(1)):
            L = m.likelihood(np.array([0, 1]), np.array([[0.0]]), np.array([1.0]))
        N = judge(c, s, (1e-2, 10, 10, 0.509, 0.509), (0, 1), np.array([[0.0]]), np.array([1.0]), L)
        c.step()
    with c.case('delegation'):
        base = qi.SimplePrecessionModel()
        m = A.ALEApproximateModel(base)
        c.ok(m.underlying_model is base and m.n_modelparams == 1 and m.expparams_dtype == base.expparams_dtype and m.modelparam_names == base.modelparam_names, 'delegated properties')
        x, e = np.array([[0.3], [0.6]]), np.array([1.0, 2.0, 5.0])
        for rep in (1, 2, 4):
            with core.controlled(core.cycle_stream(3)): a = m.simulate_experiment(x, e, repeat=rep)
            with core.controlled(core.cycle_stream(3)): b = base.simulate_experiment(x, e, repeat=rep)
            c.ok(np.array_equal(a, b), 'simulation is not that of the simulator', rep=rep)
            c.step()
        c.ok(m.sim_count == base.sim_count == 2 * 2 * 3 * 7, 'simulations are not counted', got=m.sim_count)
        c.ok(list(m.are_models_valid(np.array([[-1.0], [0.5]]))) == list(base.are_models_valid(np.array([[-1.0], [0.5]]))), 'validity')
        c.ok(A.binom_est_p(np.array([0, 3]), 3, 1.0).tolist() == [0.2, 0.8], 'hedged estimate')
    for n, N, h in itertools.product((0, 1, 5, 20), (1, 5, 20, 1000), (0.0, 0.5, 0.509, 3.0)):
        if n > N: continue
        with c.case('formula %d %d %g' % (n, N, h)):
            c.eq(U.binom_est_p(n, N, h), est(n, N, h), 'hedged frequency')
            c.eq(U.binom_est_error(est(n, N, h), N, h), err(n, N, h), 'error of the hedged frequency')
            c.step(); c.state(n, N, h)


SCENARIOS = [('single0', sc_single(0)), ('single1', sc_single(1)), ('single2', sc_single(2)), ('single3', sc_single(3)), ('pairs', sc_pairs),
             ('own', sc_own), ('many', sc_many), ('models', sc_models), ('updates', sc_updates), ('interface', sc_interface)]

from . import edge  # noqa: E402
BOUNDS += ' Edge configurations: very large counts, one slow pair among many, repeated partial resets.'
SCENARIOS = SCENARIOS + [('edge', edge.e25)]

from . import edge2  # noqa: E402
BOUNDS += ' Further edge configurations: long histories, answers at cell boundaries, near ties, numbers of many digits.'
SCENARIOS = SCENARIOS + [('edge2', edge2.f25)]
