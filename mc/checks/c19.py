"""C19: distributed evaluation equals serial evaluation for all engine schedules."""
import copy, itertools, math, pickle
import numpy as np
import scipy.interpolate
import qinfer as qi
from qinfer import distributions as qd, resamplers as qr, parallel as qp
from qinfer.ale import ALEApproximateModel
from qinfer import tomography as tm
from ipyparallel import serialize as ipps
from .. import zoo, core, rng
from ..util import *
from . import c18

BOUNDS = ('1-5 engines, 1-9 particles, 1-3 experiments, 1-3 outcomes or repetitions, every completion order of the engines '
          '(up to 24, all rotations and reversals beyond), every serial threshold from 0 past the batch size, every pattern of '
          'failing engines; models: every shipped model and wrapper; exact joint laws of 2x2x2 simulations; 500 particles on 7 '
          'engines; every history of up to 4 data of an updater over the parallel model; pickled, deep-copied and '
          'copied models, distributions, resamplers and updaters at every point of every history of up to 3 data. Every task '
          'crosses the real serialisation of ipyparallel.')
ASSUMPTIONS = ['engines execute the tasks they are sent; transport is replaced by a stand-in view which uses the serialisation of '
               'ipyparallel on every task and every answer']


class EngineError(Exception):
    pass


class Result(object):
    def __init__(self, vals, order, ordered):
        self._v = [vals[k] for k in (range(len(vals)) if ordered else order)]

    def get(self, timeout=None): return self._v
    def wait(self, timeout=None): return True
    def ready(self): return True
    def successful(self): return True
    def __iter__(self): return iter(self._v)
    def __len__(self): return len(self._v)
    def __getitem__(self, k): return self._v[k]
    result = property(lambda self: self._v)
    r = result


class Client(object):
    def __init__(self): self.purged = 0
    def purge_everything(self): self.purged += 1


class View(object):
    """A direct view whose engines answer in the given order; every task and answer is serialised."""
    def __init__(self, n, order=None, fail=(), broken_purge=False):
        self._n, self.order, self.failing = n, order, set(fail)
        self.tasks = 0
        self.results = {}
        self.purged = []
        self.client = Client()
        self.sizes = []
        self.broken_purge = broken_purge
        self.targets = list(range(n))

    def __len__(self): return self._n

    def __reduce__(self):
        raise TypeError('a direct view cannot be sent to another process')

    def __deepcopy__(self, memo):
        return self

    def _engine(self, k, f, args):
        if any(getattr(getattr(a, 'dtype', None), 'itemsize', 1) == 0 for a in args):
            # ipyparallel cannot send arrays of records without fields
            if k in self.failing:
                raise EngineError('engine %d died' % k)
            return pickle.loads(pickle.dumps(f(*pickle.loads(pickle.dumps(args)))))
        bufs = ipps.pack_apply_message(f, args, {})
        bufs = [bytes(b) for b in bufs]
        if k in self.failing:
            raise EngineError('engine %d died' % k)
        fn, a, kw = ipps.unpack_apply_message(bufs, g={'np': np, 'numpy': np}, copy=True)
        return pickle.loads(pickle.dumps(fn(*a, **kw)))

    def map(self, f, *seqs, **kw):
        n = min(len(s) for s in seqs)
        self.tasks += n
        order = [k for k in (self.order or range(n)) if k < n]
        order += [k for k in range(n) if k not in order]
        # like a real direct view: contiguous groups of tasks go to the engines in order
        per = [list(x) for x in np.array_split(np.arange(n), min(self._n, n))] if n else []
        owner = {t: e for e, ts in enumerate(per) for t in ts}
        vals = {}
        err = None
        for k in order:
            try:
                vals[k] = self._engine(owner[k], f, [s[k] for s in seqs])
                self.results[len(self.results)] = vals[k]
            except EngineError as e:
                err = e
        if err is not None:
            raise err
        r = Result([vals[k] for k in range(n)], order, kw.get('ordered', True))
        return r.get() if kw.get('block') else r

    def map_sync(self, f, *seqs, **kw):
        return self.map(f, *seqs, **dict(kw, block=True))

    def map_async(self, f, *seqs, **kw):
        return self.map(f, *seqs, **dict(kw, block=False))

    def apply_sync(self, f, *a, **kw):
        return [self._engine(k, f, a) for k in range(self._n)]

    def purge_results(self, jobs=(), targets=()):
        if self.broken_purge:
            raise EngineError('no contact with the hub')
        self.purged.append(jobs)


def par(m, n, order=None, th=0, **kw):
    v = View(n, order, **kw)
    return qp.DirectViewParallelizedModel(m, v, serial_threshold=th), v


def orders(n):
    if n <= 4:
        return list(itertools.permutations(range(n)))
    out = []
    for r in range(n):
        o = tuple((k + r) % n for k in range(n))
        out += [o, o[::-1]]
    return out


def grid(e, n):
    """n parameter rows, as different as the entry allows."""
    base = e.params
    return np.array([base[i % len(base)] for i in range(n)], dtype=float)


def rows_table(n, n_e=3):
    """Table with a different probability in every row and experiment."""
    return [[(lambda p: (p, 1 - p))((1 + r * n_e + e) / (2.0 + n * n_e)) for r in range(n)] for e in range(n_e)]


def det_table(n, n_e, k=4):
    """Outcome certain, and a different pattern for every row and experiment."""
    return [[tuple(1.0 if o == (r + 2 * e + r * e) % k else 0.0 for o in range(k)) for r in range(n)] for e in range(n_e)]


def sc_likelihood(c):
    full = range(1, 7) if not c.thorough else range(1, 9)
    for n in full:
        t = rows_table(n)
        for ne in (1, 2, 3):
            for no in (1, 2):
                mps = np.arange(n, dtype=float)[:, None]
                eps = np.array([(k,) for k in range(ne)], dtype=[('e', int)])
                outs = np.arange(no)
                want = zoo.TableModel(t, [2] * 3).likelihood(outs, mps, eps)
                for eng in (1, 2, 3, 4, 5):
                    for th in sorted(set([0, 1, 2, n - 1, n, n + 1])):
                        if th < 0 or (th != 0 and (ne, no) not in ((1, 2), (3, 2))):
                            continue
                        for order in (orders(min(eng, n)) if th == 0 else [None]):
                            with c.case('L|n%d e%d o%d eng%d th%d %s' % (n, ne, no, eng, th, order)):
                                m, v = par(zoo.TableModel(t, [2] * 3), eng, order, th)
                                c.eq(m.likelihood(outs, mps, eps), want, 'likelihood differs from the serial one')
                                c.eq(m.call_count, n * no * ne, 'calls counted')
                                c.ok((v.tasks == 0) == (n <= th), 'serial threshold not respected', tasks=v.tasks)
                                c.step(max(v.tasks, 1)); c.state(n, ne, no, eng, th, order); c.trace()
    # the default threshold: ten particles per engine
    for eng in (1, 2, 3):
        for n in (10 * eng - 1, 10 * eng, 10 * eng + 1, 12 * eng + 1):
            with c.case('default|%d %d' % (eng, n)):
                t = rows_table(n, 1)
                v = View(eng)
                m = qp.DirectViewParallelizedModel(zoo.TableModel(t, [2]), v)
                mps = np.arange(n, dtype=float)[:, None]
                ep = np.array([(0,)], dtype=[('e', int)])
                c.eq(m.likelihood(np.arange(2), mps, ep), zoo.TableModel(t, [2]).likelihood(np.arange(2), mps, ep), 'default threshold: likelihood')
                c.ok((v.tasks == 0) == (n <= 10 * eng), 'default threshold is ten particles per engine', tasks=v.tasks)
                c.ok(m.n_engines == eng, 'n_engines'); c.step(); c.state('def', eng, n)
    # big
    for n, eng in ((500, 7), (501, 4), (100, 16)):
        with c.case('big|%d %d' % (n, eng)):
            mps = np.linspace(0.1, 3, n)[:, None]
            eps = np.linspace(0.5, 9, 5)
            m, v = par(qi.SimplePrecessionModel(), eng, tuple(range(eng))[::-1])
            c.eq(m.likelihood(np.arange(2), mps, eps), qi.SimplePrecessionModel().likelihood(np.arange(2), mps, eps), 'big likelihood')
            c.step(v.tasks); c.state('big', n, eng)


def entries():
    out = list(zoo.BASE)
    for e in zoo.BASE:
        if 'two' in e.tags:
            out.append(zoo.binomial(e))
        if e.n_out_const:
            out.append(zoo.multinomial(e, ns=(1, 2)))
        out += [zoo.walk(e), zoo.gwalk_fixed(e), zoo.gwalk_learn(e), zoo.gwalk_dense(e), zoo.mle(e)]
    p = zoo.BY['precession']
    out += [zoo.walk(zoo.binomial(p)), zoo.binomial(zoo.walk(p)), zoo.gwalk_learn(zoo.binomial(zoo.BY['rb'])), zoo.mle(zoo.binomial(p))]
    return out


def sc_models(c):
    """Every model and wrapper, on 1-4 engines, forwards and backwards."""
    for e in entries():
        m0 = e.make()
        for n in (1, 2, 3, 5):
            mps = grid(e, n)
            for neps in (1, 2):
                eps = e.ep_array(m0, list(range(min(neps, len(e.eps)))))
                common = [o for o in e.outcomes(e.eps[0]) if all(o in e.outcomes(e.eps[k]) for k in range(len(eps)))]
                outs = e.out_array(m0, common[:3])
                if len(outs) == 0:
                    continue
                want = e.make().likelihood(outs, mps, eps)
                for eng in (2, 4) if not c.thorough else (1, 2, 3, 4):
                    with c.case('%s|n%d e%d eng%d' % (e.name, n, neps, eng)):
                        k = min(eng, n)
                        m, v = par(e.make(), eng, tuple(range(k))[::-1])
                        c.eq(m.likelihood(outs, mps, eps), want, 'likelihood differs from the serial one')
                        c.step(v.tasks); c.state(e.name, n, neps, eng)
                        for rep in (1, 2):
                            with core.controlled(core.cycle_stream(3)):
                                ws = e.make().simulate_experiment(mps, eps, repeat=rep)
                            for split in (True, False):
                                with core.controlled(core.cycle_stream(3)):
                                    gs = m.simulate_experiment(mps, eps, repeat=rep, split_by_modelparams=split)
                                c.ok(np.shape(gs) == np.shape(ws) and np.asarray(gs).dtype == np.asarray(ws).dtype,
                                     'shape or type of simulated outcomes', got=np.shape(gs), want=np.shape(ws), split=split, rep=rep,
                                     types=(np.asarray(gs).dtype, np.asarray(ws).dtype))
                                c.step()
                with c.case('%s|meta n%d e%d' % (e.name, n, neps)):
                    m, v = par(e.make(), 2)
                    for a in ('n_modelparams', 'modelparam_names', 'expparams_dtype', 'is_n_outcomes_constant', 'model_chain', 'allow_identical_outcomes'):
                        if a == 'model_chain':
                            c.ok([type(x) for x in m.model_chain] == [type(x) for x in m0.model_chain] + [type(m0)], 'model chain')
                            continue
                        g, w = getattr(m, a), getattr(m0, a)
                        c.ok(g == w, a, got=g, want=w)
                    c.eq(m.Q, m0.Q, 'Q')
                    bad = np.array(list(e.params) + list(e.invalid), dtype=float)
                    c.eq(m.are_models_valid(bad), m0.are_models_valid(bad), 'validity')
                    c.eq(m.n_outcomes(eps), m0.n_outcomes(eps), 'outcome counts')
                    dg, dw = m.domain(eps), m0.domain(eps)
                    c.ok(repr(type(dg)) == repr(type(dw)), 'domain')
                    with core.controlled(core.cycle_stream(5)):
                        w = m0.update_timestep(mps, eps)
                    with core.controlled(core.cycle_stream(5)):
                        g = m.update_timestep(mps, eps)
                    c.eq(g, w, 'time step differs from the serial one')
                    c.eq(m.canonicalize(np.array(mps)), m0.canonicalize(np.array(mps)), 'canonical form')
                    c.step(4)


def sc_simulate(c):
    for n in (1, 2, 3, 4, 5, 6):
        for ne in (1, 2, 3):
            t = det_table(n, ne)
            mps = np.arange(n, dtype=float)[:, None]
            eps = np.array([(k,) for k in range(ne)], dtype=[('e', int)])
            for rep in (1, 2, 3):
                want = np.array([[[(r + 2 * x + r * x) % 4 for x in range(ne)] for r in range(n)]] * rep)
                if want.size == 1:
                    want = want[0, 0, 0]
                for eng in (1, 2, 3, 4):
                    for split in (True, False):
                        cut = n if split else ne
                        for th in (0, 1, cut - 1, cut, cut + 1):
                            for order in (orders(min(eng, cut)) if th == 0 else [None]):
                                with c.case('S|n%d e%d r%d eng%d %s th%d %s' % (n, ne, rep, eng, split, th, order)):
                                    m, v = par(zoo.TableModel(t, [4] * ne), eng, order, th)
                                    g = m.simulate_experiment(mps, eps, repeat=rep, split_by_modelparams=split)
                                    c.eq(g, want, 'simulated outcomes out of place')
                                    c.ok((v.tasks == 0) == (cut <= th), 'serial threshold not respected', tasks=v.tasks)
                                    c.eq(m.sim_count, n * ne * rep, 'simulations counted')
                                    c.step(max(v.tasks, 1)); c.state('S', n, ne, rep, eng, split, th, order); c.trace()
    for n, ne, eng in ((120, 7, 5), (7, 120, 16), (300, 1, 8)):
        for split in (True, False):
            with c.case('S big|%d %d %d %s' % (n, ne, eng, split)):
                t = det_table(n, ne)
                mps = np.arange(n, dtype=float)[:, None]
                eps = np.array([(k,) for k in range(ne)], dtype=[('e', int)])
                want = np.array([[[(r + 2 * x + r * x) % 4 for x in range(ne)] for r in range(n)]] * 2)
                m, v = par(zoo.TableModel(t, [4] * ne), eng)
                c.eq(m.simulate_experiment(mps, eps, repeat=2, split_by_modelparams=split), want, 'simulated outcomes out of place')
                c.step(v.tasks)


def sc_sim_law(c):
    """The joint law of distributed simulations is the serial one."""
    t = rows_table(3, 2)
    for n, ne, rep in ((2, 1, 1), (2, 2, 1), (1, 2, 2), (3, 1, 1), (2, 1, 2)):
        mps = np.arange(n, dtype=float)[:, None]
        eps = np.array([(k,) for k in range(ne)], dtype=[('e', int)])
        for split in (True, False):
            for eng in (1, 2, 3):
                with c.case('law|%d %d %d %s %d' % (n, ne, rep, split, eng)):
                    base = lambda: zoo.TableModel([[(0.25, 0.75) if (r + e) % 2 else (0.5, 0.5) for r in range(3)] for e in range(2)], [2, 2])
                    # cells of width 1/4 reproduce the probabilities exactly
                    ser = c.law(lambda: base().simulate_experiment(mps, eps, repeat=rep), n_u=4)
                    dist = c.law(lambda: par(base(), eng)[0].simulate_experiment(mps, eps, repeat=rep, split_by_modelparams=split), n_u=4)
                    c.ok(set(ser) == set(dist) and all(abs(ser[k][0] - dist[k][0]) < 1e-9 for k in ser), 'law of the simulated outcomes',
                         serial={k: round(v[0], 6) for k, v in list(ser.items())[:8]}, got={k: round(v[0], 6) for k, v in list(dist.items())[:8]})


class Sick(zoo.TableModel):
    """Fails for one row."""
    def __init__(self, t, k, row):
        zoo.TableModel.__init__(self, t, k); self._row = row

    def likelihood(self, o, mps, eps):
        if np.any(np.round(mps[:, 0]) == self._row):
            raise EngineError('row %d' % self._row)
        return zoo.TableModel.likelihood(self, o, mps, eps)

    def simulate_experiment(self, mps, eps, repeat=1):
        if np.any(np.round(mps[:, 0]) == self._row):
            raise EngineError('row %d' % self._row)
        return zoo.TableModel.simulate_experiment(self, mps, eps, repeat)


def sc_failures(c):
    n = 6
    t = rows_table(n, 2)
    mps = np.arange(n, dtype=float)[:, None]
    eps = np.array([(0,), (1,)], dtype=[('e', int)])
    want = zoo.TableModel(t, [2, 2]).likelihood(np.arange(2), mps, eps)
    for eng in (1, 2, 3, 4):
        for bits in range(1 << eng):
            bad = [k for k in range(eng) if bits >> k & 1]
            for order in orders(eng) if eng < 4 else [None, tuple(range(eng))[::-1]]:
                with c.case('fail|%d %s %s' % (eng, bad, order)):
                    m, v = par(zoo.TableModel(t, [2, 2]), eng, order, fail=bad)
                    for what in (lambda: m.likelihood(np.arange(2), mps, eps), lambda: m.simulate_experiment(mps, eps, repeat=2)):
                        try:
                            r = what()
                        except Exception:
                            c.ok(bad, 'error without a failing engine')
                        else:
                            c.ok(not bad, 'a failing engine went unnoticed', got=np.shape(r))
                        c.step()
                    v.failing = set()
                    c.eq(m.likelihood(np.arange(2), mps, eps), want, 'after the engines recovered')
                    c.state('f', eng, bits, order); c.trace()
                with c.case('fail upd|%d %s %s' % (eng, bad, order)):
                    m, v = par(zoo.TableModel(t, [2, 2]), eng, order, fail=bad)
                    u = mk(m, mps, resample_thresh=0.0)
                    b = snap(u)
                    try:
                        u.update(0, eps[:1])
                    except Exception:
                        c.ok(bad, 'error without a failing engine')
                        c.ok(np.array_equal(snap(u)['w'], b['w']) and np.array_equal(snap(u)['x'], b['x']), 'a failed update changed the posterior')
                        v.failing = set()
                        u.update(0, eps[:1])
                    else:
                        c.ok(not bad, 'a failing engine went unnoticed by an update')
                    c.eq(u.particle_weights, ref_update([1.0 / n] * n, list(want[0, :, 0]))[0], 'posterior after recovery')
    for row in range(n):
        for eng in (1, 2, 3, 6):
            with c.case('sick|%d %d' % (row, eng)):
                m, v = par(Sick(t, [2, 2], row), eng)
                for f in (lambda: m.likelihood(np.arange(2), mps, eps), lambda: m.simulate_experiment(mps, eps),
                          lambda: m.simulate_experiment(mps, eps, split_by_modelparams=False)):
                    try:
                        r = f()
                        c.fail('an error of the model on an engine was swallowed', got=r)
                    except EngineError:
                        pass
                    c.step()
    # without a view
    for n in (1, 2, 3, 4):
        with c.case('noview|%d' % n):
            m, v = par(zoo.TableModel(t, [2, 2]), 2, th=2)
            m2 = pickle.loads(pickle.dumps(m))
            c.ok(m2.n_engines == 0, 'copy has no engines')
            mp = mps[:n]
            if n <= 2:
                c.eq(m2.likelihood(np.arange(2), mp, eps), want[:, :n], 'below the threshold a view is not needed')
            else:
                try:
                    r = m2.likelihood(np.arange(2), mp, eps)
                    c.fail('evaluated above the threshold without engines', got=r)
                except RuntimeError:
                    pass
                try:
                    r = m2.simulate_experiment(mp, eps)
                    c.fail('simulated above the threshold without engines', got=r)
                except RuntimeError:
                    pass


class Caching(zoo.TableModel):
    cleared = 0

    def clear_cache(self): self.cleared += 1


def sc_cache(c):
    for purge in (False, True):
        for broken in (False, True):
            with c.case('cache|%s %s' % (purge, broken)):
                v = View(2, broken_purge=broken)
                m = qp.DirectViewParallelizedModel(Caching(rows_table(4, 1), [2]), v, purge_client=purge, serial_threshold=0)
                m.likelihood(np.arange(2), np.arange(4.)[:, None], np.array([(0,)], dtype=[('e', int)]))
                m.clear_cache()
                c.ok(m.underlying_model.cleared == 1, 'cache of the model not cleared')
                if not broken:
                    c.ok(len(v.purged) == 1, 'results of the view not purged', got=v.purged)
                    c.ok(v.client.purged == (1 if purge else 0), 'the client is purged exactly when requested', got=v.client.purged)
                c.step(); c.state('cache', purge, broken)


def sc_updater(c):
    """Every history over the parallel model equals the serial one."""
    for name in ('precession', 'coin', 'ndie3', 'table3', 'tablev', 'rb') if c.thorough else ('precession', 'ndie3', 'tablev'):
        e = zoo.BY[name]
        m0 = e.make()
        n = 5
        mps = grid(e, n)
        mps = mps + (0 if 'table' in e.tags or name.startswith('ndie') else 1e-3 * np.arange(n)[:, None] * np.ones(mps.shape[1]) * (mps < 0.5))
        steps = [(o, k) for k in range(min(2, len(e.eps))) for o in e.outcomes(e.eps[k])]
        for eng, order in ((2, (1, 0)), (3, (2, 0, 1))):
            for depth in (1, 2, 3) if not c.thorough else (1, 2, 3, 4):
                for hist in itertools.product(steps, repeat=depth):
                    if depth >= 3 and (hist[0] != steps[0] and hist[0] != steps[-1]):
                        continue
                    with c.case('hist|%s|%d|%s' % (name, eng, hist)):
                        us, errs = [], []
                        for m in (e.make(), par(e.make(), eng, order)[0]):
                            with core.controlled(core.cycle_stream(1)):
                                u = mk(m, mps, resample_thresh=0.7)
                                err = None
                                for o, k in hist:
                                    ep = e.ep_array(m, [k])
                                    try:
                                        u.update(o, ep)
                                    except RuntimeError as x:
                                        err = str(x)
                                        break
                            us.append(u); errs.append(err)
                        c.ok(errs[0] == errs[1], 'error over the parallel model differs', got=errs)
                        k = same_snap(snap(us[0]), snap(us[1]), 1e-12)
                        c.ok(k is None, 'updater over the parallel model differs', field=k, serial=snap(us[0]).get(k) if k else None, got=snap(us[1]).get(k) if k else None)
                        c.step(depth); c.state(name, eng, hist); c.trace()
        with c.case('risk|%s' % name):
            u0, u1 = mk(e.make(), mps), mk(par(e.make(), 2, (1, 0))[0], mps)
            for k in range(min(2, len(e.eps))):
                ep = e.ep_array(m0, [k])
                c.eq(u1.bayes_risk(ep), u0.bayes_risk(ep), 'bayes risk')
                c.eq(u1.expected_information_gain(ep), u0.expected_information_gain(ep), 'information gain')
                outs = e.out_array(m0, e.outcomes(e.eps[k]))
                for a, b in zip(u1.hypothetical_update(outs, ep, return_likelihood=True, return_normalization=True),
                                u0.hypothetical_update(outs, ep, return_likelihood=True, return_normalization=True)):
                    c.eq(a, b, 'hypothetical update')


# ---------------------------------------------------------------------------
# copies

HOWS = [('pickle%d' % k, (lambda o, k=k: pickle.loads(pickle.dumps(o, k)))) for k in (0, 2, pickle.HIGHEST_PROTOCOL)] + [('deepcopy', copy.deepcopy)]


def tomo_models():
    return [('tomo', lambda: tm.TomographyModel(tm.pauli_basis(1))), ('tomo3', lambda: tm.TomographyModel(tm.gell_mann_basis(3))),
            ('tomo-diff', lambda: tm.DiffusiveTomographyModel(tm.pauli_basis(1))),
            ('tomo-binom', lambda: qi.BinomialModel(tm.TomographyModel(tm.pauli_basis(1), allow_subnormalized=True)))]


def attrs(m):
    out = {}
    for a in ('n_modelparams', 'modelparam_names', 'is_n_outcomes_constant', 'call_count', 'sim_count', 'allow_identical_outcomes', 'outcome_warning_threshold'):
        if hasattr(m, a):
            out[a] = getattr(m, a)
    out['dtype'] = repr(np.dtype(m.expparams_dtype))
    out['Q'] = list(np.ravel(m.Q)) if getattr(m, 'Q', None) is not None else None
    out['chain'] = [type(x).__name__ for x in c18.stack(m)]
    return out


def sc_copy_models(c):
    es = entries()
    have = set(e.name for e in es)
    es += [e for e in c18.ents() if e.name not in have and not any(k in e.name for k in ('plain', 'tomo', 'diffusive'))]
    for e in es:
        for how, cp in HOWS:
            with c.case('copy|%s|%s' % (e.name, how)):
                m = e.make()
                mps = grid(e, 3)
                same = [k for k in range(len(e.eps)) if e.outcomes(e.eps[k]) == e.outcomes(e.eps[0])][:2]
                eps = e.ep_array(m, same)
                common = e.outcomes(e.eps[0])[:2]
                outs = np.array(common, dtype=float) if 'gauss' in e.tags else e.out_array(m, common)
                with core.controlled(core.cycle_stream(2)):
                    m.likelihood(outs, mps, eps)
                    m.simulate_experiment(mps, eps, repeat=2)
                m2 = cp(m)
                c.ok(attrs(m) == attrs(m2), 'the copy has another configuration', got=attrs(m2), want=attrs(m))
                a0 = attrs(m)
                res = []
                for x in (m, m2):
                    with core.controlled(core.cycle_stream(4)):
                        res.append((x.likelihood(outs, mps, eps), x.simulate_experiment(mps, eps, repeat=2), x.update_timestep(mps, eps),
                                    x.are_models_valid(mps), x.canonicalize(np.array(mps))))
                for k, (a, b) in enumerate(zip(*res)):
                    c.eq(b, a, 'the copy behaves differently (%s)' % ['likelihood', 'simulation', 'time step', 'validity', 'canonical form'][k])
                # independence: only the counts of the one that is used move
                b2 = attrs(m2)
                with core.controlled(core.cycle_stream(2)):
                    m.likelihood(outs, mps, eps)
                c.ok(attrs(m2) == b2, 'using the original changed the copy', got=attrs(m2), want=b2)
                c.step(5); c.state(e.name, how)
    for name, mkm in tomo_models():
        for how, cp in HOWS:
            with c.case('copy|%s|%s' % (name, how)):
                m = mkm()
                m2 = cp(m)
                c.ok(attrs(m) == attrs(m2), 'the copy has another configuration', got=attrs(m2), want=attrs(m))
                t = m.underlying_model if name == 'tomo-binom' else m
                t2 = m2.underlying_model if name == 'tomo-binom' else m2
                c.eq(t2.basis.flat(), t.basis.flat(), 'basis of the copy')
                c.ok(t2.basis.labels == t.basis.labels and t2.basis.dims == t.basis.dims, 'labels of the basis')
                rows = np.zeros((2, m.n_modelparams)); rows[:, 0] = 1 / math.sqrt(t.dim); rows[1, 1] = 0.3
                ep = np.zeros((2,), dtype=m.expparams_dtype); ep['meas'][:, 0] = 0.5; ep['meas'][1, 1] = 0.4
                if 'n_meas' in ep.dtype.names: ep['n_meas'] = 3
                c.eq(m2.likelihood(np.arange(2), rows, ep), m.likelihood(np.arange(2), rows, ep), 'likelihood of the copy')
                c.eq(m2.canonicalize(rows * 3), m.canonicalize(rows * 3), 'canonical form of the copy')
                c.step(2); c.state(name, how)
    # parallel model: everything but the view
    for th in (None, 0, 3):
        for purge in (False, True):
            for how, cp in HOWS:
                with c.case('copy|parallel|%s %s|%s' % (th, purge, how)):
                    v = View(2)
                    m = qp.DirectViewParallelizedModel(zoo.binomial(zoo.BY['coin']).make(), v, purge_client=purge, serial_threshold=th)
                    m._Q = np.array([2.5])
                    m.allow_identical_outcomes = True
                    m.outcome_warning_threshold = 0.5
                    ep = np.array([(2,)], dtype=m.expparams_dtype)
                    m.likelihood(np.arange(2), np.array([[0.2]]), ep)
                    m.simulate_experiment(np.array([[0.2]]), ep)
                    m2 = cp(m)
                    c.ok(attrs(m) == attrs(m2), 'the copy has another configuration', got=attrs(m2), want=attrs(m))
                    c.eq(m2.likelihood(np.arange(2), np.array([[0.2]]), ep), m.likelihood(np.arange(2), np.array([[0.2]]), ep), 'likelihood of the copy') if th != 0 else None
                    # give the copy a view of its own: it behaves like the original
                    v2 = View(2)
                    m2._dv = v2
                    mp = np.linspace(0.1, 0.9, 25)[:, None]
                    c.eq(m2.likelihood(np.arange(2), mp, ep), m.likelihood(np.arange(2), mp, ep), 'copy with a new view')
                    c.ok(v2.tasks == v.tasks or th == 0, 'threshold of the copy', got=(v2.tasks, v.tasks))
                    m2.clear_cache()
                    c.ok(v2.client.purged == (1 if purge else 0), 'purge setting of the copy')
                    c.step(3); c.state('par', th, purge, how)


def dists():
    U = qd.UniformDistribution
    return [
        ('uniform', lambda: U([0, 1])), ('uniform2', lambda: U([[0, 1], [2, 5]])), ('constant', lambda: qd.ConstantDistribution([1., 2.])),
        ('normal', lambda: qd.NormalDistribution(1, 2)), ('normal-trunc', lambda: qd.NormalDistribution(1, 2, trunc=(0, 3))),
        ('mvn', lambda: qd.MultivariateNormalDistribution(np.array([1., 2.]), np.array([[2., .5], [.5, 1.]]))),
        ('slanted', lambda: qd.SlantedNormalDistribution(np.array([[0, 1], [2, 5]]), 0.1)), ('lognormal', lambda: qd.LogNormalDistribution(1, 2)),
        ('beta', lambda: qd.BetaDistribution(2, 3)), ('dirichlet', lambda: qd.DirichletDistribution([1., 2., 3.])),
        ('betabinomial', lambda: qd.BetaBinomialDistribution(5, 2, 3)), ('gamma', lambda: qd.GammaDistribution(2, 3)),
        ('mvuniform', lambda: qd.MVUniformDistribution(3)), ('discrete', lambda: qd.DiscreteUniformDistribution(3)),
        ('product', lambda: qd.ProductDistribution(U([0, 1]), qd.NormalDistribution(0, 1))),
        ('mixture', lambda: qd.MixtureDistribution([0.3, 0.7], [U([0, 1]), U([2, 3])])),
        ('mixture-class', lambda: qd.MixtureDistribution([0.3, 0.7], qd.NormalDistribution, np.array([[0., 1.], [4., 2.]]).T)),
        ('particles', lambda: qd.ParticleDistribution(particle_locations=np.array([[0., 1.], [2., 3.], [4., 5.]]), particle_weights=np.array([.2, .3, .5]))),
        ('postselected', lambda: qd.PostselectedDistribution(U([[0, 2]]), qi.CoinModel())),
        ('constrained', lambda: qd.ConstrainedSumDistribution(U([[0, 1], [0, 2]]), 1)),
        ('interpolated', lambda: qd.InterpolatedUnivariateDistribution(_pdf, 1, 64)),
        ('ginibre', lambda: tm.GinibreDistribution(tm.pauli_basis(1))), ('ginibre1', lambda: tm.GinibreDistribution(tm.gell_mann_basis(3), 2)),
        ('redit', lambda: tm.GinibreReditDistribution(tm.pauli_basis(1))), ('bcsz', lambda: tm.BCSZChoiDistribution(tm.pauli_basis(2))),
    ]


def _pdf(x):
    return np.exp(-x ** 2)


def sc_copy_dists(c):
    for name, mkd in dists():
        for how, cp in HOWS[1 if name == 'interpolated' else 0:]:
            with c.case('copy dist|%s|%s' % (name, how)):
                d = mkd()
                d2 = cp(d)
                c.ok(type(d) is type(d2) and d.n_rvs == d2.n_rvs, 'copy of another kind')
                res = []
                for x in (d, d2):
                    with core.controlled(core.cycle_stream(6)):
                        res.append([np.array(x.sample(3)), np.array(x.sample(1))])
                c.eq(res[1][0], res[0][0], 'samples of the copy', tol=1e-12)
                c.eq(res[1][1], res[0][1], 'samples of the copy', tol=1e-12)
                if name == 'particles':
                    d2.particle_weights[0] = 9
                    c.ok(d.particle_weights[0] == 0.2, 'copy shares its particles with the original')
                c.step(2); c.state(name, how)


def sc_copy_updaters(c):
    cases = []
    for name in ('precession', 'coin', 'ndie3', 'tablev', 'rb'):
        cases.append((name, zoo.BY[name], {}))
    cases += [('binomial', zoo.binomial(zoo.BY['precession'], ns=(2,)), {}), ('gwalk', zoo.gwalk_learn(zoo.BY['coin']), {}), ('walk', zoo.walk(zoo.BY['precession']), {}),
              ('liuwest', zoo.BY['precession'], dict(resampler=lambda: qi.LiuWestResampler(a=0.9, postselect=True))),
              ('track', zoo.BY['precession'], dict(track_resampling_divergence=lambda: True)),
              ('zero', zoo.BY['tablev'], dict(zero_weight_policy=lambda: 'reset', zero_weight_thresh=lambda: 1e-3)),
              ('mixed', zoo.BY['precession'], dict(cls=lambda: qi.MixedApproximateSMCUpdater)),
              ('bcrb', zoo.BY['precession'], dict(cls=lambda: qi.SMCUpdaterBCRB))]
    for name, e, kw in cases:
        steps = [(o, k) for k in range(min(2, len(e.eps))) for o in e.outcomes(e.eps[k])][:4]
        for hist in itertools.chain(*[itertools.product(steps, repeat=d) for d in ((1, 2, 3) if not c.thorough else (1, 2, 3, 4))]):
            if len(hist) >= 3 and hist[0] != hist[1]:
                continue
            for cut in range(len(hist) + 1):
                for how, cp in (HOWS[2], HOWS[3]):
                    with c.case('copy upd|%s|%s|cut%d|%s' % (name, hist, cut, how)):
                        kk = {k: f() for k, f in kw.items()}
                        if name == 'tablev':
                            kk['zero_weight_policy'] = 'skip'
                        cls = kk.pop('cls', None)
                        m = e.make()
                        rows = grid(e, 4)
                        if name not in ('tablev', 'ndie3', 'zero'):
                            rows = rows * (1 - 0.01 * np.arange(4)[:, None])
                        if cls is qi.MixedApproximateSMCUpdater:
                            u = cls(m, e.make(), 4, zoo.ListPrior(rows), resample_thresh=0.7)
                        elif cls is qi.SMCUpdaterBCRB:
                            u = cls(m, 4, zoo.ListPrior(rows), resample_thresh=0.7, initial_bim=np.eye(m.n_modelparams))
                        else:
                            u = mk(m, rows, resample_thresh=0.7, **kk)
                        def go(x, part, seed):
                            with core.controlled(core.cycle_stream(seed)):
                                for o, k in part:
                                    x.update(o, e.ep_array(m, [k]))
                        go(u, hist[:cut], 1)
                        u2 = cp(u)
                        k = same_snap(snap(u), snap(u2))
                        c.ok(k is None, 'the copy differs right away', field=k)
                        b = snap(u)
                        go(u2, hist[cut:], 2)
                        k = same_snap(b, snap(u))
                        c.ok(k is None, 'updating the copy changed the original', field=k)
                        b2 = snap(u2)
                        go(u, hist[cut:], 2)
                        k = same_snap(b2, snap(u2))
                        c.ok(k is None, 'updating the original changed the copy', field=k)
                        k = same_snap(snap(u), snap(u2))
                        c.ok(k is None, 'copy and original part ways on the same data', field=k)
                        if cls is qi.SMCUpdaterBCRB:
                            c.eq(u2.current_bim, u.current_bim, 'information matrix of the copy')
                        with core.controlled(core.cycle_stream(3)):
                            u.resample()
                        with core.controlled(core.cycle_stream(3)):
                            u2.resample()
                        k = same_snap(snap(u), snap(u2))
                        c.ok(k is None, 'copy resamples differently', field=k)
                        with core.controlled(core.cycle_stream(3)):
                            u.reset()
                        with core.controlled(core.cycle_stream(3)):
                            u2.reset()
                        c.eq(u2.particle_locations, u.particle_locations, 'copy resets to another prior')
                        c.step(len(hist)); c.state(name, hist, cut, how); c.trace()


SCENARIOS = [('likelihood', sc_likelihood), ('models', sc_models), ('simulate', sc_simulate), ('sim_law', sc_sim_law), ('failures', sc_failures),
             ('cache', sc_cache), ('updater', sc_updater), ('copy_models', sc_copy_models), ('copy_dists', sc_copy_dists), ('copy_updaters', sc_copy_updaters)]

from . import bulk, edge  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b19)]
BOUNDS += ' Edge configurations: parameter scales from 1e-12 to 1e9, deep retries, objects used before, very many shots, engines, rows or clusters.'
SCENARIOS = SCENARIOS + [('edge', edge.e19)]
