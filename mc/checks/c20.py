"""C20: performance tests record each trial truthfully and isolate failing trials."""
import copy, itertools, math, time
import numpy as np
import qinfer as qi
from qinfer import perf_testing as pt
from .. import zoo, core, rng
from ..util import *
from . import c01

BOUNDS = ('Every sequence of simulated outcomes of trials of up to 4 experiments, judged record by record against a hand-run fed '
          'with the recorded data: static, drifting, multi-shot, scalar-experiment and mismatched true models, fixed, adaptive '
          'and stock heuristics, resampling or not, priors or given true parameters in every accepted shape; up to 5 trials with '
          'every pattern of failing trials, every place a trial can fail, with and without masking, four kinds of progress bar, '
          'serial, eager and out-of-order evaluation, every initial numerical error policy; laws of true parameters over trials.')
ASSUMPTIONS = ['outcomes are integers, as the documented record structure states',
               'trials delegated to other processes are represented by callables with a get() method']


class Drift(zoo.TableModel):
    """Deterministic dynamics on one or two parameters."""
    def __init__(self, n_params=1, step=1):
        zoo.TableModel.__init__(self, zoo.TABLE3, [3, 3], n_params=n_params)
        self._step = step

    def are_models_valid(self, m):
        return np.ones(m.shape[0], dtype=bool)

    def update_timestep(self, m, e):
        out = np.repeat(m[:, :, None], e.shape[0], axis=2)
        for k in range(e.shape[0]):
            out[:, 0, k] = np.mod(m[:, 0] + self._step + e['e'][k], 4)
            if m.shape[1] > 1:
                out[:, 1:, k] = m[:, 1:] * 0.5 + e['e'][k]
        return out


class Weighted(zoo.TableModel):
    """Loss weights of its own."""
    Q = np.array([2.0, 0.25, 4.0])


class Fixed(qi.Heuristic):
    def __init__(self, updater, eps=None):
        self.u, self.eps, self.k = updater, eps, 0

    def __call__(self):
        self.k += 1
        return self.eps[(self.k - 1) % len(self.eps)]


def fixed(eps):
    return lambda u: Fixed(u, eps)


def adaptive(n_ep):
    """Next experiment depends on everything seen so far."""
    class A(qi.Heuristic):
        def __init__(self, u): self.u = u
        def __call__(self):
            v = float(np.sum(self.u.est_mean())) * 7 + len(self.u.data_record) + self.u.resample_count
            return np.array([(int(v) % n_ep,)], dtype=[('e', int)])
    return A


def e_(k):
    return np.array([(k,)], dtype=[('e', int)])


ROWS1 = [[0.0], [1.0], [2.0], [3.0]]
ROWS2 = [[0.0, 5.0], [1.0, 2.0], [2.0, -1.0], [3.0, 0.5]]
ROWS3 = [[0.0, 5.0, 1.0], [1.0, 2.0, -2.0], [2.0, -1.0, 0.0], [3.0, 0.5, 7.0]]


def confs():
    C = []
    T3 = lambda k=1: zoo.TableModel(zoo.TABLE3, [3, 3], n_params=k)
    V = lambda: zoo.TableModel(zoo.TABLEV, [2, 4, 1, 3])
    upd = dict(resample_thresh=0.0, zero_weight_policy='skip')
    res = dict(resample_thresh=0.9, zero_weight_policy='skip')
    for hn, h in (('fixed', fixed([e_(0), e_(1)])), ('adaptive', adaptive(2))):
        for un, uk in (('plain', upd), ('resampling', res)):
            C.append(('table3 %s %s' % (hn, un), T3, None, ROWS1, h, uk))
            C.append(('drift %s %s' % (hn, un), lambda: Drift(2), None, ROWS2, h, uk))
            C.append(('weighted %s %s' % (hn, un), lambda: Weighted(zoo.TABLE3, [3, 3], n_params=3), None, ROWS3, h, uk))
            C.append(('truth with more parameters %s %s' % (hn, un), lambda: T3(1), lambda: Drift(2), ROWS1, h, uk))
            C.append(('truth with fewer parameters %s %s' % (hn, un), lambda: Weighted(zoo.TABLE3, [3, 3], n_params=3), lambda: T3(1), ROWS3, h, uk))
            C.append(('truth two of three %s %s' % (hn, un), lambda: Weighted(zoo.TABLE3, [3, 3], n_params=3), lambda: Drift(2), ROWS3, h, uk))
            C.append(('truth drifts, model does not %s %s' % (hn, un), lambda: T3(2), lambda: Drift(2, 2), ROWS2, h, uk))
    C.append(('varying outcomes', V, None, ROWS1, adaptive(4), upd))
    p = zoo.BY['precession']
    C.append(('precession', p.make, None, [[0.3], [1.1], [2.0]], fixed([np.array([1.0]), np.array([2.5])]), upd))
    b = zoo.binomial(p)
    C.append(('shots', b.make, None, [[0.3], [1.1], [2.0]],
              fixed([np.array([(1.0, 2)], dtype=b.make().expparams_dtype), np.array([(0.5, 3)], dtype=b.make().expparams_dtype)]), upd))
    C.append(('inversion', zoo.BY['inversion'].make, None, [[0.3], [1.1], [2.0]], fixed([np.array([(1.0, 0.2)], dtype=zoo.BY['inversion'].make().expparams_dtype)]), upd))
    C.append(('stock heuristic', p.make, None, [[0.3], [1.1], [2.0]], lambda u: qi.ExpSparseHeuristic(u), upd))
    C.append(('rb', zoo.BY['rb'].make, None, [[0.9, 0.3, 0.45], [0.5, 0.5, 0.5], [0.8, 0.25, 0.3]],
              fixed([np.array([(3,)], dtype=[('m', 'uint')]), np.array([(1,)], dtype=[('m', 'uint')])]), upd))
    return C


def judge(c, perf, model, true, prior_rows, heuristic, uk, truth, n_exp, prior=None):
    """Every record equals a hand-run fed with the recorded outcomes."""
    c.ok(perf.shape == (n_exp,), 'one record per experiment', got=perf.shape)
    want_fields = set(['loss', 'resample_count', 'elapsed_time', 'outcome', 'true', 'est'])
    want_fields |= set(['experiment']) if isinstance(model.expparams_dtype, str) else set(f[0] for f in model.expparams_dtype)
    c.ok(set(perf.dtype.names) == want_fields, 'fields of the record', got=perf.dtype.names)
    u = qi.SMCUpdater(model, len(prior_rows), prior or zoo.ListPrior(prior_rows), **uk)
    h = heuristic(u)
    t = np.array(truth, dtype=float).reshape(1, -1)
    k = min(model.n_modelparams, true.n_modelparams)
    probs = 1.0
    for i in range(n_exp):
        r = perf[i]
        c.eq(np.atleast_1d(r['true']), t[0], 'true parameters at the time of the experiment', i=i)
        ep = h()
        if isinstance(model.expparams_dtype, str):
            c.ok(r['experiment'] == ep[0], 'experiment', got=r['experiment'], want=ep)
        else:
            for f in ep.dtype.names:
                c.ok(r[f] == ep[f][0], 'experiment', got=r[f], want=ep)
        o = int(r['outcome'])
        probs *= float(true.likelihood(np.array([o]), t, ep)[0, 0, 0])
        u.update(o, ep)
        t = true.update_timestep(t, ep)[:, :, 0]
        c.eq(np.atleast_1d(r['est']), u.est_mean(), 'estimate after the experiment', i=i)
        d = u.est_mean()[-k:] - t[0][-k:]
        c.eq(float(r['loss']), float(np.sum(d ** 2 * np.asarray(model.Q)[-k:])), 'loss of the estimate', i=i)
        c.ok(int(r['resample_count']) == u.resample_count, 'resample count', got=r['resample_count'], want=u.resample_count)
        c.ok(0 <= r['elapsed_time'] < 1e3, 'elapsed time', got=r['elapsed_time'])
    return probs


def sc_record(c, part=0):
    for i, (name, mk_m, mk_t, rows, heur, uk) in enumerate(confs()):
        if i % 3 != part:
            continue
        uk = dict(uk, resampler=RotResampler()) if uk.get('resample_thresh') else uk
        for n_exp in (0, 1, 2, 3) if not c.thorough else (0, 1, 2, 3, 4):
            if n_exp == 3 and name in ('shots',) and not c.thorough:
                continue
            true0 = (mk_t or mk_m)()
            truths = [('prior', None), ('1-d', 1), ('2-d', 2), ('true_prior', None)]
            base = rows[1] if mk_t is None else (rows[2] + [0.75, 0.5])[:true0.n_modelparams]
            for form, nd in truths:
                if mk_t is not None and form == 'prior':
                    continue
                if n_exp == 3 and form not in ('2-d', 'prior'):
                    continue
                with c.case('%s|n=%d|%s' % (name, n_exp, form)):
                    def run():
                        m = mk_m()
                        t = mk_t() if mk_t else None
                        kw = {}
                        if nd:
                            kw['true_mps'] = np.array(base, dtype=float) if nd == 1 else np.array([base], dtype=float)
                        if form == 'true_prior':
                            kw['true_prior'] = zoo.ListPrior([base])
                        ex = dict(uk)
                        if 'resampler' in ex:
                            ex['resampler'] = RotResampler()
                        keep = copy.copy(kw.get('true_mps'))
                        p = pt.perf_test(m, len(rows), zoo.ListPrior(rows), n_exp, heur, true_model=t, extra_updater_args=ex, **kw)
                        if nd:
                            c.eq(kw['true_mps'], keep, 'given true parameters changed')
                        return p
                    seen = {}
                    for perf, pr, ch in c.explore(run, n_u=8):
                        truth = rows[0] if form == 'prior' else base
                        ex = dict(uk)
                        if 'resampler' in ex:
                            ex['resampler'] = RotResampler()
                        m = mk_m()
                        q = judge(c, perf, m, mk_t() if mk_t else m, rows, heur, ex, truth, n_exp)
                        key = tuple(int(x) for x in perf['outcome'])
                        seen.setdefault(key, [0.0, q])
                        seen[key][0] += pr
                        c.state(name, n_exp, form, key)
                    if 'precession' not in name and name not in ('shots', 'inversion', 'stock heuristic', 'rb'):
                        for key, (pr, q) in seen.items():
                            c.ok(abs(pr - q) < 1e-9, 'outcomes are simulated from the true model at the true parameters', outcomes=key, got=pr, want=q)
                        c.ok(abs(sum(q for _, q in seen.values()) - 1) < 1e-9, 'some outcomes are never simulated', got=len(seen))


def sc_record1(c):
    sc_record(c, 1)


def sc_record2(c):
    sc_record(c, 2)


def sc_longer(c):
    """Longer trials with resampling, every answer of the source from a fixed stream."""
    for seed in range(12 if not c.thorough else 60):
        for name, mk_m, mk_t, rows, heur, uk in confs():
            if 'truth' in name and seed % 3:
                continue
            with c.case('longer|%s|%d' % (name, seed)):
                ex = lambda: dict(uk, resampler=RotResampler()) if uk.get('resample_thresh') else dict(uk)
                true = (mk_t or mk_m)()
                base = (list(rows[seed % len(rows)]) + [0.75, 0.5])[:true.n_modelparams]
                with core.controlled(core.cycle_stream(seed)):
                    m = mk_m()
                    perf = pt.perf_test(m, len(rows), zoo.ListPrior(rows), 20, heur, true_model=mk_t() if mk_t else None,
                                        true_mps=np.array([base], dtype=float), extra_updater_args=ex())
                m = mk_m()
                q = judge(c, perf, m, mk_t() if mk_t else m, rows, heur, ex(), base, 20)
                c.ok(q > 0, 'recorded an outcome which is impossible for the true model')
                c.step(20); c.trace(); c.state('longer', name, seed, perf['outcome'])


class Sick(zoo.TableModel):
    pass


class Boom(Exception):
    pass


FAILS = ['heuristic ctor', 'heuristic call', 'simulate', 'likelihood', 'timestep', 'divide']


def sick_trial(bad, n_exp, place, at):
    """model, heuristic: trial number k fails at the given place if k is in bad.

    The trial number is counted by the heuristic constructor, which runs once per trial, in order.
    """
    st = dict(k=-1, i=0)
    def hit(p):
        return st['k'] in bad and p == place and st['i'] == at

    class M(zoo.TableModel):
        def simulate_experiment(self, *a, **k):
            if hit('simulate'): raise Boom('simulate')
            return zoo.TableModel.simulate_experiment(self, *a, **k)
        def likelihood(self, o, m, e):
            if m.shape[0] > 1:
                if hit('likelihood'): raise Boom('likelihood')
                if hit('divide'): np.ones(2) / np.zeros(2)
            return zoo.TableModel.likelihood(self, o, m, e)
        def update_timestep(self, m, e):
            if hit('timestep'): raise Boom('timestep')
            return zoo.TableModel.update_timestep(self, m, e)

    class H(qi.Heuristic):
        def __init__(self, u):
            st['k'] += 1; st['i'] = -1
            self.k = st['k']
            if st['k'] in bad and place == 'heuristic ctor': raise Boom('ctor')
        def __call__(self):
            st['i'] += 1
            if hit('heuristic call'): raise Boom('call')
            return e_((self.k + st['i']) % 2)
    return M(zoo.TABLE3, [3, 3]), H


class Bar(object):
    log = []

    def __init__(self):
        Bar.log.append(('new',))

    def start(self, n, *a, **k): Bar.log.append(('start', n))
    def update(self, n): Bar.log.append(('update', n))
    def finished(self): Bar.log.append(('finished',))


class BarD(Bar):
    description = ''


def quiet_div(f):
    return f()


class Eager(object):
    """Evaluated when it is dispatched, failing when it is collected."""
    def __init__(self, fn, *a, **k):
        self.e = None
        try:
            self.v = fn(*a, **k)
        except Exception as e:
            self.e = e

    def get(self, timeout=None):
        if self.e is not None:
            raise self.e
        return self.v


def pool(order):
    """Trials are evaluated in the given order once the first result is asked for."""
    jobs = []
    def run_all():
        for k in [k for k in order if k < len(jobs)] + [k for k in range(len(jobs)) if k not in order]:
            j = jobs[k]
            if not j.done:
                j.done = True
                try:
                    j.v = j.fn()
                except Exception as e:
                    j.e = e
    class J(object):
        def __init__(self, fn, *a, **k):
            self.fn, self.done, self.e = fn, False, None
            jobs.append(self)
        def get(self, timeout=None):
            run_all()
            if self.e is not None:
                raise self.e
            return self.v
    return J


def rows_equal(a, b):
    return all(np.array_equal(a[f], b[f]) for f in a.dtype.names if f != 'elapsed_time')


def sc_failures(c):
    rows = ROWS1
    uk = dict(resample_thresh=0.0, zero_weight_policy='skip')
    for n in (0, 1, 2, 3, 4) if not c.thorough else (0, 1, 2, 3, 4, 5):
        for bits in range(1 << n):
            bad = set(k for k in range(n) if bits >> k & 1)
            for place in (FAILS if bad else FAILS[:1]):
                for at in ((0, 1) if place != 'heuristic ctor' and bad else (0,)):
                    for allow in (True, False):
                        for bar in (None, Bar, BarD):
                            for ap in ('serial', 'eager', 'lazy'):
                                if n >= 3 and not c.thorough and (bits * 7 + at + len(place) + (3 if bar else 0) + len(ap)) % 4:
                                    continue
                                with c.case('fail|n%d %s %s@%d allow=%s %s %s' % (n, sorted(bad), place, at, allow, bar and bar.__name__, ap)):
                                    one_multi(c, n, bad, place, at, allow, bar, ap, rows, uk)


def one_multi(c, n, bad, place, at, allow, bar, ap, rows, uk, n_exp=2, states=None):
    m, H = sick_trial(bad, n_exp, place, at)
    kw = {}
    if ap == 'eager':
        kw['apply'] = Eager
    elif ap == 'lazy':
        kw['apply'] = pool([])
    if bar is not None:
        Bar.log = []
        kw['progressbar'] = bar
    # the same trials by hand, without failures
    before = np.geterr()
    m0, H0 = sick_trial((), n_exp, place, at)
    with core.controlled(core.cycle_stream(1)):
        want = []
        for k in range(n):
            want.append(pt.perf_test(m0, len(rows), zoo.ListPrior(rows), n_exp, H0, true_mps=np.array([[0.0]]), extra_updater_args=uk))
    # outcomes are certain or not: give every trial the same true parameters and a degenerate source
    err = None
    with core.controlled(Const()):
        wc = []
        m0, H0 = sick_trial((), n_exp, place, at)
        for k in range(n):
            wc.append(pt.perf_test(m0, len(rows), zoo.ListPrior(rows), n_exp, H0, true_mps=np.array([[0.0]]), extra_updater_args=uk))
    with core.controlled(Const()):
        try:
            p = pt.perf_test_multiple(n, m, len(rows), zoo.ListPrior(rows), n_exp, H, true_mps=np.array([[0.0]]), allow_failures=allow,
                                      extra_updater_args=uk, **kw)
        except (Boom, FloatingPointError) as e:
            err = e
    c.ok(np.geterr() == before, 'numerical error settings changed', got=np.geterr(), want=before)
    np.seterr(**before)
    c.step(n); c.trace(); c.state(n, sorted(bad), place, at, allow, bar, ap)
    # a division by zero only counts as a failure inside the trial
    if bad and not allow:
        if c.ok(err is not None, 'a failed trial went unnoticed'):
            c.ok(isinstance(err, FloatingPointError) == (place == 'divide'), 'another error than that of the trial', got=err)
    else:
        c.ok(err is None, 'error although failures are to be masked or none happened', got=err)
        if err is None:
            c.ok(p.shape == (n, n_exp), 'shape of the records', got=p.shape)
            for k in range(n):
                if k in bad:
                    c.ok(np.all([np.all(np.ma.getmaskarray(p[f])[k]) for f in p.dtype.names]), 'failed trial not masked', k=k)
                else:
                    if allow:
                        c.ok(not np.any([np.any(np.ma.getmaskarray(p[f])[k]) for f in p.dtype.names]), 'successful trial masked', k=k)
                    row = np.ma.getdata(p)[k]
                    c.ok(rows_equal(row, wc[k]), 'a trial differs from the same trial run by itself', k=k, got=row, want=wc[k])
    if bar is not None:
        L = Bar.log
        c.ok([x for x in L if x[0] == 'new'] == [('new',)], 'one progress bar', log=L)
        c.ok([x for x in L if x[0] == 'start'] == [('start', n)], 'progress started once with the number of trials', log=L)
        c.ok([x for x in L if x[0] == 'finished'] == [('finished',)] and L[-1] == ('finished',), 'progress finished once, at the end', log=L)
        ups = [x[1] for x in L if x[0] == 'update']
        if err is None:
            good = n - len(bad)
            c.ok(ups == list(range(1, good + 1)), 'progress counts the completed trials one by one', got=ups, want=good)
        else:
            first = min(bad)
            c.ok(ups == list(range(1, len(ups) + 1)) and len(ups) <= first, 'progress counts the completed trials', got=ups, first_failure=first)


class Const(object):
    """Every answer is the first option."""
    ugrid = [0.3]
    zgrid = [(0.4, 1)]

    def choose(self, n, weights=None, kind=''):
        return 0


def sc_orders(c):
    """Out-of-order evaluation of trials of different true parameters keeps every trial in its place."""
    rows = ROWS1
    uk = dict(resample_thresh=0.0, zero_weight_policy='skip')
    for n in (1, 2, 3, 4):
        for order in itertools.permutations(range(n)):
            for bits in range(1 << n):
                bad = [k for k in range(n) if bits >> k & 1]
                if n == 4 and bits % 3 and not c.thorough:
                    continue
                with c.case('order|%s %s' % (order, bad)):
                    # the k-th evaluated trial has its own signature: the experiment of its heuristic
                    m, H = sick_trial(set(order.index(k) for k in bad), 2, 'likelihood', 1)
                    with core.controlled(Const()):
                        p = pt.perf_test_multiple(n, m, 4, zoo.ListPrior(rows), 2, H, true_mps=np.array([[0.0]]), allow_failures=True,
                                                  extra_updater_args=uk, apply=pool(list(order)))
                    for k in range(n):
                        msk = bool(np.all(np.ma.getmaskarray(p['loss'])[k]))
                        c.ok(msk == (k in bad), 'masked trials', k=k, got=np.ma.getmaskarray(p['loss']), bad=bad)
                        if not msk:
                            c.ok(list(np.ma.getdata(p)['e'][k]) == [order.index(k) % 2, (order.index(k) + 1) % 2], 'record in the wrong place', k=k, got=np.ma.getdata(p)['e'])
                    c.step(n); c.trace(); c.state(order, bad)


def sc_errstate(c):
    pols = ['ignore', 'warn', 'raise', 'call', 'print']
    for d, inv, ov in itertools.product(pols[:3], pols[:3], pols[:2]):
        for what in ('ok', 'fail', 'masked', 'divide', 'interrupt'):
            with c.case('errstate|%s %s %s %s' % (d, inv, ov, what)):
                old = np.seterr(divide=d, invalid=inv, over=ov, under='ignore')
                try:
                    want = np.geterr()
                    bad = () if what == 'ok' else (1,)
                    m, H = sick_trial(bad, 2, 'divide' if what == 'divide' else 'likelihood', 0)
                    if what == 'interrupt':
                        class K(type(m)):
                            def simulate_experiment(self, *a, **k): raise KeyboardInterrupt()
                        m = K(zoo.TABLE3, [3, 3])
                    try:
                        with core.controlled(Const()):
                            pt.perf_test_multiple(3, m, 4, zoo.ListPrior(ROWS1), 2, H, true_mps=np.array([[0.0]]), allow_failures=what == 'masked',
                                                  extra_updater_args=dict(resample_thresh=0.0, zero_weight_policy='skip'))
                        c.ok(what in ('ok', 'masked'), 'no error')
                    except (Boom, FloatingPointError, KeyboardInterrupt) as e:
                        c.ok(what in ('fail', 'divide', 'interrupt'), 'error', got=e)
                    c.ok(np.geterr() == want, 'numerical error settings changed', got=np.geterr(), want=want)
                    for kw in (dict(divide='raise'), dict(all='ignore'), dict(invalid='raise', over='raise'), {}):
                        for boom in (False, True):
                            np.seterr(**want)
                            try:
                                with pt.numpy_err_policy(**kw):
                                    for k, v in kw.items():
                                        c.ok(k == 'all' or np.geterr()[k] == v, 'policy not in force')
                                    try:
                                        with pt.numpy_err_policy(divide='ignore', over='warn'):
                                            if boom: raise Boom()
                                    finally:
                                        for k, v in kw.items():
                                            c.ok(k == 'all' or np.geterr()[k] == v, 'outer policy not restored by the inner one', boom=boom)
                                    if boom: raise Boom()
                            except Boom:
                                pass
                            c.ok(np.geterr() == want, 'policy not restored', boom=boom, got=np.geterr(), want=want)
                            c.step()
                finally:
                    np.seterr(**old)
                c.state(d, inv, ov, what)


def sc_timing(c):
    for boom in (False, True):
        with c.case('timing|%s' % boom):
            try:
                with pt.timing() as t:
                    time.sleep(0.01)
                    if boom: raise Boom()
            except Boom:
                pass
            a = t.delta_t
            time.sleep(0.02)
            c.ok(t.delta_t == a and a >= 0.009, 'the timer goes on after its block', got=(a, t.delta_t))
            c.step()
    with c.case('elapsed'):
        class Slow(zoo.TableModel):
            def likelihood(self, o, m, e):
                if m.shape[0] > 1: time.sleep(0.03)
                return zoo.TableModel.likelihood(self, o, m, e)
            def simulate_experiment(self, *a, **k):
                time.sleep(0.4)
                return zoo.TableModel.simulate_experiment(self, *a, **k)
        class H(Fixed):
            def __call__(self):
                time.sleep(0.4)
                return e_(0)
        t0 = time.time()
        with core.controlled(Const()):
            p = pt.perf_test(Slow(zoo.TABLE3, [3, 3]), 4, zoo.ListPrior(ROWS1), 2, H, true_mps=np.array([[0.0]]), extra_updater_args=dict(resample_thresh=0.0))
        total = time.time() - t0
        c.ok(np.all(p['elapsed_time'] >= 0.029) and np.sum(p['elapsed_time']) < total - 1.5, 'elapsed time is that of the update', got=p['elapsed_time'], total=total)


def sc_laws(c):
    """Trials draw true parameters independently from the right prior."""
    U = qi.UniformDistribution
    one = lambda m: fixed([e_(0)])
    T = [[(1.0, 0.0), (0.0, 1.0)]]
    with c.case('law|independent true parameters'):
        m = lambda: zoo.TableModel(T, [2])
        class P(qi.Distribution):
            n_rvs = 1
            def sample(self, n=1): return np.array([[float(np.random.choice(2, p=[0.25, 0.75]))] for _ in range(n)])
        for n in (1, 2, 3):
            law = c.law(lambda: np.array(pt.perf_test_multiple(n, m(), 2, zoo.ListPrior([[0.0], [1.0]]), 1, fixed([e_(0)]), true_prior=P())['true'].reshape(n, -1)[:, 0]), n_u=4)
            got = {tuple(int(x) for x in v[1]): v[0] for v in law.values()}
            for key in itertools.product((0, 1), repeat=n):
                want = np.prod([(0.25, 0.75)[k] for k in key])
                c.ok(abs(got.get(key, 0) - want) < 1e-9, 'law of the true parameters over trials', at=key, got=got.get(key, 0), want=want)
    with c.case('law|default is the prior'):
        seen = {}
        for perf, pr, ch in c.explore(lambda: pt.perf_test(zoo.TableModel(zoo.TABLE3, [3, 3]), 2, U([0, 3]), 1, fixed([e_(0)]), extra_updater_args=dict(zero_weight_policy='skip')), n_u=4):
            t = float(perf['true'].ravel()[0])
            seen[t] = seen.get(t, 0) + pr
        c.ok(len(seen) == 4 and all(abs(v - 0.25) < 1e-9 for v in seen.values()), 'true parameters follow the prior', got=seen)
    with c.case('given'):
        for tm in (np.array([1.0]), np.array([[1.0]])):
            with core.controlled(core.cycle_stream(1)):
                p = pt.perf_test_multiple(3, zoo.TableModel(T, [2]), 2, zoo.ListPrior([[0.0], [1.0]]), 2, fixed([e_(0)]), true_mps=tm, true_prior=zoo.ListPrior([[0.0]]))
            c.ok(np.all(p['true'] == 1.0) and np.all(p['outcome'] == 1), 'given true parameters are used in every trial', got=p['true'])


SCENARIOS = [('record', sc_record), ('record1', sc_record1), ('record2', sc_record2), ('longer', sc_longer), ('failures', sc_failures), ('orders', sc_orders), ('errstate', sc_errstate),
             ('timing', sc_timing), ('laws', sc_laws)]

from . import bulk, edge  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b20)]
BOUNDS += ' Edge configurations: parameter scales from 1e-12 to 1e9, deep retries, objects used before, very many shots, engines, rows or clusters.'
SCENARIOS = SCENARIOS + [('edge', edge.e20)]

from . import edge2  # noqa: E402
BOUNDS += ' Further edge configurations: long histories, answers at cell boundaries, near ties, numbers of many digits.'
SCENARIOS = SCENARIOS + [('edge2', edge2.f20)]
