"""C27: inference is a deterministic function of data, prior and random answers."""
import itertools, json, math, os, subprocess, sys
import numpy as np
import qinfer as qi
from qinfer import ale, perf_testing as pt, simple_est as SE
from qinfer.tomography import models as tm, distributions as td, expdesign as te, bases as tb
from .. import zoo, core, rng, boot
from ..util import *
from . import c12, c20

BOUNDS = ('A catalogue of runs covering every stock model and wrapper, resampler, heuristic, distribution, estimator and driver: every '
          'run repeated after every other run of the catalogue in one process (all ordered pairs), with three contents of '
          'uninitialised memory, with four hash seeds in new processes, and with the real generator under several seeds; all '
          'interleavings of two runs of up to four steps each, with separate and with shared model, prior and resampler; reset '
          'after every history of up to three steps against a new updater, and every way of resetting in part.')
ASSUMPTIONS = ['equal means equal to 1e-10: the arithmetic library may round differently for differently aligned memory',
               'wall-clock times are not results; data records, resample counts and BIM matrices are kept by a reset']


# --- runs ---------------------------------------------------------------------

class RunDef(object):
    """objs() -> dict of possibly shareable objects; steps(objs) -> (state, [callables]); result(state) -> anything."""
    def __init__(self, name, objs, steps, tags=()):
        self.name, self.objs, self.steps, self.tags = name, objs, steps, set(tags)


def full(u):
    s = snap(u)
    s['mean'] = np.array(u.est_mean(), copy=True)
    s['prior'] = type(u.prior).__name__
    for k in ('current_bim', 'adaptive_bim', 'prior_bayes_information'):
        if isinstance(u, qi.SMCUpdaterBCRB) and k != 'prior_bayes_information':
            try: s[k] = np.array(getattr(u, k), copy=True)
            except Exception as ex: s[k] = type(ex).__name__
    return s


class Passive(object):
    """Data simulated from the model, experiments in a fixed order."""
    def __init__(self, objs, n, kw, eps, truth, extra=None, cls=None):
        self.m, self.eps = objs['model'], eps
        self.truth = np.atleast_2d(np.array(truth, dtype=float))
        kw = dict(kw)
        if 'resampler' in objs: kw['resampler'] = objs['resampler']
        self.mkupd = lambda: (cls or qi.SMCUpdater)(self.m, n, objs['prior'], **kw)
        self.out, self.extra = [], extra

    def start(self): self.u = self.mkupd()

    def step(self, k):
        e = self.eps[k % len(self.eps):][:1]
        o = self.m.simulate_experiment(self.truth, e)
        if isinstance(o, np.ndarray): o = o.ravel()[:1] if o.dtype.names else o.ravel()[0]
        self.truth = self.m.update_timestep(self.truth, e)[:, :, 0]
        self.u.update(o, e)
        self.out.append((np.array(o, copy=True), np.array(e)))

    def result(self):
        r = [full(self.u), self.out]
        if self.extra: r.append(self.extra(self.u))
        return r


def passive(name, mk_model, mk_prior, eps, truth, n=5, steps=3, kw=None, extra=None, cls=None, resampler=None, tags=('updater',)):
    def objs():
        d = dict(model=mk_model(), prior=mk_prior())
        if resampler: d['resampler'] = resampler()
        return d
    def st(o):
        m = o['model']
        p = Passive(o, n, kw or dict(zero_weight_policy='skip'), eps(m) if callable(eps) else eps, truth, extra, cls)
        return p, [p.start] + [lambda k=k: p.step(k) for k in range(steps)]
    return RunDef(name, objs, st, tags)


def adaptive(name, mk_model, mk_prior, heuristic, truth, n=20, steps=3, kw=None, resampler=None):
    def objs():
        d = dict(model=mk_model(), prior=mk_prior())
        if resampler: d['resampler'] = resampler()
        return d
    def st(o):
        class P(Passive):
            def start(self):
                Passive.start(self); self.h = heuristic(self.u)

            def step(self, k):
                self.eps = self.h()
                Passive.step(self, 0)
        p = P(o, n, dict(zero_weight_policy='skip', **(kw or {})), None, truth)
        return p, [p.start] + [lambda k=k: p.step(k) for k in range(steps)]
    return RunDef(name, objs, st, ('updater', 'adaptive'))


def single(name, objs, fn):
    """A run of one call (with its objects built anew or shared)."""
    def st(o):
        class S(object):
            def go(self): self.r = fn(o)

            def result(self): return self.r
        s = S()
        return s, [s.go]
    return RunDef(name, objs, st, ('single',))


def catalogue(big=True):
    R = []
    U1 = lambda: qi.UniformDistribution([0, 1])
    prec = zoo.BY['precession']
    # every stock finite model and every wrapper over it
    for e in zoo.all_finite(depth2=False):
        if not big and len(R) % 3: continue
        if e.name.startswith('gwalk') or e.name.startswith('multinomial'):
            if len(R) % 2 and not big: continue
        R.append(passive('model ' + e.name, e.make, lambda e=e: zoo.ListPrior(e.params), lambda m, e=e: e.ep_array(m), e.params[0], n=max(4, len(e.params)), steps=2,
                         kw=dict(zero_weight_policy='skip', resample_thresh=0.3), tags=('model',)))
    t = lambda m: np.array([1.0, 3.0, 7.0])
    R.append(passive('precession liu-west', qi.SimplePrecessionModel, U1, t, [0.6], n=25, kw=dict(resample_thresh=0.95), resampler=lambda: qi.LiuWestResampler(0.9)))
    R.append(passive('precession default', qi.SimplePrecessionModel, U1, t, [0.3], n=25, kw=dict(resample_thresh=1.1)))
    R.append(passive('precession divergences', qi.SimplePrecessionModel, U1, t, [0.3], n=15, kw=dict(resample_thresh=1.1, track_resampling_divergence=True), extra=lambda u: u.resampling_divergences))
    R.append(passive('maxent', qi.SimplePrecessionModel, U1, t, [0.4], n=15, kw=dict(resample_thresh=1.1), resampler=lambda: qi.LiuWestResampler(a=1, h=0.01, kernel=None) if False else qi.LiuWestResampler(0.95, kernel=lambda *s: np.random.uniform(-1, 1, s))))
    R.append(passive('rb', lambda: qi.RandomizedBenchmarkingModel(), lambda: qi.PostselectedDistribution(qi.UniformDistribution([[0.8, 1], [0, 1], [0, 1]]), qi.RandomizedBenchmarkingModel()),
                     lambda m: np.array([(2,), (9,), (40,)], dtype=m.expparams_dtype), [0.95, 0.4, 0.5], n=20, kw=dict(resample_thresh=0.9)))
    R.append(passive('binomial', lambda: qi.BinomialModel(qi.SimplePrecessionModel()), U1, lambda m: np.array([(1.0, 5), (3.0, 9)], dtype=m.expparams_dtype), [0.7], n=20, kw=dict(resample_thresh=0.9)))
    R.append(passive('mixed', qi.SimplePrecessionModel, U1, t, [0.6], n=12, cls=lambda m, n, p, **kw: qi.MixedApproximateSMCUpdater(m, ale.ALEApproximateModel(qi.SimplePrecessionModel(), error_tol=0.2), n, p), tags=('updater',)))
    R.append(passive('bcrb', qi.SimplePrecessionModel, lambda: qi.NormalDistribution(0.5, 0.01), t, [0.6], n=12, cls=lambda m, n, p, **kw: qi.SMCUpdaterBCRB(m, n, p, adaptive=True, **kw)))
    R.append(passive('credible', lambda: zoo.BY['rb'].make(), lambda: zoo.ListPrior(zoo.BY['rb'].params), lambda m: zoo.BY['rb'].ep_array(m), zoo.BY['rb'].params[0], n=8,
                     extra=lambda u: [u.est_credible_region(0.8), u.est_covariance_mtx(), u.est_entropy(), u.posterior_marginal(0, res=20), u.bayes_risk(np.array([(3,)], dtype=[('m', 'uint')])), u.sample(4)]))
    R.append(adaptive('sparse', qi.SimplePrecessionModel, U1, lambda u: qi.ExpSparseHeuristic(u), [0.6]))
    R.append(adaptive('pgh', qi.SimpleInversionModel, U1, lambda u: qi.PGH(u, inv_field='w_'), [0.6]))
    R.append(adaptive('pgh fields', lambda: qi.BinomialModel(qi.SimpleInversionModel()), U1, lambda u: qi.PGH(u, inv_field='w_', other_fields={'n_meas': 3}), [0.6]))
    R.append(adaptive('sparse binomial', lambda: qi.BinomialModel(qi.SimplePrecessionModel()), U1, lambda u: qi.ExpSparseHeuristic(u, t_field='x', other_fields={'n_meas': 4}), [0.4]))
    R.append(adaptive('resampling pgh', qi.SimpleInversionModel, U1, lambda u: qi.PGH(u, inv_field='w_'), [0.2], n=30, kw=dict(resample_thresh=0.98), resampler=lambda: qi.LiuWestResampler(0.9)))
    # distributions: one object sampled twice
    for nm, mk0, _ in c12.BASES:
        R.append(single('sample ' + nm, lambda mk0=mk0: dict(d=mk0()), lambda o: [np.array(o['d'].sample(3), copy=True), np.array(o['d'].sample(2), copy=True)]))
        for nm1, mk1, _ in list(c12.wrappers(nm, mk0, _))[1:]:
            if big and len(R) % 2 == 0:
                R.append(single('sample ' + nm1, lambda mk1=mk1: dict(d=mk1()), lambda o: [np.array(o['d'].sample(3), copy=True), np.array(o['d'].sample(2), copy=True)]))
    # tomography
    B = lambda: tb.pauli_basis(1)
    for nm, f in (('ginibre', lambda: td.GinibreDistribution(B())), ('bcsz', lambda: td.BCSZChoiDistribution(B())), ('rebit', lambda: td.GinibreReditDistribution(B()))):
        R.append(single('states ' + nm, lambda f=f: dict(d=f()), lambda o: [np.array(o['d'].sample(2)), np.array(o['d'].sample(1))]))
    def tomo(o):
        u = qi.SMCUpdater(o['model'], 15, o['prior'], zero_weight_policy='skip')
        h = te.RandomPauliHeuristic(u, other_fields={}) if False else te.RandomPauliHeuristic(u)
        for _ in range(3):
            e = h()
            u.update(int(np.asarray(o['model'].simulate_experiment(np.array([[1, 0, 0, 1]]) / np.sqrt(2), e)).ravel()[0]), e)
        return [full(u), e]
    R.append(single('tomography', lambda: dict(model=tm.TomographyModel(B()), prior=td.GinibreDistribution(B())), tomo))
    # drivers
    def times(a): return [np.array(a[n]) for n in a.dtype.names if n != 'elapsed_time'] if isinstance(a, np.ndarray) else a
    R.append(single('perf', lambda: dict(model=qi.SimplePrecessionModel(), prior=U1()), lambda o: times(pt.perf_test(o['model'], 12, o['prior'], 3, lambda u: qi.ExpSparseHeuristic(u)))))
    R.append(single('perf multiple', lambda: dict(model=qi.SimplePrecessionModel(), prior=U1()), lambda o: times(pt.perf_test_multiple(3, o['model'], 12, o['prior'], 2, lambda u: qi.ExpSparseHeuristic(u)))))
    R.append(single('simple prec', dict, lambda o: list(SE.simple_est_prec(np.array([[1, 0.5, 3], [2, 2.0, 4]]), n_particles=30))))
    R.append(single('simple rb', dict, lambda o: list(SE.simple_est_rb(np.array([[1, 2, 3], [2, 9, 4]]), n_particles=30))))
    R.append(single('ale', lambda: dict(m=ale.ALEApproximateModel(qi.SimplePrecessionModel(), error_tol=0.1)), lambda o: o['m'].likelihood(np.array([0, 1]), np.array([[0.3], [0.8]]), np.array([1.0, 4.0]))))
    def design(o):
        u = qi.SMCUpdater(o['model'], 6, o['prior'])
        d = qi.ExperimentDesigner(u)
        out = []
        for k in range(2):
            d.new_exp()
            e = d.design_expparams_field(np.array([(1.0 + k, 0.3)], dtype=u.model.expparams_dtype), 't', maxiter=5)
            out.append(np.array(e, copy=True))
            u.update(k, e)
        return [full(u), out]
    R.append(single('design', lambda: dict(model=qi.SimpleInversionModel(), prior=zoo.ListPrior([[0.2], [0.5], [0.9]])), design))
    def interp(o):
        u = qi.SMCUpdater(o['model'], 30, o['prior'], zero_weight_policy='reset', resample_thresh=0.9)
        for k in range(3): u.update(k % 2, np.array([(2.0 + k,)], dtype=[('t', float)]))
        pts = np.array([[0.3, 0.05], [0.7, 0.1]])
        return [full(u), u.region_est_ellipsoid(tol=0.05), u.region_est_hull(), u.sample(3)] + [
            u.in_credible_region(pts, level=0.6, method=me) for me in ('pce', 'hpd-hull', 'hpd-mvee')]
    R.append(single('regions', lambda: dict(model=qi.UnknownT2Model(), prior=qi.UniformDistribution([[0, 1], [0, 0.2]])), interp))
    seen = set(); out = []
    for r in R:
        if r.name not in seen: seen.add(r.name); out.append(r)
    return out


def execute(r, seed=3, objs=None):
    """Whole run under its own scripted answers; result includes how many answers were used."""
    stream = core.cycle_stream(seed, n_u=64)
    with core.quiet(), core.controlled(stream):
        s, steps = r.steps(r.objs() if objs is None else objs)
        for f in steps: f()
        res = s.result()
    return [res, stream.k]


def same(a, b, tol=1e-10, path=''):
    """None or where they differ."""
    if isinstance(a, dict):
        if not isinstance(b, dict) or sorted(a) != sorted(b): return path + ' keys'
        for k in a:
            d = same(a[k], b[k], tol, '%s.%s' % (path, k))
            if d: return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b): return path + ' length'
        for i, (x, y) in enumerate(zip(a, b)):
            d = same(x, y, tol, '%s[%d]' % (path, i))
            if d: return d
        return None
    if isinstance(a, np.ndarray) or isinstance(a, (float, complex, np.generic)):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape or x.dtype != y.dtype: return path + ' type'
        if x.dtype.names: return same([x[n] for n in x.dtype.names], [y[n] for n in y.dtype.names], tol, path)
        if x.dtype.kind in 'fc':
            return None if np.allclose(x, y, rtol=tol, atol=tol, equal_nan=True) else path
        return None if np.array_equal(x, y) else path
    return None if a == b or (a != a and b != b) else path


# --- scenarios ----------------------------------------------------------------

def baseline(names=None):
    """Results of every run, each in its own forked child that has run nothing else."""
    import multiprocessing as mp, pickle
    out = {}
    for r in catalogue():
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rd)
                try: data = pickle.dumps((True, execute(r)))
                except Exception as e: data = pickle.dumps((False, '%s: %s' % (type(e).__name__, e)))
                with os.fdopen(wr, 'wb') as f: f.write(data)
            finally:
                os._exit(0)
        os.close(wr)
        with os.fdopen(rd, 'rb') as f: data = f.read()
        os.waitpid(pid, 0)
        out[r.name] = pickle.loads(data)
    return out


def sc_pairs(part, of):
    def sc(c):
        R = catalogue()
        base = baseline()
        for r in R:
            with c.case('alone|' + r.name):
                c.ok(base[r.name][0], 'run fails', error=base[r.name][1])
        R = [r for r in R if base[r.name][0]]
        n = len(R)
        c.notes['runs'] = n
        # every ordered pair (a, b) as neighbours: for each a of this part: a b1 a b2 a b3 ... covers (a,b) and (b,a)
        small = [r for r in R if not r.name.startswith('sample') or len(r.name) < 18]
        for i, a in enumerate(R):
            if i % of != part: continue
            for j, b in enumerate(R):
                if j <= i: continue
                if not c.thorough and 'model' in a.tags and 'model' in b.tags and (i + j) % 6: continue
                if not c.thorough and a.name.startswith('sample') and b.name.startswith('sample') and (i + j) % 4: continue
                for r in (a, b, a):
                    with c.case('%s after %s' % (r.name, b.name if r is a else a.name)):
                        got = execute(r)
                        d = same(base[r.name][1], got)
                        c.ok(d is None, 'same answers, different result', where=d, run=r.name)
                    c.step()
                c.trace(); c.state(a.name, b.name)
    return sc


def sc_memory(c):
    """Nothing depends on what uninitialised memory holds."""
    base = {r.name: None for r in catalogue()}
    keep = dict(boot.POISON)
    try:
        for fill in (dict(f=float('nan'), i=0x5A5A5A5A, b=True), dict(f=0.75, i=1, b=False), dict(f=-1e7, i=0, b=True)):
            boot.POISON.update(fill)
            for r in catalogue():
                with c.case('memory|' + r.name):
                    got = execute(r)
                    if base[r.name] is None: base[r.name] = got
                    else:
                        d = same(base[r.name], got)
                        c.ok(d is None, 'result depends on uninitialised memory', where=d)
                c.step(); c.state(r.name, fill)
    finally:
        boot.POISON.update(keep)


def digest_all():
    import hashlib
    out = {}
    for r in catalogue():
        try: out[r.name] = rounded(execute(r))
        except Exception as e: out[r.name] = type(e).__name__
    return out


def rounded(o):
    """Plain, JSON-able form."""
    if isinstance(o, dict): return {str(k): rounded(v) for k, v in sorted(o.items())}
    if isinstance(o, (list, tuple)): return [rounded(v) for v in o]
    if isinstance(o, np.ndarray):
        if o.dtype.names: return [rounded(o[n]) for n in o.dtype.names]
        if o.dtype.kind == 'c': return [rounded(o.real), rounded(o.imag)]
        return [rounded(v) for v in o.ravel().tolist()]
    if isinstance(o, (complex, np.complexfloating)): return [float(o.real), float(o.imag)]
    if isinstance(o, np.void): return rounded(list(o.item()))
    if isinstance(o, np.generic): return o.item()
    return o if isinstance(o, (int, float, str, bool, type(None))) else repr(type(o))


def close_plain(a, b, path=''):
    if isinstance(a, dict):
        if sorted(a) != sorted(b): return path
        for k in a:
            d = close_plain(a[k], b[k], path + '.' + k)
            if d: return d
        return None
    if isinstance(a, list):
        if not isinstance(b, list) or len(a) != len(b): return path
        for i, (x, y) in enumerate(zip(a, b)):
            d = close_plain(x, y, path + '[%d]' % i)
            if d: return d
        return None
    if isinstance(a, float):
        return None if a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * (1 + abs(a)) else path
    return None if a == b else path


def sc_processes(c):
    """New processes with different hash seeds (iteration order of sets) and different starting states."""
    code = ("import sys, json; sys.path.insert(0, %r)\nfrom mc import boot; boot.boot()\nfrom mc.checks import c27\n"
            "sys.stdout.write('@@' + json.dumps(c27.digest_all()))\n" % core.VERIF)
    seeds = ['0', '1', '2', '12345'] + (['7', '99'] if c.thorough else [])
    procs = []
    for hs in seeds:
        env = dict(os.environ); env.update(PYTHONHASHSEED=hs, VERIF_BOOTED='1')
        procs.append((hs, subprocess.Popen([sys.executable, '-c', code], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=core.VERIF)))
    res = {}
    for hs, p in procs:
        o = p.communicate()[0].decode()
        with c.case('process ' + hs):
            if c.ok('@@' in o, 'process gave no result', out=o[-200:]): res[hs] = json.loads(o.split('@@', 1)[1])
    here = json.loads(json.dumps(digest_all()))
    for hs, d in res.items():
        for name in here:
            with c.case('hash %s|%s' % (hs, name)):
                w = close_plain(here[name], d.get(name))
                c.ok(w is None, 'result depends on the process it runs in', where=w, seed=hs)
            c.step(); c.state(hs, name)


def sc_real(c):
    """The real generator: seeding it makes every run repeat, and different seeds are really used."""
    varied = set()
    R = catalogue(big=False)
    for r in R:
        with c.case('real|' + r.name):
            got = {}
            for sd in (1, 2, 1, 77, 2):
                rng.seed(sd)
                with core.quiet():
                    s, steps = r.steps(r.objs())
                    for f in steps: f()
                    res = [s.result(), np.random.random()]
                if sd in got:
                    d = same(got[sd], res)
                    c.ok(d is None, 'same seed, different result', where=d, seed=sd)
                got[sd] = res
                c.step(); c.state(r.name, sd)
            if same(got[1][0], got[2][0]) is not None: varied.add(r.name)
    c.ok(len(varied) > 5, 'seeds change nothing', varied=sorted(varied))


def interleavings(n, m, cap=None):
    for pos in itertools.combinations(range(n + m), n):
        yield [0 if i in pos else 1 for i in range(n + m)]


def sc_interleave(part, of):
    def sc(c):
        R = [r for r in catalogue(big=False) if 'updater' in r.tags or 'model' in r.tags]
        U = [r for r in R if 'updater' in r.tags]
        alone = {}
        for r in R:
            for sd in (3, 8): alone[r.name, sd] = execute(r, sd)
        def go(a, b, oa, ob, order, what):
            streams = [core.cycle_stream(3, n_u=64), core.cycle_stream(8, n_u=64)]
            runs = [a.steps(oa), b.steps(ob)]
            pos = [0, 0]
            with core.quiet():
                for k in order:
                    with core.controlled(streams[k]):
                        runs[k][1][pos[k]]()
                    pos[k] += 1
                for k, r in ((0, a), (1, b)):
                    with core.controlled(streams[k]):
                        res = [runs[k][0].result(), streams[k].k]
                    d = same(alone[r.name, (3, 8)[k]], res)
                    c.ok(d is None, 'result depends on what else runs (%s)' % what, run=r.name, other=(b if k == 0 else a).name, where=d, order=order)
            c.step(len(order)); c.trace(); c.state(a.name, b.name, what, order)
        k = 0
        for i, a in enumerate(U):
            for j, b in enumerate(U):
                k += 1
                if k % of != part: continue
                na, nb = len(a.steps(a.objs())[1]), len(b.steps(b.objs())[1])
                orders = list(interleavings(na, nb))
                if i != j and not c.thorough: orders = orders[::9]
                for order in orders:
                    with c.case('%s + %s' % (a.name, b.name)):
                        go(a, b, a.objs(), b.objs(), order, 'separate objects')
        # the same run twice over shared model, prior and resampler
        for i, a in enumerate(R):
            if i % of != part: continue
            n = len(a.steps(a.objs())[1])
            for order in interleavings(n, n):
                with c.case('%s twice' % a.name):
                    o = a.objs()
                    go(a, a, o, o, order, 'shared objects')
    return sc


def sc_reset(c):
    """A reset updater is a new updater, whatever happened to it before."""
    prec = zoo.BY['precession']
    confs = [('precession', qi.SimplePrecessionModel, lambda: qi.UniformDistribution([0, 1]), lambda m: np.array([1.0, 3.0]), 12, {}),
             ('resampling', qi.SimplePrecessionModel, lambda: qi.UniformDistribution([0, 1]), lambda m: np.array([1.0, 3.0]), 12, dict(resample_thresh=1.1)),
             ('rb', zoo.BY['rb'].make, lambda: qi.PostselectedDistribution(qi.UniformDistribution([[0.5, 1], [0, 0.5], [0, 0.5]]), qi.RandomizedBenchmarkingModel()), lambda m: np.array([(2,), (9,)], dtype=m.expparams_dtype), 9, {}),
             ('walk', lambda: qi.RandomWalkModel(qi.SimplePrecessionModel(), qi.NormalDistribution(0, 0.01)), lambda: qi.UniformDistribution([0, 1]), lambda m: np.array([1.0, 3.0]), 8, dict(resample_thresh=0.9)),
             ('table', lambda: c20.Drift(2), lambda: zoo.ListPrior(c20.ROWS2), lambda m: np.array([(0,), (1,)], dtype=m.expparams_dtype), 4, dict(resample_thresh=0.0)),
             ('bcrb', qi.SimplePrecessionModel, lambda: qi.NormalDistribution(0.5, 0.01), lambda m: np.array([1.0, 3.0]), 8, dict(cls=qi.SMCUpdaterBCRB)),
             ('mixed', qi.SimplePrecessionModel, lambda: qi.UniformDistribution([0, 1]), lambda m: np.array([1.0, 3.0]), 8,
              dict(cls=lambda m, n, p, **kw: qi.MixedApproximateSMCUpdater(m, qi.SimplePrecessionModel(), n, p))),
             ('no canonical form', qi.SimplePrecessionModel, lambda: qi.UniformDistribution([0, 1]), lambda m: np.array([1.0, 3.0]), 7, dict(canonicalize=False))]
    for name, mm, pp, ee, n, kw in confs:
        kw = dict(kw); cls = kw.pop('cls', qi.SMCUpdater)
        if 'Mixed' not in name: kw.setdefault('zero_weight_policy', 'skip')
        for L in range(0, 4 if c.thorough else 3):
            for hist in itertools.product([(o, k) for o in (0, 1) for k in (0, 1)] + ['resample', 'weights'], repeat=L):
                for how in ('plain', 'sized', 'twice'):
                    if L == 2 and how != 'plain' and not c.thorough and hist[0] != (0, 0): continue
                    with c.case('reset|%s %s %s' % (name, hist, how)):
                        model = mm(); eps = ee(model); prior = pp()
                        def run(u, s):
                            """What happens afterwards: updates with data, under a stream."""
                            with core.controlled(s):
                                for o, k in ((1, 0), (0, 1), (1, 1)):
                                    u.update(o, eps[k:k + 1])
                                return [np.array(u.particle_weights), np.array(u.particle_locations), np.array(u.est_mean()), float(u.n_ess), float(u.normalization_record[-1]), u.just_resampled, s.k]
                        with core.controlled(core.cycle_stream(5, n_u=64)):
                            u = cls(model, n, prior, **kw)
                            for h in hist:
                                if h == 'resample': u.resample()
                                elif h == 'weights': u.particle_weights = np.array(norm_w([1.0 + i for i in range(u.n_particles)]))
                                else: u.update(h[0], eps[h[1]:h[1] + 1])
                            if how == 'twice': u.reset(n + 3)
                        m = n if how != 'sized' else n - 1
                        s1, s2 = core.cycle_stream(9, n_u=64), core.cycle_stream(9, n_u=64)
                        with core.controlled(s1):
                            u.reset() if how == 'plain' else u.reset(m)
                        m2 = mm()
                        with core.controlled(s2):
                            v = cls(m2, m, pp(), **kw)
                        c.ok(s1.k == s2.k, 'a reset draws other random numbers than a new updater')
                        c.eq(np.asarray(u.particle_weights), np.asarray(v.particle_weights), 'weights after a reset', tol=0)
                        c.eq(np.asarray(u.particle_locations), np.asarray(v.particle_locations), 'particles after a reset', tol=1e-12)
                        c.ok(u.n_particles == m, 'number of particles after a reset', got=u.n_particles)
                        c.eq(u.est_mean(), v.est_mean(), 'mean after a reset')
                        a, b = run(u, s1), run(v, s2)
                        d = same(a, b)
                        c.ok(d is None, 'inference after a reset differs from that of a new updater', where=d, got=a, want=b)
                        c.step(len(hist) + 1); c.trace(); c.state(name, hist, how)
    # in part
    class Sorted(c20.Drift):
        """Canonical parameters come in ascending order."""
        def canonicalize(self, modelparams): return np.sort(modelparams, axis=1)
    coupled = [('coupled', lambda: Sorted(2), lambda: qi.UniformDistribution([[0, 2], [0, 2]]), lambda m: np.array([(0,), (1,)], dtype=m.expparams_dtype), 6, {}),
               ('states', lambda: qi.tomography.TomographyModel(qi.tomography.gell_mann_basis(2)), lambda: qi.UniformDistribution([[0.6, 0.8]] + [[-0.9, 0.9]] * 3),
                lambda m: np.array([((0.7, 0.1, 0.2, 0.3),), ((0.7, 0.5, 0, 0.1),)], dtype=m.expparams_dtype), 6, {})]
    for name, mm, pp, ee, n, kw in confs[2:3] + confs[4:5] + coupled:
        for only in (0, 1, slice(0, 1), slice(1, None), [0], [0, 1], slice(None)):
            for rw in (True, False):
                with c.case('partly|%s %s %s' % (name, only, rw)):
                    model = mm(); eps = ee(model)
                    with core.controlled(core.cycle_stream(5, n_u=64)):
                        u = qi.SMCUpdater(model, n, pp(), zero_weight_policy='skip', resample_thresh=0.0)
                        u.update(1, eps[:1])
                        u.particle_locations = u.particle_locations * 0.5
                        w0, x0 = np.array(u.particle_weights), np.array(u.particle_locations)
                    with core.controlled(core.cycle_stream(11, n_u=64)):
                        u.reset(only_params=only, reset_weights=rw)
                    with core.controlled(core.cycle_stream(11, n_u=64)):
                        f = np.asarray(pp().sample(n))
                    want = x0.copy(); want[:, only] = f[:, only]
                    want = np.asarray(model.canonicalize(want))
                    c.eq(np.asarray(u.particle_locations), want, 'resetting some parameters', tol=1e-12)
                    c.eq(np.asarray(u.particle_weights), np.ones(n) / n if rw else w0, 'weights when resetting some parameters', tol=1e-15)
                    c.ok(len(u.data_record) == 1, 'record of the data')
                    try:
                        u.reset(n_particles=n, only_params=only)
                        c.fail('both a size and parameters accepted')
                    except ValueError: pass
                    c.step(2); c.state(name, str(only), rw)
    with c.case('policy'):
        for k in range(3):
            m = c20.Drift(2); rows = [[2.0, 1.0], [2.0, 5.0], [2.0, 0.0]]
            u = mk(m, rows, weights=(0.2, 0.3, 0.5), zero_weight_policy='reset', resample_thresh=0.0)
            before = np.array(u.particle_locations)
            e = np.array([(0,)], dtype=[('e', int)])
            for _ in range(k):
                u.update(1, e); u.particle_locations = before.copy()
            u.update(0, e)          # impossible for row 2 of the table
            c.eq(np.asarray(u.particle_weights), np.ones(3) / 3, 'weights after an automatic reset')
            c.eq(np.asarray(u.particle_locations), np.array(rows), 'particles after an automatic reset')
            c.step()


def sc_globals(c):
    """Runs leave the process as they found it: numpy settings, warnings, and arguments."""
    import warnings, copy
    for r in catalogue(big=False):
        with c.case('process|' + r.name):
            e0, p0, f0 = dict(np.geterr()), np.get_printoptions(), len(warnings.filters)
            o = r.objs()
            execute(r, objs=o)
            c.ok(dict(np.geterr()) == e0, 'numerical error policy changed')
            c.ok(repr(np.get_printoptions()) == repr(p0), 'print options changed')
            got = execute(r, objs=o)
            want = execute(r)
            d = same(want, got)
            c.ok(d is None, 'objects used before give another result', where=d)
            got2 = execute(r, objs=o)
            c.ok(same(got, got2) is None, 'objects used twice before give another result')
            c.step(4); c.state(r.name)


def sc_histories(c):
    """One object used for several things: no call is affected by the calls before it."""
    D = 4 if c.thorough else 3
    P1 = zoo.BY['precession']

    class Free(qi.FiniteOutcomeModel):
        def __init__(self, d): self._d = d; super(Free, self).__init__()
        n_modelparams = property(lambda s: s._d)
        expparams_dtype = property(lambda s: [('e', int)])
        def n_outcomes(self, e): return 2
        def are_models_valid(self, m): return m[:, 0] >= -0.5
        def likelihood(self, o, m, e):
            super(Free, self).likelihood(o, m, e)
            return qi.FiniteOutcomeModel.pr0_to_likelihood_array(o, np.full((len(m), len(e)), 0.5))

    def cloud(d, rows, w, n=None):
        return lambda: (Free(d), qi.ParticleDistribution(particle_locations=np.array(rows, dtype=float), particle_weights=np.array(w, dtype=float)), n)
    clouds = [cloud(1, [[0.1], [0.4], [0.9]], [0.2, 0.5, 0.3]), cloud(1, [[0.3], [0.3]], [0.5, 0.5]), cloud(1, [[30.], [-0.4], [1e3]], [0.2, 0.2, 0.6], 5),
              cloud(2, [[0.1, 2], [0.4, 1], [0.9, 5]], [0.3, 0.3, 0.4]), cloud(2, [[0.2, 0.1], [0.2, 0.1]], [0.5, 0.5], 3), cloud(2, [[1e-6, 0], [0, 1e-6], [0, 0]], [0.3, 0.3, 0.4])]
    R = [('liu-west', lambda: qi.LiuWestResampler(0.7)), ('liu-west zero', lambda: qi.LiuWestResampler(0.98, h=0.1, zero_cov_comp=1e-4)),
         ('liu-west sized', lambda: qi.LiuWestResampler(0.9, default_n_particles=4)), ('no postselection', lambda: qi.LiuWestResampler(0.9, postselect=False)),
         ('few tries', lambda: qi.LiuWestResampler(0.9, maxiter=2))]

    def do(c, name, mkobj, calls, depth):
        want = []
        for k, f in enumerate(calls):
            with core.quiet(), core.controlled(core.cycle_stream(20 + k, n_u=64)) as st:
                want.append(attempt(f, mkobj()))
        c.ok(not any(isinstance(w, str) for w in want), 'a call fails', name=name, got=[w for w in want if isinstance(w, str)])
        for h in itertools.product(range(len(calls)), repeat=depth):
            with c.case('%s %s' % (name, h)):
                o = mkobj()
                for k in h:
                    with core.quiet(), core.controlled(core.cycle_stream(20 + k, n_u=64)):
                        got = attempt(calls[k], o)
                    d = same(want[k], got)
                    c.ok(d is None, 'a call is affected by the calls before it', where=d, calls=h, call=k, got=got, want=want[k])
                c.step(depth); c.trace(); c.state(name, h)
    for name, mkr in R:
        def call(cl):
            def f(r):
                m, pd, n = cl()
                o = r(m, pd, n_particles=n)
                return [np.array(o.particle_weights), np.array(o.particle_locations)] if hasattr(o, 'particle_weights') else [np.array(v) for v in o]
            return f
        do(c, name, mkr, [call(cl) for cl in clouds], D)
    # distributions: sizes in every order
    for nm, mk0, ref in c12.BASES:
        for nm1, mk1, _ in c12.wrappers(nm, mk0, ref):
            if c.thorough or nm1 == nm or len(nm1) % 2:
                def smp(n): return lambda d: np.array(d.sample(n), copy=True)
                do(c, 'distribution ' + nm1, mk1, [smp(1), smp(2), smp(3)] + [lambda d: d.n_rvs], 3)
    # models: likelihoods, simulations and the rest in every order
    for e in zoo.all_finite(depth2=False):
        if not c.thorough and len(e.name) % 2: continue
        m0 = e.make(); eps = e.ep_array(m0); mps = e.mps()
        def lik(i, j):
            def f(m): 
                x = eps[j:j + 1]
                return np.asarray(m.likelihood(m.domain(x)[0].values if isinstance(m.domain(x), (list, tuple)) else m.domain(x).values, mps[i:], x))
            return f
        calls = [lik(0, 0), lik(max(0, len(mps) - 1), len(eps) - 1), lambda m: np.asarray(m.simulate_experiment(mps[:1], eps[:1], repeat=2)),
                 lambda m: np.asarray(m.simulate_experiment(mps, eps[-1:])), lambda m: np.array(m.update_timestep(np.array(mps), eps)),
                 lambda m: [np.array(m.are_models_valid(np.array(mps))), np.array(m.canonicalize(np.array(mps))), np.array(m.n_outcomes(eps))], lambda m: m.clear_cache()]
        do(c, 'model ' + e.name, e.make, calls, 3 if c.thorough else 2)


def attempt(f, o):
    try: return f(o)
    except Exception as ex: return type(ex).__name__


SCENARIOS = [('pairs%d' % k, sc_pairs(k, 6)) for k in range(6)] + [('memory', sc_memory), ('processes', sc_processes), ('real', sc_real)] + \
            [('interleave%d' % k, sc_interleave(k, 4)) for k in range(4)] + [('histories', sc_histories), ('reset', sc_reset), ('globals', sc_globals)]

from . import bulk  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b27)]

from . import edge  # noqa: E402
BOUNDS += ' Edge configurations: very large counts, one slow pair among many, repeated partial resets.'
SCENARIOS = SCENARIOS + [('edge', edge.e27)]
