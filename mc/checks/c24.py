"""C24: one-call estimators do exactly the stated inference for every way of giving the data."""
import itertools, math, io, os, tempfile, shutil
import numpy as np
import qinfer as qi
from qinfer import simple_est as SE
from .. import zoo, core, rng
from ..util import *

BOUNDS = ('Every data set of one to three rows over an alphabet of counts, times or lengths, and shots; every particle set of up to '
          'three particles on a grid of prior answers, with an independent product-of-binomials posterior; full laws against a '
          'hand-run where resampling happens; every column order of records, extra columns, number types and memory layouts, '
          'file name, open file, in-memory text, data frame; every frequency and decay range of the alphabet; larger runs under '
          'scripted answers.')
ASSUMPTIONS = ['a data frame is represented by an object of the class the module recognises, with the to_records method of one',
               'columns of plain arrays are in the documented order']


def pmf(k, n, p):
    return math.comb(n, k) * p ** k * (1 - p) ** (n - k)


class Kind(object):
    def __init__(self, name, cols, call, hand, surv, np_):
        self.name, self.cols, self.call, self.hand, self.surv, self.np_ = name, cols, call, hand, surv, np_


def hand_prec(rows, n, kw):
    lo, hi = kw.get('freq_min', 0.0), kw.get('freq_max', 1.0)
    m = qi.BinomialModel(qi.SimplePrecessionModel(lo))
    u = qi.SMCUpdater(m, n, qi.UniformDistribution([lo, hi]))
    for k, t, s in rows:
        ep = np.empty((1,), dtype=m.expparams_dtype); ep['x'] = t; ep['n_meas'] = s
        u.update(k, ep)
    return u


def hand_rb(inter):
    def f(rows, n, kw):
        lo, hi = kw.get('p_min', 0.0), kw.get('p_max', 1.0)
        m = qi.BinomialModel(qi.RandomizedBenchmarkingModel(interleaved=inter))
        r = [[lo, hi]] * (2 if inter else 1) + [[0, 1], [0, 1]]
        u = qi.SMCUpdater(m, n, qi.PostselectedDistribution(qi.UniformDistribution(r), m))
        for row in rows:
            ep = np.empty((1,), dtype=m.expparams_dtype); ep['m'] = row[1]; ep['n_meas'] = row[2]
            if inter: ep['reference'] = bool(row[3])
            u.update(row[0], ep)
        return u
    return f


PREC = Kind('prec', ('counts', 't', 'n_shots'), lambda d, **kw: SE.simple_est_prec(d, **kw), hand_prec,
            lambda x, r: math.sin(x[0] * r[1] / 2) ** 2, 1)
RB = Kind('rb', ('counts', 'm', 'n_shots'), lambda d, **kw: SE.simple_est_rb(d, **kw), hand_rb(False),
          lambda x, r: x[1] * x[0] ** r[1] + x[2], 3)
IRB = Kind('irb', ('counts', 'm', 'n_shots', 'reference'), lambda d, **kw: SE.simple_est_rb(d, interleaved=True, **kw), hand_rb(True),
           lambda x, r: x[2] * (x[1] if r[3] else x[0] * x[1]) ** r[1] + x[3], 4)
KINDS = (PREC, RB, IRB)


def judge(c, kind, rows, out, n):
    """mean, cov and updater agree with each other, and the record is the data."""
    mean, cov, ex = out
    u = ex['updater']
    w, x = np.asarray(u.particle_weights), np.asarray(u.particle_locations)
    c.ok(len(w) == n, 'number of particles', got=len(w))
    mu = w.dot(x); C = np.einsum('n,ni,nj->ij', w, x - mu, x - mu)
    if kind.np_ == 1:
        c.ok(np.ndim(mean) == 0 and np.ndim(cov) == 0, 'scalar answers for one parameter', mean=mean, cov=cov)
        mu, C = mu[0], C[0, 0]
    c.eq(mean, mu, 'mean of the final posterior', tol=1e-9)
    c.eq(cov, C, 'covariance of the final posterior', tol=1e-9)
    c.ok([int(np.asarray(o).ravel()[0]) for o in u.data_record] == [r[0] for r in rows], 'recorded outcomes', got=u.data_record, rows=rows)
    return u


def data_arr(rows):
    return np.array(rows, dtype=float)


ALPHA = {'prec': [(0, 0.5, 1), (1, 0.5, 1), (1, 3.0, 2), (2, 1.25, 3), (0, 3.0, 2), (3, 0.25, 3), (0, 1.0, 0)],
         'rb': [(0, 1, 1), (1, 1, 1), (1, 3, 2), (2, 10, 3), (0, 0, 1), (3, 2, 3), (0, 3, 2)],
         'irb': [(0, 1, 1, 0), (1, 1, 1, 1), (1, 3, 2, 0), (2, 10, 3, 1), (0, 3, 2, 1), (2, 2, 3, 0)]}


def sc_exact(kind):
    def sc(c):
        A = ALPHA[kind.name]
        sets = [(r,) for r in A] + list(itertools.product(A, repeat=2))
        trip = list(itertools.product(A, repeat=3))
        sets += trip[::1 if c.thorough else (7 if kind is PREC else 31)]
        grids = {'prec': [(1, [0.1, 0.5, 0.9]), (3, [0.2, 0.5, 0.8])], 'rb': [(1, [0.1, 0.25, 0.45]), (2, [0.15, 0.4])], 'irb': [(1, [0.15, 0.4]), (2, [0.2, 0.45])]}[kind.name]
        for rows in sets:
            for n, ug in grids:
                if kind is IRB and n == 2 and len(rows) > 1: continue
                if kind is RB and n == 2 and len(rows) > 2: continue
                kw = dict(freq_max=2.5) if kind is PREC else {}
                with c.case('%s %d' % (rows, n)):
                    seen = {}
                    # one uniform answer per prior coordinate; whatever is drawn later (resampling) uses its first answer
                    for ch in itertools.product(range(len(ug)), repeat=n * kind.np_):
                        out = core.replay(lambda: kind.call(data_arr(rows), n_particles=n, return_all=True, **kw), ch, ugrid=ug)
                        u = judge(c, kind, rows, out, n)
                        c.step(len(rows))
                        if u.resample_count: continue
                        x = np.asarray(u.particle_locations)
                        un = [1.0 / n] * n
                        for r in rows:
                            un = [a * pmf(r[0], r[2], min(max(kind.surv(y, r), 0.0), 1.0)) for a, y in zip(un, x)]
                        z = math.fsum(un)
                        if z > 1e-12:
                            c.eq(np.asarray(u.particle_weights), np.array(un) / z, 'posterior weights are not the product of the binomial likelihoods', tol=1e-8, rows=rows, x=x)
                            le = float(u.log_total_likelihood)
                            c.ok(abs(le - math.log(z)) < 1e-7 * (1 + abs(math.log(z))), 'evidence', got=le, want=math.log(z))
                        k = core.canon(x)
                        seen[k] = seen.get(k, 0) + 1
                        c.state(rows, n, x)
                        c.trace()
                    cells = len(ug) ** (n * kind.np_)
    return sc


def sc_law(c):
    """Where resampling happens the law of the answers equals that of feeding one row at a time."""
    for rows, n, kw in [([(6, 3.0, 9), (0, 0.5, 2)], 3, dict(freq_max=1.5)), ([(9, 5.0, 10), (1, 1.0, 2)], 3, dict(freq_min=0.5, freq_max=1.0)),
                        ([(9, 3.0, 10)], 3, {})] + ([([(5, 3.0, 9), (5, 9.0, 9), (3, 3.0, 4)], 3, {})] if c.thorough else []):
        with c.case('law|%s' % rows):
            def one():
                m, v = SE.simple_est_prec(data_arr(rows), n_particles=n, **kw)
                return np.array([m, v])
            cnt = []
            def two():
                u = hand_prec(rows, n, kw); cnt.append(u.resample_count)
                return np.array([u.est_mean()[0], u.est_covariance_mtx()[0, 0]])
            kk = dict(ugrid=[0.125, 0.625, 0.875], max_runs=60000, prob_sum=False, dev_bound=5 if c.thorough else 4)
            a, b = c.law(one, **kk), c.law(two, **kk)
            c.ok(max(cnt) > 0, 'scenario without resampling')
            close(c, a, b)
    for kind, rows, kw in [(RB, [(2, 5, 2)], {}), (IRB, [(1, 4, 2, 1)], dict(p_min=0.5)), (RB, [(19, 3, 40)], {})]:
        with c.case('law|%s %s' % (kind.name, rows)):
            def one():
                m, v = kind.call(data_arr(rows), n_particles=3, **kw)
                return np.concatenate([m, v.ravel()])
            def two():
                u = kind.hand(rows, 3, kw)
                return np.concatenate([u.est_mean(), u.est_covariance_mtx().ravel()])
            kk = dict(ugrid=[0.15, 0.4], max_runs=60000, prob_sum=False, dev_bound=3)
            close(c, c.law(one, **kk), c.law(two, **kk))


def close(c, a, b):
    c.ok(set(a) == set(b), 'answers that a hand-run never gives, or the reverse', extra=[a[k][1] for k in list(set(a) - set(b))[:2]], missing=[b[k][1] for k in list(set(b) - set(a))[:2]])
    for k in set(a) & set(b):
        c.ok(abs(a[k][0] - b[k][0]) < 1e-9, 'law of the answers', got=a[k], want=b[k])


class Frame(object):
    """The part of a data frame that matters: columns in order, to_records."""
    def __init__(self, rec): self.rec = rec
    columns = property(lambda s: list(s.rec.dtype.names))

    def __len__(self): return len(self.rec)

    def __getitem__(self, k): return self.rec[k]

    def to_records(self, index=True, **kw):
        if not index: return self.rec.copy().view(np.recarray)
        dt = [('index', '<i8')] + self.rec.dtype.descr
        out = np.zeros(len(self.rec), dtype=dt)
        out['index'] = np.arange(len(self.rec)) * 5 + 3
        for n in self.rec.dtype.names: out[n] = self.rec[n]
        return out.view(np.recarray)


class FakePandas(object):
    DataFrame = Frame


def rec(rows, cols, order, types, extra=False):
    dt = [(cols[i], types[i]) for i in order]
    if extra: dt = dt[:1] + [('note', 'f8')] + dt[1:] + [('x', 'i4')]
    a = np.zeros(len(rows), dtype=dt)
    for i in order: a[cols[i]] = [r[i] for r in rows]
    if extra: a['note'] = -7.5; a['x'] = 99
    return a


DATA = {'prec': [[(1, 0.5, 2)], [(1, 0.5, 2), (0, 3.0, 4), (5, 1.5, 7)], [(3, 2.0, 5), (1, 4.0, 6), (2, 1.0, 3), (7, 9.0, 9), (0, 2.5, 1)],
                 [(255, 1.23456789012345, 300), (97, 1.0 / 3, 1000), (3, 0.1, 300)]],
        'rb': [[(1, 5, 2)], [(1, 1, 2), (0, 3, 4), (5, 10, 7)], [(3, 2, 5), (1, 40, 6), (2, 1, 3), (7, 9, 9), (0, 25, 1)],
               [(129, 70, 200), (5, 300, 12), (9, 1, 10)]],
        'irb': [[(1, 5, 2, 1)], [(1, 1, 2, 0), (0, 3, 4, 1), (5, 10, 7, 0)], [(3, 2, 5, 1), (1, 40, 6, 0), (2, 1, 3, 0), (7, 9, 9, 1), (0, 25, 1, 0)],
                [(268, 1, 300, 1), (109, 300, 257, 0), (129, 70, 200, 1)]]}


def sc_formats(kind):
    def sc(c):
        d = tempfile.mkdtemp(prefix='c24')
        oldpd = getattr(SE, 'pd', None)
        SE.pd = FakePandas
        try:
            for di, rows in enumerate(DATA[kind.name]):
                n = 40
                kw = dict(freq_max=3.0) if kind is PREC else dict(p_min=0.25)
                ncol = len(kind.cols)
                F = data_arr(rows)
                T = ['u8', 'f8' if kind is PREC else 'u8', 'u8', '?']
                T2 = ['i4', 'f4' if kind is PREC and di < 3 else 'i8' if kind is not PREC else '>f8', 'i2' if di < 3 else '>i4', 'i1']
                T3 = ['f8'] * 4
                fm = [('array', lambda: F.copy()), ('fortran', lambda: np.asfortranarray(F)), ('strided', lambda: np.repeat(F, 2, axis=0)[::2]),
                      ('wide', lambda: np.hstack([F, np.full((len(F), 2), 77.0)])), ('bigendian', lambda: F.astype('>f8'))]
                if di < 3: fm.append(('float32', lambda: F.astype('f4')))
                if np.all(F == F.astype(int)): fm.append(('int', lambda: F.astype(int)))
                for order in itertools.permutations(range(ncol)):
                    for tn, t in (('a', T), ('b', T2), ('c', T3)):
                        if ncol == 4 and tn != 'a' and order[0] > 0 and not c.thorough: continue
                        fm.append(('rec %s %s' % (order, tn), lambda order=order, t=t: rec(rows, kind.cols, order, t)))
                    fm.append(('rec extra %s' % (order,), lambda order=order: rec(rows, kind.cols, order, T, True)))
                    fm.append(('recarray %s' % (order,), lambda order=order: rec(rows, kind.cols, order, T).view(np.recarray)))
                    fm.append(('frame %s' % (order,), lambda order=order: Frame(rec(rows, kind.cols, order, T))))
                fm.append(('frame extra', lambda: Frame(rec(rows, kind.cols, range(ncol), T, True))))
                fm.append(('rec reversed', lambda: rec(rows[::-1], kind.cols, range(ncol), T)[::-1]))
                def num(r, i):
                    return repr(r[i]) if isinstance(r[i], float) else '%d' % r[i]
                for tn, sep, end, head in (('csv', ',', '\n', ''), ('spaced', ' , ', '\n', ''), ('unterminated', ',', '', ''), ('commented', ',', '\n', '# a comment\n'), ('blank lines', ',', '\n\n', '\n')):
                    txt = head + (end or '\n').join(sep.join(num(r, i) for i in range(ncol)) for r in rows) + end
                    path = os.path.join(d, '%s%d%s.csv' % (kind.name, di, tn.replace(' ', '')))
                    with open(path, 'w') as f: f.write(txt)
                    fm.append(('file ' + tn, lambda path=path: path))
                    fm.append(('open file ' + tn, lambda path=path: open(path)))
                    fm.append(('text ' + tn, lambda txt=txt: io.StringIO(txt)))
                for seed in (1, 2):
                    with core.controlled(core.cycle_stream(seed)):
                        ref = kind.hand(rows, n, kw)
                    for name, mk_ in fm:
                        with c.case('%d %s %d' % (di, name, seed)):
                            obj = mk_()
                            keep = obj.copy() if isinstance(obj, np.ndarray) else None
                            try:
                                with core.controlled(core.cycle_stream(seed)):
                                    out = kind.call(obj, n_particles=n, return_all=True, **kw)
                            finally:
                                if hasattr(obj, 'close'): obj.close()
                            if keep is not None: c.ok(np.array_equal(keep, obj), 'data changed')
                            u = judge(c, kind, rows, out, n)
                            c.eq(np.asarray(u.particle_locations), np.asarray(ref.particle_locations), 'particles differ from a hand-run on the same rows', tol=1e-8)
                            c.eq(np.asarray(u.particle_weights), np.asarray(ref.particle_weights), 'weights differ from a hand-run on the same rows', tol=1e-7)
                            c.ok(u.resample_count == ref.resample_count, 'resampling differs from a hand-run on the same rows')
                            with core.controlled(core.cycle_stream(seed)):
                                two = kind.call(mk_(), n_particles=n, **kw)
                            c.ok(len(two) == 2 and np.allclose(two[0], out[0]) and np.allclose(two[1], out[1]), 'answers depend on return_all', got=two)
                            c.step(len(rows)); c.trace(2); c.state(di, name, seed)
        finally:
            SE.pd = oldpd
            shutil.rmtree(d, ignore_errors=True)
    return sc


def sc_ranges(c):
    ug = [0.0, 0.25, 0.5, 0.75, 0.999]
    for lo, hi in ((0.0, 1.0), (0.0, 2.0), (0.5, 1.0), (0.25, 8.0), (10.0, 12.0)):
        kw = {}
        if lo: kw['freq_min'] = lo
        if hi != 1.0: kw['freq_max'] = hi
        for k in range(len(ug)):
            with c.case('prec|%g %g %d' % (lo, hi, k)):
                m, v, ex = core.replay(lambda: SE.simple_est_prec(data_arr([(0, 0.01, 1)]), n_particles=1, return_all=True, **kw), [k], ugrid=ug)
                x = float(np.asarray(ex['updater'].particle_locations).ravel()[0])
                want = lo + (hi - lo) * ug[k]
                c.ok(ex['updater'].resample_count > 0 or abs(x - want) < 1e-9, 'prior frequency', got=x, want=want)
                c.ok(abs(v) < 1e-9, 'one particle has no variance', v=v)
                c.step(); c.state(lo, hi, k)
        with c.case('prec|%g %g many' % (lo, hi)):
            with core.controlled(core.cycle_stream(5, n_u=64)):
                m, v, ex = SE.simple_est_prec(data_arr([(0, 0.001 / hi, 1)]), n_particles=300, return_all=True, **kw)
            x = np.asarray(ex['updater'].particle_locations).ravel()
            c.ok(x.min() >= lo and x.max() <= hi, 'frequencies outside the requested range', lo=x.min(), hi=x.max())
            c.ok(x.min() < lo + 0.1 * (hi - lo) and x.max() > hi - 0.1 * (hi - lo), 'requested range not covered', lo=x.min(), hi=x.max())
            c.ok(abs(m - (lo + hi) / 2) < 0.1 * (hi - lo), 'prior mean', m=m)
            c.step()
    for kind in (RB, IRB):
        for lo, hi in ((0.0, 1.0), (0.5, 1.0), (0.2, 0.6)):
            kw = {}
            if lo: kw['p_min'] = lo
            if hi != 1: kw['p_max'] = hi
            with c.case('%s|%g %g' % (kind.name, lo, hi)):
                row = (0, 0, 0, 0)[:len(kind.cols)]
                with core.controlled(core.cycle_stream(9, n_u=64)):
                    m, v, ex = kind.call(data_arr([row]), n_particles=300, return_all=True, **kw)
                x = np.asarray(ex['updater'].particle_locations)
                c.ok(ex['updater'].resample_count == 0, 'no information but resampled')
                k = kind.np_ - 2
                for i in range(kind.np_):
                    l, h = (lo, hi) if i < k else (0.0, 1.0)
                    c.ok(x[:, i].min() >= l and x[:, i].max() <= h and x[:, i].min() < l + 0.15 * (h - l) and x[:, i].max() > h - 0.15 * (h - l), 'requested range of a parameter', i=i, lo=x[:, i].min(), hi=x[:, i].max())
                c.ok(np.all(ex['updater'].model.are_models_valid(x)), 'invalid parameters in the prior')
                c.step(); c.state(kind.name, lo, hi)


def sc_columns(c):
    """The column splitter, missing columns, wrong data."""
    for kind in KINDS:
        rows = DATA[kind.name][1]
        T = ['u8', 'f8', 'u8', 'u8']
        for drop in range(len(kind.cols)):
            with c.case('missing|%s %d' % (kind.name, drop)):
                order = [i for i in range(len(kind.cols)) if i != drop]
                for obj in (rec(rows, kind.cols, order, T), data_arr(rows)[:, :len(kind.cols) - 1]):
                    try:
                        kind.call(obj, n_particles=5)
                        c.fail('missing column went unnoticed', drop=kind.cols[drop])
                    except (ValueError, IndexError, KeyError): pass
                    c.step()
                c.state(kind.name, drop)
        for bad in (None, 3.0, object(), 7):
            with c.case('type|%s %r' % (kind.name, type(bad))):
                try:
                    kind.call(bad, n_particles=5)
                    c.fail('data of a wrong type accepted', bad=bad)
                except TypeError: pass
        with c.case('no file|%s' % kind.name):
            try:
                kind.call('/nonexistent/dir/data.csv', n_particles=5)
                c.fail('missing file went unnoticed')
            except (IOError, OSError): pass
    dts = [('float', (1, 't')), (float, (1, 't')), ([('t', 'f8')], {'t': (1, 't')}), ([('a', 'u4'), ('b', 'f8')], {'a': (2, 'n'), 'b': (1, 't')}),
           ([('b', 'f8'), ('a', 'u4'), ('d', '?')], {'a': (2, 'n'), 'b': (1, 't'), 'd': (0, 'k')})]
    rows = [(1, 0.5, 7), (0, 2.25, 9), (3, 1.0, 2)]
    for dt, cols in dts:
        for co in ((0, 'k'), (2, 'n')):
            with c.case('split|%s %s' % (dt, co)):
                for obj in (data_arr(rows), rec(rows, ('k', 't', 'n'), (2, 0, 1), ['i8', 'f8', 'i4'])):
                    o, e = SE.data_to_params(obj, dt, col_outcomes=co, cols_expparams=cols)
                    c.ok(o.dtype.kind in 'iu' and list(o) == [r[co[0]] for r in rows], 'outcomes', got=o)
                    c.ok(e.shape == (3,) and e.dtype == np.dtype(dt), 'experiments', got=e)
                    if isinstance(cols, tuple): c.ok(list(e) == [r[cols[0]] for r in rows], 'experiments', got=e)
                    else:
                        for f, (i, _) in cols.items():
                            c.ok(list(e[f]) == [np.dtype(e.dtype[f]).type(r[i]) for r in rows], 'experiment field', field=f, got=e[f])
                    c.step()
                c.state(str(dt), co)


def sc_large(c):
    """Real sizes: the default particle number and many rows, against the independent posterior."""
    for s, (w, N) in enumerate(((0.61, 60), (0.2, 25), (0.95, 120))):
        with c.case('prec|%d' % s):
            ts = [0.05 * (k + 1) for k in range(N)]
            rows = [(int(round(math.sin(w * t / 2) ** 2 * 10)), t, 10) for t in ts]
            with core.controlled(core.cycle_stream(s, n_u=512)):
                m, v, ex = SE.simple_est_prec(data_arr(rows), n_particles=1000, return_all=True)
            g = (np.arange(4000) + 0.5) / 4000
            L = np.zeros(len(g))
            for k, t, n in rows:
                p = np.clip(np.sin(g * t / 2) ** 2, 1e-300, 1)
                L += k * np.log(p) + (n - k) * np.log(np.clip(1 - p, 1e-300, 1))
            q = np.exp(L - L.max()); q /= q.sum()
            mu = q.dot(g); sd = math.sqrt(q.dot((g - mu) ** 2))
            c.ok(abs(m - mu) < sd and sd / 2 < math.sqrt(v) < 2 * sd, 'far from the exact posterior', got=(m, v), want=(mu, sd ** 2))
            with core.controlled(core.cycle_stream(s, n_u=512)):
                u = hand_prec(rows, 1000, {})
            c.eq(m, u.est_mean()[0], 'mean of a hand-run', tol=1e-9)
            c.eq(v, u.est_covariance_mtx()[0, 0], 'variance of a hand-run', tol=1e-9)
            c.ok(u.resample_count > 0 and u.resample_count == ex['updater'].resample_count, 'resampling of a hand-run')
            c.step(N); c.trace(); c.state(s)
    for kind in (RB, IRB):
        with c.case(kind.name):
            tr = [0.95, 0.3, 0.5] if kind is RB else [0.98, 0.95, 0.3, 0.5]
            rows = []
            for i in range(40):
                r = (0, 1 + 3 * i, 25) + ((i % 2,) if kind is IRB else ())
                rows.append((int(round(25 * kind.surv(tr, r))),) + r[1:])
            for sd in (3, 4):
                with core.controlled(core.cycle_stream(sd, n_u=512)):
                    m, v, ex = kind.call(data_arr(rows), n_particles=600, return_all=True)
                with core.controlled(core.cycle_stream(sd, n_u=512)):
                    u = kind.hand(rows, 600, {})
                c.eq(m, u.est_mean(), 'mean of a hand-run', tol=1e-8)
                c.eq(v, u.est_covariance_mtx(), 'covariance of a hand-run', tol=1e-8)
                c.ok(u.resample_count > 0, 'no resampling')
                c.step(40); c.trace(); c.state(kind.name, sd)
    # defaults
    with c.case('defaults'):
        with core.controlled(core.cycle_stream(2)):
            c.ok(len(SE.simple_est_prec(data_arr([(1, 0.5, 2)]), return_all=True)[2]['updater'].particle_weights) == 6000, 'default number of particles')
        with core.controlled(core.cycle_stream(2, n_u=256)):
            c.ok(len(SE.simple_est_rb(data_arr([(1, 5, 2)]), return_all=True)[2]['updater'].particle_weights) == 8000, 'default number of particles')
        c.step(2)


SCENARIOS = [('exact prec', sc_exact(PREC)), ('exact rb', sc_exact(RB)), ('exact irb', sc_exact(IRB)), ('law', sc_law),
             ('formats prec', sc_formats(PREC)), ('formats rb', sc_formats(RB)), ('formats irb', sc_formats(IRB)),
             ('ranges', sc_ranges), ('columns', sc_columns), ('large', sc_large)]

from . import bulk, edge  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b24)]
BOUNDS += ' Edge configurations: parameter scales from 1e-12 to 1e9, deep retries, objects used before, very many shots, engines, rows or clusters.'
SCENARIOS = SCENARIOS + [('edge', edge.e24)]

from . import edge2  # noqa: E402
BOUNDS += ' Further edge configurations: long histories, answers at cell boundaries, near ties, numbers of many digits.'
SCENARIOS = SCENARIOS + [('edge2', edge2.f24)]
