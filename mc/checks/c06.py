"""C06: likelihoods are normalised, pointwise, batch-consistent and equal their closed forms."""
import itertools, math
import numpy as np
import qinfer as qi
from qinfer.abstract_model import FiniteOutcomeModel
from .. import zoo, core, rng
from ..util import *

BOUNDS = ('Every model of the catalogue and wrapper stacks of depth 2: full outcome x parameter x experiment lattices, '
          'single cells, every ordered pair and triple of parameters/experiments/outcomes (with repetition), every '
          'integer type of outcome; scripted larger batches (up to 300 parameters, 60 experiments, 60 shots).')
ASSUMPTIONS = ['floating point agreement within 1e-9', 'GPU models need OpenCL, which is not installed']


def grid(e, rows, eps, outs):
    return np.array([[[e.prob(o, p, ep) for ep in eps] for p in rows] for o in outs])


def common_outs(e, eps):
    s = None
    for ep in eps:
        o = set(e.outcomes(ep))
        s = o if s is None else s & o
    return sorted(s)


def lik(c, e, model, rows, eps, outs, forms=(None,)):
    mps = np.array(rows, dtype=float).reshape(len(rows), -1)
    ea = np.array(eps, dtype=model.expparams_dtype)
    want = grid(e, rows, eps, outs)
    for f in forms:
        oa = zoo.out_array(model, e, outs)
        if f is not None and oa.dtype.names is None:
            oa = oa.astype(f)
        L = model.likelihood(oa, mps, ea)
        c.step(want.size)
        c.ok(L.shape == want.shape, 'shape of the likelihood', got=L.shape, want=want.shape)
        c.eq(L, want, 'likelihood', outs=outs, rows=rows, eps=eps)
        c.ok(np.all(L >= -1e-12) and np.all(L <= 1 + 1e-12), 'likelihood in [0, 1]', got=L)


def ent_list(c):
    return zoo.all_finite(depth2=True)


def s_cells(part):
    def f(c):
        for ie, e in enumerate(ent_list(c)):
            if ie % 4 != part:
                continue
            model = e.make()
            rows, eps = e.params, e.eps
            # cells, and the sum over each domain
            for ip, p in enumerate(rows):
                for ii, ep in enumerate(eps):
                    with c.case('%s cell %s %s' % (e.name, p, ep)):
                        outs = e.outcomes(ep)
                        lik(c, e, model, [p], [ep], outs, (None, np.uint8, np.int64))
                        for o in outs:
                            lik(c, e, model, [p], [ep], [o])
                        L = model.likelihood(zoo.out_array(model, e, outs), np.array([p]), np.array([ep], dtype=model.expparams_dtype))
                        c.eq(L.sum(), 1.0, 'likelihoods sum to one over the domain')
                        vals = model.domain(np.array([ep], dtype=model.expparams_dtype))[0].values
                        c.eq(model.likelihood(vals, np.array([p]), np.array([ep], dtype=model.expparams_dtype)).sum(), 1.0,
                             'likelihoods sum to one over the values of the domain')
                        c.state(e.name, p, ep); c.trace()
            # full lattice
            with c.case('%s lattice' % e.name):
                outs = common_outs(e, eps)
                if outs:
                    lik(c, e, model, rows, eps, outs)
                    lik(c, e, model, rows[::-1], eps[::-1], outs[::-1])
                    lik(c, e, model, rows + rows[:1], eps + eps[:1], outs + outs[:1])
                # experiments of one domain together
                groups = {}
                for ep in eps:
                    groups.setdefault(tuple(e.outcomes(ep)), []).append(ep)
                for outs, g in groups.items():
                    lik(c, e, model, rows, g, list(outs))
                    L = model.likelihood(zoo.out_array(model, e, list(outs)), e.mps(), np.array(g, dtype=model.expparams_dtype))
                    c.eq(L.sum(axis=0), np.ones((len(rows), len(g))), 'likelihoods sum to one in a batch')
                c.trace()
        c.sample(e.name)
    return f


def s_pairs(part):
    def f(c):
        for ie, e in enumerate(ent_list(c)):
            if ie % 4 != part:
                continue
            model = e.make()
            kmax = 3 if c.thorough else 2
            rows = e.params[:4]
            step = max(1, len(e.eps) // 5)
            epl = e.eps[::step][:6]
            for k in range(1, kmax + 1):
                for rs in itertools.product(range(len(rows)), repeat=k):
                    if k == 2 and not c.thorough and rs[0] > rs[1] + 1:
                        continue
                    for es in itertools.product(range(len(epl)), repeat=2):
                        eps = [epl[i] for i in es]
                        outs = common_outs(e, eps)
                        if len(outs) > 4:
                            outs = outs[:2] + outs[-2:]
                        if not outs:
                            continue
                        if c.transitions % 2:
                            outs = outs[::-1]
                        with c.case('%s batch rows=%s eps=%s' % (e.name, rs, es)):
                            lik(c, e, model, [rows[i] for i in rs], eps, outs)
                            c.trace()
                            c.state(e.name, rs, es)
    return f


def s_large(c):
    r = np.random.RandomState(17)
    gens = {
        'coin': (lambda: (r.rand(),), lambda: ()),
        'noisycoin': (lambda: (r.rand(),), lambda: tuple(r.rand(2))),
        'precession': (lambda: (r.rand() * 6,), lambda: r.rand() * 30),
        'inversion': (lambda: (r.rand() * 6,), lambda: (r.rand() * 30, r.rand() * 6)),
        'unknownT2': (lambda: tuple(r.rand(2)), lambda: (r.rand() * 20,)),
        'rb': (lambda: (r.rand(), r.rand() * .5, r.rand() * .5), lambda: (int(r.randint(0, 300)),)),
        'rb_il': (lambda: (r.rand(), r.rand(), r.rand() * .5, r.rand() * .5), lambda: (int(r.randint(0, 300)), bool(r.randint(2)))),
        'ndie3': (lambda: tuple(r.dirichlet([1, 1, 1])), lambda: (int(r.randint(50)),)),
    }
    for name, (gp, ge) in gens.items():
        e = zoo.BY[name]
        for n_p, n_e in ((300, 60), (1, 200), (257, 1), (12, 12)):
            rows = [gp() for _ in range(n_p)]
            eps = [ge() for _ in range(n_e)]
            with c.case('large %s %dx%d' % (name, n_p, n_e)):
                lik(c, e, e.make(), rows, eps, e.outcomes(eps[0]))
                lik(c, e, e.make(), rows, eps, e.outcomes(eps[0])[::-1] * 2)
                c.trace(); c.state(name, n_p, n_e)
        rows = [gp() for _ in range(25)]
        if 'two' in e.tags:
            for n in (1, 7, 20, 60, 200):
                with c.case('large binomial %s shots=%d' % (name, n)):
                    b = zoo.binomial(e, (n,))
                    eps = [zoo._tup(ge(), e.scalar) + (n,) for _ in range(8)]
                    lik(c, b, b.make(), rows, eps, list(range(n + 1)))
                    c.trace()
        m = zoo.multinomial(e, (1,))
        for n in (1, 5, 12):
            with c.case('large multinomial %s shots=%d' % (name, n)):
                eps = [zoo._tup(ge(), e.scalar) + (n,) for _ in range(4)]
                outs = m.outcomes(eps[0])
                lik(c, m, m.make(), rows[:10], eps, outs)
                c.trace()
        mixed = [zoo._tup(ge(), e.scalar) + (n,) for n in (3, 9, 4, 30, 3)]
        if 'two' in e.tags:
            with c.case('large mixed shots %s' % name):
                b = zoo.binomial(e, (3,))
                lik(c, b, b.make(), rows, mixed, [0, 1, 2, 3])
                lik(c, b, b.make(), rows, mixed[::-1], [3, 1])
                # counts beyond the number of shots are impossible
                L = b.make().likelihood(np.array([5, 31]), np.array(rows), np.array(mixed, dtype=b.make().expparams_dtype))
                for ie, ep in enumerate(mixed):
                    for io, o in enumerate((5, 31)):
                        if o > ep[-1]:
                            c.eq(L[io, :, ie], np.zeros(len(rows)), 'counts beyond the number of shots')


def s_forms(c):
    """Accepted forms of the arguments, and the two-outcome helper itself."""
    pr0s = [np.array([[0.0, 0.25, 1.0], [0.5, 0.75, 0.125]]), np.array([[0.3]]), np.array([[0.1], [0.2], [0.9]])]
    for pr0 in pr0s:
        for k in (1, 2, 3, 4):
            for outs in itertools.product((0, 1), repeat=k):
                for dt in (int, np.uint8, bool, float):
                    with c.case('pr0 %s %s %s' % (pr0.shape, outs, dt)):
                        L = FiniteOutcomeModel.pr0_to_likelihood_array(np.array(outs, dtype=dt), pr0.copy())
                        c.eq(L, np.array([pr0 if o == 0 else 1 - pr0 for o in outs]), 'two-outcome likelihoods')
                        c.step(); c.trace(); c.state(pr0.shape, outs)
    e = zoo.BY['precession']
    m = e.make()
    for rows in ([0.7], [0.7, 1.3, 2.0]):
        for ts in ([1.0], [0.5, 2.0, 3.0, 9.0]):
            with c.case('one-dimensional parameters %s %s' % (rows, ts)):
                want = np.array([[[math.cos(w * t / 2) ** 2 for t in ts] for w in rows], [[math.sin(w * t / 2) ** 2 for t in ts] for w in rows]])
                c.eq(m.likelihood(np.array([0, 1]), np.array(rows), np.array(ts)), want, 'one-dimensional parameters')
                c.eq(m.likelihood(np.array([0, 1]), np.array(rows)[:, None], np.array([(t,) for t in ts], dtype=[('t', 'float')])), want, 'record of times')
                c.step(); c.trace()
    for k in (2, 3, 4, 6):
        for p in itertools.product((0, 0.25, 0.5, 1.0), repeat=k - 1):
            if sum(p) > 1:
                continue
            row = p + (1 - sum(p),)
            with c.case('die %s' % (row,)):
                L = qi.NDieModel(k).likelihood(np.arange(k), np.array([row, row[::-1]]), np.zeros(2, dtype=[('exp_num', 'int')]))
                for i in range(k):
                    c.eq(L[i], np.array([[row[i]] * 2, [row[::-1][i]] * 2]), 'die')
                c.step(); c.trace(); c.state(row)


def s_extremes(c):
    """Large counts, lengths and times; rounding at the edge of the simplex."""
    rb, il = zoo.BY['rb'], zoo.BY['rb_il']
    ms = sorted(set([0, 1, 2] + [2 ** b + d for b in (7, 8, 15, 16, 31) for d in (-1, 0, 1)] + [10 ** 6]))
    rows = [(1 - 2.0 ** -b, 0.5, 0.4) for b in (1, 4, 8, 15, 20, 31)] + [(1.0, 0.3, 0.5), (0.0, 0.3, 0.5)]
    for lo in range(0, len(ms), 4):
        for order in (1, -1):
            mm = ms[lo:lo + 4][::order]
            with c.case('long sequences %s' % mm):
                lik(c, rb, rb.make(), rows, [(m,) for m in mm], [0, 1])
                lik(c, il, il.make(), [(r[0], q, r[1], r[2]) for r in rows for q in (1.0, 1 - 2.0 ** -16)], [(m, f) for m in mm for f in (True, False)], [1, 0, 1])
                c.trace(); c.state('m', tuple(mm))
    for name, rows, eps in (('precession', [(0.1,), (1.0,), (6.28,)], [1e-12, 1e3, 12345.75, 1e6]),
                            ('inversion', [(0.1,), (1.0,), (100.0,)], [(1e3, 0.5), (0.25, 1e4), (1e5, 1.0), (1e-9, 1e6)]),
                            ('unknownT2', [(0.1, 0.0), (1.0, 1e-6), (5.0, 50.0)], [(1e3,), (1e5,), (1e-9,), (700.0,)])):
        e = zoo.BY[name]
        with c.case('extreme experiments %s' % name):
            lik(c, e, e.make(), rows, eps, [0, 1])
            lik(c, e, e.make(), rows[::-1], eps[::-1], [1, 1, 0])
            c.trace(); c.state(name)
    bm = qi.BinomialModel(qi.CoinModel())
    for n in (127, 128, 255, 256, 257, 1000, 32767, 32768, 65536, 10 ** 6):
        with c.case('many shots %d' % n):
            outs = sorted(set(o for o in (0, 1, 2, 127, 128, 129, 255, 256, 257, n // 2, n // 4, n - 128, n - 1, n) if 0 <= o <= n))
            ps = [0.0, 1.0, 0.5, 0.25, 1e-6, 1 - 1e-6, 1.0 / n]
            L = bm.likelihood(np.array(outs), np.array(ps)[:, None], np.array([(n,), (3,)], dtype=bm.expparams_dtype))
            for io, o in enumerate(outs):
                for ip, p in enumerate(ps):       # the coin shows 1 with probability 1 - p
                    q = 1 - p
                    if p in (0.0, 1.0):
                        want = float(o == (n if p == 0 else 0))
                    else:
                        want = math.exp(math.lgamma(n + 1) - math.lgamma(o + 1) - math.lgamma(n - o + 1) + o * math.log(q) + (n - o) * math.log1p(-q))
                    c.ok(abs(L[io, ip, 0] - want) <= 1e-6 * want + 1e-200, 'many shots', got=L[io, ip, 0], want=want, at=(n, o, p))
                    w3 = math.comb(3, o) * q ** o * p ** (3 - o) if o <= 3 else 0.0
                    c.ok(abs(L[io, ip, 1] - w3) < 1e-12, 'few shots beside many', got=L[io, ip, 1], want=w3)
            c.step(L.size); c.trace(); c.state('shots', n)
    for k in (3, 4, 5):
        for q in (3, 5, 6, 7, 10, 12):
            for row in over_one(k, q)[:40]:
                with c.case('rounded sides %s' % (row,)):
                    m = qi.MultinomialModel(qi.NDieModel(k))
                    for n in (1, 2, 3):
                        e = np.array([(0, n)], dtype=m.expparams_dtype)
                        v = m.domain(e)[0].values
                        L = m.likelihood(v, np.array([row]), e)[:, 0, 0]
                        for o, x in zip(v['k'], L):
                            want = math.factorial(n)
                            for a, p in zip(o, row):
                                want *= p ** int(a) / math.factorial(int(a))
                            c.ok(abs(x - want) < 1e-12, 'multinomial likelihood', got=x, want=want, at=tuple(o))
                        c.ok(abs(L.sum() - 1) < 1e-12, 'sums to one', got=L.sum())
                        c.step(len(L))
                    c.state(row)


SCENARIOS = [('cells%d' % k, s_cells(k)) for k in range(4)] + [('batches%d' % k, s_pairs(k)) for k in range(4)] + [('large', s_large), ('forms', s_forms), ('extremes', s_extremes)]

from . import bulk  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b06)]

from . import reuse  # noqa: E402
BOUNDS += ' Every pair of calls on one model, in new and in reused arrays, the second answer against a fresh model.'
SCENARIOS = SCENARIOS + reuse.scenario(('base', 'derived', 'spins', 'tomo'), ('likelihood',), 4)

from . import forms  # noqa: E402
BOUNDS += ' Arguments of equal values in every memory layout: column-major, strided, reversed, padded, read-only, broadcast, smaller integers.'
SCENARIOS = SCENARIOS + forms.scenario(('base', 'derived', 'spins', 'tomo'), ('likelihood',), 2)
