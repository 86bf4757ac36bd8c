"""C07: simulated outcomes follow the likelihood, independently, and stay in the domain."""
import itertools, math
import numpy as np
import qinfer as qi
from qinfer.domains import IntegerDomain
from .. import zoo, core, rng
from ..util import *

BOUNDS = ('Complete law of simulate_experiment over all answers of the random source (uniform answers on a grid on which '
          'dyadic probabilities are exact): every parameter and experiment cell of the catalogue and its wrappers, joint '
          'laws for every shape of up to 4 repeats x 3 parameters x 3 experiments with at most 12 outcomes, the extreme '
          'answers 0 and 1-2^-53 for impossible outcomes, and scripted stratified runs of up to 256 repeats.')
ASSUMPTIONS = ['uniform answers are represented by cell midpoints; probabilities that are not multiples of the cell are '
               'compared to within one cell per shot']


class Shifted(zoo.TableModel):
    """Finite-outcome model whose outcomes are not 0..n-1."""
    def __init__(self, lo, varying=False):
        self._lo = lo
        zoo.TableModel.__init__(self, [[(.5, .25, .25), (0, .5, .5)], [(.25, .75, 0), (1., 0., 0.)]] if not varying else
                                [[(.5, .5), (0, 1.)], [(.25, .5, .25), (.5, 0., .5)]], [3, 3] if not varying else [2, 3])

    def domain(self, ep):
        if ep is None:
            return IntegerDomain(min=self._lo, max=self._lo + self._n_out[0] - 1)
        return [IntegerDomain(min=self._lo, max=self._lo + self._n_out[e] - 1) for e in ep['e']]

    def likelihood(self, outcomes, mp, ep):
        return zoo.TableModel.likelihood(self, np.asarray(outcomes) - self._lo, mp, ep)


def shifted_entry(lo, varying):
    t = Shifted(lo, varying)._table
    return zoo.Entry('shifted%d%s' % (lo, 'v' if varying else ''), lambda: Shifted(lo, varying), [(0,), (1,)], [(0,), (1,)],
                     lambda ep: [lo + i for i in range(len(t[ep[0]][0]))], lambda o, p, ep: t[ep[0]][int(p[0])][o - lo],
                     n_out_const=not varying)


def poisoned(e):
    return zoo.passthru(e, 'poisoned', lambda m: qi.PoisonedModel(m, tol=0.1), const=e.n_out_const)


def entries(c):
    out = zoo.all_finite(depth2=True)
    out += [shifted_entry(lo, v) for lo in (-1, 5) for v in (False, True)]
    for n in ('coin', 'ndie3', 'table3', 'tablev', 'precession'):
        e = zoo.BY[n]
        m = zoo.mle(e, 2); m.prob = e.prob
        out += [m, poisoned(e), zoo.plainderived(e)]
    e0 = zoo.binomial(zoo.BY['coin'], (0, 1, 4))
    out += [e0, poisoned(zoo.binomial(zoo.BY['coin']))]
    return out


def shots(ep, e):
    return ep[-1] if e.name.split('(')[0] in ('binomial', 'multinomial') or 'nomial(' in e.name else 1


def plain(model, e, res):
    """List of plain outcomes of a (repeats, params, exps) array."""
    return [zoo.plain_outcome(o) for o in res.ravel()]


def s_cells(part):
    def f(c):
        for ie, e in enumerate(entries(c)):
            if ie % 4 != part:
                continue
            model = e.make()
            seen = set()
            for p, ep in itertools.product(e.params, e.eps):
                outs = e.outcomes(ep)
                n = shots(ep, e)
                N = 64 if n == 1 else 16
                with c.case('%s cell %s %s' % (e.name, p, ep)):
                    mp = np.array([p]); ea = np.array([ep], dtype=model.expparams_dtype)
                    dom = model.domain(ea)[0]
                    law = {}
                    for res, pr, ch in c.explore(lambda: model.simulate_experiment(mp, ea), n_u=N):
                        c.ok(np.ndim(res) == 0 , 'a lone outcome is returned as such', got=res)
                        o = zoo.plain_outcome(res)
                        law[o] = law.get(o, 0) + pr
                    for o in law:
                        c.ok(o in outs, 'outcome outside the domain', got=o)
                        c.state(e.name, p, ep, o)
                    for o in outs:
                        want = e.prob(o, p, ep)
                        tol = 1e-9 if exact_cell(e, p, ep) else float(n) / N + 1e-9
                        c.ok(abs(law.get(o, 0) - want) <= tol, 'probability of an outcome', outcome=o, got=law.get(o, 0), want=want)
                        if want == 0:
                            c.ok(law.get(o, 0) == 0, 'impossible outcome', outcome=o)
                    c.ok(np.asarray(res).dtype == np.dtype(dom.dtype) or np.asarray(res).dtype.kind in 'iu' and np.dtype(dom.dtype).kind in 'iu',
                         'type of the outcome', got=np.asarray(res).dtype, want=dom.dtype)
        c.sample(e.name)
    return f


def exact_cell(e, p, ep):
    """All single-shot probabilities are multiples of 1/16, so every grid is exact."""
    n = shots(ep, e)
    if n <= 1:
        return all(abs(e.prob(o, p, ep) * 16 - round(e.prob(o, p, ep) * 16)) < 1e-12 for o in e.outcomes(ep))
    outs = e.outcomes(ep)
    if isinstance(outs[0], tuple):
        k = len(outs[0])
        ps = []
        for i in range(k):
            o = tuple(n if j == i else 0 for j in range(k))
            ps.append(e.prob(o, p, ep) ** (1.0 / n))
    else:
        ps = [e.prob(n, p, ep) ** (1.0 / n)]
    return all(abs(q * 16 - round(q * 16)) < 1e-9 for q in ps)


def joint(c, e, rows, eps, r, N):
    model = e.make()
    mp = np.array(rows, dtype=float); ea = np.array(eps, dtype=model.expparams_dtype)
    law = {}
    shape = (r, len(rows), len(eps))
    for res, pr, ch in c.explore(lambda: model.simulate_experiment(mp, ea, repeat=r), n_u=N):
        if r * len(rows) * len(eps) == 1:
            res = np.array(res).reshape(1, 1, 1)
        if not c.ok(res.shape == shape, 'shape', got=res.shape, want=shape):
            return
        k = tuple(plain(model, e, res))
        law[k] = law.get(k, 0) + pr
    cells = [(p, ep) for _ in range(r) for p in rows for ep in eps]
    n_bad = 0
    for k in itertools.product(*[[o for o in e.outcomes(ep) if e.prob(o, p, ep) > 0] for p, ep in cells]):
        want = 1.0
        for o, (p, ep) in zip(k, cells):
            want *= e.prob(o, p, ep)
        got = law.pop(k, 0.0)
        c.state(e.name, shape, rows, eps, k)
        if abs(got - want) > 1e-9:
            c.fail('joint probability of simulated outcomes', outcomes=k, got=got, want=want)
            return
    c.ok(not law, 'outcomes that cannot occur', got=list(law)[:3])


def s_joint(part):
    def f(c):
        jobs = []
        C, NC, N3 = zoo.BY['coin'], zoo.BY['noisycoin'], zoo.BY['ndie3']
        T2, T3, TV = zoo.BY['table2'], zoo.BY['table3'], zoo.BY['tablev']
        half = [(0.5,)]
        jobs += [(C, [(0.5,)] * p, [()] * x, r, 2) for r, p, x in itertools.product((1, 2, 3), (1, 2, 3), (1, 2)) if r * p * x <= 12]
        jobs += [(C, [(0.25,), (0.5,), (1.0,)][:p], [()] * x, r, 4) for r, p, x in itertools.product((1, 2), (1, 2, 3), (1, 2)) if r * p * x <= 6]
        jobs += [(T2, rows, [(i,) for i in eps], r, 4) for rows in ([(0,), (1,)], [(3,)], [(2,), (0,), (1,)])
                 for eps in ((0, 1), (1,), (1, 0, 1)) for r in (1, 2) if len(rows) * len(eps) * r <= 6]
        jobs += [(T3, rows, [(i,) for i in eps], r, 4) for rows in ([(0,), (1,)], [(2,), (0,), (1,)])
                 for eps in ((0, 1), (1,), (0,)) for r in (1, 2) if len(rows) * len(eps) * r <= 6]
        jobs += [(TV, rows, [(i,) for i in eps], r, 4) for rows in ([(0,), (1,)], [(1,)])
                 for eps in ((0, 1), (1, 3), (2, 1), (0, 1, 2), (3, 0, 1)) for r in (1, 2, 3) if len(rows) * len(eps) * r <= 6]
        jobs += [(N3, [(.5, .25, .25), (0.25, .0, .75)], [(0,), (1,)][:x], r, 4) for x in (1, 2) for r in (1, 2)]
        jobs += [(shifted_entry(lo, v), [(0,), (1,)], [(0,), (1,)][:x], r, 4) for lo in (-1, 5) for v in (False, True) for x in (1, 2) for r in (1, 2) if x * r < 4]
        for b in (zoo.binomial(C), zoo.binomial(T2), zoo.walk(zoo.binomial(T2)), zoo.binomial(zoo.walk(T2))):
            rows = [(0.25,), (1.0,)] if 'coin' in b.name else [(0,), (1,)]
            un = [()] * 2 if 'coin' in b.name else [(0,), (1,)]
            for sh in ((2, 1), (1, 2), (3, 1), (1,), (2,)):
                for r in (1, 2):
                    if r * sum(sh) * 2 <= 8:
                        jobs.append((b, rows, [un[i] + (n,) for i, n in enumerate(sh)], r, 4))
        for b in (zoo.multinomial(T3), zoo.multinomial(C), zoo.multinomial(N3)):
            rows = {'multinomial(table3)': [(0,), (1,)], 'multinomial(coin)': [(0.25,), (0.5,)], 'multinomial(ndie3)': [(.5, .25, .25), (0, .5, .5)]}[b.name]
            un = {'multinomial(table3)': [(0,), (1,)], 'multinomial(coin)': [(), ()], 'multinomial(ndie3)': [(0,), (3,)]}[b.name]
            for sh in ((2, 1), (1, 2), (1,), (2,), (3,)):
                for r in (1, 2):
                    if r * sum(sh) * 2 <= 6:
                        jobs.append((b, rows, [un[i] + (n,) for i, n in enumerate(sh)], r, 4))
                    if r * sum(sh) <= 4:
                        jobs.append((b, rows[:1], [un[i] + (n,) for i, n in enumerate(sh)], r, 4))
        jobs += [(w(T3), [(0,), (1,)], [(0,), (1,)], r, 4) for w in (zoo.walk, zoo.gwalk_fixed, poisoned) for r in (1,)]
        for k, (e, rows, eps, r, N) in enumerate(jobs):
            if k % 4 == part:
                with c.case('joint %s rows=%s eps=%s r=%d' % (e.name, rows, eps, r)):
                    joint(c, e, rows, eps, r, N)
        c.sample('%d joint laws' % len(jobs))
    return f


def s_edges(c):
    """Extreme answers never produce an impossible outcome."""
    top = 1 - 2.0 ** -53
    class Near(zoo.TableModel):
        pass
    tables = [[[(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (0.1, 0.9, 0.0), (0.3, 0.3, 0.4)]],
              [[(0.1,) * 9 + (0.1, 0.0), (0.0,) + (0.1,) * 10, (0.7, 0.1, 0.1, 0.1) + (0.0,) * 7, (1 / 3., 1 / 3., 1 / 3.) + (0.0,) * 8]]]
    for ti, t in enumerate(tables):
        for var in (False, True):
            tt = t if not var else t + [[(1.0,)] * len(t[0])]
            m = zoo.TableModel(tt, [len(r[0]) for r in tt])
            for row in range(len(t[0])):
                for r, ne in ((1, 1), (2, 1), (1, 2)):
                    with c.case('edges table %d var=%s row=%d r=%d ne=%d' % (ti, var, row, r, ne)):
                        ea = np.array([(0,)] * ne, dtype=m.expparams_dtype)
                        for res, p, ch in c.explore(lambda: m.simulate_experiment(np.array([[float(row)]]), ea, repeat=r),
                                                    ugrid=[0.0, 1e-300, 0.05, 0.5, 0.95, top - 2.0 ** -52, top]):
                            for o in np.atleast_1d(res).ravel():
                                c.ok(t[0][row][int(o)] > 0, 'impossible outcome', got=o, probs=t[0][row])
                            c.state(ti, var, row, res)
    for e, rows in ((zoo.BY['coin'], [(0.0,), (1.0,)]), (zoo.BY['precession'], [(0.0001,), (math.pi,)])):
        m = e.make()
        for p in rows:
            for ep in e.eps:
                with c.case('edges %s %s %s' % (e.name, p, ep)):
                    for res, pr, ch in c.explore(lambda: m.simulate_experiment(np.array([p]), np.array([ep], dtype=m.expparams_dtype)), ugrid=[0.0, 0.5, top]):
                        c.ok(e.prob(int(res), p, ep) > 0, 'impossible outcome', got=res)
    for mk_, nm in ((lambda: qi.MultinomialModel(qi.NDieModel(3)), 'multinomial'), (lambda: qi.MultinomialModel(qi.NDieModel(6)), 'multinomial6')):
        m = mk_()
        for p in ([(0.1, 0.9, 0.0), (0.0, 0.0, 1.0), (1 / 3., 1 / 3., 1 / 3.), (0.7, 0.1, 0.2)] if nm == 'multinomial' else
                  [(0.1, 0.2, 0.3, 0.15, 0.25, 0.0), (0.7, 0.1, 0.1, 0.1, 0.0, 0.0), (1 / 6.,) * 6]):
            for n in (1, 2, 4):
                with c.case('edges %s %s n=%d' % (nm, p, n)):
                    ea = np.array([(0, n)], dtype=m.expparams_dtype)
                    for res, pr, ch in c.explore(lambda: m.simulate_experiment(np.array([p]), ea)):
                        k = zoo.plain_outcome(res)
                        c.ok(sum(k) == n and all(v >= 0 for v in k), 'counts add up to the shots', got=k)
                        c.ok(pr < 1e-12 or all(v == 0 for v, q in zip(k, p) if q == 0), 'impossible outcome', got=k, prob=pr)
                        c.state(nm, p, k)


def s_shapes(c):
    for e in entries(c):
        model = e.make()
        for r, np_, ne in itertools.product((1, 2, 5), (1, 2, 4), (1, 2, 3)):
            rows = [e.params[i % len(e.params)] for i in range(np_)]
            for off in ((0, 1) if c.thorough else (r % 2,)):
                eps = [e.eps[(off + 2 * i) % len(e.eps)] for i in range(ne)]
                with c.case('shape %s %s off=%d' % (e.name, (r, np_, ne), off)):
                    ea = np.array(eps, dtype=model.expparams_dtype)
                    mp = np.array(rows)
                    b = (mp.copy(), ea.copy())
                    with core.controlled(core.cycle_stream(r + 7 * np_ + 31 * ne + off)):
                        res = model.simulate_experiment(mp, ea, repeat=r)
                    c.step(); c.trace()
                    if r * np_ * ne == 1:
                        c.ok(np.ndim(res) == 0, 'a lone outcome', got=res)
                        res = np.array(res).reshape(1, 1, 1)
                    if not c.ok(res.shape == (r, np_, ne), 'shape', got=res.shape):
                        continue
                    c.state(e.name, r, np_, ne, off)
                    doms = model.domain(ea)
                    for ix in np.ndindex(*res.shape):
                        o = zoo.plain_outcome(res[ix])
                        c.ok(o in e.outcomes(eps[ix[2]]), 'outcome outside the domain', at=ix, got=o)
                        c.ok(e.prob(o, rows[ix[1]], eps[ix[2]]) > 0, 'impossible outcome', at=ix, got=o)
                    for k, d in enumerate(doms):
                        c.ok(d.in_domain(res[:, :, k].ravel()), 'domain membership')
                    c.ok(np.array_equal(mp, b[0]) and np.array_equal(ea, b[1]), 'arguments modified')


from .c05 import Sweep


def s_large(c):
    """Stratified long runs: N repeats sweep the N cells of the uniform source once."""
    r = np.random.RandomState(5)
    gens = {'coin': (lambda: (r.rand(),), lambda: ()), 'precession': (lambda: (r.rand() * 6,), lambda: r.rand() * 30),
            'unknownT2': (lambda: tuple(r.rand(2)), lambda: (r.rand() * 5,)),
            'rb': (lambda: (r.rand(), r.rand() * .5, r.rand() * .5), lambda: (int(r.randint(0, 20)),)),
            'ndie6': (lambda: tuple(r.dirichlet([1] * 6)), lambda: (0,)), 'tablev': (lambda: (float(r.randint(4)),), lambda: (int(r.randint(4)),)),
            'table3': (lambda: (float(r.randint(4)),), lambda: (int(r.randint(2)),))}
    for name, (gp, ge) in gens.items():
        e = zoo.BY[name]
        for N in (64, 256):
            for k in range(6):
                p, ep = gp(), ge()
                with c.case('sweep %s %s %s N=%d' % (name, p, ep, N)):
                    m = e.make()
                    with core.controlled(Sweep(N)):
                        res = m.simulate_experiment(np.array([p]), np.array([ep], dtype=m.expparams_dtype), repeat=N)
                    c.step(N); c.trace()
                    c.ok(res.shape == (N, 1, 1), 'shape')
                    for o in e.outcomes(ep):
                        c.ok(abs(np.sum(res == o) - N * e.prob(o, p, ep)) <= 1 + 1e-6, 'share of an outcome', outcome=o, got=np.sum(res == o), want=N * e.prob(o, p, ep))
                    c.state(name, N, p, ep)
        # many parameters / experiments: deterministic cells come out as they must, others stay possible
        for np_, ne, rr in ((100, 20, 3), (20, 100, 2), (257, 1, 1), (1, 150, 1)):
            with c.case('big %s %s' % (name, (np_, ne, rr))):
                rows = [gp() for _ in range(np_)]; eps = [ge() for _ in range(ne)]
                m = e.make()
                with core.controlled(core.cycle_stream(np_)):
                    res = m.simulate_experiment(np.array(rows), np.array(eps, dtype=m.expparams_dtype), repeat=rr)
                c.ok(res.shape == (rr, np_, ne), 'shape')
                c.step(res.size); c.trace()
                for ip, p in enumerate(rows):
                    for ix, ep in enumerate(eps):
                        for o in res[:, ip, ix]:
                            q = e.prob(int(o), p, ep)
                            if not q > 0:
                                c.fail('impossible outcome', at=(ip, ix), got=o)
    # large shot numbers
    for name in ('coin', 'table2'):
        b = zoo.binomial(zoo.BY[name], (40,))
        for p in b.params:
            for ep in b.eps[:2]:
                with c.case('shots %s %s %s' % (name, p, ep)):
                    m = b.make()
                    law = {}
                    for res, pr, ch in explore_if_discrete(c, m, p, ep):
                        law[int(res)] = law.get(int(res), 0) + pr
                    for o, q in law.items():
                        c.ok(abs(q - b.prob(o, p, ep)) < 1e-9, 'law of 40 shots', o=o, got=q, want=b.prob(o, p, ep))


def explore_if_discrete(c, m, p, ep):
    """40 shots: enumerated when drawn as one binomial number, otherwise (40 separate draws) skipped."""
    try:
        return list(core.explore(lambda: m.simulate_experiment(np.array([p]), np.array([ep], dtype=m.expparams_dtype)), n_u=2, max_runs=2000))
    except core.Capped:
        return []


SCENARIOS = ([('cells%d' % k, s_cells(k)) for k in range(4)] + [('joint%d' % k, s_joint(k)) for k in range(4)] +
             [('edges', s_edges), ('shapes', s_shapes), ('large', s_large)])

from . import bulk, edge  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b07)]
BOUNDS += ' Edge configurations: tiny variances, very many outcomes or shots, hundreds of repeats of experiments that coincide or differ only in the middle (fixed seed).'
SCENARIOS = SCENARIOS + [('edge', edge.e07)]

from . import reuse  # noqa: E402
BOUNDS += ' Every pair of calls on one model, in new and in reused arrays, the second answer against a fresh model.'
SCENARIOS = SCENARIOS + reuse.scenario(('base', 'derived', 'spins', 'tomo'), ('simulate', 'simulate3'), 6)

from . import forms  # noqa: E402
BOUNDS += ' Arguments of equal values in every memory layout: column-major, strided, reversed, padded, read-only, broadcast, smaller integers.'
SCENARIOS = SCENARIOS + forms.scenario(('base', 'derived', 'spins', 'tomo'), ('simulate', 'simulate3'), 2)
