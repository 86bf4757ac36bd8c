"""C08: derived models equal the statistics of the models they wrap."""
import itertools, math
import numpy as np
import qinfer as qi
from qinfer import distributions as qd
from .. import zoo, core, rng
from ..util import *

BOUNDS = ('Binomial and multinomial likelihoods against the enumeration of every shot record (up to 6 shots of two-outcome, '
          '4 of three-outcome models) of the real underlying model; Gaussian mixture likelihood on outcome lattices with '
          'quadrature of the total mass, and its simulation over every answer; poisoned likelihoods over every noise answer; '
          'maximum-likelihood powers; pass-through of every other wrapper, singly and stacked two deep; scripted '
          'configurations up to 100 parameters, 30 experiments and 100 shots.')
ASSUMPTIONS = ['normal noise is represented by quadrature points']


def base(e):
    return e.make()


def record_law(under, k, n, mps, eps):
    """counts -> array (params, eps): enumerates all k**n records of the real underlying model."""
    L1 = under.likelihood(np.arange(k), mps, eps)
    out = {}
    for rec in itertools.product(range(k), repeat=n):
        w = np.ones(L1.shape[1:])
        for o in rec:
            w = w * L1[o]
        cnt = tuple(rec.count(j) for j in range(k))
        out[cnt] = out.get(cnt, 0) + w
    return out


def add_n(model, e, eps, ns):
    if e.scalar:
        return np.array([(ep, n) for ep, n in zip(eps, ns)], dtype=model.expparams_dtype)
    return np.array([tuple(ep) + (n,) for ep, n in zip(eps, ns)], dtype=model.expparams_dtype)


def two_out():
    return [e for e in zoo.BASE if 'two' in e.tags] + [zoo.walk(zoo.BY['coin']), zoo.walk(zoo.BY['precession']), zoo.BY['table2']]


def s_binomial(part):
    def f(c):
        for ie, e in enumerate(two_out()):
            if ie % 2 != part:
                continue
            classes = [qi.BinomialModel] + ([qi.DifferentiableBinomialModel] if 'diff' in e.tags and 'derived' not in e.tags else [])
            for cls in classes:
                under = e.make(); m = cls(e.make())
                mps = e.mps()
                eps = e.eps
                ue = e.ep_array(under)
                for n in range(0, 9 if c.thorough else 7):
                    with c.case('binomial %s %s n=%d' % (cls.__name__, e.name, n)):
                        law = record_law(under, 2, n, mps, ue)
                        L = m.likelihood(np.arange(n + 1), mps, add_n(m, e, eps, [n] * len(eps)))
                        c.ok(L.shape == (n + 1, len(mps), len(eps)), 'shape')
                        for k in range(n + 1):
                            c.eq(L[k], law[(n - k, k)], 'count likelihood is the total over shot records', k=k)
                            c.state(e.name, n, k)
                        c.step(2 ** n * len(mps) * len(eps)); c.trace()
                        if n == 1:
                            c.eq(L, under.likelihood(np.array([0, 1]), mps, ue), 'one shot is the underlying model')
                # mixed shot numbers in one call, all orders
                for ns in itertools.product((1, 2, 4), repeat=min(3, len(eps))):
                    with c.case('binomial %s %s mixed %s' % (cls.__name__, e.name, ns)):
                        sel = eps[:len(ns)]
                        outs = [0, 1, 2, 4, 3]
                        L = m.likelihood(np.array(outs), mps, add_n(m, e, sel, ns))
                        for j, n in enumerate(ns):
                            law = record_law(under, 2, n, mps, np.array([sel[j]], dtype=under.expparams_dtype))
                            for io, o in enumerate(outs):
                                want = law[(n - o, o)][:, 0] if o <= n else np.zeros(len(mps))
                                c.eq(L[io, :, j], want, 'likelihood in a mixed batch', o=o, n=n)
                        c.trace()
                if 'diff' in e.tags and cls is qi.DifferentiableBinomialModel:
                    interior = [p for p in e.params if all(0 < float(q) < 1 for q in under.likelihood(np.array([0]), np.array([p]), ue).ravel())]
                    for n in (1, 2, 5):
                        with c.case('binomial information %s n=%d' % (e.name, n)):
                            if interior:
                                I1 = under.fisher_information(np.array(interior), ue)
                                In = m.fisher_information(np.array(interior), add_n(m, e, eps, [n] * len(eps)))
                                c.eq(In, n * I1, 'information adds over shots')
        c.sample('binomial')
    return f


def s_multinomial(c):
    for name in ('coin', 'ndie3', 'table3', 'precession', 'noisycoin', 'table2', 'ndie6', 'inversion'):
        e = zoo.BY[name]
        for wrap in ((lambda m: m), (lambda m: qi.RandomWalkModel(m, zoo.ZeroDist(m.n_modelparams)))):
            under = wrap(e.make()); m = qi.MultinomialModel(wrap(e.make()))
            k = len(e.outcomes(e.eps[0]))
            mps = e.mps(); eps = e.eps
            for n in range(0, (6 if k == 2 else 5 if k == 3 else 4)):
                with c.case('multinomial %s n=%d' % (name, n)):
                    law = record_law(under, k, n, mps, e.ep_array(under))
                    outs = sorted(law)
                    L = m.likelihood(zoo.out_array(m, e, outs), mps, add_n(m, e, eps, [n] * len(eps)))
                    for io, o in enumerate(outs):
                        c.eq(L[io], law[o], 'count likelihood is the total over shot records', o=o)
                        c.state(name, n, o)
                    c.step(k ** n * len(mps)); c.trace()
                    if n == 1:
                        L1 = under.likelihood(np.arange(k), mps, e.ep_array(under))
                        for j in range(k):
                            c.eq(L[outs.index(tuple(1 if i == j else 0 for i in range(k)))], L1[j], 'one shot is the underlying model')
            with c.case('multinomial against binomial %s' % name):
                if k == 2:
                    b = qi.BinomialModel(wrap(e.make()))
                    for n in (1, 3, 8):
                        Lb = b.likelihood(np.arange(n + 1), mps, add_n(b, e, eps, [n] * len(eps)))
                        Lm = m.likelihood(zoo.out_array(m, e, [(n - j, j) for j in range(n + 1)]), mps, add_n(m, e, eps, [n] * len(eps)))
                        c.eq(Lm, Lb, 'two-outcome multinomial is the binomial')
                        c.trace()
    # probabilities whose sum rounds above or below one
    for perm in itertools.permutations((0.7, 0.1, 0.1, 0.1, 0.0)):
        with c.case('multinomial rounding %s' % (perm,)):
            m = qi.MultinomialModel(qi.NDieModel(5))
            outs = [tuple(1 if i == j else 0 for i in range(5)) for j in range(5)]
            L = m.likelihood(zoo.out_array(m, None, outs), np.array([perm]), np.array([(0, 1)], dtype=m.expparams_dtype))
            c.eq(L[:, 0, 0], np.array(perm), 'single shot')
            c.trace()


def gauss(e, extra):
    """Parameters of the Gaussian model and the reference density."""
    def dens(x, p, ep):
        k = len(e.params[0])
        mu, s2 = p[k:k + 2], p[k + 2:k + 4]
        t = 0.0
        for o in (0, 1):
            t += e.prob(o, p[:k], ep) * math.exp(-(x - mu[o]) ** 2 / (2 * s2[o])) / math.sqrt(2 * math.pi * s2[o])
        return t
    return dens


HYP = [(0.0, 1.0, 1.0, 1.0), (-2.0, 3.0, 0.25, 4.0), (1.0, 1.0, 0.01, 2.0), (5.0, -5.0, 9.0, 1.0)]


def s_gauss(c):
    for name in ('coin', 'precession', 'noisycoin', 'unknownT2', 'rb', 'table2', 'inversion'):
        e = zoo.BY[name]
        under = e.make()
        m = qi.GaussianHyperparameterizedModel(e.make())
        dens = gauss(e, None)
        rows = [p + h for p, h in itertools.product(e.params, HYP)]
        ea = np.array(e.eps, dtype=m.expparams_dtype)
        xs = [-6.0, -2.0, -0.5, 0.0, 0.3, 1.0, 1.1, 3.0, 10.0]
        with c.case('gauss lattice %s' % name):
            L = m.likelihood(np.array(xs), np.array(rows), ea)
            want = np.array([[[dens(x, p, ep) for ep in e.eps] for p in rows] for x in xs])
            c.eq(L, want, 'mixture density')
            c.step(want.size); c.trace()
        for p in rows:
            c.state(name, p)
            with c.case('gauss cells %s %s' % (name, p)):
                for i, ep in enumerate(e.eps):
                    L = m.likelihood(np.array(xs), np.array([p]), ea[i:i + 1])
                    c.eq(L[:, 0, 0], np.array([dens(x, p, ep) for x in xs]), 'mixture density of one cell')
                    c.trace()
                grid = np.linspace(-40, 40, 8001)
                tot = m.likelihood(grid, np.array([p]), ea).sum(axis=0) * (grid[1] - grid[0])
                c.eq(tot, np.ones((1, len(e.eps))), 'density integrates to one', tol=1e-6)
                u = m.underlying_likelihood(np.array([0, 1]), np.array([p]), ea)
                c.eq(u, under.likelihood(np.array([0, 1]), np.array([p[:len(e.params[0])]]), np.array(e.eps, dtype=under.expparams_dtype)), 'underlying likelihood')


def s_gauss_sim(c):
    cases = [(zoo.BY['coin'], [(0.25,), (0.5,)], [(), ()]), (zoo.BY['table2'], [(0,), (3,)], [(0,), (1,)])]
    for e, rows, eps in cases:
        m = qi.GaussianHyperparameterizedModel(e.make())
        for (r, np_, ne), h in itertools.product(((1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (3, 1, 1), (1, 2, 2) if c.thorough else (1, 1, 2)), HYP[:3]):
            with c.case('gauss sim %s %s %s' % (e.name, (r, np_, ne), h)):
                ps = [rows[i] + (h if i == 0 else HYP[3]) for i in range(np_)]
                mp = np.array(ps); ea = np.array(eps[:ne], dtype=m.expparams_dtype)
                law = {}
                for res, pr, ch in c.explore(lambda: m.simulate_experiment(mp, ea, repeat=r), n_u=4, zgrid=rng.GH2):
                    if r * np_ * ne == 1:
                        c.ok(np.ndim(res) == 0, 'lone outcome')
                    else:
                        c.ok(res.shape == (r, np_, ne), 'shape', got=np.shape(res))
                    k = tuple(round(float(x), 9) + 0.0 for x in np.ravel(res))
                    law[k] = law.get(k, 0) + pr
                single = []
                for _ in range(r):
                    for p in ps:
                        for ep in eps[:ne]:
                            d = {}
                            k = len(e.params[0])
                            for o in (0, 1):
                                for z in (-1, 1):
                                    v = round(p[k + o] + math.sqrt(p[k + 2 + o]) * z, 9) + 0.0
                                    d[v] = d.get(v, 0) + e.prob(o, p[:k], ep) / 2
                            single.append(d)
                for key in itertools.product(*[list(d) for d in single]):
                    w = 1.0
                    for v, d in zip(key, single):
                        w *= d[v]
                    c.ok(abs(law.pop(key, 0.0) - w) < 1e-9, 'law of simulated outcomes', at=key, want=w)
                    c.state(e.name, r, np_, ne, h, key)
                c.ok(not [k for k in law if law[k] > 1e-12], 'outcomes that cannot occur', got=list(law)[:2])


def s_mle(c):
    for e in zoo.all_finite():
        m0 = e.make()
        for power in (1, 2, 0.5, 3, 10, 0, 1.5, 2.25, 7.75):
            with c.case('mle %s power %s' % (e.name, power)):
                m = qi.MLEModel(e.make(), power)
                for ep in e.eps:
                    outs = e.outcomes(ep)
                    ea = np.array([ep], dtype=m.expparams_dtype)
                    L = m.likelihood(zoo.out_array(m, e, outs), e.mps(), ea)
                    want = np.array([[[max(e.prob(o, p, ep), 0.0) ** power] for p in e.params] for o in outs])
                    c.eq(L, want, 'likelihood raised to the power', tol=1e-8)
                    c.step(want.size); c.trace(); c.state(e.name, power, ep)
    with c.case('mle stack'):
        e = zoo.BY['precession']
        b = zoo.binomial(e)
        m = qi.MLEModel(b.make(), 2)
        for ep in b.eps:
            L = m.likelihood(np.arange(ep[-1] + 1), b.mps(), np.array([ep], dtype=m.expparams_dtype))
            c.eq(L[:, :, 0], np.array([[b.prob(o, p, ep) ** 2 for p in b.params] for o in range(ep[-1] + 1)]), 'power of binomial')
        m = qi.BinomialModel(qi.RandomWalkModel(e.make(), zoo.ZeroDist(1)))
        L = m.likelihood(np.arange(4), e.mps(), np.array([(1.0, 3)], dtype=m.expparams_dtype))
        c.eq(L[:, :, 0], np.array([[zoo.binomial(e, (3,)).prob(o, p, (1.0, 3)) for p in e.params] for o in range(4)]), 'binomial of a walk')


def s_poison(c):
    zs = ((-1.0, .25), (0.0, .25), (0.5, .25), (3.0, .25))
    for name, rows, eps in (('coin', [(0.25,)], [()]), ('coin', [(0.0,), (0.875,)], [()]), ('precession', [(0.7,)], [1.0, 6.0]),
                            ('ndie3', [(0.5, 0.25, 0.25)], [(0,)]), ('table3', [(1,), (0,)], [(0,)])):
        e = zoo.BY[name]
        outs = e.outcomes(eps[0])
        for kw in (dict(tol=0.0), dict(tol=0.1), dict(tol=0.8), dict(n_samples=1), dict(n_samples=10), dict(n_samples=10, hedge=0.5), dict(n_samples=100, hedge=1.0)):
            m = qi.PoisonedModel(e.make(), **kw)
            mp = np.array(rows); ea = np.array(eps, dtype=m.expparams_dtype)
            for nout in (1, 2, 3):
                os_ = outs[:nout]
                if len(os_) < nout or len(os_) * len(rows) * len(eps) > 4:
                    continue
                with c.case('poison %s %s %s %d' % (name, rows, kw, nout)):
                    law = {}
                    L0 = np.array([[[e.prob(o, p, ep) for ep in eps] for p in rows] for o in os_])
                    for res, pr, ch in c.explore(lambda: m.likelihood(np.array(os_), mp, ea), zgrid=zs):
                        c.ok(res.shape == L0.shape, 'shape')
                        c.ok(np.all((res >= 0) & (res <= 1)), 'in [0, 1]', got=res)
                        k = tuple(round(float(x), 9) + 0.0 for x in res.ravel())
                        law[k] = law.get(k, 0) + pr
                        c.state(name, kw, k)
                    single = []
                    for l in L0.ravel():
                        s = kw['tol'] if 'tol' in kw else math.sqrt(l * (1 - l) / (kw['n_samples'] + 2 * kw.get('hedge', 0.0) + 1))
                        d = {}
                        for z, w in zs:
                            v = round(min(max(l + s * z, 0.0), 1.0), 9) + 0.0
                            d[v] = d.get(v, 0) + w
                        single.append(d)
                    for key in itertools.product(*[list(d) for d in single]):
                        w = 1.0
                        for v, d in zip(key, single):
                            w *= d[v]
                        c.ok(abs(law.pop(key, 0.0) - w) < 1e-9, 'law of the poisoned likelihood', at=key, want=w)
                    c.ok(not law, 'unexpected likelihoods', got=list(law)[:2])
                    # the noise is fresh in every call and never accumulates in the underlying model
                    L = m.underlying_model.likelihood(np.array(os_), mp, ea)
                    c.eq(L, L0, 'underlying likelihood')
    for kw in (dict(), dict(tol=0.1, n_samples=3)):
        with c.case('poison config %s' % kw):
            try:
                qi.PoisonedModel(qi.CoinModel(), **kw)
                c.fail('accepted')
            except ValueError:
                c.trace()
    # large
    e = zoo.BY['precession']
    for kw in (dict(tol=0.3), dict(n_samples=4)):
        with c.case('poison large %s' % kw):
            r = np.random.RandomState(0)
            rows = r.rand(100, 1) * 6; ts = r.rand(30) * 10
            m = qi.PoisonedModel(e.make(), **kw)
            st = core.cycle_stream(1)
            with core.controlled(st):
                L = m.likelihood(np.array([0, 1]), rows, ts)
            c.ok(np.all((L >= 0) & (L <= 1)), 'in [0, 1]')
            L0 = m.underlying_model.likelihood(np.array([0, 1]), rows, ts)
            s = 0.3 if 'tol' in kw else np.sqrt(L0 * (1 - L0) / 5)
            allowed = np.array([np.clip(L0 + s * z, 0, 1) for z, _ in st.zgrid])
            c.ok(np.all(np.min(np.abs(allowed - L), axis=0) < 1e-9), 'each entry is its likelihood plus scaled noise')
            c.trace()


def s_pass(c):
    """Wrappers that must not change the likelihood, singly and stacked."""
    wraps = {
        'walk': lambda m: qi.RandomWalkModel(m, zoo.ZeroDist(m.n_modelparams)),
        'fixed': lambda m: qi.GaussianRandomWalkModel(m, fixed_covariance=0.1 * np.ones(m.n_modelparams)),
        'fixed0': lambda m: qi.GaussianRandomWalkModel(m, random_walk_idxs=[0], fixed_covariance=np.array([0.2])),
        'densefixed': lambda m: qi.GaussianRandomWalkModel(m, fixed_covariance=np.eye(m.n_modelparams), diagonal=False),
        'learn': lambda m: qi.GaussianRandomWalkModel(m),
        'dense': lambda m: qi.GaussianRandomWalkModel(m, diagonal=False),
        'lastonly': lambda m: qi.GaussianRandomWalkModel(m, random_walk_idxs=[m.n_modelparams - 1]),
        'transf': lambda m: qi.GaussianRandomWalkModel(m, model_transformation=(lambda x: 2 * x + 1, lambda x: (x - 1) / 2)),
        'mle1': lambda m: qi.MLEModel(m, 1),
        'poison0': lambda m: qi.PoisonedModel(m, tol=0.0),
    }
    bases = list(zoo.BASE) + [zoo.binomial(zoo.BY['precession']), zoo.binomial(zoo.BY['coin']), zoo.multinomial(zoo.BY['ndie3'], (1, 2)), zoo.multinomial(zoo.BY['coin'])]
    for e in bases:
        u = e.make()
        for stack in [(a,) for a in wraps] + list(itertools.product(wraps, repeat=2)):
            if len(stack) == 2 and not c.thorough and e.name in ('ndie6', 'rb_il', 'inversion_min', 'precession_min', 'table2'):
                continue
            with c.case('pass %s %s' % ('/'.join(stack), e.name)):
                m = e.make()
                for w in stack:
                    m = wraps[w](m)
                extra = m.n_modelparams - len(e.params[0])
                mps = np.array([p + tuple(0.3 + 0.2 * i for i in range(extra)) for p in e.params])
                for k in range(0, len(e.eps), 3):
                    ep = e.eps[k]
                    outs = e.outcomes(ep)
                    ea = np.array([ep], dtype=m.expparams_dtype)
                    L = m.likelihood(zoo.out_array(m, e, outs), mps, ea)
                    c.eq(L[:, :, 0], np.array([[e.prob(o, p, ep) for p in e.params] for o in outs]), 'likelihood of the wrapped model', tol=1e-8)
                    c.step(L.size); c.trace(); c.state(e.name, stack, ep)


def s_large(c):
    r = np.random.RandomState(4)
    for name, gp, ge in (('precession', lambda: (r.rand() * 6,), lambda: r.rand() * 30), ('rb', lambda: (r.rand(), r.rand() * .5, r.rand() * .5), lambda: (int(r.randint(30)),)),
                         ('coin', lambda: (r.rand(),), lambda: ())):
        e = zoo.BY[name]
        under = e.make(); m = qi.BinomialModel(e.make()); mm = qi.MultinomialModel(e.make())
        rows = [gp() for _ in range(100)]; eps = [ge() for _ in range(30)]
        ns = [int(r.randint(1, 100)) for _ in eps]
        with c.case('large binomial %s' % name):
            p1 = under.likelihood(np.array([1]), np.array(rows), np.array(eps, dtype=under.expparams_dtype))[0]
            outs = list(range(0, 101, 7))
            L = m.likelihood(np.array(outs), np.array(rows), add_n(m, e, eps, ns))
            # convolution of single-shot laws, one shot at a time
            for j, n in enumerate(ns):
                law = np.zeros((n + 1, len(rows))); law[0] = 1
                for s in range(n):
                    new = law * (1 - p1[:, j]); new[1:] += law[:-1] * p1[:, j]; law = new
                for io, o in enumerate(outs):
                    c.eq(L[io, :, j], law[o] if o <= n else np.zeros(len(rows)), 'convolution of shots', tol=1e-9)
                if n <= 40:
                    Lm = mm.likelihood(zoo.out_array(mm, None, [(n - o, o) for o in range(n + 1)]), np.array(rows), add_n(mm, e, [eps[j]], [n]))
                    c.eq(Lm[:, :, 0], law, 'multinomial: convolution of shots')
                c.state(name, j, n); c.step(n)
            c.trace()
    for kd, n in ((3, 12), (4, 7), (5, 5)):
        with c.case('large multinomial die %d n=%d' % (kd, n)):
            m = qi.MultinomialModel(qi.NDieModel(kd))
            rows = r.dirichlet([1] * kd, size=20)
            from ..rng import compositions
            law = {(0,) * kd: np.ones(20)}
            for s in range(n):
                new = {}
                for k, w in law.items():
                    for j in range(kd):
                        kk = k[:j] + (k[j] + 1,) + k[j + 1:]
                        new[kk] = new.get(kk, 0) + w * rows[:, j]
                law = new
            outs = sorted(law)
            L = m.likelihood(zoo.out_array(m, None, outs), rows, np.array([(0, n)], dtype=m.expparams_dtype))
            c.eq(L[:, :, 0], np.array([law[o] for o in outs]), 'convolution of shots')
            c.trace(); c.step(len(outs))


SCENARIOS = [('binomial0', s_binomial(0)), ('binomial1', s_binomial(1)), ('multinomial', s_multinomial), ('gauss', s_gauss), ('gauss_sim', s_gauss_sim),
             ('mle', s_mle), ('poison', s_poison), ('pass', s_pass), ('large', s_large)]

from . import bulk, edge  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b08)]
BOUNDS += ' Edge configurations: parameter scales from 1e-12 to 1e9, deep retries, objects used before, very many shots, engines, rows or clusters.'
SCENARIOS = SCENARIOS + [('edge', edge.e08)]

from . import reuse  # noqa: E402
BOUNDS += ' Every pair of calls on one model, in new and in reused arrays, the second answer against a fresh model.'
SCENARIOS = SCENARIOS + reuse.scenario(('derived', 'spins'), ('likelihood', 'simulate', 'step covariance'), 6)
