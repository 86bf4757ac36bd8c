"""C17: scores and Fisher information are those of the likelihood."""
import itertools, math
import numpy as np
import qinfer as qi
from qinfer.abstract_model import FiniteOutcomeModel, DifferentiableModel
from qinfer.derived_models import DifferentiableBinomialModel
from .. import zoo, core, rng
from ..util import *

BOUNDS = ('Every differentiable model shipped, numerical differentiation mixed into six models (one with a varying outcome '
          'count) with scalar and per-parameter steps, over dense lattices of parameters, experiments and outcome lists, all '
          'batch shapes up to 3 x 3 x 3 compared cell by cell with an independent derivative of the closed form; binomial '
          'shots 1-40; every history of up to 4 updates, batches, resamplings and queries of a bound-tracking updater; '
          'batches of 150 parameter vectors.')
ASSUMPTIONS = ['all outcomes are possible at the parameters used, except for the scores of the possible ones at the boundary',
               'information matrices are compared for priors whose samples are scripted']

H = 1e-3


def deriv(f, x, k):
    def g(t):
        y = list(x); y[k] += t
        return f(tuple(y))
    return (8 * (g(H) - g(-H)) - (g(2 * H) - g(-2 * H))) / (12 * H)


def score_ref(e, o, p, ep):
    L = e.prob(o, p, ep)
    return [deriv(lambda q: e.prob(o, q, ep), p, k) / L for k in range(len(p))]


_fi = {}


def fi_ref(e, p, ep):
    key = (e.name, p, ep)
    if key not in _fi:
        n = len(p)
        F = np.zeros((n, n))
        for o in e.outcomes(ep):
            L = e.prob(o, p, ep)
            s = score_ref(e, o, p, ep)
            F += L * np.outer(s, s)
        _fi[key] = F
    return _fi[key]


def smooth(name, cls, params, eps, prob, outcomes=lambda ep: [0, 1], scalar=False, const=True):
    return zoo.Entry(name, cls, params, eps, outcomes, prob, scalar=scalar, n_out_const=const)


class VarModel(FiniteOutcomeModel):
    """Smooth two-parameter model whose number of outcomes varies with the experiment."""
    @property
    def n_modelparams(self): return 2

    @property
    def modelparam_names(self): return ['a', 'b']

    @property
    def expparams_dtype(self): return [('k', 'int'), ('s', 'float')]

    @property
    def is_n_outcomes_constant(self): return False

    def n_outcomes(self, ep): return np.atleast_1d(ep['k'])

    def are_models_valid(self, m): return np.ones(len(m), dtype=bool)

    def likelihood(self, outcomes, mps, eps):
        super(VarModel, self).likelihood(outcomes, mps, eps)
        L = np.zeros((len(outcomes), len(mps), len(eps)))
        for ie in range(len(eps)):
            k = int(eps['k'][ie])
            w = np.array([np.exp(mps[:, 0] * j * eps['s'][ie] + mps[:, 1] * (j - 1) ** 2) for j in range(k)])
            w = w / w.sum(axis=0)
            for io, o in enumerate(outcomes):
                if o < k:
                    L[io, :, ie] = w[int(o)]
        return L


def var_prob(o, p, ep):
    k, s = ep
    w = [math.exp(p[0] * j * s + p[1] * (j - 1) ** 2) for j in range(k)]
    return w[o] / sum(w)


def grids():
    B = zoo.BY
    out = []
    out.append(smooth('inversion', qi.SimpleInversionModel, [(w,) for w in (0.3, 0.7, 1.1, 1.9, 2.6)],
                      [(t, w) for t in (0.5, 1.0, 2.0, 3.5) for w in (0.0, 0.1, -0.45, 2.0)], B['inversion'].prob))
    out.append(smooth('precession', qi.SimplePrecessionModel, [(w,) for w in (0.2, 0.7, 1.3, 2.3, 2.9)],
                      [0.5, 1.0, 1.7, 3.0, 6.0], B['precession'].prob, scalar=True))
    out.append(smooth('coin', qi.CoinModel, [(p,) for p in (0.05, 0.25, 0.5, 0.8, 0.95)], [()], B['coin'].prob))
    out.append(smooth('rb', qi.RandomizedBenchmarkingModel,
                      [(0.9, 0.3, 0.45), (0.5, 0.25, 0.5), (0.99, 0.2, 0.6), (0.0, 0.4, 0.3), (1.0, 0.3, 0.5), (0.7, 0.0, 0.5)],
                      [(m,) for m in (0, 1, 2, 3, 7, 20)], B['rb'].prob))
    out.append(smooth('rb_il', lambda: qi.RandomizedBenchmarkingModel(interleaved=True),
                      [(0.95, 0.9, 0.3, 0.45), (0.5, 0.8, 0.25, 0.5), (1.0, 0.7, 0.2, 0.6), (0.6, 1.0, 0.4, 0.3), (0.8, 0.85, 0.0, 0.5)],
                      [(m, r) for m in (1, 2, 3, 7, 20) for r in (True, False)] + [(0, True), (0, False)], B['rb_il'].prob))
    return out


def numerical():
    from qinfer import ScoreMixin
    from .c16 import VecModel, VEC
    B = zoo.BY
    out = []
    def mix(cls, h=None, *a, **k):
        class M(ScoreMixin, cls, DifferentiableModel):
            pass
        if h is not None:
            M._h = h
        return lambda: M(*a, **k)
    for nm, h in (('default', None), ('coarse', 1e-4)):
        tol = 2e-4 if h is None else 1e-5
        out.append((smooth('num_precession_' + nm, mix(qi.SimplePrecessionModel, h), [(0.2,), (0.7,), (1.3,), (2.3,)], [0.5, 1.0, 1.7, 3.0], B['precession'].prob, scalar=True), tol))
        out.append((smooth('num_t2_' + nm, mix(qi.UnknownT2Model, h), [(0.7, 0.1), (1.3, 0.4), (0.4, 0.02)], [(1.0,), (2.0,), (0.5,)], B['unknownT2'].prob), tol))
        out.append((smooth('num_noisycoin_' + nm, mix(qi.NoisyCoinModel, h), [(0.3,), (0.8,)], [(0.9, 0.2), (1.0, 0.3), (0.6, 0.5)], B['noisycoin'].prob), tol))
        out.append((smooth('num_rb_' + nm, mix(qi.RandomizedBenchmarkingModel, h), [(0.9, 0.3, 0.45), (0.5, 0.25, 0.5)], [(1,), (3,), (7,)], B['rb'].prob), tol))
        out.append((smooth('num_vec_' + nm, mix(VecModel, h), VEC.params, VEC.eps, VEC.prob), tol))
        out.append((smooth('num_var_' + nm, mix(VarModel, h), [(0.1, 0.2), (0.5, -0.3), (-0.4, 0.1)], [(2, 1.0), (3, 0.5), (1, 1.0), (4, -0.5)], var_prob,
                           outcomes=lambda ep: list(range(ep[0])), const=False), tol))
    for h in ((1e-4, 1e-6), (1e-3, 1e-5)):
        out.append((smooth('num_t2_h%g' % h[0], mix(qi.UnknownT2Model, np.array(h)), [(0.7, 0.1), (1.3, 0.4)], [(1.0,), (2.0,)], B['unknownT2'].prob), 1e-5))
        out.append((smooth('num_rb_h%g' % h[0], mix(qi.RandomizedBenchmarkingModel, np.array(h + (1e-4,))), [(0.9, 0.3, 0.45), (0.5, 0.25, 0.5)], [(1,), (3,)], B['rb'].prob), 1e-5))
    return out


def four(q, e, no, nm, ne):
    """Score with the parameter axis put back if it was suppressed."""
    q = np.asarray(q)
    if q.ndim == 3 and len(e.params[0]) == 1:
        q = q[None]
    return q


def score_cells(c, e, tol):
    model = e.make()
    n = len(e.params[0])
    for p in e.params:
        for i, ep in enumerate(e.eps):
            with c.case('score %s %s %s' % (e.name, p, ep)):
                outs = e.outcomes(ep)
                if any(e.prob(o, p, ep) <= 1e-6 for o in outs):
                    continue
                ea = e.ep_array(model, [i]); ma = np.array([p])
                q, L = model.score(np.array(outs), ma, ea, return_L=True)
                q = four(q, e, len(outs), 1, 1)
                if not c.ok(q.shape == (n, len(outs), 1, 1), 'shape of the score', got=q.shape):
                    continue
                want = np.array([score_ref(e, o, p, ep) for o in outs]).T[:, :, None, None]
                Ls = np.array([e.prob(o, p, ep) for o in outs])
                c.eq(q, want, 'score is the gradient of the log-likelihood', tol=tol / min(1, Ls.min()))
                c.eq(np.asarray(L), Ls[:, None, None], 'likelihood returned with the score')
                c.eq(model.score(np.array(outs), ma, ea), model.score(np.array(outs), ma, ea, return_L=True)[0], 'score with and without likelihood')
                F = np.asarray(model.fisher_information(ma, ea))
                if c.ok(F.shape == (n, n, 1, 1), 'shape of the information', got=F.shape):
                    c.eq(F[:, :, 0, 0], fi_ref(e, p, ep), 'Fisher information', tol=tol * 3 / Ls.min())
                    c.eq(F[:, :, 0, 0], F[:, :, 0, 0].T, 'information is symmetric', tol=1e-9)
                    c.ok(np.linalg.eigvalsh(F[:, :, 0, 0]).min() >= -1e-9 * (1 + abs(F).max()), 'information is positive semidefinite', got=F[:, :, 0, 0])
                c.step(len(outs)); c.state('score', e.name, p, ep)


def batches(c, e, tol):
    model = e.make()
    n = len(e.params[0])
    P = [p for p in e.params if all(e.prob(o, p, ep) > 1e-6 for ep in e.eps for o in e.outcomes(ep))]
    outl = ([0], [1], [0, 1], [1, 0], [1, 1, 0], [0, 0, 1, 1]) if e.n_out_const and len(e.outcomes(e.eps[0])) == 2 else ()
    for nm in (1, 2, 3):
        for rows in itertools.islice(itertools.permutations(range(len(P)), nm), 12):
            for ne in (1, 2, 3):
                for ie in itertools.islice(itertools.permutations(range(len(e.eps)), ne), 0, 40, 7):
                    mp = np.array([P[r] for r in rows]); ea = e.ep_array(model, list(ie))
                    with c.case('batch %s rows=%s eps=%s' % (e.name, rows, ie)):
                        F = np.asarray(model.fisher_information(mp, ea))
                        if c.ok(F.shape == (n, n, nm, ne), 'shape of the information', got=F.shape):
                            for a, r in enumerate(rows):
                                for b, i in enumerate(ie):
                                    want = fi_ref(e, P[r], e.eps[i])
                                    lmin = min(e.prob(o, P[r], e.eps[i]) for o in e.outcomes(e.eps[i]))
                                    c.eq(F[:, :, a, b], want, 'information of a cell of a batch', tol=3 * tol / lmin, cell=(a, b))
                        for outs in outl:
                            q, L = model.score(np.array(outs), mp, ea, return_L=True)
                            q = four(q, e, len(outs), nm, ne)
                            if c.ok(q.shape == (n, len(outs), nm, ne), 'shape of the score', got=q.shape):
                                for a, r in enumerate(rows):
                                    for b, i in enumerate(ie):
                                        for k, o in enumerate(outs):
                                            c.eq(q[:, k, a, b], score_ref(e, o, P[r], e.eps[i]), 'score of a cell of a batch',
                                                 tol=tol / min(1, e.prob(o, P[r], e.eps[i])), cell=(k, a, b))
                                c.eq(L, np.array([[[e.prob(o, P[r], e.eps[i]) for i in ie] for r in rows] for o in outs]), 'likelihood with the score')
                            c.step()
                        c.state('batch', e.name, rows, ie)


def s_analytic(k):
    def f(c):
        e = grids()[k]
        score_cells(c, e, 1e-6)
        batches(c, e, 1e-6)
    return f


def s_numeric(part):
    def f(c):
        for k, (e, tol) in enumerate(numerical()):
            if k % 3 == part:
                score_cells(c, e, tol)
                batches(c, e, tol)
    return f


def s_boundary(c):
    """Possible outcomes where another one is impossible."""
    from qinfer import ScoreMixin
    B = zoo.BY
    class NumCoin(ScoreMixin, qi.NoisyCoinModel, DifferentiableModel):
        pass
    for nm, mk_, e, cells in (
            ('coin', qi.CoinModel, B['coin'], [((0.0,), (), 1), ((1.0,), (), 0)]),
            ('rb', qi.RandomizedBenchmarkingModel, B['rb'], [((1.0, 0.5, 0.5), (m,), 1) for m in (1, 3)] + [((0.5, 0.0, 1.0), (2,), 1), ((0.5, 0.0, 0.0), (2,), 0), ((0.0, 0.5, 0.0), (2,), 0), ((0.0, 0.3, 1.0), (4,), 1)]),
            ('rb_il', B['rb_il'].make, B['rb_il'], [((1.0, 1.0, 0.5, 0.5), (m, r), 1) for m in (1, 3) for r in (True, False)]),
            ('inversion', qi.SimpleInversionModel, B['inversion'], [((0.5,), (2.0, 0.5), 0), ((0.5,), (0.0, 0.1), 0)]),
            ('precession', qi.SimplePrecessionModel, B['precession'], [((0.5,), 0.0, 0)]),
            ('numcoin', NumCoin, B['noisycoin'], [((1.0,), (1.0, 0.5), 0), ((0.0,), (0.5, 0.0), 1), ((0.0,), (0.5, 1.0), 0)])):
        for p, ep, o in cells:
            with c.case('%s %s %s outcome %d' % (nm, p, ep, o)):
                model = mk_()
                q = model.score(np.array([o]), np.array([p]), np.array([ep], dtype=model.expparams_dtype))
                c.eq(np.asarray(q).ravel(), score_ref(e, o, p, ep), 'score of a possible outcome at the boundary', tol=1e-4 if nm == 'numcoin' else 1e-6)
                c.state('boundary', nm, p, ep, o)


def s_shots(c):
    """Information adds over shots."""
    for k in range(5):
        e = grids()[k]
        for n in (1, 2, 3, 7, 40):
            b = zoo.binomial(e, ns=(n,))
            model = DifferentiableBinomialModel(e.make())
            P = [p for p in e.params if all(e.prob(o, p, ep) > 1e-6 for ep in e.eps for o in e.outcomes(ep))]
            with c.case('shots %s n=%d' % (e.name, n)):
                ea = np.array(b.eps, dtype=model.expparams_dtype)
                F = np.asarray(model.fisher_information(np.array(P), ea))
                if not c.ok(F.shape == (len(P[0]), len(P[0]), len(P), len(b.eps)), 'shape', got=F.shape):
                    continue
                for a, p in enumerate(P):
                    for i, ep in enumerate(b.eps):
                        base = e.eps[i]
                        lmin = min(e.prob(o, p, base) for o in (0, 1))
                        c.eq(F[:, :, a, i], n * fi_ref(e, p, base), 'information of n shots', tol=3e-6 * n / lmin, cell=(p, ep))
                        if n <= 7:
                            # the definition: average over all counts
                            tot = np.zeros((len(p),) * 2)
                            for o in b.outcomes(ep):
                                L = b.prob(o, p, ep)
                                s = np.array([deriv(lambda q: b.prob(o, q, ep), p, kk) / L for kk in range(len(p))])
                                tot += L * np.outer(s, s)
                            c.eq(F[:, :, a, i], tot, 'information is the average over all counts', tol=1e-5 * n / lmin ** 2, cell=(p, ep))
                        c.step(); c.state('shots', e.name, n, p, ep)
            # mixed shot numbers in one batch
            with c.case('mixed shots %s n=%d' % (e.name, n)):
                b2 = zoo.binomial(e, ns=(n, 2 * n + 1))
                ea = np.array(b2.eps[:6], dtype=model.expparams_dtype)
                F = np.asarray(model.fisher_information(np.array(P[:2]), ea))
                for a, p in enumerate(P[:2]):
                    for i, ep in enumerate(b2.eps[:6]):
                        base = ep[0] if e.scalar else ep[:-1]
                        lmin = min(e.prob(o, p, base) for o in (0, 1))
                        c.eq(F[:, :, a, i], ep[-1] * fi_ref(e, p, base), 'information with mixed shots', tol=3e-6 * ep[-1] / lmin)
    with c.case('refusals'):
        for m in (qi.UnknownT2Model(), zoo.TableModel(zoo.TABLE2, [2, 2, 2])):
            try:
                DifferentiableBinomialModel(m); c.fail('a model without score is accepted', model=type(m))
            except TypeError:
                pass
            try:
                qi.SMCUpdaterBCRB(m, 3, zoo.ListPrior(np.zeros((3, m.n_modelparams)))); c.fail('a model without score is accepted')
            except ValueError:
                pass


class GradPrior(zoo.ListPrior):
    def grad_log_pdf(self, x): return np.sin(3 * x) + 0.5


def bim_entries():
    g = grids()
    rb = g[3]; inv = g[0]; coin = g[2]; pr = g[1]; il = g[4]
    from .c16 import VecModel, VEC
    num = dict((e.name, e) for e, t in numerical())
    return [(coin, 1e-9), (inv, 1e-6), (pr, 1e-6), (rb, 1e-6), (il, 1e-6), (num['num_vec_coarse'], 1e-4)]


def s_bim(part):
    """Histories of the bound-tracking updater."""
    def f(c):
        cases = [(x, t, False) for x, t in bim_entries()] + [(grids()[3], 1e-6, True), (grids()[1], 1e-6, True)]
        for kk, (e, tol, shots) in enumerate(cases):
            if kk % 4 != part:
                continue
            rows = [p for p in e.params if all(0.03 < e.prob(o, p, ep) for ep in e.eps[:4] for o in e.outcomes(ep))][:4]
            if len(rows) < 2:
                rows = [p for p in e.params if all(1e-4 < e.prob(o, p, ep) for ep in e.eps[:4] for o in e.outcomes(ep))][:4]
            d = len(rows[0])
            good = [i for i in range(len(e.eps)) if all(e.prob(o, p, e.eps[i]) > 1e-4 for p in rows for o in e.outcomes(e.eps[i]))][:2]
            good = good if len(good) > 1 else good * 2
            src = zoo.binomial(e, ns=(3,)) if shots else e
            def mkmodel():
                return DifferentiableBinomialModel(e.make()) if shots else e.make()
            mult = 3 if shots else 1
            ops = [('u', 0, good[0]), ('u', 1, good[1]), ('b', (1, 0), (good[0], good[1])), ('r',), ('q',)]
            inits = [None, np.eye(d) * 2.0, np.arange(d * d).reshape(d, d).astype(int) + 1]
            for prior_cls in (zoo.ListPrior, GradPrior):
                for init in inits:
                    for adaptive in (None, False, True):
                        for n in range(0, 4 if not c.thorough else 5):
                            for hist in itertools.product(ops, repeat=n):
                                if n == 3 and not c.thorough and (prior_cls is GradPrior or adaptive is None):
                                    continue
                                with c.case('bim %s shots=%s prior=%s init=%s adaptive=%s %s' % (e.name, shots, prior_cls.__name__, None if init is None else init.tolist(), adaptive, hist)):
                                    kw = {}
                                    if init is not None: kw['initial_bim'] = init
                                    if adaptive is not None: kw['adaptive'] = adaptive
                                    keep = None if init is None else init.copy()
                                    R = np.array(rows)
                                    def build(cls, **k):
                                        return cls(mkmodel(), len(rows), prior_cls(R), resample_thresh=0.0, zero_weight_policy='skip', **k)
                                    with core.controlled(core.cycle_stream(5)):
                                        u = build(qi.SMCUpdaterBCRB, **kw)
                                    v = build(qi.SMCUpdater)
                                    if init is None:
                                        g = prior_cls(R).grad_log_pdf(R)
                                        cur = g.T.dot(g) / len(rows)
                                    else:
                                        cur = np.array(init, dtype=float)
                                    ad = cur.copy()
                                    c.eq(u.current_bim, cur, 'initial information matrix')
                                    c.ok(u.track_adaptive == bool(adaptive), 'tracks adaptively as asked')
                                    def book(i):
                                        nonlocal cur, ad
                                        cur = cur + mult * sum(fi_ref(e, p, e.eps[i]) for p in rows) / len(rows)
                                        if resampled[0]:
                                            F = np.asarray(mkmodel().fisher_information(v.particle_locations, src.ep_array(v.model, [i])))[..., 0]
                                            ad = ad + np.einsum('m,ijm->ij', v.particle_weights, F)
                                        else:
                                            ad = ad + mult * sum(w * fi_ref(e, p, e.eps[i]) for p, w in zip(rows, v.particle_weights))
                                    resampled = [False]
                                    bad = False
                                    for op in hist:
                                        if op[0] == 'u':
                                            book(op[2]); u.update(op[1], src.ep_array(u.model, [op[2]])); v.update(op[1], src.ep_array(v.model, [op[2]]))
                                        elif op[0] == 'b':
                                            for o, i in zip(op[1], op[2]):
                                                book(i); v.update(o, src.ep_array(v.model, [i]))
                                            u.batch_update(np.array(op[1]), src.ep_array(u.model, list(op[2])))
                                        elif op[0] == 'r':
                                            for x in (u, v):
                                                with core.controlled(core.cycle_stream(9)):
                                                    x.resample()
                                            resampled[0] = True
                                        else:
                                            ea = src.ep_array(u.model, good)
                                            a = u.prior_bayes_information(ea); b = u.posterior_bayes_information(ea)
                                            c.ok(np.shape(a) == (d, d, len(good)) and np.shape(b) == (d, d, len(good)), 'shape of expected information', got=(np.shape(a), np.shape(b)))
                                            for k_, i in enumerate(good):
                                                c.eq(a[:, :, k_], mult * sum(fi_ref(e, p, e.eps[i]) for p in rows) / len(rows), 'prior information', tol=tol * 100)
                                            x = u.current_bim; x[:] = -7
                                            if adaptive:
                                                x = u.adaptive_bim; x[:] = -8
                                            a[:] = 3; b[:] = 4
                                        c.step()
                                    c.eq(u.current_bim, cur, 'information matrix after the history', tol=tol * 100)
                                    if adaptive:
                                        c.eq(u.adaptive_bim, ad, 'adaptive information matrix after the history', tol=tol * 100)
                                    else:
                                        try:
                                            u.adaptive_bim; c.fail('adaptive matrix without tracking')
                                        except ValueError:
                                            pass
                                    if init is not None:
                                        c.ok(np.array_equal(init, keep) and init.dtype == keep.dtype, 'the initial matrix given is altered', got=init)
                                    diff = same_snap(snap(u), snap(v), 1e-12)
                                    c.ok(diff is None, 'bound tracking changes the inference', differs=diff)
                                    c.trace(); c.state('bim', e.name, prior_cls.__name__, init if init is not None else 0, adaptive, hist)
    return f


def s_bim_options(c):
    """Options of the plain updater reach the bound-tracking one; resampling within updates."""
    e = grids()[3]
    rows = [e.params[0], e.params[1], e.params[2]]
    for thr in (0.0, 0.9, 1.0):
        for pol in ('skip', 'warn', 'ignore', 'reset'):
            for rec in (True, False):
                with c.case('options thr=%s policy=%s rec=%s' % (thr, pol, rec)):
                    kw = dict(resample_thresh=thr, zero_weight_policy=pol, track_resampling_divergence=rec)
                    us = [cls(e.make(), 3, zoo.ListPrior(rows), **kw) for cls in (qi.SMCUpdater, qi.SMCUpdaterBCRB)]
                    cur = np.zeros((3, 3))
                    for o, i in ((0, 1), (1, 2), (0, 3), (0, 1)):
                        for u in us:
                            with core.controlled(core.cycle_stream(4)):
                                u.update(o, e.ep_array(u.model, [i]))
                        cur = cur + sum(fi_ref(e, p, e.eps[i]) for p in rows) / 3
                        c.ok(same_snap(snap(us[0]), snap(us[1]), 1e-12) is None, 'same inference as the plain updater')
                        c.eq(us[1].current_bim, cur, 'information matrix', tol=1e-4)
                        c.step()
                    c.trace(); c.state('opt', thr, pol, rec)
    # initial estimate from shipped priors
    for nm, prior, grad, e2 in (('normal', qi.NormalDistribution(0.5, 0.04), lambda x: -(x - 0.5) / 0.04, grids()[2]),
                                ('mvn', qi.MultivariateNormalDistribution(np.array([0.8, 0.3, 0.4]), np.array([[.02, .005, 0], [.005, .01, .002], [0, .002, .03]])),
                                 lambda x: -np.linalg.solve(np.array([[.02, .005, 0], [.005, .01, .002], [0, .002, .03]]), (x - np.array([0.8, 0.3, 0.4])).T).T, e)):
        for n in (1, 2, 5, 40):
            with c.case('initial %s n=%d' % (nm, n)):
                with core.controlled(core.cycle_stream(n)):
                    u = qi.SMCUpdaterBCRB(e2.make(), n, prior, canonicalize=False)
                g = grad(u.particle_locations)
                c.eq(u.current_bim, g.T.dot(g) / n, 'initial matrix estimated from the prior', tol=1e-8)
                c.state('init', nm, n)


def s_large(c):
    cyc = core.cycle_stream(17)
    for e in grids():
        with c.case('large %s' % e.name):
            model = e.make()
            P = np.array(e.params); lo, hi = P.min(0) + 0.02, P.max(0) - 0.02
            rows = []
            while len(rows) < 150:
                r = tuple(float(a + (b - a) * (cyc.choose(4096) + .5) / 4096) if b > a else float(a) for a, b in zip(lo, hi))
                if all(1e-3 < e.prob(o, r, ep) for ep in e.eps for o in e.outcomes(ep)):
                    rows.append(r)
                elif cyc.choose(1000) == 7:
                    break
            F = np.asarray(model.fisher_information(np.array(rows), e.ep_array(model)))
            q = four(model.score(np.array([0, 1]), np.array(rows), e.ep_array(model)), e, 2, 150, len(e.eps))
            for a, p in enumerate(rows):
                for i, ep in enumerate(e.eps):
                    lmin = min(e.prob(o, p, ep) for o in e.outcomes(ep))
                    c.eq(F[:, :, a, i], fi_ref(e, p, ep), 'information in a large batch', tol=1e-5 / lmin, cell=(p, ep))
                    for o in (0, 1):
                        c.eq(q[:, o, a, i], score_ref(e, o, p, ep), 'score in a large batch', tol=1e-6 / lmin, cell=(o, p, ep))
                    c.step()
            c.state('large', e.name, len(rows))
    # a long history
    e = grids()[3]
    with c.case('long history'):
        rows = [e.params[0], e.params[1], e.params[2]] * 20
        u = qi.SMCUpdaterBCRB(e.make(), 60, zoo.ListPrior(rows), adaptive=True, resample_thresh=0.0)
        cur = np.zeros((3, 3)); ad = np.zeros((3, 3)); ws = [1 / 60.0] * 60
        for k in range(30):
            i = 1 + k % 4; o = (k * k) % 2
            F = [fi_ref(e, p, e.eps[i]) for p in rows]
            cur = cur + sum(F) / 60; ad = ad + sum(w * f for w, f in zip(ws, F))
            ws, z = ref_update(ws, [e.prob(o, p, e.eps[i]) for p in rows])
            u.update(o, e.ep_array(u.model, [i]))
        c.eq(u.current_bim, cur, 'information after many data', tol=1e-5)
        c.eq(u.adaptive_bim, ad, 'adaptive information after many data', tol=1e-5)


SCENARIOS = [('analytic%d' % k, s_analytic(k)) for k in range(5)] + [('numeric%d' % k, s_numeric(k)) for k in range(3)] + [
    ('boundary', s_boundary), ('shots', s_shots)] + [('bim%d' % k, s_bim(k)) for k in range(4)] + [('bim_options', s_bim_options), ('large', s_large)]

from . import bulk, edge  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b17)]
BOUNDS += ' Edge configurations: parameter scales from 1e-12 to 1e9, deep retries, objects used before, very many shots, engines, rows or clusters.'
SCENARIOS = SCENARIOS + [('edge', edge.e17)]
SCENARIOS = SCENARIOS + [('edge2', edge.e17b)]
SCENARIOS = SCENARIOS + [('edge3', edge.e17c)]

from . import reuse  # noqa: E402
BOUNDS += ' Every pair of calls on one model, in new and in reused arrays, the second answer against a fresh model.'
SCENARIOS = SCENARIOS + reuse.scenario(('base',), ('score', 'fisher'), 1)

from . import edge2  # noqa: E402
SCENARIOS = SCENARIOS + [('edge4', edge2.f17)]

from . import forms  # noqa: E402
BOUNDS += ' Arguments of equal values in every memory layout: column-major, strided, reversed, padded, read-only, broadcast, smaller integers.'
SCENARIOS = SCENARIOS + forms.scenario(('base',), ('score', 'fisher'), 1)
