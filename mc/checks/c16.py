"""C16: experiment design keeps the best guess; heuristics give legal experiments."""
import itertools, math
import numpy as np
import qinfer as qi
from qinfer.abstract_model import LinearCostModelMixin, FiniteOutcomeModel
from qinfer.expdesign import OptimizationAlgorithms as ALGO
from .. import zoo, core, rng
from ..util import *
from . import c15

BOUNDS = ('Every sequence of up to 3 design steps over guesses, guess forms, remembered or not, restarts and overwriting of '
          'returned arrays without local optimisation, and up to 2 steps with each optimiser, on 5 models, 3 cost forms and '
          'scalar, integer and vector fields, each returned design judged by an independent closed form of the objective; '
          'complete law of the particle guess and ensemble heuristics over all random answers for weighted particle sets '
          'with ties and duplicates; exponential schedules after every history of up to 4 operations.')
ASSUMPTIONS = ['objectives are smooth for the local optimisers', 'local optimisers are SciPy\'s']


class CostInversion(LinearCostModelMixin, qi.SimpleInversionModel):
    _field = 't'


class SquareCost(qi.SimpleInversionModel):
    def experiment_cost(self, ep): return 0.1 + ep['t'] ** 2


class SignedCost(qi.SimpleInversionModel):
    """Cost relative to a budget: of either sign, or zero."""
    def experiment_cost(self, ep): return ep['t'] - 2.5


class VecModel(FiniteOutcomeModel):
    """Two-outcome model whose experiment has a vector field and a fixed one."""
    @property
    def n_modelparams(self): return 2

    @property
    def modelparam_names(self): return ['a', 'b']

    @property
    def expparams_dtype(self): return [('v', 'float', 2), ('s', 'float'), ('n', 'int')]

    @property
    def is_n_outcomes_constant(self): return True

    @property
    def Q(self): return np.array([1.0, 2.0])

    def n_outcomes(self, ep): return 2

    def are_models_valid(self, m): return np.ones(len(m), dtype=bool)

    def likelihood(self, outcomes, mps, eps):
        super(VecModel, self).likelihood(outcomes, mps, eps)
        th = mps[:, 0][:, None] * eps['v'][:, 0][None, :] + mps[:, 1][:, None] * eps['v'][:, 1][None, :] + eps['s'][None, :]
        return FiniteOutcomeModel.pr0_to_likelihood_array(outcomes, np.cos(th) ** 2)


def vec_prob(o, p, ep):
    c2 = math.cos(p[0] * ep[0][0] + p[1] * ep[0][1] + ep[1]) ** 2
    return c2 if o == 0 else 1 - c2


VEC = zoo.Entry('vec', VecModel, [(0.2, 0.1), (0.5, 0.4), (0.9, 0.3), (0.4, 0.8)],
                [((0.6, 0.3), 0.2, 3), ((1.5, 0.2), 0.0, 1), ((0.1, 1.2), 0.5, 7)], lambda ep: [0, 1], vec_prob)
COST = zoo.Entry('costinv', CostInversion, [(0.2,), (0.35,), (0.8,), (0.5,)], [(1.0, 0.3), (2.5, 0.3), (0.5, -0.2), (4.0, 0.1)],
                 lambda ep: [0, 1], zoo.BY['inversion'].prob)
SQ = zoo.Entry('sqcost', SquareCost, COST.params, COST.eps, COST.outcomes, COST.prob)
NEG = zoo.Entry('signedcost', SignedCost, COST.params, COST.eps, COST.outcomes, COST.prob)
INV = zoo.Entry('inv', qi.SimpleInversionModel, [(0.2,), (0.35,), (0.8,), (0.5,)], [(1.0, 0.3), (2.5, 0.3), (0.5, -0.2)],
                lambda ep: [0, 1], zoo.BY['inversion'].prob)
T2 = zoo.Entry('t2', qi.UnknownT2Model, [(0.3, 0.1), (0.6, 0.2), (0.9, 0.05)], [(2.0,), (2.5,), (4.0,)],
               lambda ep: [0, 1], zoo.BY['unknownT2'].prob)
RB = zoo.BY['rb']


def plain_ep(a):
    """Plain tuple of a shape (1,) experiment array."""
    return tuple(tuple(float(x) for x in a[n][0]) if np.ndim(a[n][0]) else a[n][0].item() for n in a.dtype.names)


def cost_of(e, ep):
    return ep[0] if e is COST else ep[0] - 2.5 if e is NEG else 0.1 + ep[0] ** 2 if e is SQ else 1.0


def objective(e, rows, ws, Q, ep, k, mult):
    r = c15.reference(e, rows, ws, ep, Q)[0]
    return r * cost_of(e, ep) ** k if mult else r + k * cost_of(e, ep)


def designed(c, e, model, out, guess, field, what):
    """Shape, type and untouched fields of a design."""
    if not c.ok(isinstance(out, np.ndarray) and out.shape == (1,) and out.dtype == np.dtype(model.expparams_dtype),
                'design is one experiment of the model\'s type', got=out, step=what):
        return None
    for n in out.dtype.names:
        if n != field:
            c.ok(np.array_equal(out[n], guess[n]), 'a field that is not optimised is altered', field=n, got=out, guess=guess)
    return plain_ep(out)


def s_null(ent, fields, costs):
    def f(c):
        e = ent
        rows = e.params[:4]
        model = e.make()
        G = range(min(3, len(e.eps)))
        alpha = [('d', g, form, store) for g in G for form in ('array', 'shared', 'fresh') for store in (True, False)] + [('new',), ('scribble',)]
        depth = 3
        for field in fields:
            for ws in weight_patterns(len(rows))[:2]:
                u = mk(model, rows, ws)
                Q = [float(q) for q in np.asarray(model.Q)]
                J = {}
                for k, mult in costs:
                    for g in G:
                        J[g, k, mult] = objective(e, rows, ws, Q, e.eps[g], k, mult)
                for k, mult in costs:
                    for seq in itertools.product(alpha, repeat=depth):
                        if seq[0][0] != 'd' or (field != fields[0] and len(set(s[0] for s in seq)) > 1 and not c.thorough):
                            continue
                        with c.case('null %s field=%s w=%s k=%s mult=%s %s' % (e.name, field, [round(w, 3) for w in ws], k, mult, seq)):
                            d = qi.ExperimentDesigner(u, ALGO.NULL)
                            best = None
                            last = None
                            shared = {g: e.ep_array(model, [g]) for g in G}
                            for op in seq:
                                if op[0] == 'new':
                                    d.new_exp(); best = None
                                elif op[0] == 'scribble':
                                    if last is not None:
                                        for n in last.dtype.names:
                                            last[n] = 77
                                else:
                                    _, g, form, store = op
                                    src = e.ep_array(model, [g]); keep = src.copy()
                                    arg = src if form == 'array' else (lambda idx_exp, mean, cov, a=src: a.copy()) if form == 'fresh' \
                                        else (lambda idx_exp, mean, cov, a=shared[g]: a)
                                    last = d.design_expparams_field(arg, field, cost_scale_k=k, cost_mult=mult, store_guess=store)
                                    c.ok(np.array_equal(src, keep) and np.array_equal(shared[g], keep), 'the guess is not modified', op=op)
                                    got = plain_ep(last)
                                    if store:
                                        if best is None or J[g, k, mult] < J[best, k, mult]:
                                            best = g
                                        want = best
                                    else:
                                        want = g
                                    wep = plain_ep(e.ep_array(model, [want]))
                                    if got != wep and not (store and any(got == plain_ep(e.ep_array(model, [h])) and
                                                                         abs(J[h, k, mult] - J[want, k, mult]) < 1e-12 for h in G)):
                                        c.fail('design is not the best of the remembered guesses', got=got, want=wep, step=op, objectives=J)
                                    c.ok(last.dtype == np.dtype(model.expparams_dtype) and last.shape == (1,), 'typed as the model demands')
                                c.step()
                            c.trace(); c.state('null', e.name, field, seq, ws, k, mult)
    return f


def s_opt(algo, name):
    def f(c):
        for e, fields in ((INV, ('t', 'w_')), (SQ, ('t',)), (T2, ('t',)), (VEC, ('v', 's'))):
            rows = e.params
            model = e.make()
            for ws in weight_patterns(len(rows))[:2]:
                u = mk(model, rows, ws)
                before = snap(u)
                Q = [float(q) for q in np.asarray(model.Q)]
                for field in fields:
                    for k, mult in ((1.0, False), (0.01, False), (0.5, True)) if e is SQ else ((1.0, False),):
                        def J(ep): return objective(e, rows, ws, Q, ep, k, mult)
                        G = range(min(3, len(e.eps)))
                        opts = {'CG': dict(maxiter=20), 'NCG': dict(maxfun=60, grad_h=1e-6), 'NELDER_MEAD': dict(maxiter=25, maxfun=60)}[name]
                        cand = {}
                        for g in G:
                            with c.case('%s %s %s w=%s k=%s mult=%s guess %d' % (name, e.name, field, [round(w, 3) for w in ws], k, mult, g)):
                                src = e.ep_array(model, [g]); keep = src.copy()
                                out = qi.ExperimentDesigner(u, algo).design_expparams_field(src, field, cost_scale_k=k, cost_mult=mult, **opts)
                                c.ok(np.array_equal(src, keep), 'the guess is not modified')
                                ep = designed(c, e, model, out, keep, field, g)
                                cand[g] = ep
                                j, j0 = J(ep), J(plain_ep(keep))
                                c.ok(j <= j0 + 1e-9, 'the optimised design is worse than the guess', got=j, guess=j0, ep=ep)
                                # a guess that is clearly not stationary has to be improved
                                h = 1e-3
                                i = out.dtype.names.index(field)
                                def shift(q, dv):
                                    q = list(q)
                                    q[i] = tuple(x + y for x, y in zip(q[i], dv)) if isinstance(q[i], tuple) else q[i] + dv[0]
                                    return tuple(q)
                                dim = len(ep[i]) if isinstance(ep[i], tuple) else 1
                                slopes = []
                                for a in range(dim):
                                    dv = [0.0] * dim; dv[a] = h
                                    slopes.append(abs(J(shift(plain_ep(keep), dv)) - J(shift(plain_ep(keep), [-x for x in dv]))) / (2 * h))
                                if max(slopes) > 0.01:
                                    c.ok(j < j0 - 1e-6, 'a guess off the optimum is not improved', got=j, guess=j0)
                                c.step(); c.state(name, e.name, field, k, mult, g, ws)
                        if len(cand) < len(G) or any(v is None for v in cand.values()):
                            continue
                        for seq in itertools.product([(g, s) for g in G for s in (True, False)] + [('new',)], repeat=3 if c.thorough else 2):
                            if seq[0] == ('new',):
                                continue
                            with c.case('%s %s %s w=%s k=%s mult=%s sequence %s' % (name, e.name, field, [round(w, 3) for w in ws], k, mult, seq)):
                                d = qi.ExperimentDesigner(u, algo)
                                best = None
                                for op in seq:
                                    if op == ('new',):
                                        d.new_exp(); best = None
                                        continue
                                    g, store = op
                                    out = d.design_expparams_field(e.ep_array(model, [g]), field, cost_scale_k=k, cost_mult=mult,
                                                                   store_guess=store, **opts)
                                    j = J(cand[g])
                                    if store and best is not None and best[0] < j:
                                        want = best[1]
                                    else:
                                        want = cand[g]
                                    if store:
                                        best = (J(want), want)
                                    got = plain_ep(out)
                                    jj = J(got)
                                    c.ok(abs(jj - J(want)) <= 1e-7, 'design is not the best of the remembered candidates', got=got, want=want, J=jj, Jwant=J(want))
                                    if got != want:
                                        # ties may go either way, but the design has to be one that was compared
                                        c.ok(any(np.allclose(flat(got), flat(v), rtol=1e-6, atol=1e-8) for v in cand.values()), 'design was never compared', got=got)
                                    c.step()
                                c.trace()
                diff = same_snap(before, snap(u))
                c.ok(diff is None, 'design changes the inference', differs=diff)
    return f


def flat(ep):
    out = []
    for v in ep:
        out.extend(v if isinstance(v, tuple) else [v])
    return out


def s_callable(c):
    """Callable guesses are told the progress and the present moments, also with optimisers."""
    for e, field in ((INV, 't'), (VEC, 'v'), (T2, 't')):
        for algo, kw in ((ALGO.NULL, {}), (ALGO.CG, dict(maxiter=5)), (ALGO.NCG, dict(maxfun=20)), (ALGO.NELDER_MEAD, dict(maxiter=5))):
            for n in range(3):
                with c.case('callable %s algo=%s n=%d' % (e.name, algo, n)):
                    u = mk(e.make(), e.params, resample_thresh=0.0)
                    for i in range(n):
                        u.update(i % 2, e.ep_array(u.model, [i % 2]))
                    seen = []
                    def guess(idx_exp, mean, cov):
                        seen.append((idx_exp, mean, cov))
                        return e.ep_array(u.model, [0])
                    out = qi.ExperimentDesigner(u, algo).design_expparams_field(guess, field, **kw)
                    ref = qi.ExperimentDesigner(u, algo).design_expparams_field(e.ep_array(u.model, [0]), field, **kw)
                    c.ok(len(seen) == 1, 'the guess function is called once', got=len(seen))
                    c.ok(seen[0][0] == n, 'number of data seen')
                    c.eq(seen[0][1], u.est_mean(), 'mean given to the guess function')
                    c.eq(seen[0][2], u.est_covariance_mtx(), 'covariance given to the guess function')
                    c.eq(flat(plain_ep(out)), flat(plain_ep(ref)), 'same design as for the array', tol=1e-6)
                    c.step(2); c.trace(); c.state('callable', e.name, algo, n)
    for bad in (-1, 4, 17, 'CG', None):
        with c.case('unknown algorithm %r' % (bad,)):
            u = mk(INV.make(), INV.params)
            try:
                qi.ExperimentDesigner(u, bad)
                c.fail('an unknown optimisation algorithm is accepted')
            except ValueError:
                pass


def s_sparse(c):
    """t_k = A b^k with k the number of data seen, whatever happened in between."""
    P, I, R = zoo.BY['precession'], zoo.BY['inversion'], zoo.BY['rb_il']
    ops = ['u0', 'u1', 'b2', 'b3', 'r', 'h', 'x']
    for e, tf, others in ((P, None, [None]), (I, 't', [{'w_': 0.5}, {'w_': -1.25}]), (zoo.BY['unknownT2'], 't', [None, {}]),
                          (R, 'm', [{'reference': True}, {'reference': False}]), (zoo.binomial(P), 'x', [{'n_meas': 3}]),
                          (zoo.binomial(I), 't', [{'n_meas': 7, 'w_': 0.25}])):
        for scale, base in ((1, 9 / 8.), (3.5, 2), (2, 3), (1, 1), (0.1, 1.5)):
            for other in others:
                for n in range(0, 4 if not c.thorough else 5):
                    for hist in itertools.product(ops, repeat=n):
                        if n == 3 and (scale, base) != (3.5, 2) and not c.thorough:
                            continue
                        with c.case('sparse %s A=%s b=%s other=%s %s' % (e.name, scale, base, other, hist)):
                            u = mk(e.make(), e.params[:3], resample_thresh=0.0, zero_weight_policy='skip')
                            kw = {} if other is None else dict(other_fields=other)
                            heur = qi.ExpSparseHeuristic(u, scale=scale, base=base, t_field=tf, **kw)
                            default = qi.ExpSparseHeuristic(u, t_field=tf, **kw)
                            k = 0
                            E = e.ep_array(u.model, [0])
                            for op in hist:
                                if op[0] == 'u':
                                    u.update(int(op[1]), E); k += 1
                                elif op[0] == 'b':
                                    m = int(op[1])
                                    u.batch_update(np.arange(m) % 2, np.repeat(E, m)); k += m
                                elif op == 'r':
                                    with core.controlled(core.cycle_stream(3)):
                                        u.resample()
                                elif op == 'h':
                                    u.hypothetical_update(np.array([0, 1]), E)
                                elif op == 'x':
                                    heur(); heur()
                                c.step()
                            c.trace(); c.state('sparse', e.name, scale, base, k, other)
                            for h, A, b in ((heur, scale, base), (default, 1, 1.125)):
                                out = h()
                                dt = np.dtype(u.model.expparams_dtype)
                                if not c.ok(out.shape == (1,) and out.dtype == dt, 'one experiment of the model\'s type', got=out):
                                    break
                                want = np.array(A * b ** k).astype(out.dtype if tf is None else dt[tf])
                                c.eq(out[0] if tf is None else out[tf][0], want, 'time of the schedule', k=k)
                                for n_, v in (other or {}).items():
                                    c.ok(out[n_][0] == v, 'other fields as given', field=n_, got=out)


class QInv(qi.SimpleInversionModel):
    @property
    def Q(self): return np.array([4.0])


class Multi(VecModel):
    """Two-parameter model whose inversion field is a vector."""
    @property
    def expparams_dtype(self): return [('x_', 'float', 2), ('t', 'float'), ('n', 'int'), ('flag', 'bool')]

    def likelihood(self, outcomes, mps, eps):
        super(VecModel, self).likelihood(outcomes, mps, eps)
        return 0.5 * np.ones((len(outcomes), len(mps), len(eps)))


def s_pgh(part):
    def f(c):
        sets1 = [[0.25, 0.5, 1.0, 2.0], [0.25, 0.25, 1.0, 2.0], [0.5, 0.5, 0.5, 1.5], [1.0, 1.0], [0.3, 0.7], [0.1, 0.1, 0.1, 0.1]]
        sets2 = [[(0, 0), (1, 0), (1, 2), (3, 1)], [(0, 1), (0, 1), (1, 1), (0, 2)], [(1, 2), (1, 2)], [(2, 1), (1, 2)]]
        wp4 = [[.25] * 4, [.5, .25, .25, 0], [0, .25, .75, 0], [0, 0, 1, 0]]
        wp2 = [[.5, .5], [.25, .75], [1, 0]]
        cases = []
        for m, q, xs in [(qi.SimpleInversionModel, [1.0], sets1), (QInv, [4.0], sets1), (Multi, [1.0, 2.0], sets2)]:
            for s in xs:
                for w in (wp4 if len(s) == 4 else wp2):
                    cases.append((m, q, s, w))
        for ic, (m, q, s, w) in enumerate(cases):
            if ic % 4 != part:
                continue
            rows = [(x,) if np.ndim(x) == 0 else tuple(x) for x in s]
            for maxit in ((1, 2, 3) if c.thorough or len(s) == 4 and ic % 3 == 0 else (1, 2)):
                for variant in (0, 1, 2):
                    with c.case('pgh %s rows=%s w=%s maxiters=%d variant=%d' % (m.__name__, s, w, maxit, variant)):
                        model = m()
                        u = mk(model, rows, w)
                        kw = {}
                        inv = t = lambda v: v
                        if variant:
                            inv, t = (lambda v: 3 * v + 1), (lambda v: v / 2)
                            kw = dict(inv_func=inv, t_func=t)
                        xf = 'w_' if m is not Multi else 'x_'
                        if m is Multi:
                            kw['other_fields'] = {'n': 5, 'flag': True} if variant != 2 else {'n': -1, 'flag': False}
                        elif variant == 2:
                            kw['other_fields'] = {'w_': 9.0}       # documented: values set for other fields
                        before = snap(u)
                        h = qi.PGH(u, inv_field=xf, t_field='t', maxiters=maxit, **kw)
                        def D(a, b): return sum(qq * abs(x - y) for qq, x, y in zip(q, rows[a], rows[b]))
                        same = sum(w[i] * w[j] for i in range(len(w)) for j in range(len(w)) if D(i, j) == 0)
                        want = {}
                        for i in range(len(w)):
                            for j in range(len(w)):
                                if D(i, j) > 0 and w[i] * w[j] > 0:
                                    x = inv(np.array(rows[i])); tt = float(t(1 / D(i, j)))
                                    if m is not Multi and variant == 2:
                                        x = np.array([9.0])
                                    k = (tuple(np.round(x, 9)), round(tt, 9))
                                    want[k] = want.get(k, 0) + w[i] * w[j] * sum(same ** r for r in range(maxit))
                        got = {}
                        fails = 0.0
                        for res, p, ch in core.explore(h, n_u=4):
                            c.step(max(1, len(ch))); c.trace()
                            if isinstance(res, core.Raised):
                                if not isinstance(res.e, RuntimeError):
                                    c.fail('unexpected %r' % res)
                                    break
                                fails += p
                                continue
                            c.ok(res.shape == (1,) and res.dtype == np.dtype(model.expparams_dtype), 'one experiment of the model\'s type', got=res)
                            k = (tuple(np.round(np.atleast_1d(res[xf][0]), 9)), round(float(res['t'][0]), 9))
                            got[k] = got.get(k, 0) + p
                            if m is Multi:
                                c.ok(res['n'][0] == kw['other_fields']['n'] and bool(res['flag'][0]) == kw['other_fields']['flag'], 'other fields as given', got=res)
                        c.ok(set(got) == set(want), 'experiments that occur', extra=set(got) - set(want), missing=set(want) - set(got))
                        for k in want:
                            c.ok(abs(got.get(k, 0) - want[k]) < 1e-9, 'probability of the experiment', ep=k, got=got.get(k), want=want[k])
                            c.state('pgh', m.__name__, s, w, maxit, variant, k)
                        c.ok(abs(fails - same ** maxit) < 1e-9, 'probability of giving up', got=fails, want=same ** maxit)
                        d = same_snap(before, snap(u))
                        c.ok(d is None, 'the heuristic changes the inference', differs=d)
    return f


def s_ensemble(c):
    e = zoo.BY['inversion']
    for prs in ([1.0], [0.5, 0.5], [0.25, 0.5, 0.25], [0.0, 1.0], [0.125, 0.375, 0.0, 0.5]):
        for nargs in (0, 1, 2):
            with c.case('ensemble %s nargs=%d' % (prs, nargs)):
                calls = []
                def mkh(i):
                    def h(*a):
                        calls.append((i, a))
                        return ('design', i, a)
                    return h
                h = qi.expdesign.EnsembleHeuristic([(mkh(i), p) for i, p in enumerate(prs)])
                args = tuple(range(nargs))
                law = {}
                for res, p, ch in c.explore(lambda: (h(*args), len(calls)), n_u=8):
                    c.ok(res[0] == ('design', res[0][1], args), 'the chosen heuristic is called with the arguments', got=res)
                    law[res[0][1]] = law.get(res[0][1], 0) + p
                for i, p in enumerate(prs):
                    c.ok(abs(law.get(i, 0) - p) < 1e-9, 'probability of a member', i=i, got=law.get(i, 0), want=p)
                    c.state('ens', prs, nargs, i)
    # of real heuristics: one shared updater
    with c.case('ensemble of real heuristics'):
        u = mk(e.make(), [(0.25,), (0.75,), (1.25,), (2.0,)])
        h = qi.expdesign.EnsembleHeuristic([(qi.PGH(u, inv_field='w_', maxiters=1), 0.5), (qi.ExpSparseHeuristic(u, t_field='t', other_fields={'w_': 0.375}), 0.5)])
        tot = {}
        for res, p, ch in core.explore(h, n_u=4):
            kind = 'none' if isinstance(res, core.Raised) else 'sparse' if abs(res['t'][0] - 1.0) < 1e-12 and res['w_'][0] == 0.375 else 'pgh'
            tot[kind] = tot.get(kind, 0) + p
        c.eq([tot.get(k, 0) for k in ('sparse', 'pgh', 'none')], [0.5, 0.375, 0.125], 'shares of the members')


def s_loop(c):
    """The adaptive loop: design with several remembered guesses, update, restart."""
    e = INV
    for algo, nm, kw in ((ALGO.NULL, 'null', {}), (ALGO.CG, 'cg', dict(maxiter=5)), (ALGO.NELDER_MEAD, 'nm', dict(maxiter=8))):
        for order in itertools.permutations(range(3)):
            for data in itertools.product([0, 1], repeat=3):
                with c.case('loop %s order=%s data=%s' % (nm, order, data)):
                    rows = e.params
                    u = mk(e.make(), rows, resample_thresh=0.0)
                    d = qi.ExperimentDesigner(u, algo)
                    ws = [0.25] * 4
                    for o in data:
                        d.new_exp()
                        best = None
                        for g in order:
                            out = d.design_expparams_field(e.ep_array(u.model, [g]), 't', store_guess=True, **kw)
                            if algo == ALGO.NULL:
                                j = objective(e, rows, ws, [1.0], e.eps[g], 1.0, False)
                            else:
                                solo = qi.ExperimentDesigner(u, algo).design_expparams_field(e.ep_array(u.model, [g]), 't', **kw)
                                j = objective(e, rows, ws, [1.0], plain_ep(solo), 1.0, False)
                            best = j if best is None else min(best, j)
                            c.ok(abs(objective(e, rows, ws, [1.0], plain_ep(out), 1.0, False) - best) < 1e-8, 'best of the guesses so far', got=out)
                            c.step()
                        ep = plain_ep(out)
                        ws, z = ref_update(ws, [e.prob(o, r, ep) for r in rows])
                        u.update(o, out)
                        c.eq(u.particle_weights, ws, 'posterior after the designed experiment', tol=1e-7)
                    c.trace(); c.state('loop', nm, order, data)


ADD = [(1.0, False), (0.25, False), (0.5, True), (2, True)]
SCENARIOS = [('null_inv', s_null(INV, ['t', 'w_'], [(1.0, False)])), ('null_cost', s_null(COST, ['t'], [(0.01, False), (0.5, True)])),
             ('null_signed', s_null(NEG, ['t'], [(1.0, False), (1, True)])),
             ('null_vec', s_null(VEC, ['v', 's', 'n'], [(1.0, False)])), ('null_rb', s_null(RB, ['m'], [(1.0, False)])),
             ('cg', s_opt(ALGO.CG, 'CG')), ('ncg', s_opt(ALGO.NCG, 'NCG')), ('nelder_mead', s_opt(ALGO.NELDER_MEAD, 'NELDER_MEAD')),
             ('callable', s_callable), ('sparse', s_sparse)] + [('pgh%d' % k, s_pgh(k)) for k in range(4)] + [('ensemble', s_ensemble), ('loop', s_loop)]

from . import bulk, edge  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b16)]
BOUNDS += ' Edge configurations: parameter scales from 1e-12 to 1e9, deep retries, objects used before, very many shots, engines, rows or clusters.'
SCENARIOS = SCENARIOS + [('edge', edge.e16)]
