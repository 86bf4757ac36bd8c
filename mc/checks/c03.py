"""C03: queries never change the inference; nothing aliases or leaks between updaters or into caller arrays."""
import itertools, copy, math
import numpy as np
import qinfer as qi
from .. import zoo, core, rng
from ..util import *

BOUNDS = ('Every pair of queries with nine sequences of operations between them: the second answer against a fresh updater. Every query of a list of about 45 at every position of every history of length 3 on seven models; every '
          'argument array of every model method compared before and after; every interleaving of two histories of '
          'length 3-4 on two updaters sharing a model, prior and resampler.')
ASSUMPTIONS = ['random answers are supplied per updater, so interleavings may only differ by shared state']


def twod():
    r = [(0.9, 0.05), (1.1, 0.3), (1.4, 0.1), (0.7, 0.4), (1.25, 0.22), (1.0, 0.15)]
    return zoo.Entry('t2six', lambda: qi.UnknownT2Model(), r, [(1.0,), (2.0,), (0.5,)], lambda ep: [0, 1], zoo.BY['unknownT2'].prob)


def rbsix():
    r = [(0.9, 0.3, 0.5), (0.95, 0.2, 0.45), (0.8, 0.35, 0.52), (0.85, 0.25, 0.4), (0.7, 0.28, 0.47), (0.99, 0.31, 0.44)]
    return zoo.Entry('rbsix', lambda: qi.RandomizedBenchmarkingModel(), r, [(1,), (2,), (6,)], lambda ep: [0, 1], zoo.BY['rb'].prob)


def ents():
    return [zoo.BY['table3'], zoo.BY['precession'], twod(), rbsix(), zoo.binomial(zoo.BY['coin'], (2, 3)),
            zoo.multinomial(zoo.BY['ndie3'], (2,)), zoo.gwalk_learn(zoo.BY['precession']), zoo.mle(twod(), 2)]


def mean_sq(x):
    return x ** 2


def consume(r):
    """Exhaust generators and scribble over every returned array."""
    if hasattr(r, '__next__'):
        r = list(r)
    if isinstance(r, np.ndarray):
        if r.flags.writeable and r.dtype.kind in 'fciub':
            r[...] = 1
    elif isinstance(r, (list, tuple)):
        for x in r:
            consume(x)
        if isinstance(r, list):
            del r[:]
    return None


def ask(q, u):
    """A query may refuse (e.g. the hull of a flat set), but must not change anything."""
    try:
        consume(q(u))
    except Exception:
        return 1
    return 0


def queries(e, model, dim):
    eps = e.ep_array(model)
    outs = e.outcomes(e.eps[0])
    oa = e.out_array(model, outs)
    q = {
        'est_mean': lambda u: u.est_mean(),
        'est_cov': lambda u: u.est_covariance_mtx(),
        'est_corr': lambda u: u.est_covariance_mtx(corr=True),
        'meanfn': lambda u: u.est_meanfn(mean_sq),
        'entropy': lambda u: u.est_entropy(),
        'kl': lambda u: u.est_kl_divergence(qi.ParticleDistribution(particle_locations=u.particle_locations + 0.1, particle_weights=u.particle_weights)),
        'n_ess': lambda u: (u.n_ess, u.n_particles, u.n_rvs),
        'region': lambda u: u.est_credible_region(level=0.7),
        'region_out': lambda u: u.est_credible_region(level=0.5, return_outside=True),
        'region_slice': lambda u: u.est_credible_region(level=0.5, modelparam_slice=[0]),
        'region_slice2': lambda u: u.est_credible_region(level=0.5, modelparam_slice=slice(0, 1), return_outside=True),
        'hyp': lambda u: u.hypothetical_update(oa, eps[:1]),
        'hyp_all': lambda u: u.hypothetical_update(oa, eps[:1], return_likelihood=True, return_normalization=True),
        'risk': lambda u: u.bayes_risk(eps),
        'risk1': lambda u: u.bayes_risk(eps[:1]),
        'eig': lambda u: u.expected_information_gain(eps),
        'sample': lambda u: u.sample(3),
        'sample1': lambda u: u.sample(),
        'marginal': lambda u: u.posterior_marginal(0, res=11),
        'marginal_s': lambda u: u.posterior_marginal(0, res=11, smoothing=0.1, range_min=0, range_max=4),
        'data': lambda u: u.data_record,
        'loglik': lambda u: u.log_total_likelihood,
        'html': lambda u: u._repr_html_(),
        'likelihood': lambda u: model.likelihood(oa, u.particle_locations, eps[:1]),
        'simulate': lambda u: model.simulate_experiment(u.particle_locations, eps, repeat=2),
        'valid': lambda u: np.array(model.are_models_valid(u.particle_locations)),
        'distance': lambda u: model.distance(u.particle_locations, u.particle_locations[:1]),
        'timestep': lambda u: model.update_timestep(u.particle_locations, eps),
        'canonicalize': lambda u: np.array(model.canonicalize(u.particle_locations)),
        'domain': lambda u: [d.values for d in model.domain(eps)] and None,
        'n_outcomes': lambda u: np.array(model.n_outcomes(eps)),
        'representative': lambda u: model.representative_outcomes(u.particle_weights, u.particle_locations, eps[:1]) if hasattr(model, 'representative_outcomes') else None,
        'experiment_cost': lambda u: model.experiment_cost(eps),
        'design': lambda u: (lambda d: (d.new_exp(), d.design_expparams_field(np.array([e.eps[0]], dtype=model.expparams_dtype), model.expparams_dtype[0][0] if not isinstance(model.expparams_dtype, str) else 'x', cost_scale_k=1.0, maxiter=2)) and None)(qi.ExperimentDesigner(u)),
        'marginal_plot': lambda u: u.plot_posterior_marginal(0, res=5, true_model=u.particle_locations[:1]) and None,
        'resampler': lambda u: (lambda d: (d.particle_locations, d.particle_weights))(qi.LiuWestResampler(a=0.9, postselect=False)(model, u)),
        'resampler_n': lambda u: (lambda d: (d.particle_locations, d.particle_weights))(qi.LiuWestResampler(a=1.0, h=0.0, postselect=False)(model, u, n_particles=2)),
        'clusters': lambda u: list(u.est_cluster_moments()) and None,
        'particle_mean': lambda u: u.particle_mean(u.particle_weights, u.particle_locations),
        'particle_cov': lambda u: u.particle_covariance_mtx(u.particle_weights, u.particle_locations),
    }
    if dim >= 2:
        q.update({
            'hull': lambda u: u.region_est_hull(level=0.999, modelparam_slice=slice(0, 2)),
            'ellipsoid': lambda u: u.region_est_ellipsoid(level=0.999, tol=0.01, modelparam_slice=slice(0, 2)),
            'in_pce': lambda u: u.in_credible_region(u.particle_locations[:, :2], level=0.9, modelparam_slice=slice(0, 2), method='pce'),
            'in_hull': lambda u: u.in_credible_region(u.particle_locations[:, :2], level=0.999, modelparam_slice=slice(0, 2), method='hpd-hull', tol=None),
            'in_hull_tol': lambda u: u.in_credible_region(u.particle_locations[:, :2], level=0.999, modelparam_slice=slice(0, 2), method='hpd-hull', tol=0.01),
            'in_mvee': lambda u: u.in_credible_region(u.particle_locations[:, :2], level=0.999, modelparam_slice=slice(0, 2), method='hpd-mvee', tol=0.01),
            'mesh': lambda u: u.posterior_mesh(0, 1, res1=5, res2=4, smoothing=0.1),
            'contour_plot': lambda u: u.plot_posterior_contour(0, 1, res1=5, res2=4, smoothing=0.1) and None,
        })
    if hasattr(model, 'fisher_information') and 'diff' in e.tags and 'derived' not in e.tags:
        q['fisher'] = lambda u: model.fisher_information(u.particle_locations, eps)
        q['score'] = lambda u: model.score(oa, u.particle_locations, eps)
    return q


SLOW = {'covariance_plot', 'marginal_plot', 'contour_plot', 'clusters'}


def s_query(idx):
    def f(c):
        e = ents()[idx]
        model = e.make()
        dim = len(e.params[0])
        qs = queries(e, model, dim)
        pairs = [(o, i) for i in range(min(2, len(e.eps))) for o in e.outcomes(e.eps[i])]
        n = len(e.params)
        ws = weight_patterns(n)[1]
        hists = list(itertools.product(range(len(pairs)), repeat=2))
        if len(hists) > 16:
            hists = hists[::len(hists) // 16]
        refused = [0]

        def do(u, k, stream):
            with core.controlled(stream):
                if k == 'R':
                    u.resample()
                else:
                    o, i = pairs[k]
                    u.update(e.out_array(model, [o]) if isinstance(o, tuple) else o, e.ep_array(model, [i]))
        for hist in hists:
            seq = list(hist) + ['R', hist[0]]
            kw = dict(resample_thresh=0.0, resampler=qi.LiuWestResampler(a=0.95), track_resampling_divergence=True,
                      zero_weight_policy='skip')

            def run(q=None, pos=None):
                u = mk(model, e.params, ws, **kw)
                st = core.cycle_stream(3)
                sn = []
                for k, op in enumerate(seq):
                    if pos == k:
                        a = snap(u)
                        np.seterr(all='ignore')
                        with core.controlled(core.cycle_stream(99)):
                            refused[0] += ask(qs[q], u)
                        bad = same_snap(a, snap(u))
                        c.ok(bad is None, 'query %s changed %s' % (q, bad), before=a, after=snap(u))
                    do(u, op, st)
                    sn.append(snap(u))
                if pos == len(seq):
                    refused[0] += ask(qs[q], u)
                    sn[-1] = snap(u)
                return sn
            ref = run()
            c.state(e.name, ref[-1]['w'], ref[-1]['x'])
            for q in qs:
                if q in SLOW and hist != hists[0]:
                    continue
                for pos in range(len(seq) + 1):
                    if q in SLOW and pos not in (1, len(seq)):
                        continue
                    with c.case('%s %s hist=%s at %d' % (e.name, q, hist, pos)):
                        got = run(q, pos)
                        c.step(len(seq) + 1); c.trace()
                        for k, (a, b) in enumerate(zip(ref, got)):
                            bad = same_snap(a, b)
                            if not c.ok(bad is None, 'history with query %s differs in %s after step %d' % (q, bad, k), want=a, got=b):
                                break
        c.notes['refused'] = refused[0]
        import matplotlib.pyplot as plt
        plt.close('all')
        c.sample('%s: %d queries x %d histories' % (e.name, len(qs), len(hists)))
    return f


def arr_copy(a):
    return copy.deepcopy(a)


def arr_same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    if a.dtype.names:
        return all(np.array_equal(a[n], b[n]) for n in a.dtype.names)
    return np.array_equal(a, b)


def s_args(c):
    """Arrays given by the caller are never modified, nor returned as the result of an operation on them."""
    for e in zoo.all_finite(depth2=c.thorough) + [zoo.mle(zoo.BY['coin'], 2)]:
        model = e.make()
        mps = e.mps()
        eps = e.ep_array(model)
        ne = min(3, len(eps))
        outs = e.out_array(model, e.outcomes(e.eps[0]))
        calls = {
            'likelihood': (lambda: model.likelihood(outs, mps, eps[:1])),
            'likelihood_multi': (lambda: model.likelihood(outs[:1], mps, eps)),
            'simulate': (lambda: model.simulate_experiment(mps, eps, repeat=2)),
            'valid': (lambda: model.are_models_valid(mps)),
            'timestep': (lambda: model.update_timestep(mps, eps[:ne])),
            'canonicalize': (lambda: model.canonicalize(mps)),
            'domain': (lambda: model.domain(eps)),
            'n_outcomes': (lambda: model.n_outcomes(eps)),
            'cost': (lambda: model.experiment_cost(eps)),
            'distance': (lambda: model.distance(mps, mps)),
            'is_model_valid': (lambda: [model.are_models_valid(mps[k:k + 1]) for k in range(len(mps))]),
        }
        if hasattr(model, 'fisher_information') and 'diff' in e.tags and 'derived' not in e.tags:
            calls['fisher'] = lambda: model.fisher_information(mps[:1], eps[:2])
            calls['score'] = lambda: model.score(outs, mps[:1], eps[:2])
        for name, f in calls.items():
            with c.case('%s %s keeps its arguments' % (e.name, name)):
                pre = (arr_copy(outs), arr_copy(mps), arr_copy(eps))
                with core.controlled(core.cycle_stream(2)):
                    r = f()
                c.ok(arr_same(pre[0], outs), '%s changed the outcomes' % name)
                c.ok(arr_same(pre[1], mps), '%s changed the parameters' % name, want=pre[1], got=mps)
                c.ok(arr_same(pre[2], eps), '%s changed the experiments' % name)
                if name in ('timestep', 'likelihood', 'likelihood_multi') and isinstance(r, np.ndarray):
                    c.ok(not np.shares_memory(r, mps), '%s returns memory of its argument' % name)
                c.step(); c.trace(); c.state(e.name, name)
        # updaters: outcome, experiment, prior arrays
        rows = np.array(e.params)
        with c.case('%s updater keeps its arguments' % e.name):
            pr = zoo.ListPrior(rows)
            u = qi.SMCUpdater(model, len(rows), pr, resample_thresh=0.0, zero_weight_policy='skip')
            w0 = np.array(weight_patterns(len(rows))[1])
            u.particle_weights = w0.copy()
            pre = (arr_copy(outs), arr_copy(eps), arr_copy(pr._rows))
            with core.controlled(core.cycle_stream(2)):
                for i in range(len(eps)):
                    for o in range(len(e.outcomes(e.eps[i]))):
                        oi = e.out_array(model, e.outcomes(e.eps[i])[o:o + 1])
                        oc = arr_copy(oi)
                        u.update(oi, eps[i:i + 1])
                        c.ok(arr_same(oi, oc), 'update changed the outcome')
                        c.step()
                oo = e.out_array(model, [e.outcomes(ep)[0] for ep in e.eps])
                oc = arr_copy(oo)
                u.batch_update(oo, eps)
                c.ok(arr_same(oo, oc), 'batch_update changed the outcomes')
                u.resample()
                u.reset()
            c.ok(arr_same(pre[1], eps), 'updates changed the experiments')
            c.ok(arr_same(pre[2], pr._rows), 'the updater changed the prior')
            c.trace()
    # prior handing out its own array, initial weights given by the caller, resampler arguments
    class Own(zoo.ListPrior):
        def sample(self, n=1):
            return self._rows
    for can in (True, False):
        with c.case('prior handing out its own array canonicalize=%s' % can):
            m = zoo.TableModel(zoo.TABLE3, [3, 3])
            pr = Own([0.0, 1.0, 2.0, 3.0])
            us = [qi.SMCUpdater(m, 4, pr, canonicalize=can, resampler=RotResampler(), resample_thresh=0.0) for _ in range(2)]
            us[0].resample()
            us[0].particle_locations[:] = 0
            c.eq(us[1].particle_locations[:, 0], np.arange(4.0), 'locations of another updater')
            c.eq(pr._rows[:, 0], np.arange(4.0), 'array of the prior')
            us[1].reset(); us[1].particle_locations[:] = 5
            c.eq(pr._rows[:, 0], np.arange(4.0), 'array of the prior after a reset')
            c.trace()
    for adaptive, k in itertools.product((True, False), (0, 1, 3)):
        with c.case('initial information matrix adaptive=%s data=%d' % (adaptive, k)):
            b = np.array([[4.0]])
            with core.controlled(core.cycle_stream(7)):
                u = qi.SMCUpdaterBCRB(qi.SimplePrecessionModel(), 6, qi.NormalDistribution(0.5, 0.01), initial_bim=b, adaptive=adaptive, resample_thresh=0.0)
                for i in range(k):
                    u.update(i % 2, np.array([1.0 + i]))
                r = u.current_bim; r[:] = 99
                if adaptive: r = u.adaptive_bim; r[:] = 99
            c.ok(b[0, 0] == 4.0, 'the updater changed the information matrix given', got=b)
            c.ok(u.current_bim[0, 0] != 99, 'overwriting a returned matrix changed the updater')
            c.trace(); c.step(k + 1)
    for nrows in (1, 2, 5):
        with c.case('ParticleDistribution keeps the weights given %d' % nrows):
            w = np.arange(1.0, nrows + 1)
            w[0] = -1.0
            x = np.arange(2.0 * nrows).reshape(nrows, 2)
            w0, x0 = w.copy(), x.copy()
            d = qi.ParticleDistribution(particle_locations=x, particle_weights=w)
            d.sample(5); d.est_mean(); d.est_covariance_mtx(corr=nrows > 2); d.est_credible_region(0.5)
            s = d.sample(4); s[:] = 9
            c.ok(arr_same(w, w0) and arr_same(x, x0), 'distribution changed its arguments')
            c.eq(d.particle_weights, np.abs(w0) / np.abs(w0).sum(), 'weights')
            for post in (True, False):
                m = zoo.TableModel(zoo.TABLE3, [3, 3], n_params=2)
                wz, xz = d.particle_weights.copy(), d.particle_locations.copy()
                mean, cov = d.est_mean(), d.est_covariance_mtx()
                mc, cc = mean.copy(), cov.copy()
                with core.controlled(core.cycle_stream(7)):
                    for n in (None, 1, 7):
                        r = qi.LiuWestResampler(a=0.9, postselect=post, maxiter=3)(m, d, n_particles=n, precomputed_mean=mean, precomputed_cov=cov)
                        c.ok(arr_same(wz, d.particle_weights) and arr_same(xz, d.particle_locations), 'resampler changed its argument')
                        c.ok(arr_same(mc, mean) and arr_same(cc, cov), 'resampler changed the moments given')
                        c.ok(not np.shares_memory(r.particle_locations, d.particle_locations), 'resampler returns memory of its argument')
                        c.step()
            c.trace()


def interleavings(a, b):
    for pos in itertools.combinations(range(a + b), a):
        yield ['A' if k in pos else 'B' for k in range(a + b)]


def s_interleave(c):
    """Two updaters sharing model, prior and resampler: each behaves as if alone."""
    ents_ = [zoo.BY['table3'], zoo.binomial(zoo.BY['coin'], (2, 3)), zoo.multinomial(zoo.BY['ndie3'], (1, 2)), twod(),
             zoo.gwalk_fixed(zoo.BY['precession']), zoo.gwalk_learn(zoo.BY['precession']), zoo.BY['rb_il'],
             zoo.walk(zoo.BY['unknownT2']), zoo.mle(zoo.BY['coin'], 2)]
    for e in ents_:
        shared_model = e.make()
        n = len(e.params)
        pairs = [(o, i) for i in range(min(3, len(e.eps))) for o in e.outcomes(e.eps[i])]
        HA = [pairs[0], 'Q', pairs[1 % len(pairs)], 'R', pairs[-1]]
        HB = [pairs[-1], pairs[0], 'R', 'X', pairs[2 % len(pairs)]]
        prior = zoo.ListPrior(e.params)

        def fresh(model, prior, rs, seed, w):
            with core.controlled(core.cycle_stream(seed)):
                u = qi.SMCUpdater(model, n, prior, resampler=rs, resample_thresh=0.4, zero_weight_policy='reset',
                                  track_resampling_divergence=True)
                u.particle_weights = np.array(w)
            return u

        def step(u, op, stream, model):
            with core.controlled(stream):
                if op == 'R':
                    u.resample()
                elif op == 'X':
                    u.reset()
                elif op == 'Q':
                    consume((u.est_mean(), u.sample(2), u.bayes_risk(e.ep_array(model)), u.est_covariance_mtx()))
                else:
                    u.update(e.out_array(model, [op[0]]) if isinstance(op[0], tuple) else op[0], e.ep_array(model, [op[1]]))

        wa, wb = weight_patterns(n)[:2]
        want = []
        for h, w, seed in ((HA, wa, 1), (HB, wb, 2)):
            m = e.make()
            u = fresh(m, zoo.ListPrior(e.params), qi.LiuWestResampler(a=0.9, postselect=False), seed, w)
            st = core.cycle_stream(seed)
            for op in h:
                step(u, op, st, m)
            want.append(snap(u))
        rs = qi.LiuWestResampler(a=0.9, postselect=False)
        for il in interleavings(len(HA), len(HB)):
            with c.case('interleave %s %s' % (e.name, ''.join(il))):
                ua, ub = fresh(shared_model, prior, rs, 1, wa), fresh(shared_model, prior, rs, 2, wb)
                sa, sb = core.cycle_stream(1), core.cycle_stream(2)
                ia, ib = iter(HA), iter(HB)
                for s in il:
                    if s == 'A':
                        step(ua, next(ia), sa, shared_model)
                    else:
                        step(ub, next(ib), sb, shared_model)
                    c.step()
                c.trace()
                for nm, u, w in (('first', ua, want[0]), ('second', ub, want[1])):
                    bad = same_snap(w, snap(u))
                    c.ok(bad is None, '%s updater differs in %s from running alone' % (nm, bad), want=w, got=snap(u))
                    c.state(e.name, u.particle_weights, u.particle_locations)
    # default options (default resampler, default everything)
    with c.case('default construction is independent'):
        m = qi.SimplePrecessionModel()
        with core.controlled(core.cycle_stream(4)):
            a = qi.SMCUpdater(m, 20, qi.UniformDistribution([0.1, 1]))
            b = qi.SMCUpdater(m, 30, qi.UniformDistribution([0.1, 1]))
            sb = snap(b)
            for k in range(6):
                a.update(k % 2, np.array([1.0 + k]))
            a.resample()
        bad = same_snap(sb, snap(b))
        c.ok(bad is None, 'an untouched updater changed in %s' % bad)
        c.ok(a.resampler is not b.resampler, 'default resamplers shared')
        a.resampler.a = 0.5
        c.ok(b.resampler.a == 0.98, 'resampler settings shared')
        c.ok(len(a.normalization_record) == 6 and len(b.normalization_record) == 0, 'records shared')
        c.trace()


def flat_answer(r):
    """The numbers an answer consists of."""
    if r is None or isinstance(r, str): return []
    if hasattr(r, '__next__'): r = list(r)
    if isinstance(r, (list, tuple)):
        return [y for x in r for y in flat_answer(x)]
    a = np.asarray(r)
    if a.dtype.names: return [y for n in a.dtype.names for y in flat_answer(a[n])]
    if a.dtype.kind not in 'fciub': return []
    return [np.array(a, dtype=complex if a.dtype.kind == 'c' else float, copy=True)]


def answer(q, u):
    with core.controlled(core.cycle_stream(7)):
        try:
            r = q(u)
            a = flat_answer(r)
        except Exception as ex:
            return type(ex).__name__
        consume(r)
    return a


def s_answers(idx):
    """The answer to a query depends on the state of the updater only, not on what was asked of it before."""
    def f(c):
        e = ents()[idx]
        model = e.make()
        qs = {k: v for k, v in queries(e, model, len(e.params[0])).items() if k not in SLOW and k != 'design'}
        pairs = [(o, i) for i in range(min(2, len(e.eps))) for o in e.outcomes(e.eps[i])]
        ws = weight_patterns(len(e.params))[1]

        def op(u, k, st):
            with core.controlled(st):
                if k == 'R': u.resample()
                elif k == 'Z': u.reset()
                elif k == 'W': u.particle_weights = u.particle_weights[::-1].copy()
                elif k == 'X': u.particle_locations = u.particle_locations[::-1].copy()
                else: u.update(e.out_array(model, [pairs[k][0]]) if isinstance(pairs[k][0], tuple) else pairs[k][0], e.ep_array(model, [pairs[k][1]]))

        def run(asked, ops, q2):
            u = mk(model, e.params, ws, resample_thresh=0.0, resampler=qi.LiuWestResampler(a=0.95), zero_weight_policy='skip')
            st = core.cycle_stream(3)
            for q in asked: answer(qs[q], u)
            for k in ops: op(u, k, st)
            return answer(qs[q2], u)

        np.seterr(all='ignore')
        seqs = [(0,), ('R',), (0, len(pairs) - 1), (0, 'R', 0), ('Z',), (0, 'Z'), ('W',), ('X',), ()]
        first = {}
        for ops in seqs:
            for q2 in qs:
                if (ops, q2) not in first:
                    first[ops, q2] = run((), ops, q2)
                ref = first[ops, q2]
                for q1 in (qs if ops in ((0,), (), ('R',), ('W',)) else (q2,)):
                    with c.case('%s %s, then %s, then %s' % (e.name, q1, ops, q2)):
                        got = run((q1,), ops, q2)
                        same = type(got) is type(ref) and (got == ref if isinstance(ref, str) else len(got) == len(ref) and
                               all(a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True) for a, b in zip(got, ref)))
                        c.ok(same, 'answer of %s depends on having asked %s before' % (q2, q1), want=ref, got=got)
                        c.step(2 + len(ops)); c.trace()
                c.state(e.name, ops, q2)
    return f


SCENARIOS = [('query_%s' % i, s_query(i)) for i in range(8)] + [('answers_%s' % i, s_answers(i)) for i in range(8)] + [('args', s_args), ('interleave', s_interleave)]

from . import bulk, edge  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b03)]
BOUNDS += ' Edge configurations: parameter scales from 1e-12 to 1e9, deep retries, objects used before, very many shots, engines, rows or clusters.'
SCENARIOS = SCENARIOS + [('edge', edge.e03)]

from . import forms  # noqa: E402
BOUNDS += ' Arguments of equal values in every memory layout: column-major, strided, reversed, padded, read-only, broadcast, smaller integers.'
SCENARIOS = SCENARIOS + forms.fscenario(lambda: forms.updating(('hyp', 'design')))
