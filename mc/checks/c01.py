"""C01: SMC updates are exact Bayesian updates."""
import itertools, math
import numpy as np
import qinfer as qi
from .. import zoo, core, rng
from ..util import *

BOUNDS = ('Every sequence of (outcome, experiment) pairs to depth 3 (4 thorough) on every base model and derived '
          'model of the catalogue with 4-5 particles and up to 6 weight patterns; every way of cutting every '
          'history of length 4 into batches; hypothetical updates for all outcome/experiment array orders; '
          'selected larger configurations (200 particles, 40 data).')
ASSUMPTIONS = ['parameter values, experiments and weights come from the finite alphabets in mc/zoo.py',
               'floating point agreement within 1e-9 relative']


class DriftModel(zoo.TableModel):
    """Deterministic dynamics: x1 moves by the experiment's own step; weights must use the old position."""
    def __init__(self):
        zoo.TableModel.__init__(self, zoo.TABLE3, [3, 3], n_params=2)

    def are_models_valid(self, m):
        return np.ones(m.shape[0], dtype=bool)

    def update_timestep(self, m, e):
        out = np.zeros(m.shape + (e.shape[0],))
        for k in range(e.shape[0]):
            out[:, :, k] = m
            out[:, 0, k] = np.mod(m[:, 0] + 1 + e['e'][k], 4)
            out[:, 1, k] = m[:, 1] * 0.5 + e['e'][k]
        return out


class FoldModel(zoo.TableModel):
    """Non-trivial canonical form: x -> |x|."""
    def are_models_valid(self, m):
        return np.ones(m.shape[0], dtype=bool)

    def canonicalize(self, m):
        return np.abs(m)


def ops_for(e):
    return [(o, i) for i, ep in enumerate(e.eps) for o in e.outcomes(ep)]


def refL(e, rows, o, i):
    return [e.prob(o, r, e.eps[i]) for r in rows]


def outcome_arg(e, model, o, form):
    if isinstance(o, tuple):
        return e.out_array(model, [o])
    return [o, np.int64(o), np.array([o])][form % 3]


def hist_check(c, e, depth, pats, max_ops=None):
    model = e.make()
    ops = ops_for(e)
    if max_ops and len(ops) > max_ops:
        step = len(ops) / float(max_ops)
        ops = [ops[int(k * step)] for k in range(max_ops)]
    rows = e.params
    for ip, ws in enumerate(pats):
        for d in range(1, depth + 1):
            if d < depth and ip:
                continue
            for hist in itertools.product(range(len(ops)), repeat=d):
                w = list(ws)
                norms = []
                dead = False
                for k in hist:
                    w, z = ref_update(w, refL(e, rows, *ops[k]))
                    if z <= 1e-12:
                        dead = True
                        break
                    norms.append(z)
                if dead:
                    continue
                with c.case('%s w%d %s' % (e.name, ip, [ops[k] for k in hist])):
                    u = mk(model, rows, ws, resample_thresh=0.0)
                    for n, k in enumerate(hist):
                        o, i = ops[k]
                        u.update(outcome_arg(e, model, o, n + ip), e.ep_array(model, [i]))
                        c.step()
                    c.trace()
                    c.eq(u.particle_weights, np.array(w), 'posterior weights')
                    c.eq(np.sum(u.particle_weights), 1.0, 'weights sum to one')
                    c.eq(np.array([float(np.ravel(v)[0]) for v in u.normalization_record]), np.array(norms),
                         'normalization record')
                    c.eq(u.log_total_likelihood, sum(math.log(z) for z in norms), 'log total likelihood')
                    c.eq(u.particle_locations, np.array(rows), 'locations moved without resampling')
                    c.ok([zoo.plain_outcome(np.ravel(x)[0]) for x in u.data_record] == [ops[k][0] for k in hist],
                         'data record', got=u.data_record, want=[ops[k][0] for k in hist])
                    c.ok(u.resample_count == 0, 'resampled although the threshold is zero')
                    c.state(e.name, u.particle_weights)
    c.sample('%s: history %s -> weights %s' % (e.name, [ops[k] for k in hist], core.short(u.particle_weights)))


def s_hist(names):
    def f(c):
        for n in names:
            e = zoo.BY[n]
            k = len(ops_for(e))
            depth = 3 if k <= 8 else 2
            if c.thorough and k <= 12:
                depth += 1
            hist_check(c, e, depth, weight_patterns(len(e.params), full=True)[:6 if c.thorough else 3])
    return f


def s_hist_derived(c):
    for n in ('coin', 'precession', 'noisycoin', 'rb', 'unknownT2', 'table2'):
        e = zoo.BY[n]
        for d in ([zoo.binomial(e, (1, 3))] if 'two' in e.tags else []) + [zoo.walk(e), zoo.gwalk_learn(e), zoo.mle(e, 2)]:
            if d.name.startswith('gwalk'):
                continue
            hist_check(c, d, 2, weight_patterns(len(d.params))[:2], max_ops=12 if not c.thorough else 30)


def s_hist_multinomial(c):
    for n in ('ndie3', 'table3', 'coin', 'precession'):
        d = zoo.multinomial(zoo.BY[n], (1, 2))
        hist_check(c, d, 2, weight_patterns(len(d.params))[:2], max_ops=12 if not c.thorough else 30)


def batches(c, e, length, ops, ws, intervals):
    model = e.make()
    rows = e.params
    for hist in itertools.product(range(len(ops)), repeat=length):
        w = list(ws)
        norms = []
        for k in hist:
            w, z = ref_update(w, refL(e, rows, *ops[k]))
            norms.append(z)
        if min(norms) < 1e-12:
            continue
        for cut in compositions_of(length):
            for iv in intervals:
                with c.case('%s batches %s of %s interval %d' % (e.name, cut, [ops[k] for k in hist], iv)):
                    u = mk(model, rows, ws, resample_thresh=0.0)
                    pos = 0
                    for n in cut:
                        part = [ops[k] for k in hist[pos:pos + n]]
                        eps = e.ep_array(model, [i for _, i in part])
                        outs = e.out_array(model, [o for o, _ in part])
                        if pos % 2:
                            eps = eps[:, None]
                        u.batch_update(outs, eps, resample_interval=iv)
                        pos += n
                        c.step(n)
                    c.trace()
                    c.eq(u.particle_weights, np.array(w), 'batched posterior')
                    c.eq(np.array([float(np.ravel(v)[0]) for v in u.normalization_record]), np.array(norms),
                         'batched normalization record')
                    c.ok([zoo.plain_outcome(np.ravel(x)[0]) for x in u.data_record] == [ops[k][0] for k in hist],
                         'batched data record', got=u.data_record)
                    c.state(e.name, u.particle_weights, cut)


def s_batch(c):
    batches(c, zoo.BY['table2'], 4, [(0, 0), (1, 1), (0, 2)], weight_patterns(4)[1], (1, 2, 5) if c.thorough else (2,))
    batches(c, zoo.BY['coin'], 3, [(0, 0), (1, 0)], weight_patterns(5)[0], (1, 5))
    e = zoo.binomial(zoo.BY['coin'], (1, 2, 4))
    batches(c, e, 3, [(0, 0), (1, 1), (3, 2)], weight_patterns(5)[1], (1, 5))
    e = zoo.multinomial(zoo.BY['ndie3'], (1, 2))
    batches(c, e, 3, [((0, 0, 1), 0), ((0, 1, 1), 1), ((1, 0, 1), 1)], weight_patterns(3)[1], (5,))
    batches(c, zoo.BY['tablev'], 3, [(0, 0), (2, 1), (0, 2), (2, 3)], weight_patterns(4)[1], (2,))
    # mismatching lengths are refused
    for no, ne in ((1, 2), (2, 1), (3, 2), (0, 1)):
        with c.case('batch of %d outcomes and %d experiments' % (no, ne)):
            u = mk(zoo.BY['table2'].make(), [0, 1, 2, 3], resample_thresh=0.0)
            try:
                u.batch_update(np.zeros(no, dtype=int), np.zeros(ne, dtype=[('e', 'int')]))
                c.fail('mismatching batch accepted')
            except ValueError:
                c.trace()


def s_hyp(c):
    ents = [zoo.BY[n] for n in ('table2', 'table3', 'coin', 'precession', 'rb_il', 'noisycoin', 'ndie3')]
    ents += [zoo.walk(zoo.BY['table3']), zoo.gwalk_fixed(zoo.BY['precession'])]
    for e in ents:
        model = e.make()
        rows = e.params
        outs = e.outcomes(e.eps[0])
        out_lists = []
        for r in range(1, len(outs) + 1):
            out_lists += list(itertools.permutations(outs, r))
        out_lists += [tuple(outs) + tuple(outs[:1])]
        ne = len(e.eps)
        exp_lists = [(i,) for i in range(ne)] + list(itertools.permutations(range(ne), 2)) + [tuple(range(ne)), tuple(reversed(range(ne))), (0, 0) + tuple(range(ne))]
        if len(out_lists) * len(exp_lists) > 400:
            out_lists = out_lists[:3] + out_lists[-6:]
        for ip, ws in enumerate(weight_patterns(len(rows))):
            u = mk(model, rows, ws, resample_thresh=0.0)
            before = snap(u)
            for ol in out_lists:
                for el in exp_lists:
                    with c.case('%s hyp outs %s exps %s w%d' % (e.name, ol, el, ip)):
                        arr = e.ep_array(model, el)
                        oarr = np.array(ol)
                        w, L, N = u.hypothetical_update(oarr, arr, return_likelihood=True, return_normalization=True)
                        want_w = np.zeros((len(ol), len(el), len(rows)))
                        want_L = np.zeros_like(want_w)
                        want_N = np.zeros((len(ol), len(el), 1))
                        for a, o in enumerate(ol):
                            for b, i in enumerate(el):
                                ls = refL(e, rows, o, i)
                                pw, z = ref_update(ws, ls)
                                want_w[a, b], want_L[a, b], want_N[a, b, 0] = (pw if z > 1e-12 else np.zeros(len(rows))), ls, z
                        sel = want_N[:, :, 0] > 1e-12
                        c.eq(L, want_L, 'hypothetical likelihoods')
                        c.eq(N, want_N, 'hypothetical normalizations')
                        c.eq(w[sel], want_w[sel], 'hypothetical weights')
                        c.trace(); c.step(len(ol) * len(el))
                        c.state(e.name, want_w)
                    if ip == 0 and len(el) == 2:
                        with c.case('%s hyp return forms outs %s exps %s' % (e.name, ol, el)):
                            c.eq(u.hypothetical_update(oarr, arr), w, 'plain form')
                            a, b = u.hypothetical_update(oarr, arr, return_likelihood=True)
                            c.eq(a, w, 'likelihood form'); c.eq(b, L, 'likelihood form')
                            a, b = u.hypothetical_update(oarr, arr, return_normalization=True)
                            c.eq(a, w, 'normalization form'); c.eq(b, N, 'normalization form')
                        if len(ol) == 1 and not isinstance(ol[0], tuple):
                            with c.case('%s hyp scalar outcome %s' % (e.name, ol)):
                                c.eq(u.hypothetical_update(int(ol[0]), arr), w, 'scalar outcome form')
            with c.case('%s hyp leaves state w%d' % (e.name, ip)):
                c.ok(same_snap(before, snap(u)) is None, 'hypothetical update changed the updater')
    # zero outcome
    u = mk(zoo.BY['table2'].make(), [2, 2], [0.5, 0.5], resample_thresh=0.0)
    with c.case('impossible hypothetical outcome'):
        w, N = u.hypothetical_update(np.array([1, 0]), np.array([(0,)], dtype=[('e', 'int')]), return_normalization=True)
        c.eq(w[0, 0], np.zeros(2), 'weights of an impossible outcome'); c.eq(N[0, 0], np.zeros(1), 'its normalization')
        c.eq(w[1, 0], np.array([.5, .5]), 'weights of the certain outcome')


def s_drift(c):
    rows = [(0.0, 1.0), (1.0, -2.0), (2.0, 3.0), (3.0, 0.5)]
    ops = [(o, i) for i in range(2) for o in range(3)]
    for depth in (1, 2, 3):
        for hist in itertools.product(ops, repeat=depth):
            for mode in ('single', 'batch'):
                w = weight_patterns(4)[1]
                x = [list(r) for r in rows]
                ok = True
                for o, i in hist:
                    w, z = ref_update(w, [zoo.TABLE3[i][int(r[0])][o] for r in x])
                    if z < 1e-12:
                        ok = False
                        break
                    x = [[(r[0] + 1 + i) % 4, r[1] * 0.5 + i] for r in x]
                if not ok:
                    continue
                with c.case('drift %s %s' % (mode, hist)):
                    u = mk(DriftModel(), rows, weight_patterns(4)[1], resample_thresh=0.0)
                    if mode == 'single':
                        for o, i in hist:
                            u.update(o, np.array([(i,)], dtype=[('e', 'int')]))
                    else:
                        u.batch_update(np.array([h[0] for h in hist]),
                                       np.array([(h[1],) for h in hist], dtype=[('e', 'int')]))
                    c.step(depth); c.trace()
                    c.eq(u.particle_weights, np.array(w), 'weights use positions before the step')
                    c.eq(u.particle_locations, np.array(x), 'positions after the step')
                    c.state(u.particle_weights, u.particle_locations)


def s_resampled(c):
    e = zoo.BY['table3']
    ops = [(o, i) for i in range(2) for o in range(3)] + ['R']
    rows = [float(r[0]) for r in e.params]
    for depth in (2, 3):
        for hist in itertools.product(ops, repeat=depth):
            w, x, norms, dead = weight_patterns(4)[1], list(rows), [], False
            for h in hist:
                if h == 'R':
                    x = [x[-1]] + x[:-1]
                    w = [0.25] * 4
                else:
                    w, z = ref_update(w, [zoo.TABLE3[h[1]][int(r)][h[0]] for r in x])
                    norms.append(z)
                    dead = dead or z < 1e-12
                    if dead:
                        break
            if dead:
                continue
            with c.case('resampled %s' % (hist,)):
                u = mk(e.make(), rows, weight_patterns(4)[1], resample_thresh=0.0, resampler=RotResampler())
                for h in hist:
                    if h == 'R':
                        u.resample()
                    else:
                        u.update(h[0], np.array([(h[1],)], dtype=[('e', 'int')]))
                c.step(depth); c.trace()
                c.eq(u.particle_weights, np.array(w), 'weights since the last resampling')
                c.eq(u.particle_locations[:, 0], np.array(x), 'locations')
                c.eq(u.log_total_likelihood, sum(math.log(z) for z in norms), 'total likelihood')
                c.state(u.particle_weights, u.particle_locations)


def s_canonical(c):
    t = zoo.TABLE2
    for can in (True, False):
        with c.case('canonicalize=%s' % can):
            m = FoldModel(t, [2, 2, 2])
            rows = np.array([[-1.0], [2.0], [-3.0], [0.0]])
            u = qi.SMCUpdater(m, 4, zoo.ListPrior(rows), canonicalize=can, resample_thresh=0.0, resampler=RotResampler())
            want = np.abs(rows) if can else rows
            c.eq(u.particle_locations, want, 'prior sample in canonical form iff asked')
            u.resample()
            c.eq(u.particle_locations, np.roll(want, 1, axis=0), 'resampled in canonical form iff asked')
            u.particle_locations = -want
            u.resample()
            c.eq(u.particle_locations, np.abs(want)[[2, 3, 0, 1]] * 1.0 if False else
                 (np.abs(np.roll(-want, 1, axis=0)) if can else np.roll(-want, 1, axis=0)), 'canonical after resampling')
            c.trace(); c.step(); c.state(can)


def s_large(c):
    r = np.random.RandomState(7)
    confs = []
    for n, k, nd, ne in ((200, 5, 40, 3), (150, 2, 25, 6), (101, 7, 30, 2), (64, 3, 64, 4), (1000, 2, 12, 2), (1, 3, 9, 2), (2, 2, 17, 1)):
        confs.append((n, k, nd, ne))
    for n, k, nd, ne in confs:
        table = [[tuple(x) for x in r.dirichlet([1.0] * k, size=n)] for _ in range(ne)]
        hist = [(int(r.randint(k)), int(r.randint(ne))) for _ in range(nd)]
        w0 = list(r.dirichlet([1.0] * n))
        w, norms = list(w0), []
        for o, i in hist:
            w, z = ref_update(w, [table[i][p][o] for p in range(n)])
            norms.append(z)
        for mode in ('single', 'batch5', 'batch3', 'mixed'):
            with c.case('large n=%d outcomes=%d data=%d %s' % (n, k, nd, mode)):
                m = zoo.TableModel(table, [k] * ne)
                u = mk(m, [[float(i)] for i in range(n)], w0, resample_thresh=0.0)
                if mode == 'single':
                    for o, i in hist:
                        u.update(o, np.array([(i,)], dtype=[('e', 'int')]))
                else:
                    cuts = {'batch5': [nd], 'batch3': [3] * (nd // 3) + ([nd % 3] if nd % 3 else []), 'mixed': [nd // 2, nd - nd // 2]}[mode]
                    pos = 0
                    for q in cuts:
                        part = hist[pos:pos + q]
                        if q:
                            u.batch_update(np.array([h[0] for h in part]), np.array([(h[1],) for h in part], dtype=[('e', 'int')]))
                        pos += q
                c.step(nd); c.trace()
                c.eq(u.particle_weights, np.array(w), 'posterior', tol=1e-8)
                c.eq(np.array([float(np.ravel(v)[0]) for v in u.normalization_record]), np.array(norms), 'norm record', tol=1e-8)
                c.eq(u.log_total_likelihood, sum(math.log(z) for z in norms), 'log likelihood', tol=1e-8)
                c.ok([int(x) for x in u.data_record] == [h[0] for h in hist], 'data record')
                c.state(n, k, mode, u.particle_weights)
            if mode == 'single':
                with c.case('large hypothetical n=%d' % n):
                    u = mk(m, [[float(i)] for i in range(n)], w0, resample_thresh=0.0)
                    eps = np.array([(i % ne,) for i in range(2 * ne + 1)], dtype=[('e', 'int')])
                    hw, L, N = u.hypothetical_update(np.arange(k), eps, return_likelihood=True, return_normalization=True)
                    for b in range(len(eps)):
                        T = np.array(table[b % ne])
                        c.eq(L[:, b, :], T.T, 'likelihood')
                        c.eq(N[:, b, 0], T.T.dot(w0), 'normalization')
                        c.eq(hw[:, b, :], T.T * np.array(w0) / T.T.dot(w0)[:, None], 'weights')
                    c.trace(); c.step(len(eps))
    # many shots
    e = zoo.binomial(zoo.BY['coin'], (40, 1, 100))
    m = e.make()
    rows = [(0.1,), (0.35,), (0.5,), (0.8,)]
    hist = [(30, 0), (1, 1), (40, 2), (17, 0)]
    w = weight_patterns(4)[1]
    for o, i in hist:
        w, z = ref_update(w, [e.prob(o, r_, e.eps[i]) for r_ in rows])
    with c.case('many shots'):
        u = mk(m, rows, weight_patterns(4)[1], resample_thresh=0.0)
        u.batch_update(np.array([h[0] for h in hist]), e.ep_array(m, [h[1] for h in hist]))
        c.eq(u.particle_weights, np.array(w), 'posterior', tol=1e-7)
        c.trace(); c.step(4)


def s_quasi(c):
    """Approximate likelihoods may stray below zero: such particles get no weight, the rest stay normalised."""
    T = [[(0.5, 0.5), (-0.25, 1.25), (1.0, 0.0), (0.75, 0.25)], [(1.125, -0.125), (0.5, 0.5), (0.25, 0.75), (1.0, 0.0)]]
    for ws in weight_patterns(4, True):
        for n in (1, 2, 3):
            for hist in itertools.product([(o, e) for o in (0, 1) for e in (0, 1)], repeat=n):
                with c.case('quasi w=%s hist=%s' % ([round(x, 3) for x in ws], hist)):
                    u = mk(zoo.TableModel(T, [2, 2]), [[0], [1], [2], [3]], ws, resample_thresh=0.0)
                    w = list(ws)
                    for o, e in hist:
                        un = [a * T[e][r][o] for r, a in enumerate(w)]
                        tot = math.fsum(un)
                        if tot <= 1e-6 or math.fsum(max(x, 0.0) for x in un) <= 1e-6:
                            break
                        u.update(o, np.array([(e,)], dtype=u.model.expparams_dtype))
                        un = [max(x, 0.0) for x in un]
                        w = [x / math.fsum(un) for x in un]
                        c.eq(u.particle_weights, w, 'posterior weights proportional to the nonnegative part of weight times likelihood')
                        c.ok(abs(u.particle_weights.sum() - 1) < 1e-9, 'weights sum to one', got=u.particle_weights)
                        c.state('quasi', w); c.step()
                c.trace()


def s_rare(c):
    """Data of very small probability, alone or accumulated, are data like any other."""
    P = [1e-3, 1e-6, 1e-9, 1e-12]
    T = [[tuple(q * f for q in P) + (1 - f * sum(P),) for f in (1.0, 0.25, 0.5, 0.0)],
         [tuple(q * f for q in P) + (1 - f * sum(P),) for f in (0.5, 0.125, 0.0, 0.0625)]]
    ops = [(o, e) for o in range(5) for e in (0, 1)]
    for ws in weight_patterns(4):
        for n in (1, 2, 3):
            for hist in itertools.product(ops, repeat=n):
                if n == 3 and not (c.thorough or hist[0][1] != hist[1][1] or hist[0][0] == hist[1][0]):
                    continue
                with c.case('rare w=%s hist=%s' % ([round(x, 3) for x in ws], hist)):
                    u = mk(zoo.TableModel(T, [5, 5]), [[0], [1], [2], [3]], ws, resample_thresh=0.0)
                    w = list(ws)
                    for o, e in hist:
                        w2, z = ref_update(w, [T[e][r][o] for r in range(4)])
                        if z < 1e-14:
                            break
                        w = w2
                        u.update(o, np.array([(e,)], dtype=u.model.expparams_dtype))
                        g = np.array([a / b if b else 1 + a for a, b in zip(u.particle_weights, w)])
                        c.eq(g, np.ones(4), 'posterior weights (ratio to the right ones)')
                        c.eq(float(np.ravel(u.normalization_record[-1])[0]) / z, 1.0, 'norm record')
                        c.state('rare', w); c.step()
                    c.trace()
    # many shots, each experiment nearly excluding every particle
    e = zoo.binomial(zoo.BY['coin'], (30, 45))
    m = e.make()
    rows = [(0.3,), (0.35,), (0.5,), (0.55,)]
    for o in range(0, 31):
        for i in (0, 1):
            for pat in weight_patterns(4):
                L = [e.prob(o, r_, e.eps[i]) for r_ in rows]
                w, z = ref_update(pat, L)
                if z < 1e-14:
                    continue
                with c.case('rare shots o=%d %d %s' % (o, i, [round(x, 3) for x in pat])):
                    u = mk(m, rows, pat, resample_thresh=0.0)
                    u.update(o, e.ep_array(m, [i]))
                    g = np.array([a / b if b else 1 + a for a, b in zip(u.particle_weights, w)])
                    c.eq(g, np.ones(4), 'posterior weights (ratio to the right ones)', tol=1e-8)
                    hw, N = u.hypothetical_update(np.array([o]), e.ep_array(m, [i]), return_normalization=True)
                    w3, z3 = ref_update(w, L)
                    if z3 > 1e-14:
                        c.eq(hw[0, 0], w3, 'hypothetical weights'); c.eq(N[0, 0, 0] / z3, 1.0, 'hypothetical norm', tol=1e-8)
                    c.trace(); c.step()


SCENARIOS = [
    ('hist_simple', s_hist(['coin', 'noisycoin', 'ndie3', 'inversion_min'])),
    ('hist_precession', s_hist(['precession', 'inversion'])),
    ('hist_rb', s_hist(['rb', 'rb_il'])),
    ('hist_t2_table', s_hist(['unknownT2', 'table2', 'table3'])),
    ('hist_varying', s_hist(['tablev', 'ndie6'])),
    ('hist_derived', s_hist_derived),
    ('hist_multinomial', s_hist_multinomial),
    ('batch', s_batch),
    ('hypothetical', s_hyp),
    ('drift', s_drift),
    ('resampled', s_resampled),
    ('canonical', s_canonical),
    ('large', s_large), ('quasi', s_quasi), ('rare', s_rare)]

from . import bulk  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b01)]

from . import edge  # noqa: E402
BOUNDS += ' Edge configurations: unusual scales and sizes, almost equal or vanishing numbers, reused arrays.'
SCENARIOS = SCENARIOS + [('edge', edge.e01)]

from . import forms  # noqa: E402
BOUNDS += ' Arguments of equal values in every memory layout: column-major, strided, reversed, padded, read-only, broadcast, smaller integers.'
SCENARIOS = SCENARIOS + forms.fscenario(lambda: forms.updating(('one', 'two', 'batch', 'reset')))
