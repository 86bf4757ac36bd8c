"""C02: impossible data are handled by the declared policy."""
import itertools, warnings
import numpy as np
import qinfer as qi
from qinfer._exceptions import ApproximationWarning
from .. import zoo, core, rng
from ..util import *
from .c01 import FoldModel, DriftModel

BOUNDS = ('Every sequence of 6 possible/impossible (outcome, experiment) pairs to depth 4 (5 thorough), for each of '
          'the five policies, single and batched, static and drifting particles, with a reference interpreter '
          'carried along; data of total likelihood 1e-3..1e-15; 120-particle configurations; resampling updaters.')
ASSUMPTIONS = ['impossible means a total likelihood of exactly zero; data with likelihood between 1e-15 and 0 are not judged']
POLS = ('ignore', 'skip', 'warn', 'error', 'reset')
T = [[(1.0, 0.0), (1.0, 0.0), (0.5, 0.5)],
     [(1.0, 0.0), (0.0, 1.0), (0.0, 1.0)],
     [(0.25, 0.75), (0.5, 0.5), (0.0, 1.0)]]
ROWSETS = [[0.0, 1.0, 2.0], [2.0, 0.0, 1.0], [1.0, 1.0, 2.0], [0.0, 2.0, 2.0], [2.0, 1.0, 0.0], [1.0, 0.0, 0.0]]


class SeqPrior(zoo.ListPrior):
    """Hands out a different known particle set at each call."""
    def __init__(self, sets):
        self.sets = [np.array(s, dtype=float).reshape(len(s), -1) for s in sets]
        self.k = 0

    @property
    def n_rvs(self): return self.sets[0].shape[1]

    def sample(self, n=1):
        s = self.sets[self.k % len(self.sets)]
        self.k += 1
        assert n == len(s), (n, len(s))
        return s.copy()


class Move(zoo.TableModel):
    """x -> x+1 mod rows at every time step."""
    def update_timestep(self, m, e):
        out = np.zeros(m.shape + (e.shape[0],))
        out[:, :, :] = np.mod(m + 1, len(self._table[0]))[:, :, None]
        return out


def ref_run(hist, policy, x, w, sets, move, table, can=lambda v: v):
    """Reference interpreter; yields the state after each datum."""
    k = 1
    x, w, norm = list(x), list(w), []
    for o, i in hist:
        nw, z = ref_update(w, [table[i][int(round(abs(r)))][o] for r in x])
        ev = None
        if z == 0:
            ev = policy
        if z == 0 and policy in ('skip', 'error'):
            pass
        elif z == 0 and policy == 'reset':
            x = [can(v) for v in sets[k % len(sets)]]
            k += 1
            w = [1.0 / len(x)] * len(x)
        else:
            w = nw
            norm.append(z)
            if move:
                x = [(r + 1) % len(table[0]) for r in x]
        yield list(x), list(w), list(norm), ev


def do(c, u, policy, ev, o, ep, batched=False):
    """One datum on the real updater, checking warnings/exceptions against the expected event."""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        err = None
        try:
            if batched:
                u.batch_update(np.array([o]), ep)
            else:
                u.update(o, ep, check_for_resample=False)
        except RuntimeError as e:
            err = e
    warned = any(issubclass(r.category, ApproximationWarning) for r in rec)
    c.ok((err is not None) == (ev == 'error'), 'RuntimeError iff the policy is error and the datum impossible', err=err, ev=ev)
    if not batched:
        if ev in ('warn', 'reset'):
            c.ok(warned, 'impossible datum must warn', policy=policy)
        elif ev is None or ev == 'skip':
            c.ok(not warned, 'ordinary or skipped datum must not warn', rec=[str(r.message) for r in rec])


def s_hist(policy, batched=False):
    def f(c):
        depth = 5 if c.thorough else 4
        ops = [(o, i) for i in range(3) for o in range(2)]
        for move in (False, True):
            model = (Move if move else zoo.TableModel)(T, [2, 2, 2])
            for w0 in ([1 / 3.0] * 3, [0.5, 0.5, 0.0], [0.0, 0.25, 0.75]):
                for d in range(1, depth + 1):
                    if (move or w0[0] != 1 / 3.0) and d == depth and not c.thorough and move:
                        continue
                    for hist in itertools.product(ops, repeat=d):
                        with c.case('%s%s move=%s w=%s %s' % (policy, ' batch' if batched else '', move, w0, hist)):
                            u = qi.SMCUpdater(model, 3, SeqPrior(ROWSETS), resample_thresh=0.0, zero_weight_policy=policy)
                            u.particle_weights = np.array(w0)
                            n = 0
                            for (o, i), (x, w, norm, ev) in zip(hist, ref_run(hist, policy, ROWSETS[0], w0, ROWSETS, move, T)):
                                n += 1
                                pre = snap(u)
                                do(c, u, policy, ev, o, np.array([(i,)], dtype=[('e', 'int')]), batched)
                                c.step()
                                c.eq(u.particle_weights, np.array(w), 'weights after datum %d' % n)
                                c.eq(u.particle_locations[:, 0], np.array(x), 'locations after datum %d' % n)
                                if ev in ('skip', 'error'):
                                    post = snap(u)
                                    c.ok(np.array_equal(pre['w'], post['w']) and np.array_equal(pre['x'], post['x'])
                                         and pre['norm'] == post['norm'] and pre['rc'] == post['rc'] and pre['mn'] == post['mn'],
                                         'a skipped or refused datum must change nothing but the data record', pre=pre, post=post)
                                if policy in ('skip', 'reset', 'error'):
                                    c.ok(np.all(np.isfinite(u.particle_locations)) and np.all(u.particle_weights >= 0)
                                         and abs(u.particle_weights.sum() - 1) < 1e-9, 'weights stay a distribution')
                                    if policy != 'reset':
                                        c.eq(np.array([float(np.ravel(v)[0]) for v in u.normalization_record]), np.array(norm),
                                             'evidence of accepted data')
                                c.state(policy, move, u.particle_weights, u.particle_locations, ev)
                            c.ok([int(v) for v in u.data_record] == [o for o, _ in hist], 'data record lists all outcomes')
                            c.trace()
        c.sample('%s: %s' % (policy, hist))
    return f


def s_batches(c):
    """Whole batches with impossible data inside, all policies."""
    ops = [(o, i) for i in range(3) for o in range(2)]
    for policy in POLS:
        for d in (2, 3, 4):
            for hist in itertools.product(ops, repeat=d):
                if d == 4 and hist[0] not in ops[:2] and not c.thorough:
                    continue
                for iv in (1, 3):
                    with c.case('batch %s %s iv=%d' % (policy, hist, iv)):
                        model = zoo.TableModel(T, [2, 2, 2])
                        u = qi.SMCUpdater(model, 3, SeqPrior(ROWSETS), resample_thresh=0.0, zero_weight_policy=policy)
                        want = None
                        raised = False
                        for x, w, norm, ev in ref_run(hist, policy, ROWSETS[0], [1 / 3.0] * 3, ROWSETS, False, T):
                            want = (x, w)
                            if ev == 'error':
                                raised = True
                                break
                        got = False
                        try:
                            u.batch_update(np.array([h[0] for h in hist]),
                                           np.array([(h[1],) for h in hist], dtype=[('e', 'int')]), resample_interval=iv)
                        except RuntimeError:
                            got = True
                        c.ok(got == raised, 'batch raises iff the policy is error and a datum impossible')
                        c.eq(u.particle_weights, np.array(want[1]), 'weights after the batch')
                        c.eq(u.particle_locations[:, 0], np.array(want[0]), 'locations after the batch')
                        c.step(d); c.trace(); c.state(policy, u.particle_weights, u.particle_locations)


def s_thresholds(c):
    """Small but possible data never trigger a policy."""
    for policy in POLS:
        for z in (1e-3, 1e-6, 1e-9, 1e-10, 1e-12, 1e-14, 3e-15):
            for n in (1, 2, 4, 150):
                for thr in (None, 0.0, 1e-8):
                    tab = [[(z * (1 + (k % 2)), 1 - z * (1 + (k % 2))) for k in range(n)]]
                    model = zoo.TableModel(tab, [2])
                    with c.case('tiny %s z=%g n=%d thr=%r' % (policy, z, n, thr)):
                        u = qi.SMCUpdater(model, n, zoo.ListPrior([[float(k)] for k in range(n)]), resample_thresh=0.0,
                                          zero_weight_policy=policy, zero_weight_thresh=thr)
                        w, zz = ref_update([1.0 / n] * n, [t[0] for t in tab[0]])
                        do(c, u, policy, None, 0, np.array([(0,)], dtype=[('e', 'int')]))
                        c.eq(u.particle_weights, np.array(w), 'posterior of a tiny datum')
                        c.eq(float(np.ravel(u.normalization_record[-1])[0]) / zz, 1.0, 'evidence of a tiny datum')
                        # likelihood product keeps going
                        for _ in range(3):
                            u.update(0, np.array([(0,)], dtype=[('e', 'int')]), check_for_resample=False)
                            w, zz = ref_update(w, [t[0] for t in tab[0]])
                        c.eq(u.particle_weights, np.array(w), 'posterior of repeated tiny data')
                        c.step(4); c.trace(); c.state(policy, z, n, thr)
    # a zero threshold still catches the exactly impossible datum
    for policy in POLS:
        for thr in (None, 0.0, 1e-8, 1e-3):
            with c.case('impossible %s thr=%r' % (policy, thr)):
                model = zoo.TableModel(T, [2, 2, 2])
                u = qi.SMCUpdater(model, 3, SeqPrior(ROWSETS), resample_thresh=0.0, zero_weight_policy=policy, zero_weight_thresh=thr)
                u.particle_weights = np.array([0.5, 0.5, 0.0])
                do(c, u, policy, policy, 1, np.array([(0,)], dtype=[('e', 'int')]))
                want = {'ignore': [0, 0, 0], 'warn': [0, 0, 0], 'reset': [1 / 3.0] * 3}.get(policy, [.5, .5, 0])
                c.eq(u.particle_weights, np.array(want, dtype=float), 'weights')
                c.step(); c.trace()
    with c.case('default policy is error'):
        model = zoo.TableModel(T, [2, 2, 2])
        u = qi.SMCUpdater(model, 3, SeqPrior(ROWSETS), resample_thresh=0.0)
        u.particle_weights = np.array([0.5, 0.5, 0.0])
        do(c, u, 'error', 'error', 1, np.array([(0,)], dtype=[('e', 'int')]))
    with c.case('invalid policy'):
        for p in ('bogus', '', None):
            u = qi.SMCUpdater(model, 3, SeqPrior(ROWSETS), resample_thresh=0.0, zero_weight_policy=p)
            u.particle_weights = np.array([0.5, 0.5, 0.0])
            try:
                u.update(1, np.array([(0,)], dtype=[('e', 'int')]))
                c.fail('invalid policy accepted')
            except ValueError:
                c.trace()


def s_canonical(c):
    """A reset puts the fresh sample into canonical form iff asked to."""
    for can in (True, False):
        for nz in (0, 1, 2):
            with c.case('reset canonicalize=%s after %d data' % (can, nz)):
                sets = [[-0.0, -1.0, 2.0], [-2.0, 0.0, -1.0]]
                m = FoldModel(T, [2, 2, 2])
                m._fold = True
                u = qi.SMCUpdater(m, 3, SeqPrior(sets), resample_thresh=0.0, zero_weight_policy='reset', canonicalize=can)
                u.particle_weights = np.array([1.0, 0.0, 0.0])
                for _ in range(nz):
                    u.update(0, np.array([(0,)], dtype=[('e', 'int')]))
                u.update(1, np.array([(0,)], dtype=[('e', 'int')]))
                want = np.array(sets[1])
                c.eq(u.particle_locations[:, 0], np.abs(want) if can else want, 'locations after reset')
                c.eq(u.particle_weights, np.ones(3) / 3, 'weights after reset')
                c.step(nz + 1); c.trace(); c.state(can, nz)


def s_large(c):
    """120 particles, resampling active, recurring impossible data; LiuWest resampler, scripted random answers."""
    r = np.random.RandomState(5)
    n = 120
    for policy in ('skip', 'reset', 'error'):
        for thr in (0.0, 0.5, 0.9):
            for seed in range(6 if c.thorough else 3):
                ne = 4
                tab = [[tuple(x) for x in r.dirichlet([0.7] * 3, size=n)] for _ in range(ne)]
                for e in range(ne):            # outcome 2 of every experiment impossible
                    tab[e] = [(a / (a + b), b / (a + b), 0.0) for a, b, _ in tab[e]]
                hist = [(int(r.randint(2)), int(r.randint(ne))) if k % 4 != 3 else (2, k % ne) for k in range(24)]
                for cls in (qi.SMCUpdater, ):
                    with c.case('large %s thr=%g seed=%d' % (policy, thr, seed)):
                        m = zoo.TableModel(tab, [3] * ne)
                        with core.controlled(core.cycle_stream(seed)):
                            prior = zoo.ListPrior([[float(i)] for i in range(n)])
                            u = cls(m, n, prior, resample_thresh=thr, zero_weight_policy=policy)
                            w = [1.0 / n] * n
                            for o, i in hist:
                                pw, px = u.particle_weights.copy(), u.particle_locations.copy()
                                rc = u.resample_count
                                try:
                                    u.update(o, np.array([(i,)], dtype=[('e', 'int')]))
                                    raised = False
                                except RuntimeError:
                                    raised = True
                                c.ok(raised == (policy == 'error' and o == 2), 'raises only for impossible data')
                                if o == 2 and policy == 'reset':
                                    c.eq(u.particle_weights, np.ones(n) / n, 'uniform after reset')
                                    c.eq(u.particle_locations, prior.sample(n), 'fresh prior sample after reset')
                                elif o == 2:
                                    c.ok(np.array_equal(pw, u.particle_weights) and np.array_equal(px, u.particle_locations)
                                         and rc == u.resample_count, 'skip/error leaves the particles')
                                else:
                                    if u.resample_count == rc:
                                        L = [tab[i][int(min(max(round(v), 0), n - 1))][o] for v in px[:, 0]]
                                        w, _ = ref_update(list(pw), L)
                                        c.eq(u.particle_weights, np.array(w), 'ordinary datum')
                                c.ok(np.all(np.isfinite(u.particle_locations)) and np.all(u.particle_weights >= 0)
                                     and abs(u.particle_weights.sum() - 1) < 1e-9, 'weights stay a distribution')
                                c.step(); c.state(policy, thr, u.particle_weights)
                        c.trace()


def s_subclasses(c):
    """The policies hold in the derived updaters and with derived models."""
    for policy in POLS:
        for hist in itertools.product([(0, 0), (1, 0)], repeat=3):
            with c.case('bcrb %s %s' % (policy, hist)):
                m = qi.CoinModel()
                rows = [[0.0], [0.0], [1.0]]
                w = [0.5, 0.25, 0.25] if hist[0][0] else [0.5, 0.5, 0.0]
                u = qi.smc.SMCUpdaterBCRB(m, 3, zoo.ListPrior(rows), resample_thresh=0.0, zero_weight_policy=policy,
                                          initial_bim=np.eye(1))
                u.particle_weights = np.array(w)
                w = list(w)
                dead = False
                for o, _ in hist:
                    # the bound itself is infinite for a coin of bias 0; only the weights are judged
                    nw, z = ref_update(w, [r[0] if o == 0 else 1 - r[0] for r in rows])
                    try:
                        u.update(o, np.zeros(1, dtype=[]), check_for_resample=False)
                    except RuntimeError:
                        c.ok(policy == 'error' and z == 0, 'raise only as declared')
                    if z > 0 or policy in ('ignore', 'warn'):
                        w = nw
                    elif policy == 'reset':
                        w = [1 / 3.0] * 3
                    c.eq(u.particle_weights, np.array(w), 'weights')
                    c.step()
                c.trace(); c.state(policy, u.particle_weights)
            e = zoo.binomial(zoo.BY['coin'], (3,))
            with c.case('binomial %s %s' % (policy, hist)):
                m = e.make()
                rows = [[0.0], [0.0], [1.0]]
                w = [0.5, 0.5, 0.0]
                u = qi.SMCUpdater(m, 3, zoo.ListPrior(rows), resample_thresh=0.0, zero_weight_policy=policy)
                u.particle_weights = np.array(w)
                for o, _ in hist:
                    oo = 3 if o else 1      # one head and two tails is impossible for deterministic coins
                    nw, z = ref_update(w, [e.prob(oo, r, (3,)) for r in rows])
                    try:
                        u.update(oo, np.array([(3,)], dtype=m.expparams_dtype), check_for_resample=False)
                        c.ok(not (policy == 'error' and z == 0), 'must raise')
                    except RuntimeError:
                        c.ok(policy == 'error' and z == 0, 'raise only as declared')
                    if z > 0 or policy in ('ignore', 'warn'):
                        w = nw
                    elif policy == 'reset':
                        w = [1 / 3.0] * 3
                    c.eq(u.particle_weights, np.array(w), 'weights')
                    c.step()
                c.trace(); c.state(policy, u.particle_weights)


SCENARIOS = [('hist_' + p, s_hist(p)) for p in POLS] + [('histb_' + p, s_hist(p, True)) for p in POLS] + [
    ('batches', s_batches), ('thresholds', s_thresholds), ('canonical', s_canonical), ('large', s_large), ('subclasses', s_subclasses)]

from . import bulk, edge  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
BOUNDS += ' Edge configurations: likelihoods just below zero, data of vanishing probability, resamplers that change the number of particles.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b02), ('edge', edge.e02)]
