"""C04: resampling happens exactly when due and the books stay consistent."""
import itertools, warnings, math
import numpy as np
import qinfer as qi
from qinfer._exceptions import ResamplerWarning
from .. import zoo, core, rng
from ..util import *

BOUNDS = ('Every sequence to depth 4 (5 thorough) of updates (checked or unchecked), batches with intervals 1-3, forced '
          'resamplings, for 6 thresholds and 3 starting weightings, against a reference interpreter with a recording '
          'resampler; every subset of options (divergence tracking, debug, canonicalize); resets to other sizes; the '
          'real resamplers on 1 to 200 particles.')
ASSUMPTIONS = ['comparisons of ESS with the threshold closer than 1e-9 are only judged where both sides are exact in binary']
T = [[(0.5, 0.5), (0.25, 0.75), (1.0, 0.0), (0.75, 0.25)],
     [(0.125, 0.875)] * 4,
     [(0.5, 0.5), (0.5, 0.5), (0.0, 1.0), (0.0, 1.0)]]
EP = lambda *i: np.array([(k,) for k in i], dtype=[('e', 'int')])


class Rec(object):
    """Recording resampler: rotates locations and remembers what it was given."""
    def __init__(self): self.calls = []

    def __call__(self, model, dist, **kw):
        self.calls.append((np.array(dist.particle_weights), np.array(dist.particle_locations)))
        x = np.roll(dist.particle_locations, 1, axis=0)
        n = x.shape[0]
        return qi.ParticleDistribution(particle_locations=x, particle_weights=np.ones(n) / n)


def exact(ws):
    return all(float(w) * 4096 == int(float(w) * 4096) for w in ws)


class Ref(object):
    def __init__(self, x, w, thr):
        self.x, self.w, self.thr = list(x), list(w), thr
        self.n = len(x)
        self.count, self.jr, self.mn = 0, None, float(self.n)
        self.border = False
        self.warned = False
        self.dead = False

    def resample(self):
        self.warned = self.warned or bool(self.jr)
        self.count += 1
        self.jr = True
        self.x = [self.x[-1]] + self.x[:-1]
        self.w = [1.0 / self.n] * self.n

    def maybe(self):
        e = ess(self.w)
        t = self.n * self.thr
        if abs(e - t) < 1e-9:
            if not (exact(self.w) and e == t):
                self.border = True
                return
        if e < t:
            self.resample()

    def update(self, o, i, check):
        w, z = ref_update(self.w, [T[i][int(r)][o] for r in self.x])
        if z < 1e-12:
            self.dead = True
            return
        self.w = w
        self.jr = False
        self.mn = min(self.mn, ess(w))
        if check:
            self.maybe()

    def op(self, op):
        k = op[0]
        if k == 'R':
            self.resample()
        elif k == 'U':
            self.update(op[1], op[2], True)
        elif k == 'u':
            self.update(op[1], op[2], False)
        else:
            for j, (o, i) in enumerate(op[1]):
                self.update(o, i, False)
                if self.dead: return
                if (j + 1) % op[2] == 0:
                    self.maybe()


def apply(u, op):
    k = op[0]
    if k == 'R':
        u.resample()
    elif k == 'U':
        u.update(op[1], EP(op[2]))
    elif k == 'u':
        u.update(op[1], EP(op[2]), check_for_resample=False)
    else:
        outs = np.array([o for o, _ in op[1]])
        eps = EP(*[i for _, i in op[1]])
        if op[2] == 5:
            u.batch_update(outs, eps)
        else:
            u.batch_update(outs, eps, resample_interval=op[2])


OPS = [('U', 0, 0), ('U', 1, 0), ('U', 0, 1), ('U', 1, 2), ('u', 1, 0), ('u', 1, 2), ('R',),
       ('B', ((1, 0), (1, 0)), 2), ('B', ((0, 0), (1, 2), (1, 0)), 2), ('B', ((1, 0), (1, 0), (1, 1)), 1),
       ('B', ((1, 2), (1, 0), (0, 1), (1, 0), (1, 0), (0, 0)), 5)]


def s_hist(thr):
    def f(c):
        depth = 4 if c.thorough else 3
        model = zoo.TableModel(T, [2, 2, 2])
        rows = [0.0, 1.0, 2.0, 3.0]
        pats = [[0.25] * 4, [0.5, 0.5, 0, 0], [0.125, 0.125, 0.25, 0.5]]
        for ip, w0 in enumerate(pats):
            for d in range(1, depth + 1):
                for hist in itertools.product(OPS, repeat=d):
                    ref = Ref(rows, w0, thr)
                    with c.case('thr=%g w%d %s' % (thr, ip, hist)):
                        rs = Rec()
                        u = mk(model, rows, w0, resample_thresh=thr, resampler=rs, track_resampling_divergence=(d < 3))
                        for n, op in enumerate(hist):
                            ref.warned = False
                            ref.op(op)
                            if ref.dead or ref.border:
                                break
                            nc = len(rs.calls)
                            rc0 = u.resample_count
                            with warnings.catch_warnings(record=True) as rec:
                                warnings.simplefilter('always')
                                apply(u, op)
                            c.step()
                            c.eq(u.particle_weights, np.array(ref.w), 'weights after op %d' % n)
                            c.eq(u.particle_locations[:, 0], np.array(ref.x), 'locations after op %d' % n)
                            c.ok(u.resample_count == ref.count, 'resample_count', got=u.resample_count, want=ref.count, op=n)
                            c.ok(len(rs.calls) == ref.count, 'the resampler is called once per resampling')
                            c.ok(bool(u.just_resampled) == ref.jr, 'just_resampled', got=u.just_resampled, op=n)
                            c.eq(float(u.min_n_ess), ref.mn, 'min_n_ess')
                            c.eq(float(u.n_ess), ess(ref.w), 'n_ess')
                            if not (n == 0 and op[0] == 'R'):
                                c.ok(any(issubclass(r.category, ResamplerWarning) for r in rec) == ref.warned,
                                     'ResamplerWarning iff resampling without new data')
                            if d < 3:
                                dv = u.resampling_divergences
                                c.ok(dv is not None and len(dv) == ref.count, 'one divergence per resampling', got=dv)
                                if u.resample_count == rc0 + 1 and op[0] in 'RU':
                                    w_, x_ = rs.calls[-1]
                                    c.eq(float(dv[-1]), float(u.est_kl_divergence(
                                        qi.ParticleDistribution(particle_locations=x_, particle_weights=w_))),
                                        'divergence of this resampling')
                            else:
                                c.ok(u.resampling_divergences is None, 'divergences only when tracked')
                            c.state(thr, u.particle_weights, u.particle_locations, u.resample_count, u.just_resampled, u.min_n_ess)
                        c.trace()
        c.sample('thr %g: %s' % (thr, hist,))
    return f


def s_options(c):
    """All option combinations and updater classes behave the same."""
    base_hist = [('u', 1, 0), ('U', 1, 0), ('R',), ('U', 1, 2), ('B', ((1, 0), (1, 0)), 2), ('R',)]
    for dbg, div, can, mode in itertools.product((False, True), (False, True), (False, True), ('plain', 'mixed', 'raise_cache')):
        for thr in (0.0, 0.6, 1.0):
            for perm in itertools.permutations(base_hist, 3):
                with c.case('opts %s %s %s %s thr=%g %s' % (dbg, div, can, mode, thr, perm)):
                    class M(zoo.TableModel):
                        n = 0
                        def clear_cache(self):
                            self.n += 1
                            if mode == 'raise_cache':
                                raise KeyError('cache')
                    m = M(T, [2, 2, 2])
                    rows, w0 = [0.0, 1.0, 2.0, 3.0], [0.125, 0.125, 0.25, 0.5]
                    if mode == 'mixed':
                        u = qi.MixedApproximateSMCUpdater(m, zoo.TableModel(T, [2, 2, 2]), 4, zoo.ListPrior(rows),
                                                          resample_thresh=thr, resampler=Rec())
                        u.particle_weights = np.array(w0)
                    else:
                        u = mk(m, rows, w0, resample_thresh=thr, resampler=Rec(), debug_resampling=dbg,
                               track_resampling_divergence=div, canonicalize=can)
                    ref = Ref(rows, w0, thr)
                    for op in perm:
                        ref.op(op)
                        if ref.dead or ref.border:
                            break
                        apply(u, op)
                        c.step()
                        c.eq(u.particle_weights, np.array(ref.w), 'weights')
                        c.eq(u.particle_locations[:, 0], np.array(ref.x), 'locations')
                        c.ok(u.resample_count == ref.count and bool(u.just_resampled) == ref.jr, 'books')
                        c.eq(float(u.min_n_ess), ref.mn, 'min_n_ess')
                        c.ok(m.n == ref.count, 'model cache cleared once per resampling', got=m.n)
                        c.state(mode, u.particle_weights, u.resample_count)
                    c.trace()


def s_real(c):
    """Real resamplers: uniform weights over the same number of particles, at the right moments, larger sets."""
    r = np.random.RandomState(3)
    for n in (1, 2, 3, 10, 64, 200):
        for thr in (0.0, 0.25, 0.5, 0.75, 0.99):
            for kind in ('default', 'liuwest', 'a', 'default_n'):
                k, ne = 3, 4
                tab = [[tuple(x) for x in r.dirichlet([1.0] * k, size=n)] for _ in range(ne)]
                m = zoo.TableModel(tab, [k] * ne)
                hist = [(int(r.randint(k)), int(r.randint(ne))) for _ in range(16)]
                with c.case('real n=%d thr=%g %s' % (n, thr, kind)):
                    kw = {}
                    if kind == 'liuwest':
                        kw['resampler'] = qi.LiuWestResampler(a=0.9)
                    elif kind == 'a':
                        kw['resample_a'] = 0.95
                    elif kind == 'default_n':
                        kw['resampler'] = qi.LiuWestResampler(default_n_particles=n)
                    with core.controlled(core.cycle_stream(n)):
                        u = qi.SMCUpdater(m, n, zoo.ListPrior([[float(i)] for i in range(n)]), resample_thresh=thr, **kw)
                        count = 0
                        mn = float(n)
                        for o, i in hist:
                            L = m.likelihood(np.array([o]), u.particle_locations, EP(i))[0, :, 0]
                            w, z = ref_update(list(u.particle_weights), list(L))
                            e = ess(w)
                            if abs(e - n * thr) < 1e-9:
                                break
                            mn = min(mn, e)
                            x0 = u.particle_locations.copy()
                            u.update(o, EP(i))
                            c.step()
                            if e < n * thr:
                                count += 1
                                c.eq(u.particle_weights, np.ones(n) / n, 'uniform weights after resampling')
                                c.ok(u.particle_locations.shape == x0.shape, 'same number of particles')
                                c.ok(bool(u.just_resampled), 'flag set')
                            else:
                                c.eq(u.particle_weights, np.array(w), 'weights when not due')
                                c.eq(u.particle_locations, x0, 'locations when not due')
                                c.ok(not u.just_resampled, 'flag clear')
                            c.ok(u.resample_count == count, 'resample count', got=u.resample_count, want=count)
                            c.eq(float(u.min_n_ess), mn, 'min_n_ess', tol=1e-8)
                            c.state(n, thr, kind, u.particle_weights)
                    c.trace()


def s_reset(c):
    """Resets to other sizes keep later resampling consistent."""
    m = zoo.TableModel(T, [2, 2, 2])
    for n0 in (2, 4, 7):
        for n1 in (None, 1, 3, 9):
            for thr in (0.5, 0.9):
                for pre in (0, 1, 2):
                    with c.case('reset %s->%s thr=%g pre=%d' % (n0, n1, thr, pre)):
                        with core.controlled(core.cycle_stream(n0)):
                            u = qi.SMCUpdater(m, n0, zoo.ListPrior([0.0, 1.0, 3.0]), resample_thresh=thr)
                            for _ in range(pre):
                                u.update(1, EP(0))
                            if n1 is None:
                                u.reset()
                            else:
                                u.reset(n1)
                            n = n1 or n0
                            c.ok(u.n_particles == n and u.particle_weights.shape == (n,), 'size after reset')
                            c.eq(u.particle_weights, np.ones(n) / n, 'weights after reset')
                            for _ in range(6):
                                rc = u.resample_count
                                L = m.likelihood(np.array([1]), u.particle_locations, EP(0))[0, :, 0]
                                w, z = ref_update(list(u.particle_weights), list(L))
                                e = ess(w)
                                if abs(e - n * thr) < 1e-9:
                                    break
                                u.update(1, EP(0))
                                c.step()
                                c.ok((u.resample_count == rc + 1) == (e < n * thr), 'resampled iff due for the present size', ess=e)
                                c.ok(u.n_particles == n and u.particle_weights.shape == (n,), 'size kept', got=u.n_particles)
                                c.state(n0, n1, thr, u.particle_weights)
                            u.resample()
                            c.eq(u.particle_weights, np.ones(n) / n, 'forced resampling')
                            c.ok(u.particle_locations.shape == (n, 1), 'size after forced resampling', got=u.particle_locations.shape)
                        c.trace()


SCENARIOS = [('thr_%g' % t, s_hist(t)) for t in (0.0, 0.3, 0.5, 0.75, 0.9, 1.0)] + [
    ('options', s_options), ('real', s_real), ('reset', s_reset)]

from . import bulk, edge  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
BOUNDS += ' Edge configurations: likelihoods just below zero, data of vanishing probability, resamplers that change the number of particles.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b04), ('edge', edge.e04)]

from . import edge2  # noqa: E402
BOUNDS += ' Further edge configurations: long histories, answers at cell boundaries, near ties, numbers of many digits.'
SCENARIOS = SCENARIOS + [('edge2', edge2.f04)]

from . import forms  # noqa: E402
BOUNDS += ' Arguments of equal values in every memory layout: column-major, strided, reversed, padded, read-only, broadcast, smaller integers.'
SCENARIOS = SCENARIOS + forms.fscenario(lambda: forms.updating(('resampled',)))
