"""C26: mixing approximate and exact likelihoods splits particles by weight only."""
import itertools, math
import numpy as np
import qinfer as qi
from qinfer import ale
from .. import zoo, core, rng
from ..util import *
from . import c20

BOUNDS = ('Every weighting (uniform, ties, zeros, a single heavy particle, every dyadic composition) of up to 5 particles, every mixing '
          'ratio and threshold of the alphabet, every minimum number of exact particles, every permutation of the random tie-break '
          '(up to 5!), every history of up to 3 outcomes with deterministic resampling and drift, several outcomes and experiments at '
          'once, all return forms; hundreds of particles under scripted answers.')
ASSUMPTIONS = ['weights that decide the split only through rounding of their sum may fall on either side']


class Logged(c20.Drift):
    """Table model with its own constant factor; keeps which parameters it was asked about."""
    def __init__(self, tag, shift=0.0, n_params=2, step=0):
        c20.Drift.__init__(self, n_params, step)
        self.tag, self.shift, self.asked = tag, shift, []

    def update_timestep(self, m, e):
        return c20.Drift.update_timestep(self, m, e)

    def likelihood(self, outcomes, modelparams, expparams):
        L = c20.Drift.likelihood(self, outcomes, modelparams, expparams)
        self.asked.append((np.array(modelparams), np.array(expparams), np.array(outcomes)))
        if self.shift:
            # a different, still normalised likelihood that depends on the parameter and experiment
            s = self.shift * (1 + modelparams[:, 1] / 10.0)[:, None] * np.ones((1, expparams.shape[0]))
            L = (L + s[None]) / (1 + 3 * s[None])
        return L


def rows_for(n):
    return np.array([[float(i % 4), float(i) + 0.25] for i in range(n)])


def split_ok(c, w, good, ratio, thresh, mn, **d):
    """good: bool array; the only freedom is among equal weights (and rounding)."""
    n = len(w)
    eps = 1e-9
    G = [w[i] for i in range(n) if good[i]]; B = [w[i] for i in range(n) if not good[i]]
    if G and B:
        c.ok(min(G) >= max(B) - eps, 'a lighter particle got the exact model while a heavier one did not', w=w, good=good, **d)
    c.ok(all(good[i] for i in range(n) if w[i] >= thresh), 'a particle above the threshold got the approximate model', w=w, good=good, thresh=thresh, **d)
    c.ok(math.fsum(G) >= min(ratio, math.fsum(w)) - eps, 'exact particles hold less than the stated fraction', w=w, good=good, ratio=ratio, **d)
    c.ok(len(G) >= min(mn, n), 'fewer exact particles than demanded', w=w, good=good, min_good=mn, **d)
    # nobody is exact without a reason
    need = len(G) > min(mn, n)
    if need and G:
        lightest = min(G)
        c.ok(lightest >= thresh - eps or math.fsum(G) - lightest <= ratio + eps, 'more exact particles than needed', w=w, good=good, ratio=ratio, thresh=thresh, min_good=mn, **d)


def who(model, locs):
    """Per particle, how often the model was asked about it since the log was cleared."""
    out = np.zeros(len(locs), dtype=int)
    for m, e, o in model.asked:
        for r in m:
            hit = [i for i in range(len(locs)) if np.array_equal(locs[i], r)]
            for i in hit[:1]: out[i] += 1
            if not hit: return None
    return out


def e_(ks):
    return np.array([(k,) for k in ks], dtype=[('e', int)])


def weightings(n, full):
    out = [tuple(w) for w in weight_patterns(n, True)]
    m = 8
    for comp in rng.compositions(m, n):
        if sorted(comp) == list(comp) or full:
            out.append(tuple(v / float(m) for v in comp))
    return list(dict.fromkeys(out))


RATIOS = (0.0, 0.25, 0.3, 0.5, 0.75, 0.9, 1.0)
THRESH = (1.0, 0.5, 0.25, 0.1, 0.0, 2.0)


def sc_split(n):
    def sc(c):
        rows = rows_for(n)
        for w in weightings(n, c.thorough or n <= 3):
            for ratio, th, mn in itertools.product(RATIOS, THRESH, (0, 1, 2, n, n + 2)):
                if n >= 4 and not c.thorough and (RATIOS.index(ratio) + THRESH.index(th) + mn) % (2 if n == 4 else 9): continue
                if n == 5 and not c.thorough and len(set(w)) < 3: continue
                with c.case('%s %g %g %d' % (w, ratio, th, mn)):
                    g, a = Logged('good'), Logged('approximate', 0.2)
                    u = mk(g, rows, weights=w, cls=lambda model, k, prior, **kw: qi.MixedApproximateSMCUpdater(model, a, k, prior, mixture_ratio=ratio, mixture_thresh=th, min_good=mn, **kw), resample_thresh=0.0)
                    ref_g, ref_a = [Logged('r', s).likelihood(np.array([0, 1, 2]), rows, e_([0, 1])) for s in (0.0, 0.2)]
                    freq = np.zeros(n)
                    def run():
                        del g.asked[:], a.asked[:]
                        W, L, Z = u.hypothetical_update(np.array([0, 1, 2]), e_([0, 1]), return_likelihood=True, return_normalization=True)
                        return W, L, Z, who(g, rows), who(a, rows)
                    for (W, L, Z, ng, na), p, ch in c.explore(run):
                        if not c.ok(ng is not None and na is not None, 'asked about parameters of no particle'): continue
                        c.ok(np.all(ng + na == 1), 'a particle was not evaluated exactly once', exact=ng, approximate=na, w=w)
                        good = ng > 0
                        split_ok(c, w, good, ratio, th, mn)
                        mix = np.where(good[None, :, None], ref_g, ref_a).transpose([0, 2, 1])
                        c.eq(L, mix, 'likelihood of a particle is not that of its model', good=good)
                        hw = mix * np.array(w)
                        z = hw.sum(axis=2)
                        c.eq(Z[..., 0], z, 'normalisation')
                        c.eq(W, hw / np.where(z > 0, z, 1)[..., None], 'posterior weights')
                        c.eq(np.asarray(u.particle_weights), np.array(w), 'hypothetical update changed the weights', tol=0)
                        c.eq(np.asarray(u.particle_locations), rows, 'hypothetical update changed the particles', tol=0)
                        freq += p * good
                        c.state(w, good, ratio, th, mn)
                    for i, j in itertools.combinations(range(n), 2):
                        if w[i] == w[j]:
                            c.ok(abs(freq[i] - freq[j]) < 1e-9, 'ties are not broken evenly', w=w, freq=freq)
    return sc


def sc_same(c):
    """Identical models: the mixed updater is the plain updater, whatever the split."""
    for n in (1, 2, 3, 4):
        rows = rows_for(n)
        for w in weight_patterns(n, True):
            for ratio, th, mn in ((0.0, 1.0, 0), (0.5, 1.0, 0), (0.7, 0.3, 1), (1.0, 1.0, 0), (0.25, 0.5, n)):
                for hist in itertools.product((0, 1, 2), repeat=3 if n < 4 or c.thorough else 2):
                    for thr in (0.0, 0.99):
                        if (sum(hist) + n) % 2 and not c.thorough and thr: continue
                        with c.case('%d %s %g %g %d %s %g' % (n, w, ratio, th, mn, hist, thr)):
                            us = []
                            for mixed in (True, False):
                                g, a = Logged('g', 0.1, step=1), Logged('a', 0.1, step=1)
                                cls = (lambda model, k, prior, **kw: qi.MixedApproximateSMCUpdater(model, a, k, prior, mixture_ratio=ratio, mixture_thresh=th, min_good=mn, **kw)) if mixed else None
                                us.append(mk(g, rows, weights=w, cls=cls, resample_thresh=thr, resampler=RotResampler()))
                            with core.controlled(core.cycle_stream(n + len(hist))):
                                for k, o in enumerate(hist):
                                    res = []
                                    for u in us:
                                        try:
                                            u.update(o, e_([k % 2])); res.append(None)
                                        except RuntimeError as ex:
                                            res.append('zero')
                                    c.ok(res[0] == res[1], 'impossible data treated differently', res=res)
                                    if res[0]: break
                                    bad = same_snap(snap(us[0]), snap(us[1]), tol=1e-10)
                                    c.ok(bad is None, 'differs from the plain updater in ' + str(bad), mixed=snap(us[0]), plain=snap(us[1]), hist=hist[:k + 1])
                                    c.step()
                                c.eq(us[0].est_mean(), us[1].est_mean(), 'mean')
                                if not any(res):
                                    for f in ('bayes_risk', 'expected_information_gain'):
                                        c.eq(getattr(us[0], f)(e_([0, 1])), getattr(us[1], f)(e_([0, 1])), f)
                            c.trace(2); c.state(n, w, ratio, th, mn, hist, thr)


def sc_hist(c):
    """Different models: every history, the split decided anew from the current weights at every step."""
    for n in (2, 3, 5):
        rows = rows_for(n)
        for w in weight_patterns(n, True):
            for ratio, th, mn in ((0.5, 1.0, 0), (0.8, 0.4, 0), (0.2, 1.0, 2), (0.0, 1.0, 1), (1.0, 1.0, 0), (0.0, 3.0, 0)):
                for hist in itertools.product((0, 1, 2), repeat=3 if c.thorough or n == 3 else 2):
                    with c.case('%d %s %g %g %d %s' % (n, w, ratio, th, mn, hist)):
                        g, a = Logged('g', 0.05, step=1), Logged('a', 0.3, step=1)
                        u = mk(g, rows, weights=w, cls=lambda model, k, prior, **kw: qi.MixedApproximateSMCUpdater(model, a, k, prior, mixture_ratio=ratio, mixture_thresh=th, min_good=mn, **kw), resample_thresh=0.6, resampler=RotResampler())
                        W = list(w)
                        with core.controlled(core.cycle_stream(sum(hist) + 1)):
                            for k, o in enumerate(hist):
                                x = np.array(u.particle_locations)
                                del g.asked[:], a.asked[:]
                                rc = u.resample_count
                                u.update(o, e_([k % 2]))
                                ng, na = who(g, x), who(a, x)
                                if not c.ok(ng is not None and na is not None and np.all(ng + na == 1), 'a particle was not evaluated exactly once', exact=ng, approximate=na): break
                                split_ok(c, W, ng > 0, ratio, th, mn)
                                lk = [float(Logged('r', 0.05 if ng[i] else 0.3).likelihood(np.array([o]), x[i:i + 1], e_([k % 2]))[0, 0, 0]) for i in range(n)]
                                W, z = ref_update(W, lk)
                                y = c20.Drift(2, 1).update_timestep(x, e_([k % 2]))[:, :, 0]
                                c.eq(float(u.normalization_record[-1]), z, 'evidence')
                                if u.resample_count > rc:
                                    c.ok(ess(W) < 0.6 * n, 'resampled without need', ess=ess(W)); W = [1.0 / n] * n
                                    y = np.roll(y, 1, axis=0)
                                else:
                                    c.ok(ess(W) >= 0.6 * n - 1e-9, 'did not resample', ess=ess(W))
                                c.eq(np.asarray(u.particle_weights), np.array(W), 'posterior weights')
                                c.eq(np.asarray(u.particle_locations), y, 'particles lost their places', tol=1e-12)
                                c.step()
                        c.ok([int(v) for v in u.data_record] == list(hist), 'record of the data')
                        c.trace(); c.state(n, w, ratio, th, mn, hist)


def sc_forms(c):
    """Return forms, scalar outcomes, several experiments; constructor options."""
    rows = rows_for(4)
    for w in weight_patterns(4, True):
        for outs in (0, 2, np.array([1]), np.array([2, 0]), np.array([0, 1, 2])):
            for eps in ([0], [1, 0], [0, 1, 1]):
                with c.case('%s %s %s' % (w, outs, eps)):
                    g, a = Logged('g'), Logged('a', 0.4)
                    u = mk(g, rows, weights=w, cls=lambda model, k, prior, **kw: qi.MixedApproximateSMCUpdater(model, a, k, prior, mixture_ratio=0.4, **kw))
                    no = 1 if not isinstance(outs, np.ndarray) else len(outs)
                    got = []
                    for rl, rn in itertools.product((False, True), repeat=2):
                        with core.controlled(core.cycle_stream(4)):
                            r = u.hypothetical_update(outs, e_(eps), return_likelihood=rl, return_normalization=rn)
                        parts = r if isinstance(r, tuple) else (r,)
                        c.ok(len(parts) == 1 + rl + rn and isinstance(r, tuple) == (rl or rn), 'number of returned values', rl=rl, rn=rn)
                        c.ok(parts[0].shape == (no, len(eps), 4), 'shape of the weights', got=parts[0].shape)
                        if rl: c.ok(parts[1].shape == (no, len(eps), 4), 'shape of the likelihood', got=parts[1].shape)
                        if rn: c.ok(parts[-1].shape == (no, len(eps), 1), 'shape of the normalisation', got=parts[-1].shape)
                        got.append(parts)
                        c.step()
                    for parts in got[1:]:
                        c.eq(parts[0], got[0][0], 'weights depend on what else is returned')
                    c.eq(got[3][1], got[2][1], 'likelihood depends on what else is returned'); c.eq(got[3][2], got[1][1], 'normalisation depends on what else is returned')
                    c.state(w, outs if isinstance(outs, int) else tuple(outs), eps)
    with c.case('options'):
        g, a = Logged('g'), Logged('a')
        r = RotResampler()
        u = qi.MixedApproximateSMCUpdater(g, a, 4, zoo.ListPrior(rows), resampler=r, resample_thresh=0.3)
        c.ok(u.model is g and u.resampler is r and u.resample_thresh == 0.3 and u.n_particles == 4, 'options of the plain updater')
        u = qi.MixedApproximateSMCUpdater(g, a, 4, zoo.ListPrior(rows), 0.9)
        c.ok(abs(u.resampler.a - 0.9) < 1e-15, 'smoothing of the default resampler')
        try:
            qi.MixedApproximateSMCUpdater(g, a, 4, zoo.ListPrior(rows), resample_a=0.9, resampler=r)
            c.fail('two resamplers accepted')
        except ValueError: pass
        # defaults: half of the weight, no threshold, no minimum
        for w in ((0.1, 0.2, 0.3, 0.4), (0.25, 0.25, 0.25, 0.25), (0.0, 0.0, 0.0, 1.0)):
            u = mk(g, rows, weights=w, cls=lambda model, k, prior, **kw: qi.MixedApproximateSMCUpdater(model, a, k, prior, **kw))
            del g.asked[:], a.asked[:]
            u.hypothetical_update(0, e_([0]))
            split_ok(c, w, who(g, rows) > 0, 0.5, 1.0, 0)
            c.step()
    # estimated likelihoods as the approximation
    for ratio in (0.0, 0.5, 1.0):
        with c.case('estimated %g' % ratio):
            base = qi.SimplePrecessionModel()
            x = np.array([[0.1], [0.4], [0.6], [0.95]])
            class Spy(ale.ALEApproximateModel):
                def likelihood(self, o, m, e):
                    L = super(Spy, self).likelihood(o, m, e); log.append((np.array(m), L)); return L
            log = []
            a = Spy(base, error_tol=0.05)
            w = [0.1, 0.2, 0.3, 0.4]
            u = mk(base, x, weights=w, cls=lambda model, k, prior, **kw: qi.MixedApproximateSMCUpdater(model, a, k, prior, mixture_ratio=ratio, **kw), resample_thresh=0.0)
            with core.controlled(core.cycle_stream(7, n_u=97)):
                u.update(1, np.array([2.0]))
            ex = base.likelihood(np.array([1]), x, np.array([2.0]))[0, :, 0]
            apx = {float(m[0]): float(L[0, i, 0]) for M, L in log for i, m in enumerate(M)}
            lk = [apx.get(float(x[i, 0]), float(ex[i])) for i in range(4)]
            split_ok(c, w, np.array([float(v) not in apx for v in x[:, 0]]), ratio, 1.0, 0)
            c.eq(np.asarray(u.particle_weights), np.array(ref_update(w, lk)[0]), 'posterior with estimated likelihoods')
            c.step()


def sc_large(c):
    for n in (50, 300):
        rows = np.array([[float(i % 4), float(i) + 0.25] for i in range(n)])
        pats = [[1.0 / n] * n, norm_w([1.0 + (i * 37 % 101) for i in range(n)]), norm_w([float(i % 3 == 0) for i in range(n)]), norm_w([2.0 ** -(i % 40) for i in range(n)]), norm_w([1e-12 + float(i == 7) for i in range(n)])]
        for w in pats:
            for ratio, th, mn in ((0.5, 1.0, 0), (0.99, 1.0, 0), (0.1, 2.0 / n, 0), (0.3, 1.0, n // 2), (0.0, 1.0, 3), (1.0, 1.0, 0), (0.5, 0.02, 20)):
                with c.case('%d %s %g %g %d' % (n, core.short(w, 40), ratio, th, mn)):
                    g, a = Logged('g', 0.05, step=1), Logged('a', 0.3, step=1)
                    u = mk(g, rows, weights=w, cls=lambda model, k, prior, **kw: qi.MixedApproximateSMCUpdater(model, a, k, prior, mixture_ratio=ratio, mixture_thresh=th, min_good=mn, **kw), resample_thresh=0.0)
                    W = np.array(w)
                    with core.controlled(core.cycle_stream(3)):
                        for k, o in enumerate((0, 2, 1)):
                            x = np.array(u.particle_locations)
                            del g.asked[:], a.asked[:]
                            u.update(o, e_([k % 2]))
                            ids = lambda m: [int(r[1] / (0.5 ** 0)) for q in m.asked for r in q[0]]
                            # second parameters are distinct under the drift
                            gi = set(float(r[1]) for q in g.asked for r in q[0])
                            cnt = sum(len(q[0]) for q in g.asked) + sum(len(q[0]) for q in a.asked)
                            c.ok(cnt == n, 'particles evaluated', got=cnt)
                            good = np.array([float(v) in gi for v in x[:, 1]])
                            split_ok(c, list(W), good, ratio, th, mn)
                            L = np.where(good, Logged('r', 0.05).likelihood(np.array([o]), x, e_([k % 2]))[0, :, 0], Logged('r', 0.3).likelihood(np.array([o]), x, e_([k % 2]))[0, :, 0])
                            W = W * L; W = W / W.sum()
                            c.eq(np.asarray(u.particle_weights), W, 'posterior weights')
                            c.eq(np.asarray(u.particle_locations), c20.Drift(2, 1).update_timestep(x, e_([k % 2]))[:, :, 0], 'particles lost their places', tol=1e-12)
                            c.step()
                    c.trace(); c.state(n, w, ratio, th, mn)


SCENARIOS = [('split%d' % n, sc_split(n)) for n in (1, 2, 3, 4, 5)] + [('same', sc_same), ('hist', sc_hist), ('forms', sc_forms), ('large', sc_large)]

from . import bulk  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b26)]

from . import edge2  # noqa: E402
BOUNDS += ' Further edge configurations: long histories, answers at cell boundaries, near ties, numbers of many digits.'
SCENARIOS = SCENARIOS + [('edge2', edge2.f26)]
