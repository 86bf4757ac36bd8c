"""Answers depend on the values of the arguments, not on how the arrays are laid out in memory.

Every call of every model on equal values held as: column-major, every-other-row view, columns reversed in memory, rows
reversed in memory, a view into a wider array, read-only; outcomes of other integer kinds; experiment records as views
into a longer array, reversed in memory, with padded (aligned) fields, read-only. A read-only argument that a call
writes to is an error. Kinds of numbers that nothing promises
(unsigned outcomes, integer particles) are left out.
"""
import itertools
import numpy as np
import qinfer as qi
from qinfer import distributions as qd, utils as qu, metrics
from .. import zoo, core
from ..util import *
from .reuse import of_entry, spins, tomo, CALLS, plain


def _ro(a):
    a = a.copy(); a.flags.writeable = False
    return a


def _every_other(a):
    b = np.zeros((2 * len(a),) + a.shape[1:], dtype=a.dtype)
    b[::2] = a
    if a.dtype.kind in 'fiu' and not a.dtype.names: b[1::2] = 77
    return b[::2]


def _wide(a):
    b = np.full((len(a) + 2, a.shape[1] + 3), 99, dtype=a.dtype)
    b[1:-1, 2:-1] = a
    return b[1:-1, 2:-1]


def _off(a):
    b = np.zeros((len(a) + 3,) + a.shape[1:], dtype=a.dtype)
    b[2:-1] = a
    return b[2:-1]


M_FORMS = [('column-major', np.asfortranarray), ('every other row', _every_other), ('rows reversed in memory', lambda a: a[::-1].copy()[::-1]),
           ('columns reversed in memory', lambda a: a[:, ::-1].copy()[:, ::-1]), ('inside a wider array', _wide), ('transposed', lambda a: a.T.copy().T), ('read-only', _ro),
           ('broadcast row', lambda a: np.broadcast_to(a[0], a.shape) if (a == a[0]).all() else None)]
E_FORMS = [('every other record', _every_other), ('reversed in memory', lambda a: a[::-1].copy()[::-1]), ('inside a longer array', _off), ('read-only', _ro),
           ('broadcast record', lambda a: np.broadcast_to(a[0], a.shape) if (a == a[0]).all() else None)]
def _fields(f):
    def g(a):
        if not a.dtype.names: return None
        d = f(a.dtype)
        if d is None: return None
        b = np.zeros(a.shape, dtype=d)
        for n in a.dtype.names: b[n] = a[n]
        return b if all(np.array_equal(a[n], b[n]) for n in a.dtype.names) else None
    return g


def _desc(d): return [(n, d[n]) for n in d.names]


E_FORMS += [('with padded fields', _fields(lambda d: np.dtype(_desc(d), align=True) if len(d.names) > 1 else None)),
            ('with fields in another order', _fields(lambda d: np.dtype(_desc(d)[::-1]) if len(d.names) > 1 else None)),
            ('as a record array', lambda a: a.view(np.recarray) if a.dtype.names else None)]
M_FORMS += [('as a matrix of big-endian floats', lambda a: a.astype('>f8'))]
O_FORMS = [('every other', _every_other), ('reversed in memory', lambda a: a[::-1].copy()[::-1]), ('read-only', _ro)]
O_KINDS = ['int8', 'int32', 'int16']


def kinds(o):
    if o.dtype.names or o.dtype.kind != 'i': return []
    return [(k, (lambda k: lambda a: a.astype(k))(k)) for k in O_KINDS if (o.astype(k) == o).all()]


def forms(c, subjects, second, combos=((0, 0), (1, 1), (0, 3), (2, 4), (3, 0), (5, 6), (2, 5))):
    for s in subjects:
        calls = dict(CALLS)
        if 'diff' in s.tags and 'derived' not in s.tags:
            calls['score'] = lambda m, P, E, o: m.score(o, P, E)
            calls['fisher'] = lambda m, P, E, o: m.fisher_information(P, E)
        if 'cov' in s.tags: calls['step covariance'] = lambda m, P, E, o: m.est_update_covariance(P)
        cs = [(p, e) for p, e in combos if p < len(s.P) and e < len(s.E)] if 'shots' not in s.tags else [(0, 0), (0, 2)]
        if 'slow' in s.tags: cs = cs[:3]; calls = {k: v for k, v in calls.items() if k not in ('simulate3', 'score', 'fisher')}

        def do(m, name, P, E, o):
            with core.controlled(core.cycle_stream(5)):
                try:
                    r = calls[name](m, P, E, o)
                except Exception as ex:
                    return ex
                return plain(r) if r is not None else []

        for name in calls:
            if second is not None and name not in second: continue
            for p, e in cs:
                P, E, o = s.P[p], s.E[e], s.outs[0]
                ref = do(s.make(), name, P.copy(), E.copy(), o.copy())
                todo = [('parameters ' + k, f(P.copy()), E.copy(), o.copy()) for k, f in M_FORMS]
                todo += [('experiments ' + k, P.copy(), f(E.copy()), o.copy()) for k, f in E_FORMS]
                if name in ('likelihood', 'score'): todo += [('outcomes ' + k, P.copy(), E.copy(), f(o.copy())) for k, f in O_FORMS + kinds(o)]
                for k, P_, E_, o_ in todo:
                    if P_ is None or E_ is None: continue
                    with c.case('form %s %s%s %s' % (s.name, name, (p, e), k)):
                        b4 = np.array(P_), np.array(E_), np.array(o_)
                        got = do(s.make(), name, P_, E_, o_)
                        same = (type(got) is type(ref)) if isinstance(ref, Exception) else (not isinstance(got, Exception) and len(got) == len(ref) and
                                all(a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True) for a, b in zip(got, ref)))
                        c.ok(same, 'answer of %s depends on the form of an argument' % name, want=repr(ref)[:300], got=repr(got)[:300])
                        c.ok(np.array_equal(P_, b4[0]) and np.array_equal(E_, b4[1]) and np.array_equal(o_, b4[2]), '%s changed its arguments' % name)
                        c.step(); c.trace()
                c.state(s.name, name, p, e)


def scenario(which, second, parts=1):
    def mk_(part):
        def f(c):
            subs = []
            for w in which:
                if w == 'base': subs += [of_entry(e) for e in zoo.BASE]
                elif w == 'derived': subs += [of_entry(e) for e in zoo.all_finite() if 'derived' in e.tags or '(' in e.name]
                elif w == 'walks': subs += [x for x in spins() if 'walk' in x.tags]
                elif w == 'spins': subs += list(spins())
                elif w == 'tomo': subs += list(tomo())
            forms(c, subs[part::parts], second)
        return f
    return [('forms_%d' % p if parts > 1 else 'forms', mk_(p)) for p in range(parts)]


# --- functions and updaters --------------------------------------------------------------------------------------

def _last(a): return a[..., ::-1].copy()[..., ::-1] if a.ndim else None


A_FORMS = [('column-major', lambda a: np.asfortranarray(a) if a.ndim > 1 else None), ('every other', _every_other), ('reversed in memory', lambda a: a[::-1].copy()[::-1]),
           ('last axis reversed in memory', lambda a: _last(a) if a.ndim > 1 else None), ('inside a longer array', _off), ('read-only', _ro),
           ('as big-endian', lambda a: a.astype(a.dtype.newbyteorder('>')) if a.dtype.kind in 'fi' else None),
           ('as a broadcast', lambda a: np.broadcast_to(a[0], a.shape) if (a == a[0]).all() else None)]


def alike(got, ref, tol=1e-9):
    if isinstance(ref, Exception) or isinstance(got, Exception): return type(got) is type(ref)
    return len(got) == len(ref) and all(a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True) for a, b in zip(got, ref))


def flat(r):
    if isinstance(r, (list, tuple)): return [y for x in r for y in flat(x)]
    if isinstance(r, dict): return [y for k in sorted(r) for y in flat(r[k])]
    return plain(r)


def functions(c, items):
    for name, fn, args in items:
        args = [np.asarray(a) for a in args]

        def do(xs):
            with core.controlled(core.cycle_stream(7)):
                try: return flat(fn(*xs))
                except Exception as ex: return ex
        ref = do([a.copy() for a in args])
        c.ok(not isinstance(ref, Exception), '%s: no answer on plain arrays: %r' % (name, ref))
        per = [[('plain', a.copy())] + [(k, f(a.copy())) for k, f in A_FORMS] for a in args]
        per = [[(k, a) for k, a in p if a is not None] for p in per]
        combos = itertools.product(*per) if len(args) <= 2 else [tuple(p[i] if j == i0 else p[0] for j, p in enumerate(per)) for i0 in range(len(per)) for i in range(len(per[i0]))]
        for combo in combos:
            with c.case('form %s of %s' % (name, ', '.join(k for k, _ in combo))):
                xs = [a for _, a in combo]
                b4 = [np.array(a) for a in xs]
                got = do(xs)
                c.ok(alike(got, ref), 'answer of %s depends on the form of an argument' % name, want=repr(ref)[:300], got=repr(got)[:300])
                c.ok(all(np.array_equal(a, b) for a, b in zip(xs, b4)), '%s changed its arguments' % name)
                c.step(); c.trace()
        c.state(name)


X4 = np.array([(0.0, 1.0), (2.0, -1.0), (1.0, 3.0), (-2.0, 0.5)])
W4 = np.array([0.125, 0.5, 0.25, 0.125])
XI = np.array([(0.0, 1.0), (2.0, -1.0), (1.0, 3.0), (-2.0, 0.0)])


def cloud(w, x): return qd.ParticleDistribution(particle_weights=w, particle_locations=x)


def clouds(pick):
    Q = {
        'moments': lambda d: [d.est_mean(), d.est_covariance_mtx(), d.est_meanfn(lambda m: m ** 2), d.n_ess],
        'entropy': lambda d: [d.est_entropy(), d.est_kl_divergence(cloud(W4[::-1].copy(), X4))],
        'sample': lambda d: [d.sample(3), d.sample()],
        'region': lambda d: [d.est_credible_region(level=0.6), d.est_credible_region(level=0.6, return_outside=True), d.in_credible_region(X4[:3] + 0.1, level=0.8, method='hpd-hull')],
        'ellipsoid': lambda d: [d.region_est_ellipsoid(level=0.9), d.in_credible_region(X4[:3] + 0.1, level=0.9, method='hpd-mvee')],
        'hull': lambda d: [np.sort(d.region_est_hull(level=0.95)[1], axis=0)],
        'marginal': lambda d: (lambda u: [u.posterior_marginal(0, 12, smoothing=0.1), u.posterior_marginal(1, 12), u.posterior_mesh(0, 1, 5, 6, 0.3)])(as_updater(d)),
    }
    for k in pick:
        for nm, w, x in (('', W4, X4), (' integral', W4, XI), (' uniform', np.full(4, 0.25), XI), (' one heavy', np.array([0.0, 1.0, 0.0, 0.0]), XI)):
            if nm == ' one heavy' and k in ('ellipsoid', 'hull', 'marginal', 'entropy', 'region'): continue
            yield (k + nm, lambda w, x, f=Q[k]: f(cloud(w, x)), (w, x))


def helpers():
    n = np.array([[(3, 0, 2)], [(1, 4, 0)]]).reshape(2, 3)
    p = np.array([(0.25, 0.5, 1.0), (0.75, 0.5, 0.0)])
    y = np.array([(0.0, 1.0, -2.0, 0.0), (2.0, -1.0, 0.5, 0.0)])
    A = np.array([(2.0, 1.0), (1.0, 3.0)])
    s = np.array([(0.25, 0.125, 0.125, 0.5), (0.0, 0.5, 0.5, 0.0)])
    from qinfer.parallel import DirectViewParallelizedModel
    rec = np.array([(1, 0.5), (2, 0.25), (3, 4.0)], dtype=[('a', int), ('b', float)])
    oth = np.array([(7.0,), (8.0,), (9.0,)], dtype=[('c', float)])
    return [('multinomial_pdf', lambda n, p: qu.multinomial_pdf(n[None].transpose(1, 0, 2), p[None].transpose(1, 0, 2)), (n, p)),
            ('sample_multinomial', lambda p: qu.sample_multinomial(5, p, size=3), (p,)), ('outer_product', qu.outer_product, (W4,)),
            ('particle_meanfn', lambda w, x: qu.particle_meanfn(w, x), (W4, XI)), ('particle_meanfn of squares', lambda w, x: qu.particle_meanfn(w, x, lambda m: m ** 2), (W4, X4)),
            ('particle_covariance_mtx', qu.particle_covariance_mtx, (W4, XI)), ('ellipsoid_volume', lambda a: [qu.ellipsoid_volume(A=a), qu.ellipsoid_volume(invA=a)], (A,)),
            ('mvee', lambda x: qu.mvee(x), (X4,)), ('mvee of integers', lambda x: qu.mvee(x), (XI,)), ('in_ellipsoid', qu.in_ellipsoid, (XI, A, np.array([1.0, 0.0]))), ('in_ellipsoid of one', qu.in_ellipsoid, (XI[0], A, np.array([1.0, 0.0]))),
            ('to_simplex', qu.to_simplex, (y,)), ('to_simplex of integers', qu.to_simplex, (np.round(y),)), ('from_simplex', qu.from_simplex, (s[:1],)), ('from_simplex of a corner', qu.from_simplex, (np.array([(0.0, 1.0, 0.0)]),)),
            ('sqrtm_psd', lambda a: qu.sqrtm_psd(a), (A,)), ('binom_est_p', lambda a: qu.binom_est_p(a, 10, 0.5), (np.array([0.0, 3.0, 10.0]),)), ('binom_est_error', lambda a: qu.binom_est_error(a, 10, 0.5), (np.array([0.0, 1.0, 0.25]),)),
            ('binomial_pdf', lambda n, p: qu.binomial_pdf(5, n, p), (np.array([0.0, 2.0, 5.0]), np.array([0.0, 0.25, 1.0]))),
            ('join_struct_arrays', lambda a, b: qu.join_struct_arrays([a, b]), (rec, oth)), ('separate_struct_array', lambda a: qu.separate_struct_array(a, [[('a', int)], [('b', float)]]), (rec,)),
            ('rescaled_distance_mtx', metrics.rescaled_distance_mtx, (X4, XI)), ('weighted_pairwise_distances', lambda x, w: metrics.weighted_pairwise_distances(x, w), (XI, W4)),
            ('compactspace', lambda: qu.compactspace(2, 5), ()), ('assert_sigfigs_equal', lambda x, y: qu.assert_sigfigs_equal(x, y, 2), (np.array([100.0, 2000.0]), np.array([100.0, 2000.0])))]


def resampling():
    for nm, w, x in (('', W4, X4), (' integral', W4, XI), (' uniform', np.full(4, 0.25), XI)):
        for kw in (dict(a=0.9), dict(a=1.0, h=0.0), dict(a=0.5, postselect=False), dict(a=0.98, zero_cov_comp=1e-3), dict(a=0.9, default_n_particles=6)):
            def f(w, x, kw=kw):
                d = qi.LiuWestResampler(**kw)(zoo.TableModel([zoo.TABLE2[0]], [2], n_params=2) if kw.get('postselect', True) is False else Anywhere(), cloud(w, x))
                return [d.particle_locations, d.particle_weights]
            yield ('LiuWestResampler(%s)%s' % (', '.join('%s=%s' % z for z in sorted(kw.items())), nm), f, (w, x))
        yield ('LiuWestResampler with precomputed moments' + nm, lambda w, x, m, v: flat((lambda d: [d.particle_locations, d.particle_weights])(qi.LiuWestResampler(a=0.9)(Anywhere(), cloud(w, x), precomputed_mean=m, precomputed_cov=v))),
               (w, x, np.array([1.0, 2.0]), np.array([(2.0, 1.0), (1.0, 3.0)])))


class Anywhere(zoo.TableModel):
    def __init__(self): zoo.TableModel.__init__(self, [zoo.TABLE2[0], zoo.TABLE2[1]], [2, 2], n_params=2)
    def are_models_valid(self, m): return np.all(np.isfinite(m), axis=1)


class Sent(object):
    def __init__(self, x): self.x = x; self.n_rvs = x.shape[1]
    def sample(self, n=1): return self.x


def as_updater(d):
    u = qi.SMCUpdater(Anywhere(), d.n_particles, Sent(d.particle_locations))
    u.particle_weights = np.array(d.particle_weights)
    return u


def updating(which):
    """A whole history with a prior, weights and data of every form."""
    M2 = np.array([(0.0, 1.0), (1.0, 2.0), (3.0, 0.0), (2.0, 1.0)])
    eps = np.array([(0,), (1,), (0,)], dtype=[('e', int)])
    outs = np.array([0, 1, 1])
    ww = np.array([0.25, 0.25, 0.25, 0.25])

    def up(x, w, **kw):
        u = qi.SMCUpdater(Anywhere(), len(x), Sent(x), resample_thresh=kw.pop('thresh', 0.0), **kw)
        u.particle_weights = np.array(w)
        return u

    def done(u): return [u.particle_weights, u.particle_locations, u.n_ess, np.array(u.normalization_record), u.log_total_likelihood, u.est_mean()]

    def one(x, w, o, e):
        u = up(x, w)
        for i in range(len(o)): u.update(o[i], e[i:i + 1])
        return done(u)

    def two(x, w, o, e):
        u = up(x, w)
        for i in range(len(o)): u.update(np.asarray(o)[i:i + 1], e[i:i + 1])
        return done(u)

    def batch(x, w, o, e):
        u = up(x, w)
        u.batch_update(o, e, resample_interval=10)
        return done(u)

    def resampled(x, w, o, e):
        u = up(x, w, thresh=0.9)
        u.batch_update(o, e, resample_interval=1)
        return done(u)

    def hyp(x, w, o, e):
        u = up(x, w)
        h = u.hypothetical_update(np.unique(o), e)
        return [h, u.hypothetical_update(o[:1], e[:1], return_likelihood=True, return_normalization=True), u.particle_weights]

    def design(x, w, o, e):
        u = up(x, w)
        return [u.bayes_risk(e), u.expected_information_gain(e), [u.bayes_risk(e[i:i + 1]) for i in range(len(e))], u.particle_weights]

    def reset(x, w, o, e):
        u = up(x, w)
        u.update(o[0], e[:1])
        u.reset()
        return done(u)
    d = dict(one=('update', one), two=('update with arrays', two), batch=('batch_update', batch), resampled=('resampled', resampled), hyp=('hypothetical_update', hyp), design=('design', design), reset=('reset', reset))
    for k in which:
        yield (d[k][0], d[k][1], (M2, ww, outs, eps))
        yield (d[k][0] + ' uneven', d[k][1], (M2[:, :] + 0.0, np.array([0.5, 0.125, 0.25, 0.125]), outs[::-1].copy(), eps[::-1].copy()))


def fscenario(make, name='forms'):
    return [(name, lambda c: functions(c, list(make())))]
