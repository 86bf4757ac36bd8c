"""C11: domains list exactly their members; conversions are reversible."""
import itertools, math
import numpy as np
import qinfer as qi
from qinfer.domains import IntegerDomain, RealDomain, MultinomialDomain, ProductDomain
from .. import zoo, core, rng
from ..util import *

BOUNDS = ('All integer domains with bounds in [-4, 6] or infinite, real domains over a bound lattice, multinomial domains up '
          'to 9 shots x 5 sides and members up to 60 x 8, products of up to three factors in both constructor forms; '
          'membership tested on every point of an enclosing lattice, singly and in pairs; conversions on arrays of 14 '
          'shapes, memory orders, strides and integer types.')
ASSUMPTIONS = ['products of factors whose fields have the same name are rejected by numpy and are not covered',
               'conversions of products keep the order of points, not the shape of the array']
INF = np.inf


def members_int(lo, hi):
    return list(range(lo, hi + 1))


def s_int(c):
    for lo, hi in itertools.product([-INF] + list(range(-4, 7)), list(range(-4, 7)) + [INF]):
        if lo > hi:
            continue
        for form in (int, float, np.int64, np.uint64):
            if form is not float and (lo == -INF or hi == INF) and form is not int:
                continue
            if form is np.uint64 and lo < 0:
                continue
            with c.case('int %s..%s %s' % (lo, hi, form.__name__)):
                cv = lambda v: v if abs(v) == INF else form(v)
                d = IntegerDomain(min=cv(lo), max=cv(hi))
                fin = abs(lo) != INF and abs(hi) != INF
                c.ok(d.min == lo and d.max == hi, 'bounds'); c.ok(d.is_finite == fin and not d.is_continuous and d.is_discrete, 'kind')
                mem = lambda v: float(v) == int(v) and lo <= v <= hi
                if fin:
                    c.eq(d.values, np.array(members_int(lo, hi)), 'values'); c.ok(d.n_members == hi - lo + 1, 'count', got=d.n_members)
                    c.ok(isinstance(d.n_members, (int, np.integer)), 'count is an integer')
                else:
                    c.ok(d.n_members == INF, 'infinite count')
                    c.ok(d.in_domain(d.values), 'listed values are members')
                for a in (d.example_point, d.values):
                    c.ok(np.asarray(a).dtype == np.dtype(d.dtype), 'type'); c.ok(d.in_domain(a), 'members')
                c.ok(np.shape(d.example_point) == (1,), 'example point is one point')
                pts = list(range(-6, 9))
                for p in pts:
                    for q in (p, p + 0.5, p - 1e-3, float(p)):
                        c.ok(bool(d.in_domain(np.array([q]))) == mem(q) if q == int(q) else not d.in_domain(np.array([q])), 'membership', point=q)
                        c.step()
                for a, b in itertools.product(pts, repeat=2):
                    c.ok(bool(d.in_domain(np.array([a, b]))) == (mem(a) and mem(b)), 'membership of two points', points=(a, b))
                c.ok(not d.in_domain(np.array([1j])), 'complex points are no members')
                c.ok(not d.in_domain(np.array([np.nan])), 'NaN is no member')
                c.trace(); c.state(lo, hi, form.__name__)
    with c.case('int defaults'):
        d = IntegerDomain()
        c.ok(d.min == 0 and d.max == INF and not d.is_finite, 'defaults')
    for lo, n in ((0, 1000), (-500, 1001), (10 ** 9, 50)):
        with c.case('int large %d %d' % (lo, n)):
            d = IntegerDomain(min=lo, max=lo + n - 1)
            c.eq(d.values, np.arange(lo, lo + n), 'values'); c.ok(d.n_members == n, 'count')
            c.ok(d.in_domain(d.values) and not d.in_domain(np.append(d.values, lo + n)) and not d.in_domain(np.append(lo - 1, d.values)), 'membership')


def s_real(c):
    B = [-INF, -2.5, 0.0, 1.0, 3.25, INF]
    for lo, hi in itertools.product(B, B):
        if lo > hi or (lo == hi and abs(lo) == INF):
            continue
        with c.case('real %s..%s' % (lo, hi)):
            d = RealDomain(min=lo, max=hi)
            c.ok(d.is_continuous and not d.is_discrete and not d.is_finite and d.n_members == INF, 'kind')
            c.ok(d.min == lo and d.max == hi, 'bounds')
            for a in (d.example_point, d.values):
                c.ok(np.asarray(a).dtype == np.dtype(d.dtype) and d.in_domain(a), 'example is a member')
            c.ok(np.shape(d.example_point) == (1,), 'example point is one point')
            pts = [-1e9, -2.6, -2.5, -2.4, -1e-12, 0.0, 1e-12, 0.999999, 1.0, 1.000001, 3.0, 3.25, 3.26, 1e9]
            for p in pts:
                c.ok(bool(d.in_domain(np.array([p]))) == (lo <= p <= hi), 'membership', point=p)
                for q in pts:
                    c.ok(bool(d.in_domain(np.array([p, q]))) == (lo <= p <= hi and lo <= q <= hi), 'membership of two points', points=(p, q))
                    c.step()
            c.ok(not d.in_domain(np.array([1j])) and not d.in_domain(np.array([np.nan])), 'complex and NaN are no members')
            c.trace(); c.state(lo, hi)


def s_forms(c):
    """Bounds given as integers, floats or NumPy scalars describe the same domain; a count vector has two entries unless stated."""
    for f, g in itertools.product((int, float, np.int64, np.float32, np.float64), repeat=2):
        for lo, hi in ((0, 3), (-2, 2), (1, 1)):
            for a, b in ((f(lo), g(hi)), (-INF, g(hi)), (f(lo), INF)):
                with c.case('real forms %r %r' % (a, b)):
                    d = RealDomain(min=a, max=b)
                    for v in (d.example_point, d.values):
                        c.ok(np.asarray(v).dtype == np.dtype(d.dtype) and d.in_domain(v), 'example is a member of the stated type', got=np.asarray(v).dtype)
                    for p in (-3, -2, 0, 1, 2, 3, 4):
                        for t in (int, float, np.float32):
                            c.ok(bool(d.in_domain(np.array([t(p)]))) == (a <= p <= b), 'membership', point=p)
                    c.step(); c.state('real', repr(a), repr(b))
        for lo, hi in ((0, 3), (-2, 2), (1, 1)):
            if f in (int, np.int64) and g in (int, np.int64):
                with c.case('integer forms %r %r' % (f(lo), g(hi))):
                    d = IntegerDomain(min=f(lo), max=g(hi))
                    c.ok(list(d.values) == list(range(lo, hi + 1)) and d.n_members == hi - lo + 1, 'values', got=d.values)
                    for v in (d.example_point, d.values):
                        c.ok(np.asarray(v).dtype == np.dtype(d.dtype) and d.in_domain(v), 'example is a member of the stated type')
                    c.step(); c.state('int', repr(f(lo)), repr(g(hi)))
    for n in range(8):
        with c.case('default elements %d' % n):
            d = MultinomialDomain(n)
            c.ok(d.n_elements == 2 and d.n_members == n + 1 and d.values['k'].shape == (n + 1, 2), 'two entries unless stated', got=d.n_elements)
            c.step(); c.trace()
    with c.case('default bounds'):
        d = RealDomain()
        c.ok((d.min, d.max) == (-INF, INF) and d.in_domain(np.array([-1e300, 0., 1e300])), 'the reals')
        d = IntegerDomain()
        c.ok((d.min, d.max) == (0, INF) and d.in_domain(np.array([0, 10 ** 9])) and not d.in_domain(np.array([-1])) and d.n_members == INF, 'the counts')


def count_vectors(n, k):
    return sorted(rng.compositions(n, k))


def s_multi(c):
    for k in range(2, 6):
        for n in range(0, 10 if k < 4 else 6):
            for form in (int, np.uint64):
                with c.case('multinomial n=%d k=%d %s' % (n, k, form.__name__)):
                    d = MultinomialDomain(n_meas=form(n), n_elements=k)
                    want = count_vectors(n, k)
                    v = d.values
                    got = [tuple(int(x) for x in np.atleast_1d(r['k'])) for r in v]
                    c.ok(sorted(got) == want, 'values are exactly the count vectors', got=got[:5])
                    c.ok(d.n_members == len(want) and isinstance(d.n_members, (int, np.integer)), 'count', got=d.n_members)
                    c.ok(v.dtype == d.dtype and d.example_point.dtype == d.dtype and d.example_point.shape == (1,), 'type')
                    c.ok(d.in_domain(v) and d.in_domain(d.example_point), 'members')
                    c.ok(d.is_finite and d.is_discrete and not d.is_continuous and d.n_meas == n and d.n_elements == k, 'kind')
                    rg = range(-1, n + 2) if k < 4 else range(-1, 3)
                    for t in itertools.product(rg, repeat=k):
                        p = np.zeros(1, dtype=d.dtype); p['k'][0] = t
                        m = sum(t) == n and min(t) >= 0
                        c.ok(bool(d.in_domain(p)) == m, 'membership', point=t)
                        c.step()
                    # a non-member anywhere in a list is noticed
                    for i in range(min(len(want), 12)):
                        w = v.copy(); w['k'][i] = [n + 1] + [0] * (k - 1)
                        c.ok(not d.in_domain(w), 'a non-member in a list', at=i)
                        w['k'][i] = ([n + 1, -1] + [0] * (k - 2)) if k > 1 else [-1]
                        c.ok(not d.in_domain(w), 'a negative entry in a list', at=i)
                    c.trace(); c.state(n, k)
    for k in range(2, 9):
        for n in range(0, 61):
            with c.case('multinomial count n=%d k=%d' % (n, k)):
                c.ok(MultinomialDomain(n, k).n_members == math.comb(n + k - 1, k - 1), 'count', got=MultinomialDomain(n, k).n_members)
                c.step()


def s_conv(c):
    shapes = [(), (1,), (2,), (5,), (1, 1), (2, 3), (3, 1), (1, 4), (2, 2, 2), (2, 1, 3), (3, 4, 5), (1, 1, 7), (50,), (10, 20)]
    for k in (2, 3, 5):
        d = MultinomialDomain(7, k)
        for sh in shapes:
            A = np.arange(int(np.prod(sh, dtype=int)) * k).reshape(sh + (k,))
            forms = {'c': A, 'f': np.asfortranarray(A), 'int32': A.astype(np.int32), 'uint8': (A % 200).astype(np.uint8), 'uint64': A.astype(np.uint64)}
            if sh:
                big = np.zeros((sh[0] * 2,) + sh[1:] + (k,), dtype=int); big[::2] = A
                forms['strided'] = big[::2]
                forms['reversed'] = A[::-1]
            if len(sh) > 1:
                forms['transposed'] = np.swapaxes(A, 0, 1)
            for nm, B in forms.items():
                with c.case('convert k=%d shape=%s %s' % (k, sh, nm)):
                    b = B.copy()
                    R = d.from_regular_array(B)
                    c.ok(R.shape == B.shape[:-1] and R.dtype == d.dtype, 'shape and type', got=(R.shape, R.dtype))
                    for ix in np.ndindex(*R.shape):
                        c.ok(list(np.atleast_1d(R[ix]['k'] if R.shape else R['k'].ravel())) == list(B[ix]), 'each outcome keeps its counts', at=ix)
                    S = d.to_regular_array(R)
                    c.eq(S, B.astype(int), 'there and back')
                    c.ok(np.array_equal(B, b), 'argument modified')
                    if R.ndim:
                        for view in (R[::-1], R[::2], R.T, R[:1]):
                            want = np.array([list(np.atleast_1d(view[ix]['k'])) for ix in np.ndindex(*view.shape)]).reshape(view.shape + (k,))
                            c.eq(d.to_regular_array(view), want, 'views convert like their copies')
                            c.ok(np.array_equal(d.from_regular_array(d.to_regular_array(view)), view), 'back and there')
                    c.step(); c.trace(); c.state(k, sh, nm)


FACT = [('I01', lambda: IntegerDomain(0, 1), [0, 1]), ('I-2..0', lambda: IntegerDomain(-2, 0), [-2, -1, 0]), ('I5', lambda: IntegerDomain(5, 5), [5]),
        ('M21', lambda: MultinomialDomain(2, 2), count_vectors(2, 2)), ('M13', lambda: MultinomialDomain(1, 3), count_vectors(1, 3)),
        ('R', lambda: RealDomain(0, 1), None), ('I0inf', lambda: IntegerDomain(0), None)]


def flat(p):
    out = []
    for x in p:
        out += list(x) if isinstance(x, tuple) else [x]
    return tuple(out)


def row(r):
    out = []
    for n in r.dtype.names:
        out += [x for x in np.atleast_1d(r[n])]
    return tuple(float(x) for x in out)


def s_product(c):
    for n in (1, 2, 3):
        for fs in itertools.product(FACT, repeat=n):
            if sum(f[0].startswith('M') for f in fs) > 1:
                continue
            for form in ('args', 'list', 'tuple'):
                with c.case('product %s %s' % ('x'.join(f[0] for f in fs), form)):
                    doms = [f[1]() for f in fs]
                    if form == 'args':
                        d = ProductDomain(*doms)
                    else:
                        d = ProductDomain(doms if form == 'list' else tuple(doms))
                    fin = all(f[2] is not None for f in fs)
                    c.ok(d.is_finite == fin and d.is_continuous == any(f[0] == 'R' for f in fs) and d.is_discrete != d.is_continuous, 'kind')
                    v = d.values
                    c.ok(v.dtype == d.dtype and d.example_point.dtype == d.dtype and d.example_point.shape == (1,), 'type')
                    c.ok(d.in_domain(v) and d.in_domain(d.example_point), 'members')
                    if fin:
                        want = sorted(tuple(map(float, flat(p))) for p in itertools.product(*[f[2] for f in fs]))
                        got = sorted(row(r) for r in v)
                        c.ok(got == want, 'values are exactly the product', got=got[:4], want=want[:4])
                        c.ok(d.n_members == len(want), 'count', got=d.n_members)
                    else:
                        c.ok(d.n_members == INF, 'infinite count')
                    # conversions
                    for vv in (v, v[::-1], v[:1], np.tile(v, 3), np.concatenate([v, v])[::2]):
                        parts = d.to_regular_arrays(vv)
                        c.ok(len(parts) == n, 'one array per factor')
                        for p, f, dm in zip(parts, fs, doms):
                            c.ok(p.dtype == dm.example_point.dtype and len(p) == len(vv), 'type of a factor array', got=p.dtype)
                            c.ok(dm.in_domain(p), 'factor values are members of the factor')
                        for i in range(len(vv)):
                            r = []
                            for p in parts:
                                r += list(np.ravel(p[i]['k'])) if p.dtype.names else [p[i]]
                            c.ok(tuple(map(float, r)) == row(vv[i]), 'factor arrays keep each point', at=i)
                        back = d.from_regular_arrays(parts)
                        c.ok(back.dtype == d.dtype and np.array_equal(back, vv), 'there and back')
                        c.step(len(vv))
                    # membership: one bad factor is enough
                    if fin:
                        for j, (f, dm) in enumerate(zip(fs, doms)):
                            if f[0].startswith('I'):
                                for badv in (f[2][-1] + 1, f[2][0] - 1):
                                    for i in range(min(len(v), 6)):
                                        parts = d.to_regular_arrays(v.copy()); parts[j][i] = badv
                                        c.ok(not d.in_domain(d.from_regular_arrays(parts)), 'a point outside one factor', at=i, factor=j)
                            else:
                                parts = d.to_regular_arrays(v.copy()); parts[j]['k'][0] = parts[j]['k'][0] + 1
                                c.ok(not d.in_domain(d.from_regular_arrays(parts)), 'a point outside one factor', factor=j)
                    c.trace(); c.state(form, [f[0] for f in fs])


def s_models(c):
    """Domains of models: values, counts and membership agree for every experiment."""
    for e in zoo.all_finite(depth2=True):
        m = e.make()
        for ep in e.eps:
            with c.case('model %s %s' % (e.name, ep)):
                d = m.domain(np.array([ep], dtype=m.expparams_dtype))[0]
                v = d.values
                got = [zoo.plain_outcome(o) for o in v]
                c.ok(sorted(got) == sorted(e.outcomes(ep)), 'outcomes of an experiment', got=got)
                c.ok(d.n_members == len(got) and d.in_domain(v) and d.in_domain(d.example_point), 'consistent domain')
                c.step(); c.trace(); c.state(e.name, ep)


SCENARIOS = [('integer', s_int), ('real', s_real), ('forms', s_forms), ('multinomial', s_multi), ('convert', s_conv), ('product', s_product), ('models', s_models)]

from . import bulk  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b11)]

from . import edge  # noqa: E402
BOUNDS += ' Edge configurations: unusual scales and sizes, almost equal or vanishing numbers, reused arrays.'
SCENARIOS = SCENARIOS + [('edge', edge.e11)]

from . import reuse  # noqa: E402
BOUNDS += ' Every pair of calls on one model, in new and in reused arrays, the second answer against a fresh model.'
SCENARIOS = SCENARIOS + reuse.scenario(('base', 'derived', 'spins'), ('domain', 'n_outcomes'), 4)
