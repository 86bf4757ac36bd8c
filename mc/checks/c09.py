"""C09: wrapper stacks keep the metadata, validity and canonical form of the wrapped model."""
import itertools, math, re
import numpy as np
import qinfer as qi
from qinfer import distributions as qd
from qinfer.domains import IntegerDomain, MultinomialDomain, RealDomain
from qinfer.derived_models import DerivedModel
from qinfer.ale import ALEApproximateModel
from .. import zoo, core, rng
from ..util import *

BOUNDS = ('Every wrapper stack of depth up to 2 (thorough 3) over twelve base models including one with a custom scale '
          'matrix, parameter names, canonical form, dynamics and outcome counts that vary: names, scales, experiment '
          'fields, validity and canonical form on parameter lattices with all combinations of valid and invalid rows, '
          'outcome counts and domains on every experiment subset of size up to 3.')
ASSUMPTIONS = ['a wrapper may decline to claim a constant number of outcomes, but never claims one the wrapped model does not have']


class Fancy(zoo.TableModel):
    """Two parameters, own scale matrix, names, canonical form, validity and dynamics."""
    def __init__(self, varying=True):
        self.cleared = 0
        t = zoo.TABLEV if varying else [zoo.TABLE3[0], zoo.TABLE3[1]]
        zoo.TableModel.__init__(self, t, [len(r[0]) for r in t], n_params=2)
        self._Q = np.array([2.0, 0.5])

    @property
    def modelparam_names(self): return [r'\alpha', r'\beta']

    @property
    def expparams_dtype(self): return [('e', 'int'), ('t', 'float')]

    def are_models_valid(self, m):
        return np.logical_and(np.abs(m[:, 0]) < 3.5, m[:, 1] >= -2)

    def canonicalize(self, m):
        m = np.array(m, copy=True)
        m[:, 0] = np.abs(m[:, 0])
        return m

    def update_timestep(self, m, ep):
        out = np.repeat(m[:, :, None], len(ep), axis=2).copy()
        out[:, 1, :] += ep['t'][None, :]
        return out

    def clear_cache(self):
        self.cleared += 1

    def likelihood(self, o, m, x):
        return zoo.TableModel.likelihood(self, o, np.abs(m), x)


def valid_die(p, tol=1e-9):
    return abs(sum(p) - 1) <= 1e-9 and all(0 <= x <= 1 for x in p)


def valid_rb(p):
    pp, A, B = p
    return 0 <= pp <= 1 and 0 <= A <= 1 and 0 <= B <= 1 and A + B <= 1 and A * pp + B <= 1


def valid_il(p):
    return all(0 <= x <= 1 for x in p) and p[2] + p[3] <= 1


unit = lambda p: all(0 <= x <= 1 for x in p)
BASES = [
    ('coin', zoo.BY['coin'].make, [()], unit, ['p'], lambda ep: 2, [-0.25, 0.0, 0.5, 1.0, 1.25], 1),
    ('noisycoin', zoo.BY['noisycoin'].make, [(1.0, 0.0), (.5, .25)], unit, None, lambda ep: 2, [-0.25, 0.0, 0.5, 1.0, 1.25], 1),
    ('precession', zoo.BY['precession'].make, [1.0, 2.5], lambda p: p[0] > 0, [r'\omega'], lambda ep: 2, [-1.0, 0.0, 1e-9, 2.0, 90.0], 1),
    ('precession_min', zoo.BY['precession_min'].make, [1.0, 2.5], lambda p: p[0] > -1, [r'\omega'], lambda ep: 2, [-2.0, -1.0, 0.0, 2.0], 1),
    ('inversion', zoo.BY['inversion'].make, [(1.0, 0.0), (2.0, .5)], lambda p: p[0] > 0, [r'\omega'], lambda ep: 2, [-1.0, 0.0, 1e-9, 2.0], 1),
    ('unknownT2', zoo.BY['unknownT2'].make, [(1.0,), (2.0,)], lambda p: p[0] >= 0 and p[1] >= 0, None, lambda ep: 2, [-1.0, -1e-9, 0.0, 2.0], 2),
    ('rb', zoo.BY['rb'].make, [(1,), (3,)], valid_rb, None, lambda ep: 2, [-0.25, 0.0, 0.5, 0.75, 1.0, 1.25], 3),
    ('rb_il', zoo.BY['rb_il'].make, [(1, True), (3, False)], valid_il, None, lambda ep: 2, [-0.25, 0.0, 0.5, 0.75, 1.0], 4),
    ('ndie3', zoo.BY['ndie3'].make, [(0,), (1,)], valid_die, None, lambda ep: 3, [-0.5, 0.0, 0.5, 1.0], 3),
    ('tablev', zoo.BY['tablev'].make, [(0,), (1,), (2,), (3,)], lambda p: -.5 < p[0] < 3.5, None, lambda ep: [2, 4, 1, 3][ep[0]], [-3.0, 0.0, 3.0, 9.0], 1),
    ('table3', zoo.BY['table3'].make, [(0,), (1,)], lambda p: -.5 < p[0] < 3.5, None, lambda ep: 3, [-3.0, 0.0, 3.0, 9.0], 1),
    ('fancy', Fancy, [(0, 1.0), (1, 0.5), (2, 0.25), (3, 2.0)], lambda p: abs(p[0]) < 3.5 and p[1] >= -2, [r'\alpha', r'\beta'], lambda ep: [2, 4, 1, 3][ep[0]], [-4.0, -3.0, -2.0, 0.0, 3.0], 2),
    ('fancyc', lambda: Fancy(False), [(0, 1.0), (1, 0.5)], lambda p: abs(p[0]) < 3.5 and p[1] >= -2, [r'\alpha', r'\beta'], lambda ep: 3, [-4.0, -3.0, -2.0, 0.0, 3.0], 2),
]


class Plain(DerivedModel):
    def likelihood(self, o, m, x):
        super(Plain, self).likelihood(o, m, x)
        return self.underlying_model.likelihood(o, m, x)

    def simulate_experiment(self, m, x, repeat=1):
        super(Plain, self).simulate_experiment(m, x, repeat)
        return self.underlying_model.simulate_experiment(m, x, repeat)


SIG = r'\sigma_{%s}'
# name -> (constructor, extra parameter names(fn of names), extra validity, kind)
WRAPS = {
    'plain': (Plain, lambda n: 0, lambda x: True, ''),
    'walk': (lambda m: qi.RandomWalkModel(m, zoo.ZeroDist(m.n_modelparams)), lambda n: 0, lambda x: True, ''),
    'fixed': (lambda m: qi.GaussianRandomWalkModel(m, fixed_covariance=np.ones(m.n_modelparams)), lambda n: 0, lambda x: True, ''),
    'learn': (lambda m: qi.GaussianRandomWalkModel(m), lambda n: n, lambda x: all(v >= 0 for v in x), ''),
    'learn0': (lambda m: qi.GaussianRandomWalkModel(m, random_walk_idxs=[0]), lambda n: 1, lambda x: all(v >= 0 for v in x), ''),
    'dense': (lambda m: qi.GaussianRandomWalkModel(m, diagonal=False), lambda n: n * (n + 1) // 2, lambda x: True, ''),
    'mle': (lambda m: qi.MLEModel(m, 2), lambda n: 0, lambda x: True, ''),
    'poison': (lambda m: qi.PoisonedModel(m, tol=0.1), lambda n: 0, lambda x: True, ''),
    'gauss': (qi.GaussianHyperparameterizedModel, lambda n: 4, lambda x: x[2] > 0 and x[3] > 0, 'real'),
    'binomial': (qi.BinomialModel, lambda n: 0, lambda x: True, 'count'),
    'diffbinomial': (qi.DifferentiableBinomialModel, lambda n: 0, lambda x: True, 'count'),
    'multinomial': (qi.MultinomialModel, lambda n: 0, lambda x: True, 'vector'),
    'ale': (lambda m: ALEApproximateModel(m, error_tol=0.2, min_samp=2, samp_step=2), lambda n: 0, lambda x: True, ''),
}


def allowed(stack, w, base):
    two = base[0] not in ('ndie3', 'tablev', 'table3', 'fancy', 'fancyc')
    const = base[0] not in ('tablev', 'fancy') and not any(s in ('fixed', 'learn', 'learn0', 'dense') for s in stack)
    if any(WRAPS[s][3] for s in stack):
        if WRAPS[w][3] or w == 'ale' or 'gauss' in stack:
            return False
    if w == 'diffbinomial':
        return not stack and base[0] in ('coin', 'precession', 'precession_min', 'inversion', 'rb', 'rb_il')
    if w in ('gauss', 'binomial', 'ale'):
        return two and const
    if w == 'multinomial':
        return const
    return True


def ext_eps(eps, scalar, kind, ns=(1, 3)):
    out = []
    for i, ep in enumerate(eps):
        t = (ep,) if scalar else tuple(ep)
        out.append(t + (ns[i % len(ns)],))
    return out


def cases(thorough):
    for base in BASES:
        for d in range(0, 4 if thorough else 3):
            for stack in itertools.product(WRAPS, repeat=d):
                if d == 3 and (base[0] not in ('fancyc', 'fancy', 'coin', 'rb') ):
                    continue
                if all(allowed(stack[:i], w, base) for i, w in enumerate(stack)):
                    yield base, stack


def build(base, stack):
    ms = [base[1]()]
    for w in stack:
        ms.append(WRAPS[w][0](ms[-1]))
    return ms


def check(c, base, stack):
    name, mk_, eps, valid, names, n_out, vals, n0 = base
    ms = build(base, stack)
    m = ms[-1]
    # ---- names, counts, scale
    cur = list(ms[0].modelparam_names)
    Q = [2.0, 0.5] if name.startswith('fancy') else [1.0] * n0
    if names:
        c.eq(cur, names, 'names of the base model')
    extras = []
    kind = ''
    scalar = isinstance(ms[0].expparams_dtype, str)
    eps_cur = list(eps)
    fields = ms[0].expparams_dtype
    for w, mm in zip(stack, ms[1:]):
        k = WRAPS[w][1](len(cur))
        extras.append((len(cur), k, WRAPS[w][2]))
        cur_new = list(mm.modelparam_names)
        c.ok(cur_new[:len(cur)] == cur and len(cur_new) == len(cur) + k, 'parameter names of the wrapper', got=cur_new, wrapped=cur)
        cur = cur_new
        Q = Q + [1.0] * k
        if WRAPS[w][3] in ('count', 'vector'):
            eps_cur = ext_eps(eps_cur, scalar, WRAPS[w][3])
            fields = ([('x', fields)] if scalar else list(fields)) + [('n_meas', 'uint')]
            scalar = False
        kind = kind or WRAPS[w][3]
    c.ok(m.n_modelparams == len(cur), 'number of parameters')
    c.eq(np.asarray(m.Q, dtype=float), np.array(Q), 'scale matrix')
    c.ok(np.dtype(m.expparams_dtype) == np.dtype(fields), 'experiment fields', got=m.expparams_dtype, want=fields)
    c.ok(m.base_model is ms[0] and list(m.model_chain) == ms[:-1] and (m.underlying_model is (ms[-2] if stack else None)), 'chain of models')
    h = m._repr_html_()
    at = [mt.start() for mt in re.finditer('<strong>', h)]
    said = [h[a + 8:h.index('</strong>', a)] for a in at]
    c.ok(said == [type(x).__name__ for x in reversed(ms)], 'summary names the chain of models from the outside in', got=said)
    c.ok([int(k) for k in re.findall(r'(\d+) model parameter', h)] == [x.n_modelparams for x in reversed(ms)], 'summary counts the parameters', got=h)
    # ---- validity and canonical form
    npar = len(cur)
    lat = list(itertools.product(vals, repeat=n0))
    if len(lat) > 60:
        lat = lat[::max(1, len(lat) // 60)] + [(0.5,) * n0] + ([(0.5, 0.25, 0.25), (0.9, 0.5, 0.5), (1.0, 0.75, 0.5)] if n0 == 3 else [])
    ex = sum(k for _, k, _ in extras)
    exl = [(0.5,) * ex, (0.0,) * ex, tuple(-0.5 if i == ex - 1 else 0.25 for i in range(ex)), tuple(-0.5 if i == 0 else 0.25 for i in range(ex))] if ex else [()]
    rows = [a + b for a in lat for b in exl]
    want = []
    for r in rows:
        ok = valid(r[:n0])
        for off, k, f in extras:
            ok = ok and f(r[off:off + k])
        want.append(bool(ok))
    arr = np.array(rows, dtype=float)
    got = np.asarray(m.are_models_valid(arr.copy()))
    c.ok(got.shape == (len(rows),), 'shape of validity', got=got.shape)
    bad = [rows[i] for i in range(len(rows)) if bool(got[i]) != want[i]]
    c.ok(not bad, 'validity of parameters', rows=bad[:4])
    # every combination of two rows
    sel = [i for i in range(len(rows)) if want[i]][:3] + [i for i in range(len(rows)) if not want[i]][:3]
    for k in (1, 2):
        for ix in itertools.product(sel, repeat=k):
            g = np.asarray(m.are_models_valid(arr[list(ix)]))
            c.ok(list(map(bool, g)) == [want[i] for i in ix], 'validity of a batch', rows=[rows[i] for i in ix])
            c.step()
    can = np.asarray(m.canonicalize(arr.copy()))
    wantc = arr.copy()
    if name.startswith('fancy'):
        wantc[:, 0] = np.abs(wantc[:, 0])
    c.eq(can, wantc, 'canonical form')
    c.eq(np.asarray(m.canonicalize(can.copy())), can, 'canonical form is idempotent')
    g2 = np.asarray(m.are_models_valid(can))
    c.ok(all(b or not a for a, b in zip(want, map(bool, g2))), 'valid points stay valid under canonical form')
    # ---- outcomes
    uconst = len(set(n_out(e) for e in eps)) == 1
    if m.is_n_outcomes_constant:
        c.ok(uconst and kind not in ('count', 'vector'), 'claims a constant number of outcomes')
    for k in (1, 2, 3):
        for ix in itertools.product(range(len(eps_cur)), repeat=k):
            if k == 3 and len(eps_cur) > 2 and not c.thorough and ix[0] != ix[2]:
                continue
            ea = np.array([eps_cur[i] for i in ix], dtype=m.expparams_dtype)
            dom = m.domain(ea)
            c.step(); c.state(name, stack, ix)
            if not c.ok(len(dom) == k, 'one domain per experiment', got=len(dom)):
                continue
            if kind == 'real':
                c.ok(all(isinstance(d, RealDomain) for d in dom), 'real domain')
                continue
            nn = np.broadcast_to(np.asarray(m.n_outcomes(ea)), (k,))
            for j, i in enumerate(ix):
                n_u = n_out(eps[i])
                if kind == 'count':
                    w = eps_cur[i][-1] + 1
                    c.ok(dom[j].min == 0 and dom[j].max == eps_cur[i][-1], 'domain of counts', got=(dom[j].min, dom[j].max))
                elif kind == 'vector':
                    w = math.comb(eps_cur[i][-1] + n_u - 1, n_u - 1)
                    c.ok(dom[j].n_meas == eps_cur[i][-1] and dom[j].n_elements == n_u, 'domain of count vectors')
                else:
                    w = n_u
                    c.ok(list(dom[j].values) == list(range(n_u)), 'domain', got=dom[j].values)
                c.ok(int(nn[j]) == w, 'number of outcomes', got=nn[j], want=w)
                c.ok(len(dom[j].values) == w and dom[j].n_members == w, 'domain size matches the number of outcomes')
            c.ok(m.are_expparam_dtypes_consistent(ea), 'outcome types agree')
    if m.is_n_outcomes_constant and kind != 'real':
        c.ok(len(m.domain(None).values) == m.n_outcomes(None), 'constant domain')
    # ---- dynamics: the added parameters never move, and the wrapped step is used
    moving = any(s in ('fixed', 'learn', 'learn0', 'dense', 'walk') for s in stack)
    if not moving:
        ea = np.array(eps_cur[:2], dtype=m.expparams_dtype)
        nm = m.update_timestep(arr.copy(), ea)
        wantm = np.repeat(arr[:, :, None], len(ea), axis=2)
        if name.startswith('fancy'):
            for j in range(len(ea)):
                wantm[:, 1, j] += eps[j][1]
        c.eq(nm, wantm, 'time step of the wrapped model')
    if name.startswith('fancy') and stack:
        b = ms[0].cleared
        m.clear_cache()
        c.ok(ms[0].cleared == b + 1, 'clear_cache reaches the base model')
    c.trace()


def part(k, n):
    def f(c):
        for i, (base, stack) in enumerate(cases(c.thorough)):
            if i % n == k:
                with c.case('%s %s' % (base[0], '/'.join(stack))):
                    check(c, base, stack)
        c.sample('%s %s' % (base[0], stack))
    return f


def s_refuse(c):
    """Wrappers refuse what they cannot represent."""
    for w in ('binomial', 'gauss', 'ale'):
        for b in ('ndie3', 'tablev', 'table3', 'fancy', 'fancyc'):
            with c.case('refuse %s %s' % (w, b)):
                base = [x for x in BASES if x[0] == b][0]
                try:
                    WRAPS[w][0](base[1]())
                    c.fail('accepted')
                except ValueError:
                    c.trace()
    for il in (True, False):
        for order in (1, 2, -1):
            with c.case('refuse benchmarking order %s %d' % (il, order)):
                try:
                    qi.RandomizedBenchmarkingModel(interleaved=il, order=order)
                    c.fail('accepted')
                except NotImplementedError:
                    c.trace()
    with c.case('refuse walk'):
        for d in (1, 2, 4):
            try:
                qi.RandomWalkModel(zoo.BY['rb'].make(), zoo.ZeroDist(d))
                c.fail('accepted a step distribution of the wrong dimension')
            except TypeError:
                c.trace()
    with c.case('refuse gaussian walk'):
        mk_ = zoo.BY['rb'].make
        for kw in (dict(fixed_covariance=np.ones(2)), dict(fixed_covariance=np.ones((3, 3))), dict(fixed_covariance=np.eye(2), diagonal=False),
                   dict(fixed_covariance=np.ones(3), diagonal=False), dict(random_walk_idxs=[0], fixed_covariance=np.ones(3))):
            try:
                qi.GaussianRandomWalkModel(mk_(), **kw)
                c.fail('accepted a covariance of the wrong shape', kw=kw)
            except ValueError:
                c.trace()
        for idx in ([], slice(0, 0)):
            try:
                qi.GaussianRandomWalkModel(mk_(), random_walk_idxs=idx)
                c.fail('accepted an empty walk')
            except IndexError:
                c.trace()


def s_settings(c):
    """Settings of a model read back what was given, on construction or later, and touch nothing else."""
    for mk in (qi.CoinModel, qi.SimplePrecessionModel, lambda: qi.NDieModel(4), qi.RandomizedBenchmarkingModel,
               lambda: qi.BinomialModel(qi.CoinModel()), lambda: qi.MultinomialModel(qi.NDieModel(3)),
               lambda: qi.MLEModel(qi.CoinModel(), 2), lambda: TableSet()):
        for hist in itertools.product((('allow_identical_outcomes', True), ('allow_identical_outcomes', False), ('outcome_warning_threshold', 0.5),
                                       ('n_outcomes_cutoff', 3), ('n_outcomes_cutoff', None)), repeat=3):
            m = mk()
            with c.case('settings %s %s' % (type(m).__name__, hist)):
                want = {}
                for k, v in hist:
                    if not hasattr(type(m), k): continue
                    setattr(m, k, v)
                    want[k] = v
                    for k2, v2 in want.items():
                        c.ok(getattr(m, k2) == v2, 'setting %s reads back' % k2, got=getattr(m, k2), want=v2)
                    c.step()
                c.trace(); c.state(type(m).__name__, hist)
    for a, t, n in itertools.product((True, False), (0.5, 0.99), (None, 5)):
        with c.case('constructed settings %s' % ((a, t, n),)):
            m = TableSet(allow_identical_outcomes=a, outcome_warning_threshold=t, n_outcomes_cutoff=n)
            c.eq([m.allow_identical_outcomes, m.outcome_warning_threshold, m.n_outcomes_cutoff], [a, t, n], 'settings given to the constructor')
            c.step()


class TableSet(qi.FiniteOutcomeModel):
    """A model which hands its settings to the base class."""
    n_modelparams = 1
    modelparam_names = ['p']
    expparams_dtype = [('k', int)]
    is_n_outcomes_constant = True
    def n_outcomes(self, expparams): return 2
    def are_models_valid(self, modelparams): return np.ones(len(modelparams), dtype=bool)
    def likelihood(self, outcomes, modelparams, expparams):
        return self.pr0_to_likelihood_array(outcomes, np.repeat(modelparams, len(expparams), axis=1))


class Mixed(qi.FiniteOutcomeModel):
    """The type of the outcome depends on the experiment."""
    DOMS = [IntegerDomain(min=0, max=1), IntegerDomain(min=0, max=2), MultinomialDomain(n_meas=2, n_elements=2),
            MultinomialDomain(n_meas=3, n_elements=2), MultinomialDomain(n_meas=2, n_elements=3)]
    @property
    def n_modelparams(self): return 1
    @property
    def expparams_dtype(self): return [('e', 'int')]
    @property
    def is_n_outcomes_constant(self): return False
    @staticmethod
    def are_models_valid(mp): return np.ones(len(mp), dtype=bool)
    def n_outcomes(self, ep): return np.array([self.DOMS[i].n_members for i in ep['e']])
    def domain(self, ep): return [self.DOMS[i] for i in ep['e']]
    def likelihood(self, outcomes, mp, ep):
        qi.FiniteOutcomeModel.likelihood(self, outcomes, mp, ep)
        return np.ones((len(outcomes), len(mp), len(ep))) / self.n_outcomes(ep)


def s_mixed(c):
    """Experiments agree on the type of outcome iff their domains do, and simulations of those that do not are refused."""
    top = 4 if c.thorough else 3
    for nm, wrap in (('base', lambda m: m), ('mle', lambda m: qi.MLEModel(m, 2)),
                     ('poisoned', lambda m: qi.PoisonedModel(m, tol=0.1)), ('walk', lambda m: qi.RandomWalkModel(m, zoo.ZeroDist(1))),
                     ('nested', lambda m: qi.MLEModel(qi.PoisonedModel(m, tol=0.1), 2))):
        for n in range(top + 1):
            for idx in itertools.product(range(5), repeat=n):
                with c.case('mixed %s %s' % (nm, idx)):
                    m = wrap(Mixed())
                    ea = np.array([(i,) for i in idx], dtype=m.expparams_dtype)
                    want = len({Mixed.DOMS[i].dtype if isinstance(Mixed.DOMS[i].dtype, type) else str(Mixed.DOMS[i].dtype) for i in idx}) <= 1
                    got = m.are_expparam_dtypes_consistent(ea)
                    c.ok(bool(got) == want, 'outcome types agree', got=got, want=want)
                    c.step(); c.state(nm, idx)
                    if not n:
                        continue
                    with core.controlled(core.cycle_stream(3)):
                        try:
                            o = m.simulate_experiment(np.zeros((2, 1)), ea, repeat=2)
                        except (AssertionError, ValueError, TypeError):
                            c.ok(not want, 'simulation of like experiments is refused')
                        else:
                            c.ok(np.shape(o) == (2, 2, n), 'shape', got=np.shape(o))
                            for k, i in enumerate(idx):
                                vals = Mixed.DOMS[i].values
                                c.ok(all(x.dtype == vals.dtype and any(np.array_equal(x, v) if x.dtype.fields is None else np.array_equal(x['k'], v['k']) for v in vals)
                                         for x in np.asarray(o)[:, :, k].ravel()), 'outcome of the domain', i=i)
                    c.trace()


SCENARIOS = [('stacks%d' % k, part(k, 7)) for k in range(7)] + [('refuse', s_refuse), ('settings', s_settings), ('mixed', s_mixed)]

from . import bulk, edge  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b09)]
BOUNDS += ' Edge configurations: tiny variances, very many outcomes or shots, hundreds of repeats of experiments that coincide or differ only in the middle (fixed seed).'
SCENARIOS = SCENARIOS + [('edge', edge.e09)]

from . import reuse  # noqa: E402
BOUNDS += ' Every pair of calls on one model, in new and in reused arrays, the second answer against a fresh model.'
SCENARIOS = SCENARIOS + reuse.scenario(('base', 'derived', 'spins', 'tomo'), ('canonicalize', 'valid', 'domain', 'n_outcomes', 'cost', 'distance', 'consistent', 'scale'), 8)

from . import forms  # noqa: E402
BOUNDS += ' Arguments of equal values in every memory layout: column-major, strided, reversed, padded, read-only, broadcast, smaller integers.'
SCENARIOS = SCENARIOS + forms.scenario(('base', 'derived', 'spins', 'tomo'), ('canonicalize', 'valid', 'domain', 'n_outcomes', 'cost', 'distance', 'consistent', 'scale'), 3)
