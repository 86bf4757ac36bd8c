"""C15: Bayes risk and expected information gain equal the average over actual updates."""
import itertools, math
import numpy as np
import qinfer as qi
from .. import zoo, core, rng
from ..util import *

BOUNDS = ('Every base model, every derived model of the catalogue and two-deep stacks, with all catalogue experiments, up to 6 '
          'weightings of 3-5 particles, compared outcome by outcome with actual updates of copies; every state reached by '
          'every history of 2 data on 8 models; all ordered pairs and the full list of experiments against single ones; '
          'scale matrices other than one; scripted sets of 200 particles, 40 shots, 6 outcomes.')
ASSUMPTIONS = ['models are finite-outcome with likelihoods that sum to one', 'time steps of the model are not part of the hypothetical update']


def rel(p, q):
    return math.fsum(a * math.log(a / b) for a, b in zip(p, q) if a > 0)


def reference(e, rows, ws, ep, Q):
    """risk, gain, outcome entropy from the closed form likelihood."""
    risk, gain, H, tot = 0.0, 0.0, 0.0, 0.0
    for o in e.outcomes(ep):
        ls = [max(e.prob(o, r, ep), 0.0) for r in rows]
        post, z = ref_update(ws, ls)
        tot += z
        if z <= 0:
            continue
        mu = [math.fsum(w * r[k] for w, r in zip(post, rows)) for k in range(len(rows[0]))]
        risk += z * math.fsum(w * math.fsum(Q[k] * (r[k] - mu[k]) ** 2 for k in range(len(mu))) for w, r in zip(post, rows))
        gain += z * rel(post, ws)
        H -= z * math.log(z)
    return risk, gain, H, tot


def variance(rows, ws, Q):
    mu = [math.fsum(w * r[k] for w, r in zip(ws, rows)) for k in range(len(rows[0]))]
    return math.fsum(w * math.fsum(Q[k] * (r[k] - mu[k]) ** 2 for k in range(len(mu))) for w, r in zip(ws, rows))


def judge(c, e, u, rows, ws, eps_idx, Q=None, tol=1e-9, together=True):
    m = u.model
    Q = list(np.asarray(m.Q, dtype=float)) if Q is None else Q
    c.eq(np.asarray(m.Q, dtype=float), np.array(Q, dtype=float), 'scale matrix')
    before = snap(u)
    pres = variance(rows, ws, Q)
    Hw = -math.fsum(w * math.log(w) for w in ws if w > 0)
    scale = 1 + pres + max(abs(v) for r in rows for v in r) ** 2
    R, G = [], []
    for i in eps_idx:
        r, g, H, tot = reference(e, rows, ws, e.eps[i], Q)
        ep = e.ep_array(m, [i])
        a = np.asarray(u.bayes_risk(ep)); b = np.asarray(u.expected_information_gain(ep))
        R.append(r); G.append(g)
        if not c.ok(a.shape == (1,) and b.shape == (1,), 'one value per experiment', got=(a.shape, b.shape)):
            return
        c.ok(abs(a[0] - r) <= tol * scale, 'Bayes risk is the outcome-averaged posterior variance', ep=e.eps[i], got=a[0], want=r)
        c.ok(abs(b[0] - g) <= tol * (1 + Hw), 'information gain is the outcome-averaged relative entropy', ep=e.eps[i], got=b[0], want=g)
        c.ok(np.isfinite(a[0]) and a[0] >= -tol * scale and a[0] <= pres + tol * scale, 'risk between zero and the present variance', got=a[0], present=pres)
        c.ok(np.isfinite(b[0]) and b[0] >= -tol and b[0] <= min(H, Hw) + tol * 10, 'gain between zero and the entropies', got=b[0], outcomes=H, weights=Hw)
        c.step(2)
    if together and len(eps_idx) > 1:
        for group in [list(range(len(eps_idx))), list(range(len(eps_idx)))[::-1]] + [list(p) for p in itertools.permutations(range(len(eps_idx)), 2)][:8]:
            ep = e.ep_array(m, [eps_idx[k] for k in group])
            c.eq(u.bayes_risk(ep), [R[k] for k in group], 'risks evaluated together', tol=tol * scale)
            c.eq(u.expected_information_gain(ep), [G[k] for k in group], 'gains evaluated together', tol=tol * (1 + Hw))
            c.step()
    d = same_snap(before, snap(u))
    c.ok(d is None, 'evaluating changes nothing in the updater', differs=d)


ENT = None


def entries():
    global ENT
    if ENT is None:
        ENT = [e for e in zoo.all_finite(depth2=True)]
    return ENT


def s_entries(part, of):
    def f(c):
        for k, e in enumerate(entries()):
            if k % of != part:
                continue
            rows = e.params[:5]
            deep = e.name.count('(') > 1
            pats = weight_patterns(len(rows), True)
            if 'derived' in e.tags:
                pats = pats[:4] if not c.thorough else pats
            if deep:
                pats = pats[1:3] if not c.thorough else pats
            eps = list(range(len(e.eps)))
            for ws in pats:
                with c.case('entry %s w=%s' % (e.name, [round(w, 3) for w in ws])):
                    u = mk(e.make(), rows, ws)
                    judge(c, e, u, rows, ws, eps, together=not deep)
                    c.state('entry', e.name, ws); c.trace()
    return f


def s_actual(c):
    """The average over actual updates of copies of the updater."""
    for nm in ('coin', 'noisycoin', 'precession', 'unknownT2', 'rb', 'rb_il', 'ndie3', 'table2', 'table3', 'tablev', 'binomial', 'multinomial'):
        e = {'binomial': zoo.binomial(zoo.BY['unknownT2']), 'multinomial': zoo.multinomial(zoo.BY['table3'], ns=(1, 2))}.get(nm) or zoo.BY[nm]
        rows = e.params[:4]
        for ws in weight_patterns(len(rows)):
            for i in range(len(e.eps)):
                with c.case('actual %s w=%s ep=%s' % (e.name, [round(w, 3) for w in ws], e.eps[i])):
                    u = mk(e.make(), rows, ws, resample_thresh=0.0)
                    Q = np.asarray(u.model.Q, dtype=float)
                    ep = e.ep_array(u.model, [i])
                    r = g = 0.0
                    for o in e.outcomes(e.eps[i]):
                        z = math.fsum(w * e.prob(o, p, e.eps[i]) for w, p in zip(ws, rows))
                        if z <= 1e-15:
                            continue
                        v = mk(e.make(), rows, ws, resample_thresh=0.0)
                        v.update(e.out_array(v.model, [o])[0] if not isinstance(o, tuple) else e.out_array(v.model, [o]), ep)
                        mu = v.est_mean()
                        r += z * float((v.particle_weights * (Q * (v.particle_locations - mu) ** 2).sum(axis=1)).sum())
                        g += z * rel(v.particle_weights, ws)
                        c.step()
                    c.ok(abs(u.bayes_risk(ep)[0] - r) < 1e-9, 'risk equals the average over actual updates', got=u.bayes_risk(ep), want=r)
                    c.ok(abs(u.expected_information_gain(ep)[0] - g) < 1e-9, 'gain equals the average over actual updates', got=u.expected_information_gain(ep), want=g)
                    c.trace(); c.state('act', nm, ws, i)


def s_histories(c):
    for nm in ('coin', 'noisycoin', 'precession', 'unknownT2', 'rb', 'ndie3', 'table3', 'tablev'):
        e = zoo.BY[nm]
        rows = e.params[:4]
        ops = [(o, i) for i in range(min(3, len(e.eps))) for o in e.outcomes(e.eps[i])]
        for hist in itertools.product(ops, repeat=2):
            with c.case('history %s %s' % (nm, hist)):
                u = mk(e.make(), rows, weight_patterns(len(rows))[1], resample_thresh=0.0)
                ws = list(weight_patterns(len(rows))[1])
                dead = False
                for o, i in hist:
                    ws2, z = ref_update(ws, [e.prob(o, r, e.eps[i]) for r in rows])
                    if z < 1e-9:
                        dead = True
                        break
                    ws = ws2
                    u.update(e.out_array(u.model, [o])[0], e.ep_array(u.model, [i]))
                if dead:
                    continue
                judge(c, e, u, rows, ws, list(range(min(4, len(e.eps)))), together=False, tol=1e-8)
                c.state('hist', nm, ws); c.trace()


class Scaled(zoo.TableModel):
    """Two parameters; the first selects the table row."""
    def __init__(self, table, q):
        self._q = q
        zoo.TableModel.__init__(self, table, [len(r[0]) for r in table], n_params=len(q))

    @property
    def Q(self): return np.array(self._q)

    def are_models_valid(self, m): return np.ones(len(m), dtype=bool)


def s_scale(c):
    for table, nm in ((zoo.TABLE2, 't2'), (zoo.TABLE3, 't3'), (zoo.TABLEV, 'tv')):
        for q in ([1.0], [4.0], [0.0], [1, 0], [0.5, 2.0], [0, 3], [1, 1, 10]):
            k = len(q)
            rows = [tuple([float(i)] + [(-1.0) ** i * (i + j) for j in range(1, k)]) for i in range(4)]
            base = zoo.table_entry(nm, table)
            e = zoo.Entry(nm, lambda: Scaled(table, q), rows, base.eps, base.outcomes, base.prob, n_out_const=base.n_out_const)
            for ws in weight_patterns(4, True):
                with c.case('scale %s q=%s w=%s' % (nm, q, [round(w, 3) for w in ws])):
                    u = mk(e.make(), rows, ws)
                    judge(c, e, u, rows, ws, list(range(len(e.eps))), Q=[float(v) for v in q])
                    c.state('q', nm, q, ws)
                    # derived models keep the scale of what they wrap
                    if nm == 't2':
                        b = zoo.binomial(e, ns=(1, 3))
                        ub = mk(b.make(), rows, ws)
                        judge(c, b, ub, rows, ws, [0, 2, 5], Q=[float(v) for v in q])
    # experiment given as a bare value: risk(x0)
    e = zoo.BY['table2']
    with c.case('scale bare value'):
        class One(zoo.TableModel):
            pass
        u = mk(e.make(), e.params, weight_patterns(4)[1])
        for i in range(3):
            c.eq(u.risk(e.eps[i][0]), u.bayes_risk(e.ep_array(u.model, [i])), 'risk of a bare experiment value')


def s_large(c):
    cyc = core.cycle_stream(7)
    def rows_for(e, n):
        lo, hi = np.min(e.mps(), 0), np.max(e.mps(), 0)
        return [tuple(float(a + (b - a) * (cyc.choose(4096) + .5) / 4096) for a, b in zip(lo, hi)) for _ in range(n)]
    def die(n, k):
        out = []
        for _ in range(n):
            v = [1 + cyc.choose(30) for _ in range(k)]
            out.append(tuple(float(x) / sum(v) for x in v))
        return out
    B = zoo.BY
    cases = [(B['precession'], 200, None), (B['unknownT2'], 150, None), (B['coin'], 200, None), (B['noisycoin'], 100, None),
             (zoo.binomial(B['precession'], ns=(1, 10, 40)), 100, [0, 1, 2, 5, 7]), (zoo.binomial(B['unknownT2'], ns=(5, 25)), 120, [0, 1, 3, 6]),
             (B['ndie6'], 100, None), (zoo.multinomial(B['ndie3'], ns=(4, 7)), 60, [0, 1, 2])]
    for e, n, idx in cases:
        for pat in (0, 1):
            with c.case('large %s pat=%d' % (e.name, pat)):
                rows = die(n, len(e.params[0])) if 'ndie' in e.name else rows_for(e, n)
                ws = norm_w([1 + cyc.choose(20) if pat == 0 or i % 4 == 0 else 0 for i in range(n)])
                u = mk(e.make(), rows, ws, resample_thresh=0)
                judge(c, e, u, rows, ws, idx or list(range(len(e.eps))), tol=1e-8)
                c.trace(); c.state('large', e.name, pat)


NP = 6
SCENARIOS = [('entries%d' % k, s_entries(k, NP)) for k in range(NP)] + [('actual', s_actual), ('histories', s_histories), ('scale', s_scale), ('large', s_large)]

from . import bulk  # noqa: E402
BOUNDS += ' Selected very large configurations with over a thousand (some over ten thousand) particles, experiments, data or repetitions.'
SCENARIOS = SCENARIOS + [('bulk', bulk.b15)]

from . import edge  # noqa: E402
BOUNDS += ' Edge configurations: unusual scales and sizes, almost equal or vanishing numbers, reused arrays.'
SCENARIOS = SCENARIOS + [('edge', edge.e15)]

from . import forms  # noqa: E402
BOUNDS += ' Arguments of equal values in every memory layout: column-major, strided, reversed, padded, read-only, broadcast, smaller integers.'
SCENARIOS = SCENARIOS + forms.fscenario(lambda: forms.updating(('design',)))
