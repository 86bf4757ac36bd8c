"""Explorer, checker context, evidence and reporting."""
import os, sys, json, time, hashlib, traceback, contextlib, warnings, signal, math
import numpy as np
from . import rng

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Divergence(Exception):
    """A replayed prefix met different options: behaviour not a function of the answers."""


class Capped(Exception):
    pass


class StopScenario(Exception):
    pass


class Run(object):
    """One execution: answers choice points from a prefix, then with option 0."""
    def __init__(self, prefix, ugrid, zgrid, limit):
        self.prefix = prefix
        self.points = []      # (n_options, weight of taken, chosen)
        self.choices = []
        self.prob = 1.0
        self.weights = []
        self.ugrid = ugrid
        self.zgrid = zgrid
        self.limit = limit
        self.devs = 0

    def choose(self, n, weights=None, kind=''):
        i = len(self.choices)
        if i >= self.limit:
            raise Capped('more than %d choice points in one execution' % self.limit)
        if i < len(self.prefix):
            k, pn, pk = self.prefix[i]
            if pn != n or pk != kind:
                raise Divergence('choice point %d: %d options of kind %r, recorded %d of kind %r' % (i, n, kind, pn, pk))
        else:
            k = 0
        if k >= n:
            raise Divergence('choice %d out of range at point %d' % (k, i))
        w = (1.0 / n) if weights is None else weights[k]
        self.choices.append((k, n, kind))
        self.prob *= w
        return k


@contextlib.contextmanager
def controlled(run):
    old = rng.ControlledRandomState.ctx
    rng.ControlledRandomState.ctx = run
    try:
        yield run
    finally:
        rng.ControlledRandomState.ctx = old


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        with np.errstate(all='ignore'):
            yield w


def midpoints(n):
    return [(k + 0.5) / n for k in range(n)]


def explore(fn, n_u=4, zgrid=rng.GH2, dev_bound=None, max_runs=200000, limit=4000, ugrid=None):
    """Stateless depth-first enumeration of fn() over all random answers.

    Yields (result, prob, choices).  Exceptions of fn are results of class
    Raised.  With dev_bound=d only executions with at most d non-default
    answers are enumerated (and the weights no longer sum to one).
    """
    ug = ugrid if ugrid is not None else midpoints(n_u)
    stack = [[]]
    runs = 0
    while stack:
        prefix = stack.pop()
        runs += 1
        if runs > max_runs:
            raise Capped('more than %d executions' % max_runs)
        run = Run(prefix, ug, zgrid, limit)
        with controlled(run):
            try:
                res = fn()
            except (Divergence, Capped, KeyboardInterrupt, MemoryError, StopScenario):
                raise
            except Exception as e:
                res = Raised(e)
        if len(run.choices) < len(prefix):
            raise Divergence('execution ended after %d choice points, %d recorded' % (len(run.choices), len(prefix)))
        yield res, run.prob, tuple(c[0] for c in run.choices)
        devs = sum(1 for c in prefix if c[0])
        if dev_bound is not None and devs >= dev_bound:
            continue
        for i in range(len(run.choices) - 1, len(prefix) - 1, -1):
            k, n, kind = run.choices[i]
            for alt in range(n - 1, 0, -1):
                stack.append(run.choices[:i] + [(alt, n, kind)])


def replay(fn, choices, n_u=4, zgrid=rng.GH2, ugrid=None):
    """One execution following a list of plain choice numbers (default 0 afterwards)."""
    class R(Run):
        def choose(self, n, weights=None, kind=''):
            i = len(self.choices)
            k = choices[i] if i < len(choices) else 0
            k = k % n
            self.choices.append((k, n, kind))
            self.prob *= (1.0 / n) if weights is None else weights[k]
            return k
    run = R([], ugrid if ugrid is not None else midpoints(n_u), zgrid, 10 ** 9)
    with controlled(run):
        return fn()


class cycle_stream(object):
    """Deterministic 'scripted' answers for large configurations: a fixed
    low-discrepancy cycle, so that one execution is reproducible."""
    def __init__(self, seed=0, n_u=16, zgrid=((-1.3, 1), (-0.4, 1), (0.2, 1), (0.9, 1), (1.6, 1))):
        self.k = seed
        self.ugrid = midpoints(n_u)
        self.zgrid = zgrid

    def choose(self, n, weights=None, kind=''):
        self.k = (self.k * 1103515245 + 12345) % (2 ** 31)
        v = (self.k >> 8) / float(2 ** 23)
        if weights is None or kind == 'z':
            return int(v * n) % n
        c = 0.0
        for i, w in enumerate(weights):
            c += w
            if v < c:
                return i
        return n - 1


class Raised(object):
    def __init__(self, e):
        self.e = e
        self.tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])

    def __repr__(self):
        return 'Raised(%s: %s)' % (type(self.e).__name__, self.e)


def canon(o, digits=9):
    """Hashable canonical form (floats rounded)."""
    if isinstance(o, np.ndarray):
        if o.dtype.names:
            return (o.shape,) + tuple((n, canon(o[n])) for n in o.dtype.names)
        if o.dtype.kind in 'fc':
            return (o.shape, str(o.dtype.kind), (np.round(o, digits) + 0.0).tobytes())
        if o.dtype.kind == 'O':
            return (o.shape, tuple(canon(x) for x in o.ravel()))
        return (o.shape, o.astype(np.int64).tobytes() if o.dtype.kind in 'iub' else o.tobytes())
    if isinstance(o, (float, np.floating)):
        return round(float(o), digits) + 0.0
    if isinstance(o, (list, tuple)):
        return tuple(canon(x) for x in o)
    if isinstance(o, dict):
        return tuple(sorted((str(k), canon(v)) for k, v in o.items()))
    if isinstance(o, (int, str, bool, type(None), np.integer, bytes)):
        return o
    if isinstance(o, Raised):
        return ('raised', type(o.e).__name__)
    return repr(type(o))


def short(o, n=400):
    if isinstance(o, np.ndarray):
        s = np.array2string(o, precision=6, threshold=40) if not o.dtype.names else repr(o)
    else:
        s = repr(o)
    s = ' '.join(s.split())
    return s if len(s) <= n else s[:n] + '...'


class Chk(object):
    """Context handed to a scenario."""
    MAX_VIOL = 4

    def __init__(self, pid, scenario, tier, seed):
        self.pid, self.scenario, self.tier, self.seed = pid, scenario, tier, seed
        self.thorough = tier == 'thorough'
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.outcomes = set()
        self.viol = []
        self.notes = {}
        self.key = scenario
        self.known = set(kk for k in load_known() if k.get('property') == pid and k.get('status') == 'known'
                         for kk in k['keys'])
        self.nnew = 0

    # -- accounting
    def state(self, *o):
        h = hashlib.blake2b(repr((self.scenario,) + tuple(canon(x) for x in o)).encode(), digest_size=8).digest()
        new = h not in self.states
        self.states.add(h)
        return new

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(short(s) if not isinstance(s, str) else s)

    # -- assertions
    def fail(self, msg, **data):
        self.viol.append(dict(property=self.pid, scenario=self.scenario, key=self.key, message=msg,
                              data={k: short(v) for k, v in data.items()}))
        self._budget()

    def _budget(self):
        if self.key not in self.known:
            self.nnew += 1
        if self.nnew >= self.MAX_VIOL:
            raise StopScenario()

    def ok(self, cond, msg, **data):
        if not bool(cond):
            self.fail(msg, **data)
            return False
        return True

    def eq(self, got, want, msg, tol=1e-9, **data):
        try:
            g = np.asarray(got); w = np.asarray(want)
            good = g.shape == w.shape
            if good and g.size:
                if g.dtype.kind in 'fciub' and w.dtype.kind in 'fciub':
                    d = np.abs(g - w) if g.dtype.kind != 'b' else (g != w)
                    same = (g == w) | (np.isnan(g.astype(complex)) & np.isnan(w.astype(complex)))
                    lim = tol * (1 + np.abs(np.where(np.isfinite(w), w, 0)))
                    with np.errstate(all='ignore'):
                        good = bool(np.all(same | (d <= lim)))
                else:
                    good = bool(np.all(g == w))
        except Exception as e:
            good = False
        if not good:
            self.fail(msg, got=got, want=want, **data)
        return good

    @contextlib.contextmanager
    def case(self, key, **data):
        """One case; any exception in it is reported as a violation."""
        old = self.key
        self.key = '%s|%s' % (self.scenario, key)
        try:
            with quiet():
                yield self
        except (StopScenario, KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ['%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-5:]]
            if self.nnew < self.MAX_VIOL:
                self.viol.append(dict(property=self.pid, scenario=self.scenario, key=self.key,
                                      message='unexpected %s: %s' % (type(e).__name__, e),
                                      data=dict({k: short(v) for k, v in data.items()}, where=' < '.join(reversed(where)))))
            self._budget()
        finally:
            self.key = old

    # -- probabilistic model checking helper
    def law(self, fn, digits=9, prob_sum=True, **kw):
        """Exact law of fn()'s canonical result over all answers: dict canon -> [prob, result]."""
        out = {}
        tot = 0.0
        n = 0
        for res, p, ch in explore(fn, **kw):
            n += 1
            self.transitions += max(len(ch), 1)
            if isinstance(res, Raised):
                raise res.e
            k = canon(res, digits) if not isinstance(res, np.ndarray) else canon(np.asarray(res), digits)
            tot += p
            if k in out:
                out[k][0] += p
            else:
                out[k] = [p, res]
        self.traces += n
        for k in out:
            self.state('law', self.key, k)
        if prob_sum and abs(tot - 1) > 1e-9:
            raise RuntimeError('probabilities sum to %r' % tot)
        return out

    def explore(self, fn, **kw):
        for res, p, ch in explore(fn, **kw):
            self.transitions += max(len(ch), 1)
            self.traces += 1
            if isinstance(res, Raised):
                self.fail('unexpected %r' % res, choices=ch, tb=res.tb)
                continue
            yield res, p, ch


# ---------------------------------------------------------------------------

def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))


def run_scenario(args):
    pid, name, tier, seed = args
    import importlib
    from . import boot
    boot.boot()
    mod = importlib.import_module('mc.checks.' + pid.lower())
    fn = dict(mod.SCENARIOS)[name]
    rng.seed(20240 + 0)     # the exploration does not depend on the seed: it is exhaustive
    c = Chk(pid, name, tier, seed)
    t = time.time()
    err = None
    try:
        fn(c)
    except StopScenario:
        pass
    except (Divergence, Capped) as e:
        # behaviour that is not a function of the answers given, or an exploration
        # that no longer ends: both are deviations from the unchanged tree's behaviour
        c.viol.append(dict(property=pid, scenario=name, key=name + '|' + type(e).__name__,
                           message='%s: %s' % (type(e).__name__, e), data={}))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        c.viol.append(dict(property=pid, scenario=name, key=name + '|exception',
                           message='unexpected %s: %s' % (type(e).__name__, e),
                           data=dict(where=' < '.join('%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name)
                                                      for f in reversed(tb[-5:])))))
    return dict(name=name, states=len(c.states), transitions=c.transitions, traces=c.traces, samples=c.samples,
                viol=c.viol, wall=time.time() - t, notes=c.notes)


def run_pool(ctx, a, jobs, t0):
    """All scenarios in parallel.  A scenario that is still running long after everything normally has ended is a
    violation of its own: something in it no longer comes to an end."""
    import multiprocessing as mp
    limit = float(os.environ.get('VERIF_LIMIT', '720' if a.tier == 'quick' else 'inf'))
    results, names = [], [j[1] for j in jobs]
    fast = bool(os.environ.get('VERIF_FAILFAST'))
    known = {kk for k in load_known() if k.get('status') == 'known' for kk in k['keys']}
    pool = ctx.Pool(min(a.j, len(jobs)), maxtasksperchild=1)
    try:
        it = pool.imap_unordered(run_scenario, jobs, chunksize=1)
        while len(results) < len(jobs):
            left = limit - (time.time() - t0)
            try:
                r = it.next(timeout=None if left == float('inf') else max(left, 0.01))
            except mp.TimeoutError:
                done = {r['name'] for r in results}
                for n in names:
                    if n not in done:
                        results.append(dict(name=n, states=0, transitions=0, traces=0, samples=[], wall=limit, notes={}, viol=[
                            dict(property=a.pid, scenario=n, key=n + '|endless', message='the scenario did not end within %g s' % limit, data={})]))
                break
            results.append(r)
            if fast and any(v['key'] not in known for v in r['viol']):
                break
    finally:
        pool.terminate()
        pool.join()
    return results


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', help='scenario name')
    ap.add_argument('--replay', help='violation file to re-run')
    ap.add_argument('-j', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    from . import boot
    boot.boot()
    import importlib
    pid = a.pid
    mod = importlib.import_module('mc.checks.' + pid.lower())
    names = [n for n, f in mod.SCENARIOS]
    if a.replay:
        names = [json.load(open(a.replay))['scenario']]
    if a.only:
        names = [n for n in names if n == a.only]
    jobs = [(pid, n, a.tier, seed) for n in names]
    if a.j > 1 and len(jobs) > 1:
        import multiprocessing as mp
        ctx = mp.get_context('fork')
        results = run_pool(ctx, a, jobs, t0)
        results.sort(key=lambda r: names.index(r['name']))
    else:
        results = [run_scenario(j) for j in jobs]
    known = [k for k in load_known() if k.get('property') == pid and k.get('status') == 'known']
    kmap = {}
    for k in known:
        for kk in k['keys']:
            kmap[kk] = k
    new, seen_known = [], {}
    for r in results:
        for v in r['viol']:
            hit = kmap.get(v['key'])
            if hit is not None:
                seen_known[hit['id']] = hit
            else:
                new.append(v)
    if a.v:
        for r in results:
            print('  %-40s states=%d transitions=%d traces=%d wall=%.1fs viol=%d' % (
                r['name'], r['states'], r['transitions'], r['traces'], r['wall'], len(r['viol'])))
    for k in seen_known.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for v in new[:8]:
        print('  [%s] %s' % (v['key'], v['message']))
        for kk, vv in v['data'].items():
            print('      %s: %s' % (kk, vv))
    rc = 0
    if new:
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.json' % pid)
        v = dict(new[0])
        v['how_to_replay'] = 'python3 /verif/run.py %s --replay %s' % (pid, path)
        v['all'] = new[:20]
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    elif a.replay:
        print('replay: the violation does not occur')
    samples = []
    for r in results:
        for s in r['samples'][:1]:
            samples.append('%s: %s' % (r['name'], s))
    ev = dict(property=pid, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level='model_checking',
              coverage=dict(states=sum(r['states'] for r in results),
                            transitions=sum(r['transitions'] for r in results),
                            traces_validated_against_impl=sum(r['traces'] for r in results),
                            exhaustive=True,
                            explanation=getattr(mod, 'BOUNDS', ''),
                            samples=samples[:12] or ['none'],
                            scenarios={r['name']: dict(states=r['states'], transitions=r['transitions'],
                                                       executions_compared=r['traces'], wall_s=round(r['wall'], 2))
                                       for r in results}),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    if not a.only and not a.replay:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %s (states=%d transitions=%d executions=%d scenarios=%d) %.1fs' % (
        pid, a.tier, 'VIOLATED' if new else 'held', ev['coverage']['states'], ev['coverage']['transitions'],
        ev['coverage']['traces_validated_against_impl'], len(results), time.time() - t0))
    return rc
