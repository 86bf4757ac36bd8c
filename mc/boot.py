"""Process bootstrap: closes the system before QInfer is imported.

 * environment fixed (threads, hash seed, no bytecode written into /repo)
 * numpy's global random source replaced by one the explorer controls
 * np.empty / np.empty_like return poisoned memory (NaN / huge), so a read of
   uninitialised memory is visible on every run instead of sometimes
 * qinfer imported from /repo/src (current working tree), with the generated
   qinfer.version stubbed when the build product is absent
"""
import os, sys, types, warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
FIXED_ENV = dict(OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
                 PYTHONHASHSEED='0', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1',
                 HOME=os.environ.get('HOME', '/root'))
PY = '/opt/venv/bin/python'


def reexec_if_needed():
    need = any(os.environ.get(k) != v for k, v in FIXED_ENV.items())
    if os.path.exists(PY) and os.path.realpath(sys.executable) != os.path.realpath(PY):
        need = True
    if os.environ.get('VERIF_BOOTED') == '1':
        need = False
    if need:
        env = dict(os.environ)
        env.update(FIXED_ENV)
        env['VERIF_BOOTED'] = '1'
        env.pop('PYTHONPATH', None)
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py] + sys.argv, env)


_done = False


def boot():
    global _done
    if _done:
        return
    _done = True
    sys.dont_write_bytecode = True
    import tempfile
    sys.path.insert(0, os.path.join(REPO, 'src'))
    warnings.simplefilter('ignore')
    import numpy as np
    from . import rng
    rng.install()
    install_poison(np)
    if not os.path.exists(os.path.join(REPO, 'src', 'qinfer', 'version.py')):
        v = types.ModuleType('qinfer.version')
        v.version = '0+verif'
        v.__version__ = v.version
        v.git_revision = v.full_version = v.version
        sys.modules['qinfer.version'] = v
    import matplotlib
    matplotlib.use('Agg')
    import qinfer
    src = os.path.realpath(os.path.dirname(qinfer.__file__))
    want = os.path.realpath(os.path.join(REPO, 'src', 'qinfer'))
    if src != want:
        raise RuntimeError('qinfer imported from %s, not from %s' % (src, want))
    import qinfer.tomography
    import qinfer.perf_testing
    import qinfer.simple_est
    warnings.simplefilter('ignore')


# what uninitialised memory holds; C27 changes it to see whether anything depends on it
POISON = dict(f=float('nan'), i=0x5A5A5A5A, b=True)


def install_poison(np):
    real_empty, real_empty_like = np.empty, np.empty_like

    def poison(a):
        try:
            if a.size == 0:
                return a
            if a.dtype.names is not None:
                for n in a.dtype.names:
                    poison(a[n])
            elif a.dtype.kind in 'fc':
                a.fill(POISON['f'])
            elif a.dtype.kind in 'iu':
                a.fill(min(np.iinfo(a.dtype).max, POISON['i']))
            elif a.dtype.kind == 'b':
                a.fill(POISON['b'])
        except Exception:
            pass
        return a

    def empty(*args, **kw):
        return poison(real_empty(*args, **kw))

    def empty_like(*args, **kw):
        return poison(real_empty_like(*args, **kw))

    np.empty = empty
    np.empty_like = empty_like
