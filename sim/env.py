"""Process bootstrap: deterministic environment, PyNite imported from the working tree of /repo only."""
import os, sys

REPO = os.environ.get('VERIF_REPO', '/repo')      # overridden only by development scripts
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def bootstrap():
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent/verif-pycache'     # never read stale byte code
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import numpy
    numpy.seterr(all='ignore')
    import PyNite
    got = os.path.realpath(os.path.dirname(PyNite.__file__))
    want = os.path.realpath(os.path.join(REPO, 'PyNite'))
    if got != want:
        raise RuntimeError('PyNite imported from %s, expected %s' % (got, want))
    # everything the library imports lazily, so that forked runs do not import it again and again
    import scipy.sparse, scipy.sparse.linalg, scipy.linalg, numpy.linalg
    import PyNite.Analysis, PyNite.Section, PyNite.Mesh, PyNite.PhysMember
    import sim.gen, sim.hist, sim.faults, sim.queries, sim.observe, sim.geom
    return want

ENV = dict(OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
           PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0')

PKG = os.path.join(os.path.realpath(REPO), 'PyNite') + os.sep

def is_pkg_file(fn):
    return fn.startswith(PKG) or os.path.realpath(fn).startswith(PKG)
