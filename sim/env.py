"""Process bootstrap: scratch machine, seams, then the real library from /repo."""
import gc
import logging
import os
import random
import shutil
import sys
import tempfile
import warnings

STATE = {}
REPO = os.environ.get('NEPHOSEM_REPO', '/repo')


def boot():
    """Create the scratch machine of this worker process and import nephosem under the seams."""
    if STATE:
        return STATE
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMEXPR_NUM_THREADS',
              'NUMEXPR_MAX_THREADS'):
        os.environ[v] = '1'
    os.environ['MPLBACKEND'] = 'Agg'
    os.environ['TZ'] = 'UTC'
    sys.dont_write_bytecode = True
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
    scratch = os.path.realpath(tempfile.mkdtemp(prefix='nephosim-', dir=base))
    # a per-process root name would leak into hashes of recorded paths only as relative names
    os.environ['HOME'] = scratch + '/home'
    os.environ['TMPDIR'] = scratch + '/systmp'
    os.environ['MPLCONFIGDIR'] = scratch + '/mpl'
    tempfile.tempdir = scratch + '/systmp'
    os.mkdir(scratch + '/mpl')
    STATE['scratch'] = scratch
    import atexit
    owner = os.getpid()

    def cleanup():
        if os.getpid() == owner:
            shutil.rmtree(scratch, ignore_errors=True)
    atexit.register(cleanup)
    STATE['cleanup'] = cleanup
    wipe(scratch)
    os.chdir(scratch + '/work')
    warnings.simplefilter('ignore')
    import numpy, pandas, scipy.sparse, scipy.spatial.distance, networkx, zipfile, json, csv, codecs, pickle  # noqa
    import scipy.cluster.hierarchy, sklearn.metrics.pairwise, sklearn.preprocessing, sklearn.metrics  # noqa
    import six, smart_open, tabulate, matplotlib  # noqa
    import matplotlib.pyplot  # noqa
    import numpy.random  # noqa
    import tqdm
    import threading  # noqa
    import multiprocessing.dummy, multiprocessing.sharedctypes, multiprocessing.synchronize  # noqa
    import concurrent.futures.process, concurrent.futures.thread  # noqa
    tqdm.tqdm.monitor_interval = 0
    tqdm.tqdm.get_lock()
    from . import seams
    seams.install(scratch)
    sys.path.insert(0, REPO)
    sys.pycache_prefix = scratch + '/pyc'     # never trust compiled files lying in the tree
    out, err = sys.stdout, sys.stderr
    null = seams.REAL.open(os.devnull, 'w')
    STATE['out'], STATE['err'], STATE['null'] = out, err, null
    sys.stdout = sys.stderr = null
    from . import threads
    threads.IMPORTING[0] = True
    try:
        import nephosem
        import nephosem.core.handler, nephosem.core.matrix, nephosem.core.vocab, nephosem.core.terms  # noqa
        import nephosem.core.graph, nephosem.models.typetoken, nephosem.models.deprel  # noqa
        import importlib
        import pkgutil
        for m in pkgutil.walk_packages(nephosem.__path__, 'nephosem.'):
            if '.tests' in m.name:
                continue
            try:
                importlib.import_module(m.name)
            except Exception:
                pass
    finally:
        threads.IMPORTING[0] = False
        sys.stdout, sys.stderr = out, err
    if not os.path.realpath(nephosem.__file__).startswith(os.path.realpath(REPO) + '/'):
        raise RuntimeError('nephosem imported from %s' % nephosem.__file__)
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    numpy.seterr(all='ignore')
    gc.collect()
    gc.disable()
    gc.freeze()
    STATE['slots'] = len(seams.global_slots())
    wipe(scratch)
    return STATE


def wipe(scratch=None):
    """A fresh machine: home, default temporary directory, working directory."""
    scratch = scratch or STATE['scratch']
    for d in os.listdir(scratch):
        if d != 'mpl':
            p = scratch + '/' + d
            if os.path.isdir(p) and not os.path.islink(p):
                for f in os.listdir(p):
                    q = p + '/' + f
                    shutil.rmtree(q) if os.path.isdir(q) and not os.path.islink(q) else os.remove(q)
                if d not in ('home', 'systmp', 'work'):
                    os.rmdir(p)
            else:
                os.remove(p)
    for d in ('home', 'systmp', 'work'):
        if not os.path.isdir(scratch + '/' + d):
            os.mkdir(scratch + '/' + d)


class quiet(object):
    """Silence the library while it runs."""

    def __enter__(self):
        self.o = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = STATE['null']

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o


def seed_all(seed):
    import numpy as np
    random.seed('glob-%s' % (seed,))
    np.random.seed(random.getrandbits(32))
