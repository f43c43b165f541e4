"""Locates and imports the code under test from the working tree (never an installed copy)."""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')


def setup_path():
    """Make `gempakio` come from REPO/src and keep byte-code caches out of the tree."""
    src = os.path.join(REPO, 'src')
    sys.dont_write_bytecode = True
    if not sys.pycache_prefix:
        # A prefix nobody writes to: stale .pyc files next to the sources are never read.
        sys.pycache_prefix = '/nonexistent-verif-pycache'
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or '.') != os.path.realpath(src)]
    sys.path.insert(0, src)


def load(ids=True):
    """Import gempakio and check where it came from."""
    setup_path()
    # Libraries first: the locks they create are not simulated.
    import logging.handlers  # noqa: F401
    import threading  # noqa: F401

    import numpy  # noqa: F401
    import pandas  # noqa: F401
    import pyproj  # noqa: F401
    import xarray  # noqa: F401

    from dst import sched
    sched.install()
    import importlib
    import pkgutil

    import gempakio
    for m in pkgutil.walk_packages(gempakio.__path__, 'gempakio.'):
        importlib.import_module(m.name)
    if ids:
        from dst import simid
        simid.install('gempakio')
    want = os.path.realpath(os.path.join(REPO, 'src', 'gempakio'))
    got = os.path.realpath(os.path.dirname(gempakio.__file__))
    if got != want:
        raise RuntimeError(f'gempakio imported from {got}, expected {want}')
    return gempakio
