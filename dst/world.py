"""Puts the seams in place and imports the code under test from /repo."""
import logging
import os
import random
import sys
import threading
import types
import warnings

from . import kernel

_installed = False
real_lock = threading.Lock
real_rlock = threading.RLock


def install():
    """Import seams: has to run before anything imports emva1288."""
    global _installed
    if _installed:
        return
    _installed = True
    if kernel.REPO_SRC not in sys.path[:1]:
        sys.path.insert(0, kernel.REPO_SRC)
    sys.dont_write_bytecode = True
    # written by setuptools-scm during an install, ignored by git
    if not os.path.exists(os.path.join(kernel.REPO_SRC, 'emva1288',
                                       '_version.py')):
        m = types.ModuleType('emva1288._version')
        m.version = m.__version__ = '0.0.dst'
        m.version_tuple = m.__version_tuple__ = (0, 0)
        sys.modules['emva1288._version'] = m
    # locks created by the code under test become scheduling points
    from . import sched
    sched.install_lock_factories()
    warnings.simplefilter('ignore')
    root = logging.getLogger()
    if not root.handlers:
        root.addHandler(logging.NullHandler())


def load():
    """Import the code under test (called in the parent, before forking)."""
    install()
    import numpy as np
    np.seterr(all='ignore')
    import emva1288
    real = os.path.realpath(emva1288.__file__)
    if not real.startswith(kernel.REPO_SRC + os.sep):
        raise kernel.HarnessError('emva1288 imported from ' + real)
    import emva1288.camera.dataset_generator   # noqa: F401
    import emva1288.camera.bad_images          # noqa: F401
    import emva1288.process                    # noqa: F401
    import emva1288.report                     # noqa: F401
    random.seed(0)
    np.random.seed(0)
    return emva1288
