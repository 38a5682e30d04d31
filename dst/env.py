"""The process environment as a simulated device: everything that is not an
input of the code under test (clock, working directory, global random state,
print settings, ...) can be set from a seed, watched and put back."""
import datetime
import decimal
import gc
import getpass
import io
import locale
import logging
import os
import platform
import random
import signal
import socket
import sys
import threading
import time

import numpy as np

from . import kernel

_time = time.time
_names = ('time', 'time_ns', 'monotonic', 'monotonic_ns', 'perf_counter',
          'perf_counter_ns', 'localtime', 'gmtime', 'ctime', 'strftime')
_real = {n: getattr(time, n) for n in _names}
_dt = datetime.datetime
_date = datetime.date


class Clock:
    """Jumps anywhere between 1971 and 2100, also backwards."""

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.jump()

    def jump(self):
        self.now = self.r.uniform(3e7, 4.1e9)

    def read(self):
        if self.r.random() < .1:
            self.jump()
        self.now += self.r.random()
        return self.now

    def install(self):
        c = self

        class FakeDT(_dt):
            @classmethod
            def now(cls, tz=None):
                return _dt.fromtimestamp(c.read(), tz)

            @classmethod
            def today(cls):
                return _dt.fromtimestamp(c.read())

            @classmethod
            def utcnow(cls):
                return _dt.fromtimestamp(c.read())

        class FakeDate(_date):
            @classmethod
            def today(cls):
                return _date.fromtimestamp(c.read())
        fake = {'time': c.read, 'monotonic': c.read, 'perf_counter': c.read}
        for n in ('time', 'monotonic', 'perf_counter'):
            fake[n + '_ns'] = lambda: int(c.read() * 1e9)
        for n in ('localtime', 'gmtime', 'ctime'):
            fake[n] = (lambda f: lambda s=None: f(
                c.read() if s is None else s))(_real[n])
        fake['strftime'] = lambda f, t=None: _real['strftime'](
            f, _real['localtime'](c.read()) if t is None else t)
        self.undo = []
        for n, f in fake.items():
            self.swap(time, n, f)
        swaps = {id(_real[n]): f for n, f in fake.items()}
        swaps[id(_dt)] = FakeDT
        swaps[id(_date)] = FakeDate
        # names the code under test imported from these modules
        for name, m in list(sys.modules.items()):
            if name.split('.')[0] == 'emva1288' and m is not None:
                for k, v in list(vars(m).items()):
                    if id(v) in swaps:
                        self.swap(m, k, swaps[id(v)])
        self.swap(datetime, 'datetime', FakeDT)
        self.swap(datetime, 'date', FakeDate)

    def swap(self, obj, name, value):
        self.undo.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def remove(self):
        for obj, name, value in reversed(self.undo):
            setattr(obj, name, value)
        self.undo = []


# name -> fn(rng, env); each is undone by Environment.restore
def _random(r, env):
    random.seed(r.getrandbits(30))
    np.random.seed(r.getrandbits(30))


def _print(r, env):
    np.set_printoptions(precision=r.choice([0, 1, 3]),
                        threshold=r.choice([3, 5, 50]), edgeitems=1,
                        linewidth=r.choice([12, 30]),
                        suppress=r.random() < .5,
                        floatmode=r.choice(['fixed', 'maxprec']),
                        sign=r.choice(['+', '-', ' ']))


def _decimal(r, env):
    c = decimal.getcontext()
    c.prec = r.choice([2, 4])
    c.rounding = r.choice([decimal.ROUND_UP, decimal.ROUND_DOWN])


def _errstate(r, env):
    np.seterr(all=r.choice(['warn', 'ignore', 'print']))


class AnyVariable:
    """Every environment variable the code under test asks for is set."""

    def __init__(self, seed):
        self.seed = seed
        self.orig = os._Environ.__getitem__

    def install(self):
        orig, seed = self.orig, self.seed

        def get(env, key):
            try:
                return orig(env, key)
            except KeyError:
                f = sys._getframe(1)
                while f is not None and f.f_code.co_filename in _PASS:
                    f = f.f_back
                if f is None or not os.path.realpath(
                        f.f_code.co_filename).startswith(kernel.REPO_SRC):
                    raise
                return random.Random(kernel.derive(seed, key)).choice(
                    ['1', '0', 'yes', '3', 'debug', ''])
        os._Environ.__getitem__ = get

    def remove(self):
        os._Environ.__getitem__ = self.orig


_PASS = (os.getenv.__code__.co_filename, os.__file__,
         type(os.environ).get.__code__.co_filename)


def _machine(r, env):
    """Another machine and user."""
    n = r.choice([1, 2, 3, 6, 64])
    name = 'host%d' % r.getrandbits(20)
    for mod, attr, v in ((os, 'cpu_count', n), (platform, 'node', name),
                         (socket, 'gethostname', name),
                         (getpass, 'getuser', 'u' + name)):
        env.patched.append((mod, attr, getattr(mod, attr)))
        setattr(mod, attr, lambda v=v: v)


def _environ(r, env):
    if env.anyvar is None:
        env.anyvar = AnyVariable(r.getrandbits(30))
        env.anyvar.install()
    for k in ('USER', 'HOME', 'LANG', 'COLUMNS', 'EMVA1288', 'PWD',
              'EMVA1288_DEBUG', 'TMP'):
        os.environ[k] = str(r.getrandbits(30)) if k != 'HOME' else env.dirs[0]


def _umask(r, env):
    os.umask(r.choice([0o077, 0o027, 0, 0o777 & 0o133]))


def _gc(r, env):
    if r.random() < .5:
        gc.disable()
    else:
        gc.enable()
        gc.set_threshold(r.choice([3, 50, 100000]))


def _tz(r, env):
    os.environ['TZ'] = r.choice(['UTC', 'EST5EDT', 'XYZ-14', 'ABC+11'])
    time.tzset()


def _locale(r, env):
    locale.setlocale(locale.LC_ALL, r.choice(['C', 'C.UTF-8', 'POSIX']))


def _logging(r, env):
    root = logging.getLogger()
    h = logging.StreamHandler(io.StringIO())
    h.setLevel(1)
    root.addHandler(h)
    root.setLevel(r.choice([1, logging.DEBUG, logging.CRITICAL]))
    for n in ('Parser', 'Loader', 'Data', 'Results'):
        logging.getLogger(n).setLevel(1)
    if r.random() < .3:
        logging.disable(logging.CRITICAL)


def _clock(r, env):
    if env.clock is None:
        env.clock = Clock(r.getrandbits(30))
        env.clock.install()
    env.clock.jump()


def _cwd(r, env):
    os.chdir(r.choice(env.dirs))


def _stdout(r, env):
    sys.stdout = io.StringIO()


def _argv(r, env):
    sys.argv = ['prog', '--help', str(r.getrandbits(20))]


def _switch(r, env):
    sys.setswitchinterval(r.choice([1e-6, .5]))


def _rc(r, env):
    import matplotlib
    matplotlib.rcParams['savefig.dpi'] = r.choice([50, 80])
    matplotlib.rcParams['axes.titlesize'] = r.choice(['small', 'large'])


CHANGES = {'random': _random, 'print': _print, 'decimal': _decimal,
           'errstate': _errstate, 'environ': _environ, 'umask': _umask,
           'gc': _gc, 'tz': _tz, 'locale': _locale, 'logging': _logging,
           'clock': _clock, 'cwd': _cwd, 'stdout': _stdout, 'argv': _argv,
           'switch': _switch, 'rc': _rc, 'machine': _machine}
# those which may come from another thread while the code runs
WEATHER = ('random', 'print', 'environ', 'umask', 'gc', 'tz', 'locale',
           'clock', 'cwd', 'argv')


def getumask():
    m = os.umask(0o022)
    os.umask(m)
    return m


def hashed(v):
    return kernel.derive(repr(v))


def state():
    """What code which has no side effects leaves as it is."""
    import matplotlib
    import matplotlib.pyplot as plt
    from PIL import Image, ImageFile
    c = decimal.getcontext()
    s = {'working directory': os.getcwd(),
         'random state': hashed(random.getstate()),
         'numpy random state': hashed(tuple(
             x.tobytes() if isinstance(x, np.ndarray) else x
             for x in np.random.get_state())),
         'numpy print options': repr(sorted(
             np.get_printoptions().items(), key=str)),
         'numpy error handling': repr(np.geterr()),
         'decimal context': (c.prec, c.rounding),
         'environment variables': dict(os.environ),
         'umask': getumask(),
         'garbage collector': (gc.isenabled(), gc.get_threshold(),
                               gc.get_debug()),
         'locale': locale.setlocale(locale.LC_ALL),
         'sys.path': list(sys.path), 'sys.argv': list(sys.argv),
         'signal handlers': [signal.getsignal(n) for n in
                             (signal.SIGINT, signal.SIGTERM, signal.SIGALRM,
                              signal.SIGCHLD, signal.SIGHUP)],
         'threads': threading.active_count(),
         'stdout': (id(sys.stdout), id(sys.stderr)),
         'excepthook': id(sys.excepthook),
         'recursion limit': sys.getrecursionlimit(),
         'matplotlib settings': {k: repr(v) for k, v in
                                 matplotlib.rcParams.items()},
         'open figures': plt.get_fignums(),
         'PIL settings': (Image.MAX_IMAGE_PIXELS,
                          ImageFile.LOAD_TRUNCATED_IMAGES,
                          ImageFile.MAXBLOCK),
         'clock': (id(time.time), id(time.monotonic))}
    return s


class Environment:
    def __init__(self, ctx, dirs):
        self.ctx = ctx
        self.dirs = dirs
        self.clock = None
        self.anyvar = None
        self.patched = []

    def __enter__(self):
        import matplotlib
        root = logging.getLogger()
        self.saved = (os.getcwd(), random.getstate(), np.random.get_state(),
                      np.get_printoptions(), np.geterr(),
                      decimal.getcontext().copy(), dict(os.environ),
                      getumask(), gc.isenabled(), gc.get_threshold(),
                      locale.setlocale(locale.LC_ALL), sys.stdout, sys.argv,
                      sys.getswitchinterval(), dict(matplotlib.rcParams),
                      list(root.handlers), root.level)
        return self

    def change(self, name, seed):
        CHANGES[name](random.Random(kernel.derive(name, seed)), self)
        self.ctx.fault('environment: ' + name)

    def __exit__(self, *a):
        import matplotlib
        if self.clock is not None:
            self.clock.remove()
        if self.anyvar is not None:
            self.anyvar.remove()
        for mod, attr, v in reversed(self.patched):
            setattr(mod, attr, v)
        (cwd, rs, nrs, po, er, dc, en, um, ge, gt, lo, so, av, si, rc, rh,
         rl) = self.saved
        os.chdir(cwd)
        random.setstate(rs)
        np.random.set_state(nrs)
        np.set_printoptions(**po)
        np.seterr(**er)
        decimal.setcontext(dc)
        os.environ.clear()
        os.environ.update(en)
        time.tzset()
        os.umask(um)
        (gc.enable if ge else gc.disable)()
        gc.set_threshold(*gt)
        locale.setlocale(locale.LC_ALL, lo)
        sys.stdout, sys.argv = so, av
        sys.setswitchinterval(si)
        with_rc = matplotlib.rcParams
        for k, v in rc.items():
            if with_rc[k] is not v and with_rc[k] != v:
                with_rc[k] = v
        root = logging.getLogger()
        root.handlers[:] = rh
        root.setLevel(rl)
        logging.disable(logging.NOTSET)
        return False
