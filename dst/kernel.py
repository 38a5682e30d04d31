"""Core of the simulator: seeds, run context, violations.

A simulated run is a pure function of its *plan* (a JSON document) and the
code under test.  The plan is drawn from one PRNG, seeded with
(VERIF_SEED, property, run index); executing a plan never draws from anything
but generators derived from seeds inside the plan.
"""
import collections
import contextlib
import gc
import hashlib
import json
import os
import random
import shutil
import traceback

REPO = os.path.realpath(os.environ.get('DST_REPO', '/repo'))
REPO_SRC = os.path.join(REPO, 'src')
HERE = os.path.dirname(os.path.abspath(__file__))


def derive(*parts):
    """64 bit integer derived from the parts."""
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def rng_for(*parts):
    return random.Random(derive(*parts))


class Violation(Exception):
    """The property is broken. `kind` is the class used for minimisation."""

    def __init__(self, kind, msg):
        super().__init__('%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = str(msg)


class HarnessError(Exception):
    """Something is wrong with the simulator itself."""


class Skip(Exception):
    """The drawn case is outside the domain of the property (counted)."""


def repo_frames(tb):
    out = []
    for fs in traceback.extract_tb(tb):
        fn = os.path.realpath(fs.filename)
        if fn.startswith(REPO_SRC + os.sep):
            out.append('%s:%s' % (os.path.relpath(fn, REPO_SRC), fs.name))
    return out


INFRA = ('kernel.py', 'runner.py', 'simdisk.py', 'sched.py', 'lab.py',
         'main.py', 'simrand.py')


def is_infra_error(exc):
    """Exceptions raised by the simulator's own parts, without the code under
    test taking part, are harness errors."""
    tb = traceback.extract_tb(exc.__traceback__)
    if not tb:
        return True
    if repo_frames(exc.__traceback__):
        return False
    last = os.path.realpath(tb[-1].filename)
    return last.startswith(HERE) and os.path.basename(last) in INFRA


def short(exc):
    return '%s: %s' % (type(exc).__name__, str(exc)[:300])


class Ctx:
    """What one simulated run records."""

    def __init__(self, scratch):
        self.scratch = scratch
        self._h = hashlib.sha256()
        self.events = 0
        self.trace = []           # human readable, kept for the replay
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.sim_ns = 0
        self.nontrivial = False
        self._n = 0
        self.nondet_ok = False

    # -- event log ---------------------------------------------------------
    def log(self, *what):
        s = json.dumps(what, sort_keys=True, default=str)
        self._h.update(s.encode())
        self.events += 1
        if len(self.trace) < 400:
            self.trace.append(s)

    def digest(self):
        return self._h.hexdigest()

    def fault(self, kind):
        self.faults[kind] += 1
        self.nontrivial = True
        self.log('fault', kind)

    def probe(self, name, n=1):
        self.probes[name] += n

    # -- scratch space -----------------------------------------------------
    def dir(self, name=None):
        if name is None:
            self._n += 1
            name = 'd%03d' % self._n
        p = os.path.join(self.scratch, name)
        os.makedirs(p, exist_ok=True)
        return p

    def path(self, name=None):
        if name is None:
            self._n += 1
            name = 'p%03d' % self._n
        return os.path.join(self.scratch, name)

    # -- calls into the code under test -------------------------------------
    @contextlib.contextmanager
    def must(self, what):
        """The enclosed call has to succeed."""
        try:
            yield
        except (Violation, HarnessError, Skip):
            raise
        except Exception as e:
            if is_infra_error(e):
                raise
            raise Violation('unexpected-error:' + what, '%s (%s)' % (
                short(e), ' < '.join(repo_frames(e.__traceback__)[-3:])))

    def check(self, cond, kind, msg):
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)


def attempt(fn, *args, **kwargs):
    """(value, None) or (None, exception); the exception's frames are dropped
    so that it keeps nothing alive."""
    try:
        return fn(*args, **kwargs), None
    except Exception as e:
        if isinstance(e, (Violation, HarnessError, Skip)):
            raise
        infra = is_infra_error(e) and not getattr(e, 'dst_injected', False)
        if infra and not isinstance(e, OSError):
            raise
        e.dst_frames = repo_frames(e.__traceback__)
        clear_tb(e)
        return None, e


def clear_tb(e):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        with contextlib.suppress(Exception):
            traceback.clear_frames(e.__traceback__)
        e.__traceback__ = None
        nxt = e.__cause__ or e.__context__
        e = nxt


def isolated(fn, *args):
    """fn(*args) in a forked child: what it leaves in the process (caches,
    registries) is gone afterwards.  Returns its value."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = (True, fn(*args))
            except Violation as e:
                out = (False, ('violation', e.kind, e.msg))
            except Skip as e:
                out = (False, ('skip', '', str(e)))
            except BaseException as e:
                out = (False, ('error', '', short(e)))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        raw = f.read()
    os.waitpid(pid, 0)
    import pickle
    ok, val = pickle.loads(raw)
    if ok:
        return val
    reraise(val)


def reraise(val):
    what, kind, msg = val
    if what == 'violation':
        raise Violation(kind, msg)
    raise Skip(msg) if what == 'skip' else HarnessError(msg)


class Pristine:
    """Calls fn in forks of the process as it was when this was made, so no
    call sees what another one, or the caller, left in the process."""

    def __init__(self, fn):
        r, self.req = os.pipe()
        a, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(self.req)
                os.close(a)
                self.serve(fn, os.fdopen(r, 'rb'), os.fdopen(w, 'wb'))
            finally:
                os._exit(0)
        os.close(r)
        os.close(w)
        self.pid = pid
        self.out, self.inp = os.fdopen(self.req, 'wb'), os.fdopen(a, 'rb')

    @staticmethod
    def serve(fn, inp, out):
        import pickle
        while True:
            try:
                args = pickle.load(inp)
            except EOFError:
                return
            try:
                res = (True, isolated(fn, *args))
            except Violation as e:
                res = (False, ('violation', e.kind, e.msg))
            except Skip as e:
                res = (False, ('skip', '', str(e)))
            except BaseException as e:
                res = (False, ('error', '', short(e)))
            pickle.dump(res, out)
            out.flush()

    def __call__(self, *args):
        import pickle
        pickle.dump(args, self.out)
        self.out.flush()
        ok, val = pickle.load(self.inp)
        if ok:
            return val
        reraise(val)

    def close(self):
        self.out.close()
        self.inp.close()
        os.waitpid(self.pid, 0)


def rmtree(path):
    gc.collect()
    shutil.rmtree(path, ignore_errors=True)
