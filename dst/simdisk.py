"""The simulated disk.

A scratch directory of the real file system holds the bytes; every operation
of the code under test on a path below it (or below a registered read-only
root) goes through this seam, which decides short transfers, errors, crashes,
what survives a crash and the order of directory listings.

Operations are counted.  A fault is {'op': k, 'kind': ..., ...}: it hits the
k-th operation *of its class* (see CLASSES), so a plan places it exactly.
"""
import builtins
import errno
import gc
import io
import os
import random
import re
import sys
import tempfile
import weakref

from . import kernel, sched

real_open = builtins.open
real_io_open = io.open
real = {n: getattr(os, n) for n in
        ('mkdir', 'remove', 'unlink', 'rename', 'replace', 'rmdir', 'listdir',
         'scandir', 'fsync', 'symlink', 'link', 'truncate', 'chmod', 'utime')}

READ = ('open_r', 'read')
WRITE = ('open_w', 'write', 'close_w', 'mkdir', 'remove', 'rename')
CLASSES = {
    'any': READ + WRITE + ('close_r', 'listdir'),
    'r': READ + ('listdir',),
    'w': WRITE,
    'open': ('open_r', 'open_w'),
    'write': ('write', 'close_w'),
    'crash': WRITE,
}


class SimCrash(BaseException):
    """The simulated process dies here."""


class OpLimit(BaseException):
    """The run did more operations than any terminating run can need."""


class _Scan:
    def __init__(self, entries):
        self._e = iter(entries)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._e)

    def close(self):
        self._e = iter(())


class SimRaw(io.RawIOBase):
    """Raw file below the standard library's buffering."""

    def __init__(self, disk, path, mode, opener=None):
        super().__init__()
        self._disk = disk
        self._path = path
        self._f = None
        self._writing = any(c in mode for c in 'wax+')
        self._wrote = False
        self.name = path
        self.mode = mode
        existed = os.path.exists(path)
        if disk.dead and self._writing:
            # a dead process opens nothing
            self._f = io.FileIO(os.devnull, 'r+')
        else:
            self._f = io.FileIO(path, mode.replace('b', ''), opener=opener)
            if self._writing:
                disk._track(path, existed, truncated='w' in mode)
        disk.handles[id(self)] = path
        disk.max_open = max(disk.max_open, len(disk.handles))

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return self._f.seekable()

    def fileno(self):
        # only the code under test may bypass the seam (e.g. for fsync)
        f = sys._getframe(1)
        while f is not None and f.f_code.co_filename.startswith('<frozen'):
            f = f.f_back
        if f is not None and os.path.realpath(
                f.f_code.co_filename).startswith(kernel.REPO_SRC):
            return self._f.fileno()
        raise io.UnsupportedOperation('fileno')

    def isatty(self):
        return False

    def seek(self, pos, whence=0):
        return self._f.seek(pos, whence)

    def tell(self):
        return self._f.tell()

    def truncate(self, size=None):
        if self._disk.dead:
            return size
        return self._f.truncate(size)

    def readinto(self, b):
        d = self._disk
        n = len(b)
        if not d.dead:
            act = d._op('read', self._path, n)
            if act == 'short' and n > 1:
                n = max(1, min(n - 1, d.rng.randint(1, max(1, n // 2))))
                d._short('short_read')
            elif d.aligned and self._path.endswith(d.aligned):
                m = self._block(n)
                if m:
                    n = m
                    d._short('read ends with a block')
        mv = memoryview(b).cast('B')[:n]
        got = self._f.readinto(mv)
        return got

    def _block(self, n):
        """A length that ends right before a line with a point."""
        pos = self._f.tell()
        data = self._f.read(n) or b''
        self._f.seek(pos)
        ends = [m.start() for m in re.finditer(rb'(?m)^[bd] ', data)]
        ends = [x for x in ends if 0 < x < len(data)]
        return self._disk.rng.choice(ends) if ends else 0

    def write(self, b):
        d = self._disk
        mv = memoryview(b).cast('B')
        n = len(mv)
        if d.dead:
            return n
        self._wrote = True
        act = d._op('write', self._path, n, raw=(self._f, mv))
        if act == 'short' and n > 1:
            n = d.rng.randint(1, n - 1)
            d._short('short_write')
        done = 0
        while done < n:
            done += self._f.write(mv[done:n])
        return n

    def close(self):
        if self.closed:
            return
        d = self._disk
        d.handles.pop(id(self), None)
        err = None
        try:
            if not d.dead and self._f is not None:
                kind = 'close_w' if self._writing else 'close_r'
                d._op(kind, self._path, 0)
        except OSError as e:
            err = e
        finally:
            if self._f is not None:
                self._f.close()
            super().close()
        if err is not None:
            raise err


class SimDisk:
    def __init__(self, root, ctx, faults=(), seed=0, short_read=0.0,
                 short_write=0.0, max_open=None, readonly_roots=(),
                 shuffle_listing=True, op_limit=200000, aligned=None):
        # files whose reads are cut at lines that start a point
        self.aligned = aligned
        self.root = os.path.realpath(root)
        self.ro_roots = tuple(os.path.realpath(p) for p in readonly_roots)
        self.ctx = ctx
        self.rng = random.Random(kernel.derive('disk', seed))
        self.short_read = short_read
        self.short_write = short_write
        self.limit_open = max_open
        self.shuffle_listing = shuffle_listing
        self.op_limit = op_limit
        self.faults = list(faults)
        self.dead = False
        self.handles = {}
        self.max_open = 0
        self.count = {c: 0 for c in CLASSES}
        self.nops = 0
        self.fired = []
        self.journal = []          # (kind, relpath) of every operation
        self.written = {}          # path -> info for power loss
        self.created_dirs = []
        self.full = False          # disk full persists
        self._saved = None

    # -- scope ---------------------------------------------------------------
    def _rel(self, path):
        if isinstance(path, int):
            return None
        try:
            p = os.path.realpath(os.fsdecode(os.fspath(path)))
        except Exception:
            return None
        if p == self.root or p.startswith(self.root + os.sep):
            return os.path.relpath(p, self.root)
        for r in self.ro_roots:
            if p == r or p.startswith(r + os.sep):
                return '@' + os.path.relpath(p, r)
        return None

    # -- the decision for one operation --------------------------------------
    def _op(self, kind, path, size, raw=None):
        sched.io_point(kind)
        rel = self._rel(path) or str(path)
        self.nops += 1
        if self.nops > self.op_limit:
            raise OpLimit()
        self.journal.append((kind, rel))
        hits = []
        for cls, kinds in CLASSES.items():
            if kind in kinds:
                for f in self.faults:
                    if f['cls'] == cls and f['op'] == self.count[cls]:
                        hits.append(f)
                self.count[cls] += 1
        for f in hits:
            self._fire(f, kind, rel, raw)
        if self.full and kind in ('write', 'mkdir', 'open_w'):
            # a full disk stays full
            if kind == 'write':
                self._fail(errno.ENOSPC, rel, count=False)
        if kind == 'read' and self.short_read and \
                self.rng.random() < self.short_read:
            return 'short'
        if kind == 'write' and self.short_write and \
                self.rng.random() < self.short_write:
            return 'short'
        return None

    def _short(self, name):
        self.ctx.faults[name] += 1
        self.ctx.nontrivial = True

    def _fail(self, eno, rel, count=True):
        e = OSError(eno, os.strerror(eno), rel)
        e.dst_injected = True
        raise e

    @staticmethod
    def _tear(f, kind, raw):
        """Part of the data reaches the disk, but the failed call does not
        move the file position: a repeated write starts at the same place."""
        if kind == 'write' and raw is not None and f.get('torn'):
            fobj, mv = raw
            if 'a' in fobj.mode:
                return
            pos = fobj.tell()
            fobj.write(mv[:int(len(mv) * (f['torn'] % 1.0))])
            fobj.seek(pos)

    def _fire(self, f, kind, rel, raw):
        k = f['kind']
        self.fired.append((k, kind, rel))
        self.ctx.fault('%s@%s' % (k, kind))
        if k == 'crash':
            if kind == 'write' and raw is not None and f.get('torn'):
                fobj, mv = raw
                n = int(len(mv) * (f['torn'] % 1.0))
                fobj.write(mv[:n])
            self.dead = True
            raise SimCrash()
        if k == 'ENOSPC':
            self._tear(f, kind, raw)
            self.full = f.get('stays', True)
            self._fail(errno.ENOSPC, rel)
        if k == 'EIO':
            self._tear(f, kind, raw)
            self._fail(errno.EIO, rel)
        if k == 'vanish':
            # somebody else removes the file at this very moment
            p = os.path.join(self.root, rel)
            if not rel.startswith('@') and os.path.isfile(p):
                real['unlink'](p)
            return
        self._fail(getattr(errno, k), rel)

    # -- crash bookkeeping -----------------------------------------------------
    def _track(self, path, existed, truncated):
        p = os.path.realpath(path)
        if p not in self.written:
            self.written[p] = {'new': not existed, 'synced': 0}

    def settle_power_loss(self, rng, allow_zero=True):
        """After a crash: every file written since the start keeps an
        arbitrary part of what was written."""
        assert self.dead
        out = []
        for p in sorted(self.written):
            if not os.path.isfile(p):
                continue
            size = os.path.getsize(p)
            synced = min(self.written[p]['synced'], size)
            choice = rng.random()
            if choice < 0.45:
                what = 'all'
            elif choice < 0.6:
                what = 'empty'
            elif choice < 0.85 or not allow_zero:
                what = 'prefix'
            elif choice < 0.93:
                what = 'zeros'
            else:
                what = 'absent'
            if synced and what in ('empty', 'absent'):
                what = 'prefix'
            keep = size
            if what == 'empty':
                keep = 0
            elif what in ('prefix', 'zeros'):
                keep = rng.randint(synced, size)
                if rng.random() < .5:
                    keep = max(synced, keep // 512 * 512)
            if what == 'absent':
                real['unlink'](p)
            elif keep < size:
                with real_open(p, 'r+b') as f:
                    f.truncate(keep)
                    if what == 'zeros':
                        f.truncate(size)
            if what != 'all':
                self.ctx.faults['power_loss_' + what] += 1
            out.append((os.path.relpath(p, self.root), what, keep))
        self.ctx.log('power loss', out)
        return out

    def revive(self):
        """New process after the crash."""
        gc.collect()
        self.dead = False
        self.full = False
        self.faults = []
        self.written = {}
        self.handles = {}

    # -- patched functions -----------------------------------------------------
    def _open(self, file, mode='r', buffering=-1, encoding=None, errors=None,
              newline=None, closefd=True, opener=None):
        rel = self._rel(file) if isinstance(file, (str, bytes, os.PathLike)) \
            else None
        if rel is None or opener is not None:
            return real_open(file, mode, buffering, encoding, errors, newline,
                             closefd, opener)
        path = os.fsdecode(os.fspath(file))
        writing = any(c in mode for c in 'wax+')
        binary = 'b' in mode
        if not self.dead:
            self._op('open_w' if writing else 'open_r', path, 0)
            if self.limit_open is not None and \
                    len(self.handles) >= self.limit_open:
                self.ctx.fault('EMFILE@limit')
                self.fired.append(('EMFILE', 'open', rel))
                self._fail(errno.EMFILE, rel)
        rmode = mode.replace('t', '').replace('b', '') + 'b'
        raw = SimRaw(self, path, rmode)
        try:
            if binary and buffering == 0:
                return raw
            size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
            if '+' in mode:
                buf = io.BufferedRandom(raw, size)
            elif writing:
                buf = io.BufferedWriter(raw, size)
            else:
                buf = io.BufferedReader(raw, size)
            if binary:
                return buf
            text = io.TextIOWrapper(buf, encoding, errors, newline,
                                    line_buffering=buffering == 1)
            text.mode = mode
            return text
        except BaseException:
            raw.close()
            raise

    def _wrap1(self, name, kind):
        fn = real[name]

        def op(path, *a, **k):
            if self.dead:
                return None
            if k.get('dir_fd') is None and self._rel(path) is not None:
                if os.path.lexists(path) != (name == 'mkdir'):
                    # fails by itself (EEXIST, ENOENT) before any I/O
                    self._op(kind, path, 0)
                r = fn(path, *a, **k)
                if name == 'mkdir':
                    self.created_dirs.append(os.path.realpath(path))
                return r
            return fn(path, *a, **k)
        op.__name__ = name
        return op

    def _wrap2(self, name, kind):
        fn = real[name]

        def op(src, dst, *a, **k):
            if self.dead:
                return None
            if self._rel(src) is not None or self._rel(dst) is not None:
                self._op(kind, dst, 0)
                s, d = os.path.realpath(src), os.path.realpath(dst)
                r = fn(src, dst, *a, **k)
                if s in self.written:
                    self.written[d] = self.written.pop(s)
                return r
            return fn(src, dst, *a, **k)
        op.__name__ = name
        return op

    def _listdir(self, path='.'):
        if not isinstance(path, int) and self._rel(path) is not None:
            if not self.dead:
                self._op('listdir', path, 0)
            names = sorted(real['listdir'](path))
            if self.shuffle_listing:
                self.rng.shuffle(names)
            return names
        return real['listdir'](path)

    def _scandir(self, path='.'):
        if not isinstance(path, int) and self._rel(path) is not None:
            if not self.dead:
                self._op('listdir', path, 0)
            with real['scandir'](path) as it:
                entries = sorted(it, key=lambda e: e.name)
            if self.shuffle_listing:
                self.rng.shuffle(entries)
            return _Scan(entries)
        return real['scandir'](path)

    def _fsync(self, fd):
        try:
            p = os.readlink('/proc/self/fd/%d' % (
                fd if isinstance(fd, int) else fd.fileno()))
        except OSError:
            p = None
        if self.dead:
            return None
        if p in self.written:
            self.written[p]['synced'] = os.path.getsize(p)
            self.ctx.probe('fsync')
        return None

    def __enter__(self):
        self._saved = (builtins.open, io.open, tempfile.tempdir,
                       tempfile._name_sequence)
        builtins.open = self._open
        io.open = self._open
        os.mkdir = self._wrap1('mkdir', 'mkdir')
        os.remove = self._wrap1('remove', 'remove')
        os.unlink = self._wrap1('unlink', 'remove')
        os.rmdir = self._wrap1('rmdir', 'remove')
        os.rename = self._wrap2('rename', 'rename')
        os.replace = self._wrap2('replace', 'rename')
        os.listdir = self._listdir
        os.scandir = self._scandir
        os.fsync = self._fsync
        for n in ('chmod', 'utime', 'truncate'):
            setattr(os, n, self._quiet(n))
        tempfile.tempdir = self.root
        tempfile._name_sequence = _Names()
        return self

    def _quiet(self, name):
        fn = real[name]

        def op(*a, **k):
            if self.dead:
                return None
            return fn(*a, **k)
        return op

    def __exit__(self, *exc):
        builtins.open, io.open = self._saved[:2]
        tempfile.tempdir, tempfile._name_sequence = self._saved[2:]
        for n, fn in real.items():
            setattr(os, n, fn)
        return False


class _Names:
    """Deterministic names of temporary files."""

    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return 'sim%05d' % self.n


def run_until_crash(disk, fn):
    """Calls fn; returns True if the simulated process died in it.  Everything
    the dead process held is dropped while its disk is dead."""
    crashed = False
    try:
        fn()
    except SimCrash as e:
        crashed = True
        kernel.clear_tb(e)
        del e
    except Exception as e:
        if not disk.dead:
            raise
        crashed = True
        kernel.clear_tb(e)
        del e
    if disk.dead:
        crashed = True
        gc.collect()
    return crashed


def rel_tree(root):
    """{relative path: bytes} of a directory."""
    out = {}
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for n in sorted(files):
            p = os.path.join(d, n)
            with real_open(p, 'rb') as f:
                out[os.path.relpath(p, root)] = f.read()
    return out
