"""Tests of the simulator itself: the same seed gives the same execution, the
scheduler reaches races, the disk does what it claims."""
import os
import subprocess
import sys
import tempfile
import shutil

from . import kernel, registry, runner

VERIF = os.path.dirname(kernel.HERE)


def digests(pid, seed, n):
    """Prints the event log digest of runs 0..n-1 (used by the self test)."""
    check = registry.load([pid])[pid]
    check.setup()
    base = tempfile.mkdtemp(prefix='dst-', dir=runner.scratch_base())
    try:
        for i in range(n):
            plan = runner.make_plan(check, seed, 'quick', i)
            r = runner.forked(check, plan, os.path.join(base, 'w'))
            print(i, r['status'], r['digest'])
    finally:
        shutil.rmtree(base, ignore_errors=True)


def determinism(ids, seed, n):
    bad = 0
    procs = {}
    for pid in ids:
        for hs in ('0', '0', '12345'):
            env = dict(os.environ, PYTHONHASHSEED=hs)
            procs.setdefault(pid, []).append(subprocess.Popen(
                [sys.executable, '-m', 'dst.main', 'digests', pid, str(seed),
                 str(n)], cwd=VERIF, env=env, stdout=subprocess.PIPE,
                text=True))
        if len(procs[pid]) and len(ids) > 2 and ids.index(pid) % 2:
            for ps in procs.values():
                for p in ps:
                    if not hasattr(p, 'out'):
                        p.out = p.communicate()[0]
    for pid in ids:
        outs = []
        for p in procs[pid]:
            if not hasattr(p, 'out'):
                p.out = p.communicate()[0]
            outs.append(p.out)
        ok = len(set(outs)) == 1 and outs[0].count('\n') == n
        print('%s: %d runs repeated 3 times (2 hash seeds): %s'
              % (pid, n, 'identical' if ok else 'DIFFERENT'))
        if not ok:
            bad += 1
            for a in zip(*[o.splitlines() for o in outs]):
                if len(set(a)) > 1:
                    print('   ', a)
    return bad


def races():
    """A lost update in code below the traced root must show up for some
    seeds and never when a lock protects it."""
    from . import sched
    src = ('import threading\n'
           'L = threading.Lock()\n'
           'def bump(b):\n'
           '    v = b[0]\n'
           '    v = v + 1\n'
           '    b[0] = v\n'
           'def safe(b):\n'
           '    with L:\n'
           '        v = b[0]\n'
           '        v = v + 1\n'
           '        b[0] = v\n')
    name = os.path.join(kernel.REPO_SRC, 'emva1288', '_dst_selftest.py')
    ns = {}
    exec(compile(src, name, 'exec'), ns)
    lost = {'bump': 0, 'safe': 0}
    for fn in lost:
        for s in range(60):
            b = [0]
            ctx = kernel.Ctx('/nonexistent')
            sc = sched.Scheduler(ctx, s, rate=.3)
            for k in range(3):
                sc.spawn(str(k), lambda: ns[fn](b))
            for t in sc.run():
                if t.error is not None:
                    raise t.error
            lost[fn] += b[0] != 3
    print('lost updates found: %s' % lost)
    return int(not lost['bump'] or lost['safe'])


def disk():
    from .simdisk import SimDisk, run_until_crash
    import errno
    bad = 0
    base = tempfile.mkdtemp(prefix='dst-', dir=runner.scratch_base())
    try:
        def write(p):
            with open(p, 'w') as f:
                f.write('x' * 100000)
        p = os.path.join(base, 'a')
        # every single write operation, each kind of error: reported
        d = SimDisk(base, kernel.Ctx(base))
        with d:
            write(p)
        n = d.count['w']
        for k in range(n):
            for kind in ('ENOSPC', 'EIO'):
                d = SimDisk(base, kernel.Ctx(base),
                            [{'cls': 'w', 'op': k, 'kind': kind,
                              'torn': .5}])
                with d:
                    try:
                        write(p)
                        bad += 1
                        print('error %s at %d was lost' % (kind, k))
                    except OSError as e:
                        bad += e.errno != getattr(errno, kind)
        # crash: a prefix survives
        for k in range(n):
            if os.path.exists(p):
                os.remove(p)
            d = SimDisk(base, kernel.Ctx(base),
                        [{'cls': 'crash', 'op': k, 'kind': 'crash',
                          'torn': .5}])
            with d:
                died = run_until_crash(d, lambda: write(p))
            size = os.path.getsize(p) if os.path.exists(p) else -1
            if not died or size > 100000:
                bad += 1
                print('crash at %d: died %s, %d bytes' % (k, died, size))
        # short transfers change nothing
        d = SimDisk(base, kernel.Ctx(base), short_read=.9, short_write=.9)
        with d:
            write(p)
            with open(p) as f:
                bad += f.read() != 'x' * 100000
        print('disk: %d write operations, %d problems' % (n, bad))
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return bad


def main(argv, seed):
    from . import world
    world.load()
    ids = [a for a in argv if a in registry.IDS] or list(registry.IDS)
    bad = races() + disk()
    bad += determinism(ids, seed, int(os.environ.get('DST_RUNS', '30')))
    print('selftest: %s' % ('ok' if not bad else '%d problems' % bad))
    return 1 if bad else 0
