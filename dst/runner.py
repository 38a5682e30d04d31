"""Seeded search over simulated runs, minimisation, replay, evidence.

Every run is executed in a forked child of its own, so a run never sees what
another one left in the process.  Shepherd processes fork the children; the
set of runs executed is 0..N-1 whatever the number of shepherds.
"""
import collections
import copy
import hashlib
import json
import multiprocessing
import os
import pickle
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import kernel
from .kernel import Ctx, HarnessError, Skip, Violation

VERIF = os.path.dirname(kernel.HERE)
REPLAYS = os.path.join(VERIF, 'replays')
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.md')
RUN_WALL = 150          # watchdog per run; a run takes well below 2 s
MAXREP = 60 << 10


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


def execute(check, plan, scratch, keep_trace=False):
    """Run one plan in this process; returns a result dict."""
    os.makedirs(scratch, exist_ok=True)
    ctx = Ctx(scratch)
    res = {'status': 'ok'}
    try:
        check.execute(plan, ctx)
    except Skip as e:
        res['status'] = 'skip'
        ctx.probe('skipped: ' + str(e))
    except Violation as e:
        res.update(status='violation', kind=e.kind, msg=e.msg)
        ctx.log('VIOLATION', e.kind)
    except HarnessError as e:
        res.update(status='harness', msg=traceback.format_exc()[-3000:])
    except Exception as e:
        frames = kernel.repo_frames(e.__traceback__)
        if kernel.is_infra_error(e):
            res.update(status='harness', msg=traceback.format_exc()[-3000:])
        else:
            # the code under test raised where it must not, or returned
            # something the oracle cannot even read
            kind = ('unexpected-error' if frames else 'malformed-output')
            res.update(status='violation',
                       kind='%s:%s' % (kind, type(e).__name__),
                       msg=traceback.format_exc()[-1500:])
            ctx.log('VIOLATION', res['kind'])
    res.update(digest=ctx.digest(), events=ctx.events,
               faults=dict(ctx.faults), probes=dict(ctx.probes),
               sim_ns=int(ctx.sim_ns), nontrivial=bool(ctx.nontrivial))
    if keep_trace or res['status'] not in ('ok', 'skip'):
        res['trace'] = ctx.trace
    return res


def forked(check, plan, scratch, timeout=RUN_WALL, keep_trace=False):
    """execute() in a forked child."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            devnull = os.open(os.devnull, os.O_RDWR)
            if not os.environ.get('DST_DEBUG'):
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
            res = execute(check, plan, scratch, keep_trace)
            data = pickle.dumps(res)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            code = 3
            try:
                with os.fdopen(w, 'wb') as f:
                    f.write(pickle.dumps({'status': 'harness', 'msg':
                                          traceback.format_exc()[-3000:]}))
            except BaseException:
                pass
        os._exit(code)
    os.close(w)
    chunks = []
    end = time.monotonic() + timeout
    res = None
    while True:
        left = end - time.monotonic()
        if left <= 0:
            res = {'status': 'violation', 'kind': 'hang',
                   'msg': 'no progress: run did not finish within %d s'
                          % timeout}
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    _, st = os.waitpid(pid, 0)
    if res is None:
        try:
            res = pickle.loads(b''.join(chunks))
        except Exception:
            res = {'status': 'violation', 'kind': 'process-died',
                   'msg': 'the process died (wait status %s)' % st}
    shutil.rmtree(scratch, ignore_errors=True)
    for k, d in (('digest', ''), ('events', 0), ('faults', {}),
                 ('probes', {}), ('sim_ns', 0), ('nontrivial', False)):
        res.setdefault(k, d)
    return res


def make_plan(check, seed, tier, i):
    rng = kernel.rng_for(seed, check.id, i)
    plan = check.gen(rng, tier, i)
    # through JSON: what is executed is what a replay file holds
    return json.loads(json.dumps(plan))


def shepherd(check, seed, tier, counter, stop, limit, deadline, base, wid, q):
    try:
        while True:
            with counter.get_lock():
                i = counter.value
                if i >= limit or i > stop.value:
                    break
                if time.monotonic() > deadline:
                    break
                counter.value += 1
            t0 = time.monotonic()
            try:
                plan = make_plan(check, seed, tier, i)
            except Exception:
                q.put((i, {'status': 'harness', 'msg':
                           traceback.format_exc()[-3000:], 'digest': '',
                           'events': 0, 'faults': {}, 'probes': {},
                           'sim_ns': 0, 'nontrivial': False}, 0))
                break
            res = forked(check, plan, os.path.join(base, 'w%02d' % wid))
            if res['status'] == 'violation' and is_known(check, res):
                res['status'] = 'known'
            if res['status'] in ('violation', 'harness'):
                with stop.get_lock():
                    stop.value = min(stop.value, i)
            q.put((i, res, time.monotonic() - t0))
    finally:
        q.put(None)


def search(check, seed, tier, n, budget, workers, base):
    counter = multiprocessing.Value('l', 0)
    stop = multiprocessing.Value('l', 1 << 40)
    q = multiprocessing.Queue()
    deadline = time.monotonic() + budget
    procs = [multiprocessing.Process(
        target=shepherd, args=(check, seed, tier, counter, stop, n, deadline,
                               base, w, q)) for w in range(workers)]
    for p in procs:
        p.start()
    out = {}
    live = len(procs)
    while live:
        m = q.get()
        if m is None:
            live -= 1
            continue
        out[m[0]] = (m[1], m[2])
    for p in procs:
        p.join()
    return out


# --------------------------------------------------------------------------
# minimisation
# --------------------------------------------------------------------------
def _get(plan, path):
    for k in path:
        plan = plan[k]
    return plan


def _lists(node, path, keys, out):
    if isinstance(node, dict):
        for k in sorted(node):
            v = node[k]
            if isinstance(v, list) and k in keys:
                out.append(path + [k])
            _lists(v, path + [k], keys, out)
    elif isinstance(node, list):
        for i, v in enumerate(node):
            if isinstance(v, (dict, list)):
                _lists(v, path + [i], keys, out)


def _ints(node, path, keys, out):
    if isinstance(node, dict):
        for k in sorted(node):
            v = node[k]
            if k in keys and isinstance(v, (int, float)) and \
                    not isinstance(v, bool):
                out.append((path + [k], keys[k]))
            _ints(v, path + [k], keys, out)
    elif isinstance(node, list):
        for i, v in enumerate(node):
            if isinstance(v, (dict, list)):
                _ints(v, path + [i], keys, out)


def candidates(check, plan):
    """Smaller plans, most ambitious first."""
    lists = []
    _lists(plan, [], set(check.shrink_lists), lists)
    lists.sort(key=len)
    for path in lists:
        lst = _get(plan, path)
        n = len(lst)
        size = n
        while size >= 1:
            for start in range(0, n, size):
                keep = lst[:start] + lst[start + size:]
                if len(keep) < check.shrink_min.get(path[-1], 0):
                    continue
                p = copy.deepcopy(plan)
                _get(p, path[:-1])[path[-1]] = keep
                yield p
            size //= 2
    for c in check.simpler(plan):
        yield c
    ints = []
    _ints(plan, [], check.shrink_ints, ints)
    for path, floor in ints:
        v = _get(plan, path)
        for nv in (floor, (v + floor) // 2 if isinstance(v, int)
                   else (v + floor) / 2, v - 1 if isinstance(v, int) else v):
            if nv != v and nv >= floor:
                p = copy.deepcopy(plan)
                _get(p, path[:-1])[path[-1]] = nv
                yield p


def minimise(check, plan, kind, base, budget):
    end = time.monotonic() + budget
    tried = set()
    accepted = 0
    attempts = 0
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for cand in candidates(check, plan):
            if time.monotonic() >= end:
                break
            key = json.dumps(cand, sort_keys=True)
            if key in tried:
                continue
            tried.add(key)
            attempts += 1
            res = forked(check, cand, os.path.join(base, 'min'),
                         timeout=min(RUN_WALL, max(5, budget)))
            if res['status'] == 'violation' and res['kind'] == kind:
                plan = cand
                accepted += 1
                progress = True
                break
    return plan, attempts, accepted


# --------------------------------------------------------------------------
def known_findings():
    """Lines 'known: property=<id> kind=<kind> match=<text>' of the
    known-findings file."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known: '):
                d = {}
                for part in line[len('known: '):].split(' ', 2):
                    k, _, v = part.partition('=')
                    d[k] = v
                out.append(d)
    return out


def is_known(check, res):
    return any(k.get('property') == check.id and k.get('kind') == res['kind']
               and k.get('match', '') in res.get('msg', '')
               for k in known_findings())


def write_evidence(check, tier, seed, cov, wall, nviol, assumptions):
    os.makedirs(EVID, exist_ok=True)
    ev = {'property': check.id, 'tier': tier, 'seed': seed,
          'level': 'exploration', 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(wall, 2),
          'violations': nviol}
    p = os.path.join(EVID, check.id + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + '.tmp', p)


def trim(plan, limit=1500):
    s = json.dumps(plan)
    return plan if len(s) <= limit else s[:limit] + '...'


def run_check(check, tier, seed, workers=None, runs=None, budget=None):
    t0 = time.monotonic()
    workers = workers or int(os.environ.get('DST_WORKERS', '0')) or \
        min(8, os.cpu_count() or 1)
    n = runs or int(os.environ.get('DST_RUNS', '0')) or check.runs[tier]
    budget = budget or {'quick': 150.0, 'thorough': 3600.0}[tier]
    print('property=%s tier=%s VERIF_SEED=%d runs=%d workers=%d'
          % (check.id, tier, seed, n, workers))
    sys.stdout.flush()
    base = tempfile.mkdtemp(prefix='dst-', dir=scratch_base())
    try:
        return _run_check(check, tier, seed, workers, n, budget, base, t0)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _run_check(check, tier, seed, workers, n, budget, base, t0):
    check.setup()
    out = search(check, seed, tier, n, budget, workers, base)
    search_s = time.monotonic() - t0
    faults = collections.Counter()
    probes = collections.Counter()
    digests = set()
    nontriv = set()
    sim_ns = 0
    events = 0
    cpu = 0.0
    for i in sorted(out):
        r, dt = out[i]
        faults.update(r['faults'])
        probes.update(r['probes'])
        sim_ns += r['sim_ns']
        events += r['events']
        cpu += dt
        if r['digest']:
            digests.add(r['digest'])
            if r['nontrivial'] and r['status'] != 'skip':
                nontriv.add(r['digest'])
    bad = [i for i in sorted(out)
           if out[i][0]['status'] in ('violation', 'harness')]
    # harness errors only decide if there is no violation
    viol = [i for i in bad if out[i][0]['status'] == 'violation']
    harness = [i for i in bad if out[i][0]['status'] == 'harness']

    # repeat a sample: same seed, same event log?
    recheck = []
    if not bad:
        ids = sorted(out)
        step = max(1, len(ids) // 12)
        for i in ids[::step][:12]:
            r = forked(check, make_plan(check, seed, tier, i),
                       os.path.join(base, 'again'))
            recheck.append(r['digest'] == out[i][0]['digest'])

    samples = []
    for i in sorted(out)[:3]:
        samples.append({'run': i, 'plan': trim(make_plan(check, seed, tier, i)),
                        'events': out[i][0]['events'],
                        'faults': out[i][0]['faults'],
                        'digest': out[i][0]['digest'][:16]})
    wall = time.monotonic() - t0
    cov = {
        'evaluations': len(out),
        'distinct_nontrivial': len(nontriv),
        'rule': check.rule,
        'samples': samples,
        'distinct_event_logs': len(digests),
        'runs_per_hour': int(len(out) / max(search_s, 1e-9) * 3600),
        'seeds_per_hour': int(len(out) / max(search_s, 1e-9) * 3600),
        'simulated_device_seconds': round(sim_ns / 1e9, 3),
        'logged_events': events,
        'faults_injected': dict(sorted(faults.items())),
        'probes_hit': dict(sorted(probes.items())),
        'real_components': check.real,
        'stub_components': check.stubs,
        'workers': workers,
        'determinism_recheck': {'repeated': len(recheck),
                                'identical': sum(recheck)},
    }
    rc = 0
    nviol = 0
    for k in known_findings():
        if k.get('property') == check.id:
            print('KNOWN-FINDING: property=%s %s: %s' % (
                check.id, k.get('kind'), k.get('match', '')))
    if viol:
        i = viol[0]
        r = out[i][0]
        nviol = 1
        rc = 1
        report_violation(check, tier, seed, i, r, base)
    elif harness:
        print('HARNESS ERROR in run %d:\n%s'
              % (harness[0], out[harness[0]][0]['msg']))
        rc = 2
    if recheck and not all(recheck):
        print('NOTE: %d of %d repeated runs had another event log'
              % (len(recheck) - sum(recheck), len(recheck)))
    write_evidence(check, tier, seed, cov, time.monotonic() - t0, nviol,
                   check.assumptions)
    print('%s: %d runs, %d distinct event logs, faults %s, %.1f s'
          % (check.id, len(out), len(digests), dict(faults), wall))
    if probes:
        print('  probes: %s' % dict(sorted(probes.items())))
    if rc == 0 and len(out) < min(n, 20):
        print('HARNESS ERROR: only %d runs fitted into the time budget'
              % len(out))
        rc = 2
    return rc


def report_violation(check, tier, seed, i, r, base):
    os.makedirs(REPLAYS, exist_ok=True)
    plan = make_plan(check, seed, tier, i)
    kind = r['kind']
    attempts = accepted = 0
    if kind != 'hang' and not os.environ.get('DST_NOMIN'):
        plan, attempts, accepted = minimise(
            check, plan, kind, base, {'quick': 40, 'thorough': 180}[tier])
    res = forked(check, plan, os.path.join(base, 'fin'), keep_trace=True,
                 timeout=30 if kind == 'hang' else RUN_WALL)
    if res['status'] != 'violation':
        # not a function of the plan (the code under test is not
        # deterministic): report the original observation
        res = r
        plan = make_plan(check, seed, tier, i)
    path = os.path.join(REPLAYS, '%s-%s.json' % (
        check.id, hashlib.sha256(json.dumps(plan, sort_keys=True).encode())
        .hexdigest()[:10]))
    doc = {'property': check.id, 'verif_seed': seed, 'tier': tier, 'run': i,
           'kind': kind, 'message': res.get('msg', ''), 'plan': plan,
           'digest': res.get('digest', ''), 'trace': res.get('trace', []),
           'minimisation': {'attempts': attempts, 'accepted': accepted}}
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1)
    # replay in a fresh process
    same = None
    try:
        p = subprocess.run([sys.executable, '-m', 'dst.main', 'replay', path],
                           cwd=VERIF, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=200)
        same = p.returncode == 1
    except Exception:
        same = False
    print('run %d: %s' % (i, kind))
    print(res.get('msg', '')[:1500])
    print('replay in a fresh process: %s'
          % ('same violation' if same else 'NOT reproduced'))
    print('VIOLATION property=%s replay=%s' % (check.id, path))
    sys.stdout.flush()


def replay(path, checks):
    doc = json.load(open(path))
    check = checks[doc['property']]
    check.setup()
    base = tempfile.mkdtemp(prefix='dst-', dir=scratch_base())
    try:
        res = forked(check, doc['plan'], os.path.join(base, 'fin'),
                     keep_trace=True,
                     timeout=30 if doc['kind'] == 'hang' else RUN_WALL)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    for t in res.get('trace', []):
        print('  ', t)
    print(res['status'], res.get('kind'), res.get('msg', '')[:2000])
    if res['status'] == 'violation':
        exact = (res.get('kind') == doc['kind'] and
                 res.get('digest') == doc.get('digest'))
        print('identical to the recorded run: %s' % exact)
        print('VIOLATION property=%s replay=%s' % (doc['property'], path))
        return 1
    return 0 if res['status'] in ('ok', 'skip') else 2
