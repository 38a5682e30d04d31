"""C23 Results and files depend only on the inputs, and change nothing else."""
import contextlib
import io
import json
import os
import pickle
import random
import shutil
import subprocess
import sys

import numpy as np

from .. import camgen, camops, compare, env, kernel, lab, pipe, rep, world
from ..check import Check
from ..kernel import HarnessError, Violation
from ..sched import Scheduler
from ..simdisk import rel_tree

PLACES = ['same', 'copy', 'moved', 'symlink', 'odd', 'deep']
SPELL = ['abs', 'abs', 'rel', 'dot', 'updown', 'slashes']


class C23(Check):
    id = 'C23'
    runs = {'quick': 600, 'thorough': 20000}
    rule = ('one run = one job (process, facade, generate, report, compare, '
            'camera) done in a process of its own, then again with the '
            'dataset somewhere else, spelled otherwise, in another '
            'environment (working directory with decoys, clock, random '
            'state, print settings, variables, umask, locale, ...), which '
            'another thread may keep changing, or in a new interpreter with '
            'another hash seed; outputs must be the same and the environment '
            'untouched; non-trivial = something was changed')
    real = ['parser', 'loader', 'data', 'results', 'XML', 'comparison',
            'report', 'dataset generator', 'camera', 'file system']
    stubs = ['clock, environment, global random state (simulated)',
             'plots of the report (light ones)', 'camera (simulated device) '
             'of processed campaigns', 'thread scheduler']
    assumptions = ['file system and standard streams use UTF-8',
                   'relative paths are only used while the working directory '
                   'stays']
    shrink_lists = ('changes', 'weather')
    shrink_min = {'changes': 0, 'weather': 0}
    shrink_ints = dict(lab.CAMPAIGN_SHRINK)

    def setup(self):
        world.load()
        import matplotlib.pyplot     # noqa: F401
        from . import c13
        c13.C13.setup(self)

    def gen(self, rng, tier, i):
        kind = rng.choice(['process', 'process', 'process', 'facade',
                           'generate', 'generate', 'report', 'compare',
                           'camera'])
        names = list(env.CHANGES)
        job = {'kind': kind, 'area': rng.choice([None, 25.]),
               'seed': rng.getrandbits(30)}
        if kind == 'generate':
            job['ds'] = camgen.gen_dataset(rng)
            job['ds'].update(steps=3, L=3)
            job['temp'] = rng.random() < .4
        elif kind == 'camera':
            job['cam'] = camops.gen_spec(rng)
            job['ops'] = [camops.gen_op(rng)
                          for _ in range(rng.randint(2, 8))]
        elif kind != 'compare':
            c = lab.gen_campaign(rng)
            c['n'] = min(c['n'], 7)
            job['camp'] = c
        changes = [[n, rng.getrandbits(30)] for n in rng.sample(
            names, rng.choice([0, 1, 2, 4, len(names)]))]
        weather = []
        if rng.random() < .35:
            weather = [[rng.choice(env.WEATHER), rng.getrandbits(30)]
                       for _ in range(rng.randint(3, 25))]
        return {'job': job, 'place': rng.choice(PLACES),
                'spell': 'abs' if weather else rng.choice(SPELL),
                'times': rng.choice(['keep', 'old', 'equal', 'future',
                                      'coarse', 'coarse']),
                'changes': changes, 'weather': weather,
                'peer': rng.choice([0, 1, 7, 4242])
                if rng.random() < (.12 if not weather else 0) else None,
                'opt': rng.random() < .4,
                'rate': rng.choice([.01, .05, .2]),
                'seed': rng.getrandbits(30)}

    # -- inputs ------------------------------------------------------------
    def prepare(self, job, where):
        """Writes the inputs of the job below `where`."""
        os.makedirs(where, exist_ok=True)
        if 'camp' in job:
            pts = lab.record(job['camp'], self.ctx)
            lab.store(pts, job['camp'], where)
            with open(os.path.join(where, 'logo.pdf'), 'wb') as f:
                f.write(b'%PDF-1.4 logo')
        elif job['kind'] == 'compare':
            from . import c16
            for m in range(2):
                with open(os.path.join(where, '%d.xml' % m), 'w') as f:
                    f.write(c16.store(c16.base(job['seed'] + m), m))

    def decoy(self, where, job):
        """Other data under the same names, in a directory the process
        happens to be in."""
        os.makedirs(where)
        if 'camp' in job:
            c = dict(job['camp'], seed=job['camp']['seed'] ^ 1, flicker=0)
            lab.store(lab.record(c), c, where)
        for n in ('logo.pdf', '0.xml', '1.xml', 'report.tex', 'out.txt'):
            with open(os.path.join(where, n), 'w') as f:
                f.write('decoy')

    def execute(self, plan, ctx):
        self.ctx, self.plan = ctx, plan
        job = plan['job']
        root = ctx.dir('w')
        here = os.path.join(root, 'data')
        self.prepare(job, here)
        base = os.path.join(root, 'base')
        os.makedirs(base)
        want = kernel.isolated(self.run_job, job, here, base)
        ctx.log('base', sorted(want))
        dirs = [os.path.join(root, 'decoy%d' % n) for n in range(2)]
        for d in dirs:
            self.decoy(d, job)
        there = self.relocate(plan, root, here)
        self.times(plan, there)
        out = os.path.join(root, 'o' if plan['place'] != 'odd'
                           else 'o {x} %d #1 ü')
        os.makedirs(out)
        tmp = os.path.join(root, 'tmp')
        os.makedirs(tmp)
        import tempfile
        tempfile.tempdir = tmp
        self.kept = None
        before = {d: listing(d) for d in dirs + [tmp]}
        src = listing(there)
        if plan['peer'] is not None:
            got = self.peer(plan, there, out, root)
        else:
            with env.Environment(ctx, dirs) as e:
                for n, s in plan['changes']:
                    e.change(n, s)
                a, o = self.spell(plan['spell'], there), \
                    self.spell(plan['spell'], out)
                if plan['weather']:
                    got = self.stormy(plan, e, job, a, o)
                else:
                    was = env.state()
                    with ctx.must('job'):
                        got = self.run_job(job, a, o)
                    self.untouched(was, env.state())
        ctx.log('again', sorted(got))
        self.judge(want, got)
        self.kept = None
        import gc
        gc.collect()
        for d in dirs + [tmp]:
            new = set(listing(d)) ^ set(before[d])
            if new:
                raise Violation('stray-files', 'files appear or vanish in %s:'
                                ' %s' % (os.path.basename(d),
                                         sorted(new)[:3]))
        if listing(there) != src:
            raise Violation('input-changed', 'the input files were changed')

    def relocate(self, plan, root, here):
        p = plan['place']
        if p == 'same':
            return here
        self.ctx.fault('dataset: ' + p)
        t = os.path.join(root, {'odd': 'd {x} %d #2 ü', 'deep': os.path.join(
            *['sub'] * 12)}.get(p, 'there'))
        os.makedirs(os.path.dirname(t), exist_ok=True)
        if p == 'moved':
            os.rename(here, t)
        elif p == 'symlink':
            os.symlink(here, t)
        else:
            shutil.copytree(here, t)
        return t

    def times(self, plan, there):
        how = plan['times']
        if how == 'keep':
            return
        r = random.Random(plan['seed'])
        for d, _, fs in os.walk(there):
            for f in sorted(fs):
                t = {'old': 1000., 'equal': 1e9,
                     'future': 4e9 + r.random() * 1e6,
                     'coarse': 1e9 + r.randrange(20)}[how]
                os.utime(os.path.join(d, f), (t, t))

    def spell(self, how, path):
        if how == 'abs':
            return path
        rel = os.path.relpath(path)
        if how == 'rel':
            return rel
        if how == 'dot':
            return os.path.join('.', rel)
        if how == 'updown':
            return os.path.join(os.path.dirname(path), '.',
                                '..', os.path.basename(os.path.dirname(path)),
                                os.path.basename(path))
        return path.replace('/', '//')

    # -- the job -----------------------------------------------------------
    def run_job(self, job, src, out):
        k = job['kind']
        if k == 'camera':
            cam = camops.Built(job['cam'])
            return {'frames': [np.array(camops.apply(cam, o), copy=True)
                               for o in job['ops']]}
        if k == 'generate':
            g = camgen.generate(job['ds'], None if job['temp']
                                else os.path.join(out, 'set'))
            self.kept = g
            res = {'files': rel_tree(os.path.dirname(g.descriptor_path))}
            d = pipe.process(g.descriptor_path)
            res['texp'] = np.asarray(d['temporal']['texp'])
            res['u_y'] = np.asarray(d['temporal']['u_y'])
            return res
        if k == 'compare':
            from emva1288.process import routines
            a, b = os.path.join(src, '0.xml'), os.path.join(src, '1.xml')
            o = os.path.join(out, 'out.txt')
            t = routines.compare_xml(a, b, o)
            with open(o, encoding='utf-8') as f:
                return {'text': t, 'file': f.read(), 'read': plain(
                    routines.xml_to_dict(a))}
        path = os.path.join(src, 'EMVA1288descriptor.txt')
        if k == 'facade':
            from emva1288.process import Emva1288
            e = Emva1288(path)
            x = os.path.join(out, 'r.xml')
            e.xml(x)
            said = io.StringIO()
            with contextlib.redirect_stdout(said):
                e.results()
            with open(x, encoding='utf-8') as f:
                return {'xml': f.read(), 'text': e.xml().decode(),
                        'printed': said.getvalue()}
        p = pipe.parse(path)
        d = pipe.data(pipe.load(p.images).data).data
        a = {'pixel_area': job['area']} if job['area'] else {}
        r = pipe.results(d, **a)
        if k == 'process':
            return {'format': dict(p.format), 'version': p.version,
                    'values': compare.snapshot(r), 'xml': r.xml().decode(),
                    'blocks': {kind: {t: {ph: [os.path.basename(f)
                                               for f in fs]
                                          for ph, fs in v.items()}
                                      for t, v in p.images[kind].items()}
                               for kind in p.images}}
        from emva1288.report.report import (Report1288, info_marketing,
                                            info_op)
        with rep.StandIns():
            rp = Report1288(os.path.join(out, 'rep'), marketing=info_marketing(
                logo=os.path.join(src, 'logo.pdf')))
            # the report stays where it was created
            old, tree = os.getcwd(), os.path.abspath(out)
            os.chdir(tree)
            still = os.getcwd()
            for n in range(2):
                op = info_op()
                op['name'] = 'N%d' % n if n else None
                op['camera_settings']['Gain'] = n
                rp.add(op, d, r if n else None)
            rp.latex()
            if os.getcwd() != still and not self.plan['weather']:
                raise Violation('side-effect', 'the job changed the working '
                                'directory')
            os.chdir(old)
        tree = rel_tree(os.path.join(tree, 'rep'))
        return {'files': {n: b if not n.endswith('.pdf') or
                          n.startswith(('files', 'upload')) else
                          rep.valid_pdf(b) for n, b in tree.items()}}

    def stormy(self, plan, e, job, src, out):
        s = Scheduler(self.ctx, plan['seed'], rate=plan['rate'],
                      max_steps=1500000)

        def weather():
            for n, seed in plan['weather']:
                e.change(n, seed)
                s.yield_(forced=True)
        s.spawn('job', lambda: self.run_job(job, src, out))
        s.spawn('weather', weather)
        t = s.run()
        if t[1].error is not None:
            raise HarnessError(repr(t[1].error))
        if t[0].error is not None:
            if isinstance(t[0].error, Violation):
                raise t[0].error
            raise Violation('unexpected-error:job', kernel.short(t[0].error))
        return t[0].result

    def peer(self, plan, src, out, root):
        self.ctx.fault('new interpreter, other hash seed')
        f = os.path.join(root, 'peer.json')
        with open(f, 'w') as h:
            json.dump([plan['job'], src, out], h)
        e = dict(os.environ, PYTHONHASHSEED=str(plan['peer']),
                 TMPDIR=os.path.join(root, 'tmp'))
        cmd = [sys.executable] + (['-O'] if plan['opt'] else []) + [
            '-m', 'dst.main', 'peer', f]
        p = subprocess.run(cmd, env=e, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, timeout=120,
                           cwd=os.path.dirname(kernel.HERE))
        if not os.path.exists(f + '.out'):
            raise HarnessError('peer: ' + p.stderr.decode()[-1000:])
        with open(f + '.out', 'rb') as h:
            ok, val = pickle.load(h)
        if not ok:
            raise Violation('unexpected-error:job', 'in a new interpreter: '
                            + val)
        return val

    # -- verdicts ------------------------------------------------------------
    def untouched(self, was, now):
        for k in was:
            if was[k] != now[k]:
                a, b = was[k], now[k]
                if isinstance(a, dict):
                    d = [x for x in set(a) | set(b) if a.get(x) != b.get(x)]
                    k, a, b = '%s %s' % (k, sorted(d)[:2]), '', ''
                raise Violation('side-effect', 'the job changed the %s: %s '
                                '-> %s' % (k, str(a)[:60], str(b)[:60]))

    def judge(self, want, got):
        for k in want:
            w, g = want[k], got[k]
            if k == 'values':
                compare.require_same(g, w, 'differs', 'elsewhere')
            elif not equal(w, g):
                raise Violation('differs', '%s: %s' % (k, where(w, g)))


def plain(d):
    return json.loads(json.dumps(d, default=lambda a: np.asarray(
        a).tolist()))


def equal(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)


def where(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return 'entries %s' % sorted(map(str, set(a) ^ set(b)))[:4]
        for k in a:
            if not equal(a[k], b[k]):
                return '%s %s' % (k, where(a[k], b[k]))
    if isinstance(a, (str, bytes)) and isinstance(b, type(a)):
        n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y),
                 min(len(a), len(b)))
        return '%r instead of %r' % (b[max(n - 30, 0):n + 30],
                                     a[max(n - 30, 0):n + 30])
    return '%s instead of %s' % (compare.brief(b), compare.brief(a))


def listing(root):
    out = []
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            st = os.stat(p)
            out.append((os.path.relpath(p, root), st.st_size,
                        st.st_mtime_ns))
        out += [(os.path.relpath(os.path.join(d, x), root), 0, 0) for x in ds]
    return sorted(out)


def peer(path):
    """The job in this (new) interpreter."""
    c = C23()
    c.plan = {'weather': []}
    c.setup()
    with open(path) as f:
        job, src, out = json.load(f)
    try:
        res = (True, c.run_job(job, src, out))
    except Exception as e:
        res = (False, kernel.short(e))
    with open(path + '.tmp', 'wb') as f:
        pickle.dump(res, f)
    os.rename(path + '.tmp', path + '.out')


CHECK = C23()
