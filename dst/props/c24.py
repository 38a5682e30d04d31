"""C24 A long-running process keeps nothing of what was dropped."""
import gc
import logging
import os
import random
import sys
import threading
import tracemalloc
import warnings
import weakref

import numpy as np

from .. import camgen, camops, compare, kernel, lab, pipe, rep, world
from ..check import Check
from ..kernel import Violation, attempt
from ..sched import AsyncInjector
from ..simdisk import SimDisk

SIDE = 56                 # pixels per side of the processed frames
LIMIT = 8 << 10           # bytes per round: about one frame as delivered
WARM, HALF = 3, 3         # rounds before, and twice while, the memory is watched
ALL = WARM + 2 * HALF
LONGER = 12               # rounds more, twice, where it seems to grow
KINDS = ['process', 'process', 'process', 'facade', 'generate', 'reads',
         'grabs', 'report', 'plots', 'compare']


class C24(Check):
    id = 'C24'
    runs = {'quick': 120, 'thorough': 5000}
    rule = ('one run = %d rounds of the same jobs in one process, on new '
            'campaigns each, some of them failing by damage, disk errors or '
            'interrupts; afterwards no object of an early round is alive, '
            'and the memory, registries and threads of the process have not '
            'grown from round to round; non-trivial = a job failed'
            % ALL)
    real = ['parser', 'loader', 'data', 'results', 'XML', 'report', 'plots',
            'dataset generator', 'camera', 'memory of the process']
    stubs = ['raw file I/O (simulated disk)', 'camera (simulated device) of '
             'processed campaigns', 'most plots of the report']
    assumptions = ['caches of a few small entries are allowed: less than %d '
                   'bytes per round' % LIMIT]
    shrink_lists = ('jobs',)
    shrink_min = {'jobs': 1}

    def setup(self):
        world.load()
        import matplotlib.pyplot     # noqa: F401
        from . import c13
        c13.C13.setup(self)

    def gen(self, rng, tier, i):
        jobs = []
        for _ in range(rng.randint(1, 3)):
            j = {'kind': rng.choice(KINDS), 'fail': rng.choice(
                [None, None, 'io', 'missing', 'garbage', 'descr', 'async',
                 'async']), 'at': rng.random(),
                'new': rng.random() < .8,
                'seed': rng.getrandbits(30), 'plot': rng.randrange(16)}
            if j['kind'] in ('process', 'facade', 'reads', 'report', 'plots'):
                c = lab.gen_campaign(rng, faults=False,
                                     bits=rng.choice([8, 12, 16]))
                c.update(w=SIDE, h=SIDE, n=5, L=3, Ld=3)
                j['camp'] = c
            elif j['kind'] == 'generate':
                ds = camgen.gen_dataset(rng)
                ds.update(steps=3, L=3)
                ds['cam'].update(width=40, height=40)
                j['ds'] = ds
            elif j['kind'] == 'grabs':
                j['cam'] = dict(camops.gen_spec(rng), width=40, height=40)
                j['ops'] = [camops.gen_op(rng) for _ in range(6)]
            jobs.append(j)
        return {'jobs': jobs, 'seed': rng.getrandbits(30)}

    def execute(self, plan, ctx):
        self.ctx, self.plan = ctx, plan
        self.root = ctx.dir('disk')
        self.refs = []
        self.held = {}
        jobs = plan['jobs']
        watch = not any(j['kind'] in ('report', 'plots') for j in jobs)
        self.failed = 0
        was = None
        stops = [WARM, WARM + HALF, WARM + 2 * HALF]
        mem, n, grow = [], 0, 0
        tracemalloc.start()
        try:
            while stops:
                for m, j in enumerate(jobs):
                    self.round(n, m, j)
                for _ in range(2):
                    gc.collect()
                n += 1
                if n != stops[0]:
                    continue
                if n == WARM:
                    was = self.census()
                mem.append((stops.pop(0), traced()))
                # what is loaded or filled once grows in one part only
                grow = min([(sum(b.values()) - sum(a.values())) / (y - x)
                            for (x, a), (y, b) in zip(mem, mem[1:])] or [0])
                if n == ALL and watch and grow > LIMIT:
                    # the first calls of the code add up over few rounds
                    stops = [n + LONGER, n + 2 * LONGER]
        finally:
            tracemalloc.stop()
        last, m1, m2 = n - 1, mem[1][1], mem[-1][1]
        if os.environ.get('DST_DEBUG'):
            d = {k: m2[k] - m1.get(k, 0) for k in m2}
            print('growth', grow, sorted(d.items(), key=lambda x: -x[1])[:5],
                  [(j['kind'], j['fail'], j['new']) for j in plan['jobs']])
        ctx.log('growth', grow > LIMIT)
        ctx.probe('bytes per round', int(grow))
        ctx.probe('failed jobs', self.failed)
        ctx.nontrivial = self.failed > 0
        for n, what, r in self.refs:
            if n < last - 2 and r() is not None:
                raise Violation('kept', '%s of round %d is still alive after '
                                'round %d (%s)' % (what, n, last,
                                                   holders(r())))
        for k, v in self.census().items():
            if v > was[k] + 2:
                raise Violation('grows', '%d %s instead of %d after %d '
                                'rounds' % (v, k, was[k], last + 1 - WARM))
        if watch and grow > LIMIT:
            raise Violation('grows', 'the process grows by %d bytes per round'
                            % grow)

    def census(self):
        import matplotlib.pyplot as plt
        log = [logging.getLogger()] + [
            x for x in list(logging.Logger.manager.loggerDict.values())
            if isinstance(x, logging.Logger)]
        return {'log handlers': sum(len(x.handlers) + len(x.filters)
                                    for x in log),
                'loggers': len(log), 'threads': threading.active_count(),
                'open figures': len(plt.get_fignums()),
                'entries of sys.path': len(sys.path),
                'warning filters': len(warnings.filters),
                'uncollectable objects': len(gc.garbage),
                'entries of module containers': containers()}

    # -- jobs ----------------------------------------------------------------
    def watch(self, n, what, obj):
        try:
            self.refs.append((n, what, weakref.ref(obj)))
        except TypeError:
            pass

    def watch_data(self, n, d):
        for kind in ('temporal', 'spatial'):
            for k, v in d[kind].items():
                if isinstance(v, np.ndarray):
                    self.watch(n, 'array %s' % k, v)

    def round(self, n, m, j):
        job = self.job(n, m, j)
        if job is None:
            return
        # everything is loaded once before the memory is watched
        fail = j['fail'] if n else None
        faults = []
        if fail == 'io':
            faults = [{'cls': 'any', 'kind': 'EIO', 'op': int(j['at'] * 60),
                       'stays': False}]
        disk = SimDisk(self.root, self.ctx, faults, seed=n)
        if fail == 'async':
            r = random.Random(kernel.derive(j['seed'], n))
            inj = AsyncInjector(self.ctx, int(r.random() ** 2 * 3000),
                                KeyboardInterrupt)
            with disk:
                try:
                    with inj:
                        job()
                except KeyboardInterrupt as e:
                    kernel.clear_tb(e)
                    self.failed += 1
        else:
            with disk:
                _, err = attempt(job)
            if err is not None:
                self.failed += 1
                if fail is None:
                    raise Violation('fails', 'round %d: %s' % (
                        n, kernel.short(err)))
        self.ctx.log(n, j['kind'], j['seed'], self.failed,
                     disk.count if not j['new'] else None)
        del job

    def place(self, n, m, j):
        return os.path.join(self.root, 'j%d_%d' % (m, n if j['new'] else 0))

    def campaign(self, n, m, j):
        out = self.place(n, m, j)
        c = dict(j['camp'], seed=j['camp']['seed'] + n)
        pts = lab.record(c, None)
        path = lab.store(pts, c, out)
        img = os.path.join(out, 'images', pts[2].names[0])
        if j['kind'] == 'reads' or not n:
            pass
        elif j['fail'] == 'missing':
            os.remove(img)
        elif j['fail'] == 'garbage':
            with open(img, 'wb') as f:
                f.write(b'no image')
        elif j['fail'] == 'descr':
            with open(path, 'a') as f:
                f.write('b 12.0\n')
        if n and j['kind'] != 'reads' and j['fail'] in (
                'missing', 'garbage', 'descr'):
            self.ctx.fault('campaign: ' + j['fail'])
        return path

    def job(self, n, m, j):
        k = j['kind']
        if k == 'generate':
            def gen():
                out = None if j['at'] < .5 else self.place(n, m, j)
                if out and os.path.exists(out):
                    kernel.rmtree(out)
                g = camgen.generate(j['ds'], out, seed=n)
                self.watch(n, 'dataset generator', g)
                self.watch(n, 'camera', g.cam)
            return gen
        if k == 'grabs':
            def grabs():
                b = self.held.get(m) if not j['new'] else None
                if b is None:
                    b = camops.Built(j['cam'])
                    if j['new']:
                        self.watch(n, 'camera', b.cam)
                    else:
                        self.held[m] = b
                for o in j['ops'] * 3:
                    x = camops.apply(b, o)
                    if isinstance(x, np.ndarray):
                        self.watch(n, 'frame', x)
                if not j['new']:
                    # what the harness keeps
                    b.arrays.clear()
                    b.rad.clear()
            return grabs
        if k == 'compare':
            from emva1288.process import routines
            from . import c16
            out = self.place(n, m, j)
            os.makedirs(out, exist_ok=True)
            p = []
            for x in range(2):
                p.append(os.path.join(out, '%d.xml' % x))
                with open(p[-1], 'w') as f:
                    t = c16.store(c16.base(j['seed'] + n * 2 + x), x)
                    f.write(t[:len(t) // 2] if j['fail'] == 'garbage' else t)
            return lambda: routines.compare_xml(p[0], p[1], None)
        if k == 'reads' and m in self.held:
            return lambda: self.reads(self.held[m])
        path = self.campaign(n, m, j)
        if k == 'facade':
            def whole():
                from emva1288.process import Emva1288
                e = Emva1288(path)
                self.watch(n, 'facade', e)
                e.xml()
            return whole

        def steps():
            p = pipe.parse(path)
            self.watch(n, 'parser', p)
            im = pipe.load(p.images)
            self.watch(n, 'loader', im)
            dat = pipe.data(im.data)
            self.watch(n, 'data', dat)
            self.watch_data(n, dat.data)
            r = pipe.results(dat.data)
            self.watch(n, 'results', r)
            return r
        if k == 'reads':
            # one results object for the whole session
            self.held[m] = steps()
            # an object may keep what it computed, once
            self.reads(self.held[m])
            self.refs = [x for x in self.refs if x[0] != n or x[1] in
                         ('frame', 'camera')]
            return None
        if k == 'process':
            def process():
                self.reads(steps())
            return process
        if k == 'report':
            def report():
                from emva1288.report.report import Report1288, info_op
                r = steps()
                out = os.path.join(self.place(n, m, j), 'rep')
                with rep.StandIns(j['plot']):
                    rp = Report1288(out)
                    self.watch(n, 'report', rp)
                    rp.add(info_op(), None, r)
                    rp.latex()
            return report

        def plots():
            import matplotlib.pyplot as plt
            from emva1288.process.plotting import Plotting1288, EVMA1288plots
            r = steps()
            try:
                pl = Plotting1288(r)
                self.watch(n, 'plotter', pl)
                pl.plot(EVMA1288plots[j['plot'] % len(EVMA1288plots)])
            finally:
                plt.close('all')
        return plots

    def reads(self, r):
        compare.snapshot(r)
        r.xml()


def traced():
    """Bytes by file, without what the simulator itself keeps."""
    gc.collect()
    out = {}
    for t in tracemalloc.take_snapshot().statistics('filename'):
        f = t.traceback[0].filename
        if not f.startswith(kernel.HERE) and 'tracemalloc' not in f:
            out[f] = t.size
    return out


def containers():
    """Number of entries in the modules' and classes' own containers."""
    n = 0
    for name, m in list(sys.modules.items()):
        if name.split('.')[0] != 'emva1288' or m is None:
            continue
        for obj in [m] + [c for c in vars(m).values()
                          if isinstance(c, type) and
                          c.__module__ == m.__name__]:
            for v in list(vars(obj).values()):
                if isinstance(v, (dict, list, set)):
                    n += len(v)
    return n


def holders(obj):
    out = []
    for r in gc.get_referrers(obj)[:6]:
        if isinstance(r, dict):
            out.append('dict with %s' % sorted(map(str, list(r)))[:3])
        elif type(r).__name__ not in ('frame', 'list_iterator'):
            out.append(type(r).__name__)
    return 'held by ' + ', '.join(out) if out else 'no visible holder'


CHECK = C24()
