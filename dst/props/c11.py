"""C11 Results do not depend on what was read before, or by whom."""
import copy
import os
import random

import numpy as np

from .. import compare, kernel, lab, pipe, ref, world
from ..check import Check
from ..kernel import Violation
from ..sched import AsyncInjector, Scheduler


def freeze(data):
    return copy.deepcopy(data)


def unchanged(a, b, path='data'):
    """None, or where two data structures differ."""
    if type(a) is not type(b):
        return path
    if isinstance(a, dict):
        if list(a) != list(b):
            return path
        for k in a:
            r = unchanged(a[k], b[k], '%s[%r]' % (path, k))
            if r:
                return r
        return None
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape or \
                not np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'):
            return path
        return None
    return None if (a == b or a != a) else path


class C11(Check):
    id = 'C11'
    runs = {'quick': 800, 'thorough': 40000}
    rule = ('one run = one campaign, the value of every name read first from '
            'a fresh object, then a history of reads, renderings, changes of '
            'returned containers, interrupted reads and threads on one to '
            'three objects sharing the data; non-trivial = an interruption, '
            'a thread switch or a changed container')
    real = ['results', 'process routines', 'plotting', 'report', 'XML output']
    stubs = ['camera (simulated device)', 'thread scheduler', 'instants of '
             'asynchronous exceptions', 'image files']
    shrink_lists = ('ops', 'objs', 'names')
    shrink_min = {'ops': 1, 'objs': 1, 'names': 1}
    shrink_ints = dict(lab.CAMPAIGN_SHRINK)

    def setup(self):
        world.load()
        from matplotlib.figure import Figure
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        FigureCanvasAgg(Figure()).draw()

    def gen(self, rng, tier, i):
        objs = []
        for _ in range(rng.randint(1, 3)):
            objs.append({'area': rng.choice([None, None, 25., 9.]),
                         'sat': rng.choice([None, None, None, -2])})
        ops = []
        heavy = rng.random() < .15
        for _ in range(rng.randint(3, 12)):
            k = rng.choice(['read', 'read', 'read', 'all', 'xml', 'section',
                            'print', 'mutate', 'mutate', 'interrupt',
                            'interrupt', 'threads', 'new', 'results'] +
                           (['plot', 'plot', 'report'] if heavy else []))
            op = {'op': k, 'obj': rng.randrange(len(objs)),
                  'names': [rng.choice(compare.NAMES)
                            for _ in range(rng.randint(1, 5))],
                  'seed': rng.getrandbits(30)}
            if k == 'interrupt':
                op['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError',
                                        'SystemExit'])
                op['what'] = rng.choice(['name', 'name', 'xml', 'results'])
                op['at'] = rng.random()
            elif k == 'threads':
                op['n'] = rng.randint(2, 3)
                op['same'] = rng.random() < .6
                op['rate'] = rng.choice([.02, .1, .3])
            elif k == 'mutate':
                op['names'] = [rng.choice(compare.TABLES)]
                op['how'] = rng.choice(['zero', 'scale', 'clear', 'item'])
            elif k in ('plot', 'report'):
                op['plots'] = [rng.randrange(16) for _ in
                               range(rng.randint(1, 2))]
            ops.append(op)
        return {'camp': lab.gen_campaign(rng), 'objs': objs, 'ops': ops,
                'fresh': rng.random() < .5}

    def make(self, o, data):
        kw = {}
        if o['area'] is not None:
            kw['pixel_area'] = o['area']
        if o['sat'] is not None:
            kw['index_u_ysat'] = len(data['temporal']['u_p']) + o['sat']
        return pipe.results(data, **kw)

    def execute(self, plan, ctx):
        pts = lab.record(plan['camp'], ctx)
        path = lab.store(pts, plan['camp'], ctx.dir('camp'))
        with ctx.must('processing'):
            data = pipe.process(path)
        self.ctx = ctx
        self.orig = freeze(data)
        self.data = data
        # each value, read first from an object of its own
        self.want = []
        memo = {}
        for o in plan['objs']:
            key = (o['area'], o['sat'])
            if key not in memo:
                memo[key] = kernel.isolated(self.first, o, data) \
                    if plan['fresh'] else self.first(o, data)
            if memo[key] is None:
                raise kernel.Skip('campaign without results')
            self.want.append(memo[key])
        self.objs = [self.make(o, data) for o in plan['objs']]
        self.plan = plan
        self.intact('reading')
        for n, op in enumerate(plan['ops']):
            ctx.log(n, op['op'], op['obj'], op['names'])
            self.step(n, op)
            self.intact(op['op'])
        for i in range(len(self.objs)):
            self.require(i, compare.NAMES, 'at the end')
        self.intact('reading')

    def first(self, o, data):
        w = {}
        for n in compare.NAMES:
            r, err = kernel.attempt(lambda: compare.plain(
                compare.read(self.make(o, freeze(data)), n)))
            if err is not None:
                return None
            w[n] = r
        return w

    def intact(self, what):
        d = unchanged(self.orig, self.data)
        if d:
            raise Violation('data-changed', '%s changed by %s' % (d, what))

    def judge(self, i, name, v, what):
        w = self.want[i][name]
        if not compare.same(v, w):
            raise Violation('result-changed', '%s %s is %s, a fresh object '
                            'gives %s' % (name, what, compare.brief(v),
                                          compare.brief(w)))

    def require(self, i, names, what):
        for n in names:
            with self.ctx.must('reading ' + n):
                v = compare.read(self.objs[i], n)
            self.judge(i, n, v, what)

    def judge_dict(self, i, d, what):
        for n, info in d.items():
            if n not in self.want[i]:
                continue
            v = info.get('data', info.get('value'))
            self.judge(i, n, v, what)

    def step(self, n, op):
        ctx, i = self.ctx, op['obj']
        res = self.objs[i]
        k = op['op']
        if k == 'read':
            self.require(i, op['names'], 'after operation %d' % n)
        elif k == 'all':
            names = list(compare.NAMES)
            random.Random(op['seed']).shuffle(names)
            self.require(i, names, 'in a shuffled order')
        elif k == 'new':
            self.objs[i] = self.make(self.plan['objs'][i], self.data)
            self.require(i, op['names'], 'from a new object on the same data')
        elif k in ('results', 'section'):
            with ctx.must(k):
                d = res.results if k == 'results' else res.results_by_section
            if k == 'section':
                d = {x: v for s in d.values() for x, v in s.items()}
            self.judge_dict(i, d, 'in ' + k)
            # the caller may do with it what he likes
            for v in d.values():
                self.spoil(v.get('data'), 'scale')
                v.clear()
        elif k == 'xml':
            with ctx.must('xml'):
                if op['seed'] % 2:
                    res.xml(ctx.path('r%d.xml' % n))
                else:
                    res.xml()
        elif k == 'print':
            with ctx.must('print'):
                res.print_results()
        elif k == 'mutate':
            with ctx.must('reading'):
                v = compare.read(res, op['names'][0])
            self.judge(i, op['names'][0], v, 'before changing it')
            self.spoil(v, op['how'])
            ctx.nontrivial = True
            ctx.probe('returned container changed')
            self.require(i, op['names'], 'after the returned one was changed')
        elif k == 'plot':
            self.plot(res, op)
        elif k == 'report':
            self.report(res, op, n)
        elif k == 'interrupt':
            self.interrupt(i, op)
        elif k == 'threads':
            self.threads(i, op)

    def spoil(self, v, how):
        if not isinstance(v, dict):
            return
        for key in list(v):
            a = v[key]
            if isinstance(a, np.ndarray) and a.flags.writeable and a.size:
                if how == 'zero':
                    a[...] = 0
                elif how == 'scale':
                    a *= 3
                elif how == 'item':
                    a[0] += 17
        if how == 'clear':
            v.clear()

    def plots(self, op):
        from emva1288.process.plotting import EVMA1288plots
        return [EVMA1288plots[x % len(EVMA1288plots)] for x in op['plots']]

    def plot(self, res, op):
        from matplotlib.figure import Figure
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        if not getattr(res, 'id', False):
            res.id = 1
        for cls in self.plots(op):
            fig = Figure()
            FigureCanvasAgg(fig)
            with self.ctx.must('plot'):
                p = cls(fig)
                p.plot(res)
                p.rearrange()

    def report(self, res, op, n):
        from emva1288.process import plotting
        from emva1288.report.report import Report1288, info_op
        old = plotting.EVMA1288plots[:]
        plotting.EVMA1288plots[:] = self.plots(op)[:1]
        try:
            with self.ctx.must('report'):
                r = Report1288(self.ctx.path('report%d' % n))
                o = info_op()
                r.add(o, self.data)
                r.add(o, None, results=res)
                r.latex()
        finally:
            plotting.EVMA1288plots[:] = old

    def action(self, res, op):
        if op['what'] == 'xml':
            return res.xml
        if op['what'] == 'results':
            return lambda: res.results
        return lambda: [compare.read(res, x) for x in op['names']]

    def interrupt(self, i, op):
        probe = self.make(self.plan['objs'][i], freeze(self.data))
        with AsyncInjector(self.ctx, None, MemoryError) as inj:
            self.action(probe, op)()
        total = inj.n
        if not total:
            return
        exc = {'KeyboardInterrupt': KeyboardInterrupt,
               'MemoryError': MemoryError,
               'SystemExit': SystemExit}[op['exc']]
        fn = self.action(self.objs[i], op)
        try:
            with AsyncInjector(self.ctx, int(op['at'] * total), exc) as inj:
                fn()
        except exc as e:
            kernel.clear_tb(e)
        self.intact('an interrupted read at %s' % (inj.fired,))
        self.require(i, op['names'], 'after an interruption at %s'
                     % (inj.fired,))

    def threads(self, i, op):
        s = Scheduler(self.ctx, op['seed'], rate=op['rate'])
        rng = random.Random(op['seed'])
        who = []
        for t in range(op['n']):
            j = i if op['same'] else rng.randrange(len(self.objs))
            names = [rng.choice(compare.NAMES) for _ in range(4)]
            xml = rng.random() < .1
            who.append(j)

            def work(j=j, names=names, xml=xml):
                out = [(x, compare.plain(compare.read(self.objs[j], x)))
                       for x in names]
                if xml:
                    self.objs[j].xml()
                return out
            s.spawn('t%d' % t, work)
        for j, t in zip(who, s.run()):
            if t.error is not None:
                raise Violation('thread-failed', '%s: %s' % (
                    t.name, kernel.short(t.error)))
            for name, v in t.result:
                self.judge(j, name, v, 'read from a thread')


CHECK = C11()
