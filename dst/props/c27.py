"""C27 The product of every stage can be kept, copied, stored and used again."""
import copy
import io
import json
import os
import pickle
import random

import numpy as np

from .. import compare, kernel, lab, pipe, world
from ..check import Check
from ..kernel import Violation, attempt
from ..sched import AsyncInjector, Scheduler
from ..simdisk import SimDisk
from .c11 import unchanged

STAGES = ('images', 'image data', 'data', 'results')


def differs(a, b, where='product'):
    """None, or where two products differ: integers exactly, floating point
    numbers up to rounding, the order of keys does not matter."""
    if isinstance(b, dict):
        if not isinstance(a, dict) or set(a) != set(b):
            return where
        for k in sorted(b, key=repr):
            r = differs(a[k], b[k], '%s[%r]' % (where, k))
            if r:
                return r
        return None
    if isinstance(b, (list, tuple)):
        return None if list(a) == list(b) else where
    if isinstance(b, (np.ndarray, np.generic, int, float)):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return where
        if x.dtype.kind in 'iu' and y.dtype.kind in 'iu':
            return None if np.array_equal(x, y) else where
        return None if compare.same(x, y) else where
    return None if a == b else where


def convert(d, arr, key=None):
    """The same dictionary with converted arrays and shuffled keys."""
    if isinstance(d, dict):
        items = list(d.items())
        if key:
            key.shuffle(items)
        return {k: convert(v, arr, key) for k, v in items}
    if isinstance(d, np.ndarray):
        return arr(d)
    return d


def frozen(a):
    a = a.copy()
    a.flags.writeable = False
    return a


def strided(a):
    b = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
    v = b[tuple(slice(None, None, 2) for _ in a.shape)]
    v[...] = a
    return v


def unsigned(a):
    # means are floating point numbers; sums and variances are not negative
    return a.astype(np.uint64) if a.dtype.kind == 'i' and \
        (a.size == 0 or a.min() >= 0) else a.copy()


def to_json(d):
    if isinstance(d, dict):
        return {'d': [[k if isinstance(k, str) else float(k), to_json(v)]
                      for k, v in d.items()]}
    if isinstance(d, np.ndarray):
        return {'a': d.tolist(), 't': d.dtype.str}
    if isinstance(d, np.generic):
        return d.item()
    return d


def from_json(j):
    if isinstance(j, dict):
        if 'a' in j:
            return np.asarray(j['a'], dtype=j['t'])
        return {k: from_json(v) for k, v in j['d']}
    return j


def npz(d):
    """Arrays in a numpy file, the rest as text."""
    arrays = {}

    def out(v):
        if isinstance(v, dict):
            return {'d': [[k if isinstance(k, str) else float(k), out(x)]
                          for k, x in v.items()]}
        if isinstance(v, (np.ndarray, np.generic)):
            name = 'a%d' % len(arrays)
            arrays[name] = v
            return {'n': name}
        return v

    def back(j):
        if isinstance(j, dict):
            if 'n' in j:
                a = z[j['n']]
                return a if a.shape else a[()]
            return {k: back(x) for k, x in j['d']}
        return j
    text = json.dumps(out(d))
    f = io.BytesIO()
    np.savez(f, **arrays)
    with np.load(io.BytesIO(f.getvalue()), allow_pickle=False) as z:
        return back(json.loads(text))


class Entry:
    def __init__(self, stage, camp, obj, note, kw=None):
        self.stage, self.camp, self.obj, self.note = stage, camp, obj, note
        self.kw = kw or {}
        self.was = copy.deepcopy(obj) if stage != 'results' else None


class C27(Check):
    id = 'C27'
    runs = {'quick': 1200, 'thorough': 40000}
    rule = ('one run = one or two campaigns and a pool of products of the '
            'stages; products are carried on to the next stage, used, '
            'copied, stored in several ways, continued in another process, '
            'by several threads, after interrupted and failed attempts; '
            'non-trivial = a product used again')
    real = ['parser', 'loader', 'data', 'results', 'plotting', 'report']
    stubs = ['camera (simulated device)', 'disk below open/read/stat',
             'thread scheduler', 'instants of asynchronous exceptions',
             'end of the process that made a product']
    shrink_lists = ('ops', 'camps')
    shrink_min = {'ops': 1, 'camps': 1}
    shrink_ints = dict(lab.CAMPAIGN_SHRINK)

    def setup(self):
        world.load()
        from matplotlib.figure import Figure
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        FigureCanvasAgg(Figure()).draw()

    def gen(self, rng, tier, i):
        camps = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            c = lab.gen_campaign(rng)
            c['n'] = min(c['n'], 8)
            camps.append({'camp': c,
                          'area': rng.choice([None, None, 25., 9.]),
                          'sat': rng.choice([None, None, None, -2])})
        ops = []
        heavy = rng.random() < .12
        for _ in range(rng.randint(4, 12)):
            k = rng.choice(['advance'] * 5 + ['copy'] * 5 +
                           ['interrupt', 'interrupt', 'disk', 'disk',
                            'threads', 'restart', 'live', 'use', 'use',
                            'parse'] +
                           (['plot', 'report'] if heavy else []))
            ops.append({'op': k, 'pick': rng.random(),
                        'stage': rng.choice(STAGES),
                        'camp': rng.randrange(2),
                        'how': rng.random(), 'at': rng.random(),
                        'names': [rng.choice(compare.NAMES)
                                  for _ in range(4)],
                        'n': rng.randint(2, 3),
                        'far': rng.random() < .4,
                        'exc': rng.choice(['KeyboardInterrupt',
                                           'MemoryError']),
                        'seed': rng.getrandbits(30)})
        return {'camps': camps, 'ops': ops, 'fresh': rng.random() < .5}

    # -- stages ---------------------------------------------------------------
    def step(self, stage, obj, camp, kw=None):
        """The product of the next stage."""
        if stage == 'images':
            return pipe.load(obj, **(kw or {})).data
        if stage == 'image data':
            return pipe.data(obj).data
        c = self.plan['camps'][camp]
        a = {}
        if c['area'] is not None:
            a['pixel_area'] = c['area']
        if c['sat'] is not None:
            a['index_u_ysat'] = len(obj['temporal']['u_p']) + c['sat']
        return pipe.results(obj, **a)

    def to_end(self, stage, obj, camp, kw=None):
        while stage != 'results':
            obj = self.step(stage, obj, camp, kw)
            kw = None
            stage = STAGES[STAGES.index(stage) + 1]
        return compare.snapshot(obj)

    def reference(self, c):
        w = {'images': pipe.parse(self.paths[c]).images}
        w['image data'] = self.step('images', copy.deepcopy(w['images']), c)
        w['data'] = self.step('image data', copy.deepcopy(w['image data']), c)
        r = self.step('data', copy.deepcopy(w['data']), c)
        s, err = attempt(compare.snapshot, r)
        if err is not None:
            return None
        w['results'] = s
        return w

    # -------------------------------------------------------------------------
    def execute(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.root = ctx.dir('disk')
        self.paths, self.pts, self.want, self.dirs = {}, {}, {}, {}
        self.pool = []
        for c, p in enumerate(plan['camps']):
            self.pts[c] = lab.record(p['camp'], ctx)
            self.dirs[c] = os.path.join(self.root, 'camp%d' % c)
            self.paths[c] = lab.store(self.pts[c], p['camp'], self.dirs[c])
        for c in self.paths:
            self.want[c] = kernel.isolated(self.reference, c) \
                if plan['fresh'] else self.reference(c)
            if self.want[c] is None:
                raise kernel.Skip('campaign without results')
            with ctx.must('parsing'):
                self.add('images', c, pipe.parse(self.paths[c]).images,
                         'parsed')
        used = set()
        for n, op in enumerate(plan['ops']):
            e = self.choose(op)
            ctx.log(n, op['op'], e.stage, e.camp, e.note)
            if id(e) in used:
                ctx.nontrivial = True
                ctx.probe('products used again')
            used.add(id(e))
            note = getattr(self, 'do_' + op['op'])(n, op, e)
            self.intact(n, op, note or op['op'])
        for e in self.pool:
            # what was kept can still be carried to the end
            if e.stage == 'results':
                self.read(e, compare.NAMES, 'at the end')
            else:
                with ctx.must('finishing a kept product'):
                    s = self.to_end(e.stage, e.obj, e.camp, e.kw)
                compare.require_same(
                    s, self.want[e.camp]['results'], 'reuse-differs',
                    'results of kept %s (%s)' % (e.stage, e.note))
        self.intact(len(plan['ops']), None, 'the end')
        ctx.probe('products', len(self.pool))

    def choose(self, op):
        c = op['camp'] % len(self.plan['camps'])
        want = 'results' if op['op'] in ('use', 'plot') else \
            'data' if op['op'] == 'report' else op['stage']
        for match in ((lambda e: e.stage == want and e.camp == c),
                      (lambda e: e.stage == want)):
            es = [e for e in self.pool if match(e)]
            if es:
                return es[int(op['pick'] * len(es))]
        # as near to that stage as there is
        es = [e for e in self.pool if e.camp == c] or self.pool
        e = max(es[-4:], key=lambda e: STAGES.index(e.stage))
        if op['op'] in ('use', 'plot', 'report'):
            while e.stage != want:
                if STAGES.index(e.stage) > STAGES.index(want):
                    e = [x for x in self.pool if x.stage == 'images'][0]
                e = self.advance(e)
        return e

    def add(self, stage, c, obj, note, kw=None):
        if stage != 'results':
            d = differs(obj, self.want[c][stage])
            if d and not kw:
                raise Violation('product-differs', '%s (%s): %s is not what '
                                'a fresh process gives' % (stage, note, d))
        e = Entry(stage, c, obj, note, kw)
        self.pool.append(e)
        return e

    def intact(self, n, op, what):
        names = op['names'][:2] if op else []
        for e in self.pool:
            if e.stage == 'results':
                self.read(e, names, 'after operation %d (%s)' % (n, what))
                continue
            d = unchanged(e.was, e.obj)
            if d:
                raise Violation('input-changed', '%s (%s): %s was changed by '
                                '%s' % (e.stage, e.note, d, what))

    def read(self, e, names, what):
        for x in names:
            with self.ctx.must('reading ' + x):
                v = compare.read(e.obj, x)
            w = self.want[e.camp]['results'][x]
            if not compare.same(v, w):
                raise Violation('result-differs', '%s of results (%s) %s is '
                                '%s, expected %s' % (
                                    x, e.note, what, compare.brief(v),
                                    compare.brief(w)))

    def advance(self, e):
        with self.ctx.must('stage after ' + e.stage):
            p = self.step(e.stage, e.obj, e.camp, e.kw)
        nxt = STAGES[STAGES.index(e.stage) + 1]
        return self.add(nxt, e.camp, p, 'from %s, %s' % (e.stage, e.note))

    # -- operations -----------------------------------------------------------
    def do_parse(self, n, op, e):
        c = op['camp'] % len(self.plan['camps'])
        with self.ctx.must('parsing'):
            self.add('images', c, pipe.parse(self.paths[c]).images,
                     'parsed again')

    def do_advance(self, n, op, e):
        if e.stage == 'results':
            return self.do_use(n, op, e)
        self.advance(e)

    def do_use(self, n, op, e):
        if e.stage != 'results':
            return None
        k = int(op['how'] * 4)
        with self.ctx.must('use of results'):
            if k == 0:
                e.obj.xml()
            elif k == 1:
                e.obj.xml(self.ctx.path('x%d.xml' % n))
            elif k == 2:
                e.obj.print_results()
            else:
                e.obj.results_by_section
        self.read(e, op['names'], 'in use')

    def do_plot(self, n, op, e):
        from matplotlib.figure import Figure
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        from emva1288.process.plotting import EVMA1288plots
        if not getattr(e.obj, 'id', False):
            e.obj.id = 1
        fig = Figure()
        FigureCanvasAgg(fig)
        with self.ctx.must('plot'):
            p = EVMA1288plots[op['seed'] % len(EVMA1288plots)](fig)
            p.plot(e.obj)
            p.rearrange()

    def do_report(self, n, op, e):
        from emva1288.process import plotting
        from emva1288.report.report import Report1288, info_op
        old = plotting.EVMA1288plots[:]
        plotting.EVMA1288plots[:] = [old[op['seed'] % len(old)]]
        try:
            with self.ctx.must('report'):
                r = Report1288(self.ctx.path('report%d' % n))
                r.add(info_op(), e.obj)
                r.latex()
        finally:
            plotting.EVMA1288plots[:] = old

    def do_copy(self, n, op, e):
        r = random.Random(op['seed'])
        ways = {'deep copy': copy.deepcopy, 'shallow copy': copy.copy,
                'pickle': lambda d: pickle.loads(
                    pickle.dumps(d, protocol=r.choice([2, 4, 5])))}
        if e.stage != 'results':
            ways.update({
                'shuffled': lambda d: convert(d, lambda a: a, r),
                'JSON': lambda d: from_json(json.loads(json.dumps(
                    to_json(d)))),
            })
        if e.stage in ('image data', 'data'):
            ways.update({
                'read-only arrays': lambda d: convert(d, frozen),
                'strided arrays': lambda d: convert(d, strided),
                'Fortran order': lambda d: convert(d, np.asfortranarray),
                'npz file': npz})
        if e.stage == 'image data':
            ways['unsigned arrays'] = lambda d: convert(d, unsigned)
            ways['plain numbers'] = lambda d: self.plain_numbers(d)
        if e.stage == 'images' and not e.kw:
            ways['relative paths'] = None
        how = sorted(ways)[int(op['how'] * len(ways))]
        self.ctx.probe('stored as ' + how)
        kw = dict(e.kw)
        if how == 'relative paths':
            base = self.dirs[e.camp]
            obj = {k: {t: {p: [os.path.relpath(f, base) for f in fs]
                           for p, fs in ps.items()}
                       for t, ps in ts.items()}
                   for k, ts in e.obj.items()}
            kw = {'path': base}
        elif e.stage == 'results':
            with self.ctx.must(how + ' of results'):
                obj = ways[how](e.obj)
        else:
            obj = ways[how](e.obj)
        self.add(e.stage, e.camp, obj, how + ' of ' + e.note, kw)
        return how

    def plain_numbers(self, d):
        if isinstance(d, dict):
            return {k: self.plain_numbers(v) for k, v in d.items()}
        if isinstance(d, np.generic):
            return d.item()
        return d

    def do_live(self, n, op, e):
        """The frames of a camera, processed without files."""
        from emva1288.process.routines import get_int_imgs
        c = op['camp'] % len(self.plan['camps'])
        seq = tuple if op['how'] < .5 else list
        out = {'temporal': {}, 'spatial': {}}
        kind = random.Random(op['seed']).choice(
            [None, None, np.int64, np.int32, np.uint32, np.int64])
        for p in self.pts[c]:
            # as the camera's driver delivers them
            imgs = seq(p.imgs if kind is None else
                       [i.astype(kind) for i in p.imgs])
            was = [i.copy() for i in imgs]
            with self.ctx.must('get_int_imgs'):
                r = get_int_imgs(imgs)
            if len(imgs) != len(was) or any(
                    a.dtype != b.dtype or not np.array_equal(a, b)
                    for a, b in zip(imgs, was)):
                raise Violation('input-changed', 'frames changed by '
                                'get_int_imgs')
            if p.kind == 'temporal':
                r = {'sum': np.sum(r['sum']), 'pvar': np.sum(r['pvar']),
                     'dmean': r['dmean']}
            out[p.kind].setdefault(float(p.texp), {})[float(p.photons)] = r
        img = self.pts[c][0].imgs[0]
        out['height'], out['width'] = img.shape
        self.ctx.probe('measured without files')
        self.add('image data', c, out, 'measured without files')

    def do_interrupt(self, n, op, e):
        if e.stage == 'results':
            fn, again = (lambda: [compare.read(e.obj, x)
                                  for x in op['names']]), None
            probe = copy.copy(e.obj)

            def dry():
                return [compare.read(probe, x) for x in op['names']]
        else:
            def fn():
                return self.step(e.stage, e.obj, e.camp, e.kw)
            dry = fn
        with AsyncInjector(self.ctx, None, MemoryError) as inj:
            dry()
        if not inj.n:
            return
        exc = {'KeyboardInterrupt': KeyboardInterrupt,
               'MemoryError': MemoryError}[op['exc']]
        try:
            with AsyncInjector(self.ctx, int(op['at'] * inj.n), exc) as inj:
                fn()
        except exc as x:
            kernel.clear_tb(x)
        what = 'a stage interrupted at %s' % (inj.fired,)
        self.intact(n, op, what)
        if e.stage != 'results':
            self.advance(e)
        return what

    def do_disk(self, n, op, e):
        """Loading fails, and is tried again."""
        if e.stage != 'images':
            e = [x for x in self.pool if x.stage == 'images'][0]
        disk = SimDisk(self.root, self.ctx, seed=op['seed'])
        with disk:
            self.step(e.stage, e.obj, e.camp, e.kw)
        faults = [{'cls': 'any', 'kind': 'EIO',
                   'op': int(op['at'] * max(1, disk.nops)), 'stays': False}]
        with SimDisk(self.root, self.ctx, faults, seed=op['seed']):
            p, err = attempt(self.step, e.stage, e.obj, e.camp, e.kw)
        self.intact(n, op, 'a failed stage')
        if err is None:
            self.add('image data', e.camp, p, 'loaded beside a disk error')
        else:
            self.ctx.probe('loading failed, tried again')
            self.advance(e)

    def do_restart(self, n, op, e):
        """The process ends; another one goes on with what was stored."""
        if e.stage == 'results':
            with self.ctx.must('pickling results'):
                raw = pickle.dumps(e.obj)
        else:
            raw = pickle.dumps(e.obj)
        self.ctx.fault('restart')
        s = kernel.isolated(self.second, e.stage, raw, e.camp, e.kw)
        if isinstance(s, str):
            raise Violation('restart-fails', 'going on with stored %s (%s) '
                            'in another process: %s' % (e.stage, e.note, s))
        compare.require_same(s, self.want[e.camp]['results'],
                             'restart-differs', 'results of stored %s (%s) '
                             'in another process' % (e.stage, e.note))

    def second(self, stage, raw, camp, kw):
        s, err = attempt(lambda: self.to_end(stage, pickle.loads(raw), camp,
                                             kw))
        return s if err is None else kernel.short(err)

    def do_threads(self, n, op, e):
        """Several threads go on with the same product, or with different
        ones."""
        s = Scheduler(self.ctx, op['seed'],
                      rate=random.Random(op['seed']).choice([.02, .1, .3]),
                      max_steps=3000000)
        r = random.Random(op['seed'] + 1)
        es = [e] + [e if r.random() < .6 else r.choice(self.pool)
                    for _ in range(op['n'] - 1)]
        for i, x in enumerate(es):
            if x.stage == 'results':
                names = [r.choice(compare.NAMES) for _ in range(4)]
                s.spawn('t%d' % i, lambda x=x, names=names: {
                    m: compare.plain(compare.read(x.obj, m)) for m in names})
            elif op['far']:
                s.spawn('t%d' % i, lambda x=x: self.to_end(
                    x.stage, x.obj, x.camp, x.kw))
            else:
                s.spawn('t%d' % i, lambda x=x: self.step(
                    x.stage, x.obj, x.camp, x.kw))
        for x, t in zip(es, s.run()):
            if t.error is not None:
                raise Violation('thread-failed', '%s on %s (%s): %s' % (
                    t.name, x.stage, x.note, kernel.short(t.error)))
            if x.stage == 'results' or op['far']:
                for m, v in t.result.items():
                    if not compare.same(v, self.want[x.camp]['results'][m]):
                        raise Violation('thread-differs', '%s from %s (%s) '
                                        'is %s' % (m, x.stage, x.note,
                                                   compare.brief(v)))
            else:
                self.add(STAGES[STAGES.index(x.stage) + 1], x.camp, t.result,
                         'made by a thread from %s' % x.note)


CHECK = C27()
