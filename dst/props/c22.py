"""C22 A supplied image loader delivers every listed frame exactly once."""
import functools
import os
import random
import threading

import numpy as np

from .. import compare, kernel, lab, pipe, ref, world
from ..check import Check
from ..kernel import Skip, Violation, attempt
from ..sched import Scheduler
from ..simdisk import SimDisk

DTYPES = ['u1', 'u2', '>u2', 'u4', 'i2', 'i4', '>i4', 'i8', 'u8', 'f4', 'f8']


class Unhelpful:
    """An argument that can be neither hashed, compared, copied nor
    pickled."""
    __hash__ = None

    def __eq__(self, other):
        raise TypeError('not comparable')

    def __bool__(self):
        raise TypeError('no truth value')

    def __copy__(self):
        raise TypeError('not copyable')

    def __deepcopy__(self, memo):
        raise TypeError('not copyable')

    def __reduce_ex__(self, p):
        raise TypeError('not picklable')


class LoaderFault(Exception):
    dst_injected = True


class Station:
    """The user's side: raw files and the function that reads them."""

    def __init__(self, u, frames, args, kwargs):
        self.u = u
        self.frames = frames          # real path -> image
        self.args, self.kwargs = args, kwargs
        self.calls = []
        self.given = []               # (array, private copy)
        self.fail_at = None
        self.error = None
        self.nested = None
        self.mutex = threading.RLock()

    def load(self, filename, *args, **kwargs):
        if len(args) != len(self.args) or any(
                a is not b for a, b in zip(args, self.args)):
            raise Violation('arguments', 'the loader got the arguments %d '
                            'instead of the %d given' % (len(args),
                                                         len(self.args)))
        if set(kwargs) != set(self.kwargs) or any(
                kwargs[k] is not self.kwargs[k] for k in kwargs):
            raise Violation('arguments', 'the loader got the keywords %s '
                            'instead of %s' % (sorted(kwargs),
                                               sorted(self.kwargs)))
        if self.u['consume']:
            kwargs.clear()
        n = len(self.calls)
        f = os.path.realpath(filename)
        self.calls.append(f)
        if f not in self.frames:
            raise Violation('wrong-file', 'the loader is asked for %s'
                            % filename)
        if self.fail_at == n:
            self.error = self.make_error()
            raise self.error
        if self.nested is not None and n == self.nested[0]:
            self.nested[1]()
        a = self.represent(f)
        self.given.append((a, np.array(a, copy=True)))
        return a

    def make_error(self):
        e = {'os': OSError(5, 'camera unplugged'),
             'value': ValueError('not an image'),
             'key': KeyError('frame'),
             'mem': MemoryError('frame'),
             'own': LoaderFault('grabber')}[self.u['error']]
        e.dst_injected = True
        return e

    def represent(self, f):
        u = self.u
        img = self.frames[f]
        dt = np.dtype(u['dtype'])
        if u['mixed']:
            dt = np.dtype(DTYPES[kernel.derive(u['seed'], len(self.calls))
                                 % len(DTYPES)])
        if dt.kind in 'ui' and int(img.max()) > np.iinfo(dt).max:
            dt = np.dtype('i8')
        a = np.array(img, dtype=dt)
        how = u['layout']
        if how == 'F':
            a = np.asfortranarray(a)
        elif how == 'view':
            big = np.zeros((a.shape[0] * 2 + 1, a.shape[1] * 3 + 2), dt)
            big[1::2, 2::3] = a
            a = big[1::2, 2::3]
        elif how == 'flip':
            a = np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
        elif how == 'readonly':
            a.setflags(write=False)
        elif how == 'memmap':
            m = np.memmap(f, dtype=dt, mode='c', shape=a.shape)
            m[...] = a
            a = m
        return a


class C22(Check):
    id = 'C22'
    runs = {'quick': 900, 'thorough': 30000}
    rule = ('one run = one to three campaigns read through a supplied loader '
            'that checks its arguments, counts its calls and hands out frames '
            'in any representation; with failing calls and clean retries, '
            'loaders that process another campaign in the middle, and '
            'campaigns loaded by line-switched threads sharing one loader; '
            'non-trivial = a loader failed, nested or was shared by threads')
    real = ['parser', 'loader', 'data', 'results', 'routines']
    stubs = ['image loader and its files (simulated station)',
             'camera (simulated device)', 'thread scheduler']
    assumptions = ['every listed file is listed once',
                   'a loader returns a new array for every frame']
    shrink_lists = ('faults',)
    shrink_ints = dict(lab.CAMPAIGN_SHRINK)

    def setup(self):
        world.load()

    def gen(self, rng, tier, i):
        p = lab.gen_campaign(rng)
        p['n'] = min(p['n'], 8)
        return {'camp': p,
                'user': {'dtype': rng.choice(DTYPES),
                         'mixed': rng.random() < .15,
                         'layout': rng.choice(['C', 'F', 'view', 'flip',
                                               'readonly', 'memmap']),
                         'consume': rng.random() < .3,
                         'error': rng.choice(['os', 'value', 'key', 'mem',
                                              'own']),
                         'seed': rng.getrandbits(30)},
                'callable': rng.choice(['method', 'function', 'partial',
                                        'object', 'lambda']),
                'args': rng.choice(['none', 'list', 'tuple', 'odd']),
                'kwargs': rng.choice(['none', 'some', 'odd']),
                'where': rng.choice(['parser', 'parser', 'loader', 'both']),
                'names': rng.choice(['flat', 'dirs', 'same', 'space',
                                     'case']),
                'order': rng.choice([None, rng.getrandbits(30)]),
                'faults': [rng.random() for _ in range(rng.choice(
                    [0, 0, 1, 1, 2]))],
                'nested': rng.choice([None, None, rng.random()]),
                'threads': rng.choice([0, 0, 0, 2, 3]),
                'rate': rng.choice([.02, .1]),
                'seed': rng.getrandbits(30)}

    # ------------------------------------------------------------------
    def name(self, pts, p, how, root):
        """Raw files, listed in the descriptor below images/."""
        n = 0
        for pt in pts:
            pt.names = []
            for _ in pt.imgs:
                if how == 'dirs':
                    s = 'lev%d/f%d.raw' % (n % 3, n)
                elif how == 'same':
                    s = 'n%d/frame.raw' % n
                elif how == 'case':
                    s = ('A%d.RAW' if n % 2 else 'a%d.raw') % (n // 2)
                else:
                    s = 'f%d.raw' % n
                pt.names.append(s)
                n += 1

    def campaign(self, p, root, how):
        pts = lab.record(p, self.ctx)
        self.name(pts, p, how, root)
        frames = {}
        for pt in pts:
            for n, img in zip(pt.names, pt.imgs):
                f = os.path.join(root, 'images', n)
                os.makedirs(os.path.dirname(f), exist_ok=True)
                with open(f, 'wb') as h:
                    # room for the widest representation
                    h.write(b'\0' * img.size * 8)
                frames[os.path.realpath(f)] = img
        path = os.path.join(root, 'campaign.txt')
        with open(path, 'w') as h:
            h.write(lab.descriptor(pts, p, sep='/').replace(
                'images\\', 'images/'))
        d = ref.data_from_points([(x.kind, x.texp, x.photons, x.imgs)
                                  for x in pts])
        return path, frames, d

    def call(self, st):
        how = self.plan['callable']
        if how == 'method':
            return st.load
        if how == 'partial':
            return functools.partial(st.load)
        if how == 'lambda':
            return lambda f, *a, **k: st.load(f, *a, **k)
        if how == 'object':
            class Reader:
                __slots__ = ()
                __hash__ = None

                def __call__(self, f, *a, **k):
                    return st.load(f, *a, **k)
            return Reader()

        def function(f, *a, **k):
            return st.load(f, *a, **k)
        return function

    def images(self, path, order=None):
        from emva1288.process.parser import ParseEmvaDescriptorFile
        where = self.plan['where']
        base = os.path.dirname(path)
        if where == 'parser':
            im, lp = ParseEmvaDescriptorFile(path).images, None
        elif where == 'loader':
            im, lp = ParseEmvaDescriptorFile(path, path='').images, base
        else:
            im, lp = ParseEmvaDescriptorFile(
                path, path='.').images, base + os.sep
        if order is not None:
            r = random.Random(order)
            out = {}
            for kind in sorted(im, key=lambda _: r.random()):
                out[kind] = {}
                for t in sorted(im[kind], key=lambda _: r.random()):
                    ph = list(im[kind][t].items())
                    r.shuffle(ph)
                    out[kind][t] = dict(ph)
            im = out
        return im, lp

    def execute(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        p = plan['camp']
        try:
            self.main(plan, ctx, p)
        except (ref.Ambiguous, ref.Undefined) as e:
            raise Skip(str(e))

    def main(self, plan, ctx, p):
        root = ctx.dir('disk')
        names = plan['names']
        camps = [self.campaign(p, os.path.join(root, 'c0 x' if names ==
                                               'space' else 'c0'),
                               'flat' if names == 'space' else names)]
        for k in range(1, max(plan['threads'], 2 if plan['nested'] is not
                              None else 1)):
            # the same plan of exposures and light, other frames
            camps.append(self.campaign(dict(p, seed=p['seed'] + k),
                                       os.path.join(root, 'c%d' % k), names))
        args = {'none': [], 'list': [3, 'x'], 'tuple': (0, None),
                'odd': [Unhelpful(), np.arange(4)]}[plan['args']]
        kwargs = {'none': {}, 'some': {'step': 1, 'mode': None},
                  'odd': {'dev': Unhelpful(), 'cal': np.ones((2, 2))}}[
                      plan['kwargs']]
        keep_args, keep_kw = list(args), dict(kwargs)
        frames = {}
        for _, f, _ in camps:
            frames.update(f)

        def station():
            return Station(plan['user'], frames, keep_args, keep_kw)

        def load(st, n, order=None):
            from emva1288.process.loader import LoadImageData
            path, own, _ = camps[n]
            im, lp = self.images(path, order)
            before = flat(im)
            kw = {} if lp is None else {'path': lp}
            if args or plan['args'] != 'none':
                kw['fload_args'] = args
            if kwargs:
                kw['fload_kwargs'] = kwargs
            out = LoadImageData(im, fload=self.call(st), **kw)
            if flat(im) != before:
                raise Violation('input-changed', 'loading changed the '
                                'dictionary of the images')
            return out

        def judge(st, n, loaded, what):
            own = camps[n][1]
            mine = [c for c in st.calls if c in own]
            if sorted(mine) != sorted(own):
                more = sorted(set(c for c in mine if mine.count(c) > 1))
                raise Violation('calls', '%s: %d listed frames, %d calls of '
                                'the loader; missing %s, repeated %s' % (
                                    what, len(own), len(mine),
                                    sorted(set(own) - set(mine))[:3],
                                    more[:3]))
            held = flat_sums(loaded.data)
            dat = pipe.data(loaded.data).data
            compare.check_data(dat, camps[n][2], 'wrong-result')
            if flat_sums(loaded.data) != held:
                raise Violation('input-changed', 'Data1288 changed the '
                                'loaded sums')
            same = kernel.isolated(plain_values, dat)
            compare.require_same(compare.snapshot(pipe.results(dat)), same,
                                 'wrong-result', what)

        def intact(st, what):
            if len(args) != len(keep_args) or \
                    any(a is not b for a, b in zip(args, keep_args)) or \
                    set(kwargs) != set(keep_kw):
                raise Violation('input-changed', '%s: the arguments of the '
                                'loader were changed' % what)
            for a, b in st.given:
                if not np.array_equal(a, b):
                    raise Violation('input-changed', '%s: a frame handed out '
                                    'by the loader was changed' % what)

        order = plan['order']
        nframes = len(camps[0][1])
        for k, at in enumerate(plan['faults']):
            st = station()
            st.fail_at = min(int(at * nframes), nframes - 1)
            r, err = attempt(load, st, 0, order)
            ctx.fault('loader raises ' + plan['user']['error'])
            ctx.log('failing', k, st.fail_at, type(err).__name__)
            if err is None:
                raise Violation('swallowed', 'the loader raised %r, loading '
                                'returned' % st.error)
            intact(st, 'after a failure')
        st = station()
        inner = []
        if plan['nested'] is not None:
            ctx.fault('loader processes another campaign')

            def nested():
                s2 = station()
                with ctx.must('nested campaign'):
                    inner.append((s2, load(s2, 1)))
            st.nested = (int(plan['nested'] * nframes), nested)
        with ctx.must('loading'):
            loaded = load(st, 0, order)
        intact(st, 'loading')
        judge(st, 0, loaded, 'campaign')
        for s2, l2 in inner:
            judge(s2, 1, l2, 'nested campaign')
            intact(s2, 'nested campaign')
        ctx.log('loaded', len(st.calls), [os.path.basename(c)
                                          for c in st.calls])
        if plan['threads']:
            ctx.fault('threads share a loader')
            st = station()
            s = Scheduler(ctx, plan['seed'], rate=plan['rate'],
                          max_steps=2000000)
            for n in range(plan['threads']):
                s.spawn('t%d' % n, functools.partial(load, st, n))
            for n, t in enumerate(s.run()):
                if t.error is not None:
                    if isinstance(t.error, Violation):
                        raise t.error
                    raise Violation('thread-fails', kernel.short(t.error))
            intact(st, 'threads')
            for n, t in enumerate(s.tasks):
                judge(st, n, t.result, 'thread %d' % n)


def flat(im):
    return [(kind, [(t, [(p, list(f)) for p, f in v.items()])
                    for t, v in im[kind].items()]) for kind in im]


def flat_sums(d, at=()):
    """Every number in the loaded data, whatever its structure."""
    if isinstance(d, dict):
        return [x for k in sorted(d, key=str) for x in flat_sums(
            d[k], at + (k,))]
    if isinstance(d, (list, tuple)):
        return [x for n, v in enumerate(d) for x in flat_sums(v, at + (n,))]
    if isinstance(d, (int, float, np.number, np.ndarray)):
        return [(at, np.asarray(d).tobytes())]
    return []


def plain_values(dat):
    return compare.snapshot(pipe.results(dat))


CHECK = C22()
