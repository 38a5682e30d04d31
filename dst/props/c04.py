"""C04 A read fault is an error or harmless, never a wrong result."""
import os
import random

import numpy as np

from .. import compare, kernel, lab, pipe, ref, world
from ..check import Check
from ..kernel import Skip, Violation, attempt
from ..simdisk import SimDisk, real_open


class C04(Check):
    id = 'C04'
    runs = {'quick': 900, 'thorough': 30000}
    rule = ('one run = one campaign, a fault-free baseline, one to four '
            'attempts with injected read faults and a clean attempt at the '
            'end, all in one process; non-trivial = a fault fired')
    real = ['parser', 'loader', 'data', 'results', 'routines', 'facade',
            'PIL decoding, standard library buffering']
    stubs = ['raw file I/O (simulated disk)', 'camera (simulated device)']
    assumptions = ['a bit flip inside an image that its format cannot detect '
                   'is outside the property']
    shrink_lists = ('attempts', 'faults')
    shrink_min = {'attempts': 0}
    shrink_ints = dict(lab.CAMPAIGN_SHRINK)

    def setup(self):
        world.load()

    def gen(self, rng, tier, i):
        p = lab.gen_campaign(rng)
        p['n'] = rng.randint(5, 8)
        at = []
        for _ in range(rng.randint(1, 4)):
            kind = rng.choice(['disk', 'disk', 'disk', 'file', 'file',
                               'fload', 'short', 'descr'])
            a = {'kind': kind, 'via': rng.choice(['steps', 'facade'])}
            if kind == 'disk':
                a['faults'] = [
                    {'cls': rng.choice(['r', 'r', 'open', 'any']),
                     'at': rng.random(),
                     'kind': rng.choice(['EIO', 'EIO', 'EACCES', 'ENOENT',
                                         'EMFILE', 'vanish', 'ESTALE'])}
                    for _ in range(rng.choice([1, 1, 1, 2]))]
            elif kind == 'file':
                a['what'] = rng.choice(['missing', 'truncate', 'truncate',
                                        'empty', 'garbage', 'resize',
                                        'resize_block', 'transpose', 'rows',
                                        'directory', 'descr_missing'])
                a['at'] = rng.random()
                a['frac'] = rng.random()
            elif kind == 'descr':
                # the descriptor comes in parts, then the disk fails
                a['faults'] = [{'cls': 'r', 'op': rng.randint(2, 5),
                                'kind': rng.choice(['EIO', 'EIO', 'ESTALE',
                                                    'EAGAIN'])}]
            elif kind == 'fload':
                a['via'] = 'steps'
                a['at'] = rng.random()
                a['what'] = rng.choice(['raise', 'none', 'resize', 'oserror'])
            at.append(a)
        return {'camp': p, 'attempts': at, 'seed': rng.getrandbits(30),
                'fresh': rng.random() < .5,
                'blocks': rng.choice([None, None, 'spatial first',
                                      'shuffled']),
                'short': rng.choice([0., 0., .3, .9])}

    def execute(self, plan, ctx):
        p = plan['camp']
        pts = lab.record(p, ctx)
        try:
            d, want = compare.reference(pts)
        except (ref.Ambiguous, ref.Undefined) as e:
            raise Skip(str(e))
        if plan['blocks'] == 'shuffled':
            random.Random(plan['seed']).shuffle(pts)
        elif plan['blocks']:
            # the series can end anywhere
            pts.sort(key=lambda x: (x.kind, x.texp, x.photons))
        out = ctx.dir('camp')
        path = lab.store(pts, p, out)
        names = [(pt, k) for pt in pts for k in range(len(pt.imgs))]

        # fault-free baseline
        def baseline():
            disk = SimDisk(out, ctx, seed=plan['seed'])
            with disk, ctx.must('fault-free processing'):
                dat, got0 = self.process('steps', path)
            return dat, got0, dict(disk.count)
        # before the attempts in this process, or in another one, so that
        # the attempts are the first the code under test sees
        dat, got0, counts = kernel.isolated(baseline) \
            if plan['fresh'] else baseline()
        compare.check_data(dat, d, 'baseline')
        ctx.log('baseline', counts)

        for n, a in enumerate(plan['attempts']):
            faults = []
            undo = None
            kw = {}
            if a['kind'] == 'disk':
                faults = [{'cls': f['cls'], 'kind': f['kind'],
                           'op': int(f['at'] * counts[f['cls']])}
                          for f in a['faults']]
            elif a['kind'] == 'descr':
                faults = a['faults']
            elif a['kind'] == 'file':
                undo = self.damage(a, pts, names, p, out, path, ctx)
            elif a['kind'] == 'fload':
                kw = {'fload': self.bad_fload(a, len(names), ctx)}
            short = plan['short'] or (.5 if a['kind'] == 'short' else 0.)
            disk = SimDisk(out, ctx, faults, seed=plan['seed'] + n,
                           short_read=short, aligned='.txt'
                           if a['kind'] == 'descr' else None)
            with disk:
                r, err = attempt(self.process, a['via'], path, **kw)
            if undo:
                undo()
            self.restore(disk, pts, p, out, path)
            hard = bool(disk.fired) or a['kind'] in ('file', 'fload')
            ctx.log('attempt', n, a['kind'], disk.fired,
                    type(err).__name__ if err else 'ok')
            if err is not None:
                if not hard:
                    raise Violation('clean-read-fails', 'processing failed '
                                    'without a fault: %s' % kernel.short(err))
                ctx.probe('attempt rejected')
                continue
            ctx.probe('attempt delivered results')
            if hard:
                ctx.probe('delivered in spite of a fault')
            self.judge(r, d, got0, 'after %s %s' % (a, disk.fired), ctx)

        # the fault is gone
        disk = SimDisk(out, ctx, seed=plan['seed'] + 99,
                       short_read=plan['short'])
        with disk:
            r, err = attempt(self.process, 'steps', path)
        if err is not None:
            raise Violation('retry-fails', 'clean retry failed: %s'
                            % kernel.short(err))
        self.judge(r, d, got0, 'clean retry', ctx, 'retry')

    # ------------------------------------------------------------------
    def process(self, via, path, **kw):
        if via == 'facade':
            from emva1288.process import Emva1288
            e = Emva1288(path)
            from lxml import etree
            root = etree.fromstring(e.xml())
            return 'xml', {el.tag: el.findtext('value') for s in root
                           for el in s if el.find('value') is not None}
        dat = pipe.data(pipe.load(pipe.parse(path).images, **kw).data).data
        return dat, compare.snapshot(pipe.results(dat))

    def judge(self, r, d, got0, what, ctx, kind='wrong-result'):
        dat, got = r
        if dat == 'xml':
            for k, v in got.items():
                if k in got0 and not isinstance(got0[k], dict):
                    w = got0[k]
                    v = None if v in ('None', None) else float(v)
                    if not compare.same(v, w, 1e-9):
                        raise Violation(kind, '%s: %s = %r instead of %r'
                                        % (what, k, v, w))
            return
        compare.check_data(dat, d, kind)
        compare.require_same(got, got0, kind, what)

    def damage(self, a, pts, names, p, out, path, ctx):
        pt, k = names[int(a['at'] * len(names))]
        f = os.path.join(out, 'images', pt.names[k])
        what = a['what']
        ctx.fault('image ' + what)
        img = pt.imgs[k]
        if what == 'descr_missing':
            os.rename(path, path + '.away')
            return lambda: os.rename(path + '.away', path)
        raw = real_open(f, 'rb').read()

        def undo():
            if os.path.isdir(f):
                os.rmdir(f)
            with real_open(f, 'wb') as h:
                h.write(raw)
        if what == 'missing':
            os.remove(f)
        elif what == 'directory':
            os.remove(f)
            os.mkdir(f)
        elif what == 'truncate':
            with real_open(f, 'wb') as h:
                h.write(raw[:int(a['frac'] * len(raw))])
        elif what == 'empty':
            real_open(f, 'wb').close()
        elif what == 'garbage':
            with real_open(f, 'wb') as h:
                h.write(b'\x93garbage\n' * (1 + int(a['frac'] * 100)))
        elif what == 'transpose' and img.shape[0] != img.shape[1]:
            lab.write_image(np.ascontiguousarray(img.T), f)
        elif what == 'rows':
            lab.write_image(np.concatenate([img, img[:1]]), f)
        elif what == 'resize_block':
            fs = [os.path.join(out, 'images', n) for n in pt.names]
            raws = [real_open(x, 'rb').read() for x in fs]
            for x, im in zip(fs, pt.imgs):
                lab.write_image(np.ascontiguousarray(im[:-1, :-1]), x)

            def undo_all():
                for x, b in zip(fs, raws):
                    with real_open(x, 'wb') as h:
                        h.write(b)
            return undo_all
        else:
            lab.write_image(np.ascontiguousarray(img[:, :-1]), f)
        return undo

    def restore(self, disk, pts, p, out, path):
        for kind, _op, rel in disk.fired:
            if kind != 'vanish':
                continue
            for pt in pts:
                for n, im in zip(pt.names, pt.imgs):
                    f = os.path.join(out, 'images', n)
                    if not os.path.exists(f):
                        lab.write_image(im, f)
            if not os.path.exists(path):
                with real_open(path, 'w', newline='') as h:
                    h.write(lab.descriptor(pts, p))

    def bad_fload(self, a, total, ctx):
        from PIL import Image
        state = {'n': 0}
        at = int(a['at'] * total)

        def fload(fname):
            n = state['n']
            state['n'] += 1
            img = np.asarray(Image.open(fname))
            if n == at:
                ctx.fault('fload ' + a['what'])
                if a['what'] == 'raise':
                    raise RuntimeError('cannot decode')
                if a['what'] == 'oserror':
                    raise OSError(5, 'injected')
                if a['what'] == 'none':
                    return None
                return img[:-1]
            return img
        return fload


CHECK = C04()
