"""C18 Processing and generating need only a bounded number of open files."""
import gc
import os
import resource

from .. import camgen, compare, kernel, lab, pipe, rep, world
from ..check import Check
from ..kernel import Violation, attempt
from ..simdisk import SimDisk

BOUND = 12


def fds():
    return set(os.listdir('/proc/self/fd'))


def targets(names):
    out = []
    for n in sorted(names):
        try:
            out.append(os.path.basename(os.readlink('/proc/self/fd/' + n)))
        except OSError:
            pass
    return out


class Counting(SimDisk):
    """Also counts the real descriptors of the process at every operation."""

    def start(self):
        self.base = len(os.listdir('/proc/self/fd'))
        self.peak = 0

    def _op(self, kind, path, size, raw=None):
        if kind.startswith('open') or kind.startswith('close') or \
                self.nops % 7 == 0:
            n = len(os.listdir('/proc/self/fd')) - self.base
            self.peak = max(self.peak, n, len(self.handles))
        return super()._op(kind, path, size, raw)


class C18(Check):
    id = 'C18'
    runs = {'quick': 400, 'thorough': 25000}
    rule = ('one run = two to six jobs (process, generate, report, XML, '
            'comparison) of very different sizes, some of them failing by '
            'damaged campaigns or disk errors, with a file table that has '
            'room for %d more files; the open files are counted at every '
            'I/O operation and afterwards; non-trivial = a job failed'
            % BOUND)
    real = ['parser', 'loader', 'data', 'results', 'XML', 'report', 'dataset '
            'generator', 'PIL', 'file table of the process']
    stubs = ['raw file I/O (simulated disk with a limit of open files)',
             'plots of the report (light ones)', 'camera (simulated device) '
             'of processed campaigns']
    shrink_lists = ('jobs',)
    shrink_min = {'jobs': 1}
    shrink_ints = {}

    def setup(self):
        world.load()
        from . import c13
        c13.C13.setup(self)

    def gen(self, rng, tier, i):
        jobs = []
        for _ in range(rng.randint(2, 6)):
            k = rng.choice(['process', 'process', 'process', 'process',
                            'generate', 'generate', 'report', 'xml',
                            'compare', 'facade'])
            j = {'kind': k, 'fail': rng.choice(
                [None, None, None, 'missing', 'garbage', 'resize', 'trunc',
                 'io', 'io', 'descr', 'order']),
                'at': rng.choice([rng.random(), rng.random(), .999]),
                'err': rng.choice(['EIO', 'ENOSPC', 'EACCES', 'EMFILE']),
                'big': rng.random() < .6, 'seed': rng.getrandbits(30)}
            if k in ('process', 'facade', 'report', 'xml'):
                c = lab.gen_campaign(rng, multi=rng.random() < .7)
                c['w'], c['h'] = 10, 10
                if j['big']:
                    c['n'] = rng.randint(9, 14)
                    c['L'] = rng.randint(14, 40)
                    c['Ld'] = rng.choice([c['L'], rng.randint(14, 40)])
                c['fmt'] = rng.choice(['png', 'png', 'tiff', 'tiff', 'bmp']) \
                    if c['bits'] == 8 else rng.choice(['png', 'tiff'])
                c['enc'] = None
                j['camp'] = c
            elif k == 'generate':
                ds = camgen.gen_dataset(rng)
                ds['cam'].update(width=6, height=6)
                if j['big']:
                    ds.update(steps=rng.randint(6, 12),
                              L=rng.randint(8, 25))
                j['ds'] = ds
                j['temp'] = rng.random() < .4
            jobs.append(j)
        return {'jobs': jobs, 'short': rng.choice([0., 0., .3])}

    def execute(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.root = ctx.dir('disk')
        self.data = None
        lim = resource.getrlimit(resource.RLIMIT_NOFILE)
        for n, j in enumerate(plan['jobs']):
            job = self.prepare(n, j)
            if job is None:
                continue
            used = max(int(x) for x in fds()) + 1
            resource.setrlimit(resource.RLIMIT_NOFILE,
                               (min(used + BOUND + 3, lim[0]), lim[1]))
            try:
                self.run_job(n, j, job)
            finally:
                resource.setrlimit(resource.RLIMIT_NOFILE, lim)

    def prepare(self, n, j):
        """A callable; campaigns are stored before the table is limited."""
        k = j['kind']
        out = os.path.join(self.root, 'j%d' % n)
        if k == 'generate':
            return lambda: camgen.generate(j['ds'],
                                           None if j['temp'] else out)
        if k == 'compare':
            from emva1288.process import routines
            os.makedirs(out)
            from . import c16
            p = []
            for m in range(2):
                p.append(os.path.join(out, '%d.xml' % m))
                with open(p[-1], 'w') as f:
                    t = c16.store(c16.base(j['seed'] + m), m)
                    f.write(t[:int(len(t) * j['at'])] if j['fail'] == 'trunc'
                            else t)
            if j['fail'] not in ('io', 'trunc'):
                j['fail'] = None

            def many():
                for _ in range(40 if j['big'] else 2):
                    routines.compare_xml(p[0], p[1],
                                         os.path.join(out, 'o.txt'))
            return many
        pts = lab.record(j['camp'], self.ctx)
        path = lab.store(pts, j['camp'], out)
        if k in ('process', 'facade'):
            self.damage(j, pts, out, path)
            if k == 'facade':
                from emva1288.process import Emva1288

                def whole():
                    e = Emva1288(path)
                    return e, e.xml(os.path.join(out, 'r.xml'))
                return whole

            def steps():
                # a user may keep every object of the pipeline
                parsed = pipe.parse(path)
                imgs = pipe.load(parsed.images)
                dat = pipe.data(imgs.data)
                r = pipe.results(dat.data)
                return parsed, imgs, dat, r, compare.snapshot(r)
            return steps
        with self.ctx.must('processing'):
            d = pipe.process(path)
            res = pipe.results(d)
            compare.snapshot(res)
        if j['fail'] not in ('io', None):
            j['fail'] = None
        if k == 'xml':
            def write():
                for m in range(30 if j['big'] else 1):
                    res.xml(os.path.join(out, 'r%d.xml' % m))
            return write

        def report():
            from emva1288.report.report import Report1288, info_op
            with rep.StandIns():
                r = Report1288(os.path.join(out, 'rep'))
                for m in range(3 if j['big'] else 1):
                    r.add(info_op(), d)
                r.latex()
            return r
        return report

    def damage(self, j, pts, out, path):
        f = j['fail']
        names = [n for pt in pts for n in pt.names]
        img = os.path.join(out, 'images', names[min(
            int(j['at'] * len(names)), len(names) - 1)])
        if f in (None, 'io'):
            return
        self.ctx.fault('campaign: ' + f)
        if f == 'missing':
            os.remove(img)
        elif f == 'garbage':
            with open(img, 'wb') as h:
                h.write(b'no image')
        elif f == 'trunc':
            with open(img, 'r+b') as h:
                h.truncate(os.path.getsize(img) * 2 // 3)
        elif f == 'resize':
            lab.write_image(pts[0].imgs[0][:-1], img)
        elif f == 'descr':
            with open(path, 'a') as h:
                h.write('b 12.0\n')
        elif f == 'order':
            with open(path, 'a') as h:
                h.write('i images\\none.png\n')

    def run_job(self, n, j, job):
        ctx = self.ctx
        faults = []
        if j['fail'] == 'io':
            # about one operation per file and kind
            est = 30 if not j['big'] else 250
            faults = [{'cls': 'any', 'kind': j['err'],
                       'op': int(j['at'] * est), 'stays': False}]
        disk = Counting(self.root, ctx, faults, seed=j['seed'],
                        max_open=BOUND, short_read=self.plan['short'],
                        short_write=self.plan['short'])
        gc.collect()
        before = fds()
        what = 'job %d (%s, %s)' % (n, j['kind'],
                                    'large' if j['big'] else 'small')
        with disk:
            disk.start()
            r, err = attempt(job)
            # a result may be kept, the files it came from not
            left = len(disk.handles)
            gc.collect()
            left = min(left, len(disk.handles))
            names = sorted(os.path.basename(str(getattr(h, '_path', h)))
                           for h in disk.handles.values())
        real = fds() - before
        ctx.log(what, disk.peak, err is None, disk.count)
        ctx.probe('peak %d' % disk.peak)
        emfile = [f for f in disk.fired if f[0] == 'EMFILE' and
                  f[1] == 'open']
        if disk.peak > BOUND or emfile:
            raise Violation('too-many', '%s has %d files open at the same '
                            'time' % (what, disk.peak))
        if err is not None and not disk.fired and j['fail'] is None:
            raise Violation('fails', '%s fails with room for %d open files: '
                            '%s' % (what, BOUND, kernel.short(err)))
        if left or real:
            raise Violation('left-open', '%s leaves open after %s: %s %s' % (
                what, 'success' if err is None else 'failure', names[:4],
                targets(real)[:4]))
        if err is not None:
            ctx.nontrivial = True
            ctx.probe('job failed')
        del r


CHECK = C18()
