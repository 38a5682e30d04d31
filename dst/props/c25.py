"""C25 Every published form states the same values."""
import contextlib
import io
import os
import random
import re

from .. import compare, forms, kernel, lab, pipe, rep, world
from ..check import Check
from ..kernel import Violation
from ..sched import AsyncInjector, Scheduler
from ..simdisk import SimDisk

KINDS = ['results', 'sections', 'xml', 'file', 'file', 'print', 'report',
         'report', 'facade']
BASIC = [('vendor', 'Vendor'), ('model', 'Model'), ('data_type', 'Data type'),
         ('sensor_type', 'Sensor type'), ('sensor_diagonal', 'Diagonal'),
         ('lens_category', 'Lens category'),
         ('maximum_readout_rate', 'Maximum readout rate'),
         ('dark_current_compensation', 'Dark current compensation'),
         ('interface_type', 'Interface type')]
SENSOR = {'CCD': [('readout_type', 'Readout type'),
                  ('transfer_type', 'Transfer type')],
          'CMOS': [('shutter_type', 'Shutter type'),
                   ('overlap_capabilities', 'Overlap capabilities')],
          None: []}
SETUP = ['Light source', 'Light source non uniformity',
         'Irradiation calibration accuracy', 'Irradiation measurement error',
         'Standard version']


class C25(Check):
    id = 'C25'
    runs = {'quick': 700, 'thorough': 25000}
    rule = ('one run = one or two campaigns, the values of the attributes of '
            'a results object in a process of its own, then a history of '
            'published forms (tables, XML text and files, printed text, '
            'reports, the facade), some failing on the disk, interrupted or '
            'made by threads; each is read back with parsers of the '
            'simulator and has to state those values; non-trivial = a fault, '
            'an interruption or a thread switch')
    real = ['results', 'process routines', 'XML output', 'report', 'facade',
            'one real plot class per run']
    stubs = ['the other plot classes (light ones of the same names)',
             'raw file I/O (simulated disk)', 'camera (simulated device)',
             'thread scheduler']
    shrink_lists = ('ops', 'camps')
    shrink_min = {'ops': 1, 'camps': 1}
    shrink_ints = dict(lab.CAMPAIGN_SHRINK)

    def setup(self):
        from . import c13
        c13.C13.setup(self)

    def gen(self, rng, tier, i):
        camps = []
        for _ in range(rng.randint(1, 2)):
            c = lab.gen_campaign(rng)
            c['n'] = min(c['n'], 8)
            if rng.random() < .15:
                # a device without any spread: zeros, infinities, nothing
                c.update(dsnu=0., prnu=0., rowfpn=0., colfpn=0.)
                if rng.random() < .5:
                    c['read'] = .3
            camps.append({'camp': c, 'area': rng.choice([None, 25., 4.41])})
        ops = []
        for k in range(rng.randint(2, 9)):
            o = {'kind': rng.choice(KINDS), 'camp': rng.randrange(len(camps)),
                 'how': rng.choice(['plain', 'plain', 'plain', 'disk',
                                    'interrupt', 'threads']),
                 'fresh': rng.random() < .3, 'at': rng.random(),
                 'seed': rng.getrandbits(30),
                 'err': rng.choice(['ENOSPC', 'EIO', 'EACCES']),
                 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError']),
                 'same': rng.random() < .4,
                 'sensor': rng.choice(['CCD', 'CMOS', None]),
                 'given': rng.random() < .7, 'passed': rng.random() < .6}
            ops.append(o)
        return {'camps': camps, 'ops': ops,
                'keep': rng.choice([None, None, None, rng.randrange(16)]),
                'rate': rng.choice([.02, .1, .3])}

    # ------------------------------------------------------------------
    def execute(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.root = root = ctx.dir('disk')
        self.paths, self.data, self.want, self.objs = [], [], [], []
        self.plain = []
        self.later = []
        for n, c in enumerate(plan['camps']):
            pts = lab.record(c['camp'], ctx)
            path = lab.store(pts, c['camp'], os.path.join(root, 'c%d' % n))
            with ctx.must('processing'):
                d = pipe.process(path)
            self.paths.append(path)
            self.data.append(d)
            w = kernel.isolated(self.truth, d, c['area'])
            p = w if c['area'] is None else kernel.isolated(
                self.truth, d, None)
            if w is None or p is None:
                raise kernel.Skip('campaign without results')
            self.want.append(w)
            self.plain.append(p)
            self.objs.append(self.make(n))
        from emva1288.process import routines
        from emva1288.process.results import Results1288
        self.shorts = {k: v.get('short') for k, v in
                       routines.cls_1288_info(Results1288).items()}
        for n in forms.META:
            ctx.check(n in self.shorts, 'form:table', n + ' is missing')
        with rep.StandIns(plan['keep']):
            for k, op in enumerate(plan['ops']):
                ctx.log(k, op['kind'], op['how'], op['camp'])
                self.step(k, op)
            # what was handed out stays as it was
            for what, judge in self.later:
                ctx.log('again', what)
                judge()

    def truth(self, d, area):
        """Each value from an object of its own."""
        w = {}
        for n in compare.NAMES:
            v, err = kernel.attempt(lambda: compare.plain(compare.read(
                pipe.results(d, **({'pixel_area': area} if area else {})),
                n)))
            if err is not None:
                return None
            w[n] = v
        return w

    def make(self, n):
        a = self.plan['camps'][n]['area']
        return pipe.results(self.data[n], **({'pixel_area': a} if a else {}))

    def obj(self, op):
        return self.make(op['camp']) if op['fresh'] else self.objs[op['camp']]

    # -- the forms: each returns a function that judges what was made -------
    def form(self, k, op, tag=''):
        n = op['camp']
        want = self.want[n]
        out = os.path.join(self.root, 'out%d%s' % (
            op['seed'] % 3 if op['same'] else k + 10, tag))
        kind = op['kind']
        if kind == 'facade':
            from emva1288.process import Emva1288
            want = self.plain[n]
            e = Emva1288(self.paths[n])
            if op['given']:
                text = e.xml()
                return lambda: forms.check_xml(text, want, 'facade')
            if op['passed']:
                e.xml(out + '.xml')
                return lambda: self.file(out + '.xml', want, 'facade')
            said = self.say(e.results)
            return lambda: forms.check_print(said, want, self.shorts,
                                             'facade')
        r = self.obj(op)
        if kind == 'results':
            d = r.results
            return lambda: forms.check_dict(d, want)
        if kind == 'sections':
            d = r.results_by_section
            return lambda: forms.check_dict(d, want, 'sections', True)
        if kind == 'xml':
            text = r.xml()
            return lambda: forms.check_xml(text, want)
        if kind == 'file':
            r.xml(out + '.xml')
            return lambda: self.file(out + '.xml', want, 'file')
        if kind == 'print':
            said = self.say(r.print_results)
            return lambda: forms.check_print(said, want, self.shorts)
        return self.report(op, r, out + '.rep')

    def say(self, fn):
        s = io.StringIO()
        with contextlib.redirect_stdout(s):
            fn()
        return s.getvalue()

    def file(self, path, want, what):
        with open(path, 'rb') as f:
            forms.check_xml(f.read(), want, what)

    def report(self, op, r, out):
        from emva1288.report.report import (Report1288, info_basic,
                                            info_marketing, info_op,
                                            info_setup)
        n = op['camp']
        rng = random.Random(op['seed'])
        basic, setup, pairs = {}, {}, []

        def word(x):
            tail = rng.choice(['', '', '', 'é', ' Größe', 'µΩ', '東京'])
            return '%s%d%s' % (x, rng.getrandbits(30), tail)
        basic['sensor_type'] = op['sensor']
        for k, label in BASIC + SENSOR[op['sensor']]:
            if k != 'sensor_type' and (op['given'] and rng.random() < .8):
                basic[k] = word('B') if k in (
                    'vendor', 'model') else rng.choice([word('B'), 0, 7])
            v = basic.get(k)
            pairs.append((label, '-' if v is None else str(v)))
        if op['given']:
            basic['resolution'], basic['pixel_size'] = '640x4', '5x5'
        pairs.append(('Resolution', '%s pixels' % basic.get('resolution',
                                                            '-')))
        pairs.append(('Pixel size', '%s $\\mu m$' % basic.get('pixel_size',
                                                              '-')))
        for k in SETUP:
            if op['given'] and rng.random() < .8:
                setup[k] = rng.choice([word('S'), 0, 0.0,
                                       1, 2.5, rng.randrange(100)])
            pairs.append((k, str(setup.get(k, '-'))))
        mark = {}
        if op['given'] and rng.random() < .5:
            mark['watermark'] = word('W')
        kw = {}
        if op['given']:
            kw = {'basic': info_basic(**basic), 'setup': info_setup(**setup),
                  'marketing': info_marketing(**mark)}
        else:
            b = info_basic()
            b.update(basic)
            kw = {'basic': b}
        with rep_quiet():
            rp = Report1288(out, **kw)
            o = info_op()
            cam = [('Gain', word('G')),
                   ('Offset', word('O'))]
            for k, v in cam:
                o['camera_settings'][k] = v
            par = [('Wavelength', '%d nm' % rng.randrange(400, 700)),
                   ('Temperature', '%d C' % rng.randrange(20, 40))]
            for k, v in par:
                o['test_parameters'][k] = v
            if op['passed']:
                rp.add(o, self.data[n], results=r)
                want = self.want[n]
            else:
                rp.add(o, self.data[n])
                want = self.plain[n]
            rp.latex()

        def judge():
            tex = rep.text(out)
            secs = rep.sections(tex)
            if len(secs) != 1:
                raise Violation('form:report', '%d operation points'
                                % len(secs))
            body = secs[0][2]
            forms.check_sheet(body, want)
            forms.check_pairs(body, cam + par)
            head = tex[:tex.index(body)]
            forms.check_pairs(head, cam + par + pairs)
            sty = rep.text(out, 'emvadatasheet.sty')
            name = ['-' if basic.get(k) is None else basic[k] for k in ('vendor', 'model')]
            if not re.search(r'fancyhead\[C\]\{\\textbf\{%s[ \\,]+%s\}' % tuple(
                    map(re.escape, name)), sty):
                raise Violation('form:report', 'the page header does not '
                                'name %s' % name)
            if mark.get('watermark') and 'text={%s}' % mark[
                    'watermark'] not in tex:
                raise Violation('form:report', 'the watermark is missing')
        return judge

    # ------------------------------------------------------------------
    def step(self, k, op):
        ctx, how = self.ctx, op['how']
        if how == 'interrupt':
            exc = {'KeyboardInterrupt': KeyboardInterrupt,
                   'MemoryError': MemoryError}[op['exc']]
            judge = None
            try:
                with AsyncInjector(ctx, int(op['at'] ** 2 * 6000), exc):
                    judge = self.form(k, op)
            except exc as e:
                kernel.clear_tb(e)
            if judge is not None:
                judge()
        elif how == 'disk':
            disk = SimDisk(self.root, ctx, [
                {'cls': 'w', 'kind': op['err'], 'op': int(op['at'] * 45)}])
            with disk:
                judge, err = kernel.attempt(self.form, k, op)
            if err is None:
                judge()
            elif not disk.fired:
                raise Violation('unexpected-error:' + op['kind'],
                                kernel.short(err))
        elif how == 'threads' and op['kind'] not in ('print', 'facade',
                                                     'report'):
            self.threads(k, op)
        with ctx.must(op['kind']):
            judge = self.form(k, op, 'z')
        judge()
        if not op['same'] and op['kind'] != 'print':
            self.later.append((op['kind'], judge))

    def threads(self, k, op):
        s = Scheduler(self.ctx, op['seed'], rate=self.plan['rate'],
                      max_steps=1500000)
        rng = random.Random(op['seed'])
        for t in range(rng.randint(2, 3)):
            o = dict(op, camp=rng.randrange(len(self.want)), same=False)
            if t:
                o['kind'] = rng.choice(['results', 'sections', 'xml', 'file'])
            s.spawn('t%d' % t, lambda o=o, t=t: self.form(k, o, 't%d' % t))
        for t in s.run():
            if t.error is not None:
                raise Violation('thread-failed', '%s: %s' % (
                    t.name, kernel.short(t.error)))
            t.result()


@contextlib.contextmanager
def rep_quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


CHECK = C25()
