"""C13 A report contains each added operation point exactly once, as added."""
import copy
import os
import re

from .. import compare, kernel, lab, pipe, rep, world
from ..check import Check
from ..kernel import Violation
from ..sched import AsyncInjector
from ..simdisk import SimDisk, rel_tree


class C13(Check):
    id = 'C13'
    runs = {'quick': 400, 'thorough': 12000}
    rule = ('one run = a history of successful, failing and interrupted '
            'additions to one to three reports sharing information '
            'dictionaries; every report is read back and compared with one '
            'built alone from its successful additions; non-trivial = an '
            'addition failed')
    real = ['report', 'templates', 'results', 'process routines', 'one real '
            'plot class per run']
    stubs = ['the other plot classes (light ones of the same names)',
             'raw file I/O (simulated disk)', 'camera (simulated device)']
    shrink_lists = ('ops', 'reports')
    shrink_min = {'ops': 1, 'reports': 1}
    shrink_ints = dict(lab.CAMPAIGN_SHRINK)

    def setup(self):
        world.load()
        import tempfile
        from emva1288.report.report import Report1288
        from matplotlib.figure import Figure
        from matplotlib.backends.backend_pdf import FigureCanvas
        d = tempfile.mkdtemp()
        try:
            f = Figure()
            FigureCanvas(f)
            f.add_subplot(111).set_title(r'$\mu$ x')
            f.savefig(os.path.join(d, 'x.pdf'))
            rep.warm()
            r = Report1288.template_renderer()
            for t in r.list_templates():
                r.get_template(t)
        finally:
            kernel.rmtree(d)

    def gen(self, rng, tier, i):
        camps = []
        for _ in range(rng.randint(1, 2)):
            c = lab.gen_campaign(rng)
            c['n'] = min(c['n'], 8)
            camps.append(c)
        reports = [{'share': rng.random() < .6, 'logo': rng.random() < .3}
                   for _ in range(rng.randint(1, 3))]
        ops = []
        many = rng.random() < .06
        for k in range(rng.randint(14, 18) if many else rng.randint(2, 8)):
            o = rng.choice(['add', 'add', 'add', 'add', 'again', 'baddata',
                            'noname', 'plotfails', 'diskfails', 'interrupt',
                            'latex'])
            if many:
                o = rng.choice(['add', 'add', 'add', 'noname', o])
            ops.append({'op': o, 'rep': 0 if many else
                        rng.randrange(len(reports)),
                        'camp': rng.randrange(len(camps)),
                        'name': rng.choice([None, None, 'Nm%dx' % k, 'Nm0x']),
                        'results': rng.choice([None, 'own', 'shared']),
                        'area': rng.choice([None, 25.]),
                        'summary': rng.random() < .5,
                        'settings': rng.randint(0, 3),
                        'at': rng.random(), 'retry': rng.random() < .6,
                        'exc': rng.choice(['KeyboardInterrupt',
                                           'MemoryError']),
                        'kind': rng.choice(['ENOSPC', 'EIO', 'EACCES'])})
        return {'camps': camps, 'reports': reports, 'ops': ops,
                'keep': rng.choice([None, None, rng.randrange(16)]),
                'seed': rng.getrandbits(30)}

    # ------------------------------------------------------------------
    def execute(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.root = root = ctx.dir('disk')
        self.data = []
        for n, c in enumerate(plan['camps']):
            pts = lab.record(c, ctx)
            path = lab.store(pts, c, os.path.join(root, 'camp%d' % n))
            with ctx.must('processing'):
                d = pipe.process(path)
                compare.snapshot(pipe.results(d))
            self.data.append(d)
        self.shared = [pipe.results(d) for d in self.data]
        logo = os.path.join(root, 'logo.pdf')
        with open(logo, 'wb') as f:
            f.write(b'%PDF-1.4 some logo')
        with rep.StandIns(plan['keep']) as self.plots:
            self.body(plan, ctx, root, logo)

    def infos(self, r, logo):
        from emva1288.report.report import (info_basic, info_marketing,
                                            info_setup)
        m = info_marketing(logo=logo if r['logo'] else None)
        b = info_basic(vendor='Vd', model='Md')
        s = info_setup(**{'Light source': 'Led'})
        return {'marketing': m, 'basic': b, 'setup': s}

    def body(self, plan, ctx, root, logo):
        from emva1288.report.report import Report1288
        shared = self.infos(plan['reports'][0], logo)
        pristine = copy.deepcopy(shared)
        reports, own = [], []
        for n, r in enumerate(plan['reports']):
            kw = shared if r['share'] else self.infos(r, logo)
            own.append(r if not r['share'] else plan['reports'][0])
            with SimDisk(root, ctx), ctx.must('creating a report'):
                reports.append(Report1288(os.path.join(root, 'r%d' % n),
                                          **kw))
        hist = [[] for _ in reports]      # (op, index) as added
        last = [None]
        for k, op in enumerate(plan['ops']):
            ctx.log(k, op['op'], op['rep'])
            self.step(k, op, reports, hist, last)
        for n, r in enumerate(reports):
            with SimDisk(root, ctx), ctx.must('latex'):
                r.latex()
        ctx.check(shared == pristine, 'caller-dictionary-changed',
                  'an information dictionary of the caller changed')
        for n, r in enumerate(reports):
            self.judge(n, hist[n], own[n], logo, reports)

    def make_op(self, op):
        from emva1288.report.report import info_op
        o = info_op()
        o['name'] = op['name']
        o['summary_only'] = op['summary']
        for s in range(op['settings']):
            o['camera_settings']['Ck%d' % s] = 'cv%d' % (s * 7)
        o['test_parameters']['Wavelength'] = '52%d nm' % op['settings']
        return o

    def results(self, op, camp):
        if op['results'] == 'own':
            kw = {'pixel_area': op['area']} if op['area'] else {}
            return pipe.results(self.data[camp], **kw)
        if op['results'] == 'shared':
            return self.shared[camp]
        return None

    def add(self, r, o, op):
        res = self.results(op, op['camp'])
        if res is None:
            return r.add(o, self.data[op['camp']])
        return r.add(o, self.data[op['camp']], results=res)

    def step(self, k, op, reports, hist, last):
        ctx, root = self.ctx, self.root
        r, h = reports[op['rep']], hist[op['rep']]
        kind = op['op']
        if kind == 'latex':
            with SimDisk(root, ctx), ctx.must('latex'):
                r.latex()
            self.check_tex(op['rep'], h)
            return
        if kind == 'again' and last[0] is None:
            kind = 'add'
        if kind in ('add', 'again'):
            o = self.make_op(op)
            src = op
            if kind == 'again':
                # the same dictionary once more
                o, src = last[0]
                src = dict(src, camp=op['camp'], results=op['results'],
                           area=op['area'])
            with SimDisk(root, ctx), ctx.must('add'):
                self.add(r, o, src)
            h.append(src)
            last[0] = (o, src)
            return
        o = self.make_op(op)
        err = None
        fn = lambda: self.add(r, o, op)     # noqa: E731
        disk = SimDisk(root, ctx)
        may = False
        if kind == 'baddata':
            d = dict(self.data[op['camp']])
            which = ['spatial', 'temporal'][int(op['at'] * 2)]
            if op['at'] * 4 % 2 < 1:
                d.pop(which)
            else:
                d[which] = {x: v for x, v in d[which].items()
                            if x not in ('s2_y', 'avg_mean', 'L')}
            fn = lambda: r.add(o, d)        # noqa: E731
            ctx.fault('broken data')
        elif kind == 'noname':
            o.pop('name')
            ctx.fault('operation point without name')
        elif kind == 'plotfails':
            self.plots.calls = 0
            self.plots.fail_at = int(op['at'] * 15)
            ctx.fault('plot fails')
        elif kind == 'diskfails':
            disk = SimDisk(root, ctx, [{'cls': 'w', 'kind': op['kind'],
                                        'op': int(op['at'] * 40)}])
        with disk:
            try:
                if kind == 'interrupt':
                    may = True
                    exc = {'KeyboardInterrupt': KeyboardInterrupt,
                           'MemoryError': MemoryError}[op['exc']]
                    n = int(op['at'] ** 2 * 4000)
                    with AsyncInjector(ctx, n, exc) as inj:
                        fn()
                    if inj.fired is None:
                        h.append(op)
                        return
                else:
                    fn()
            except (Violation, kernel.HarnessError):
                raise
            except (Exception, KeyboardInterrupt) as e:
                err = e
                kernel.clear_tb(e)
        fired = bool(disk.fired) or kind in ('baddata', 'noname') or may or (
            kind == 'plotfails' and self.plots.fail_at is None)
        self.plots.fail_at = None
        if err is None:
            if kind == 'diskfails' and disk.fired:
                raise Violation('fault-hidden', 'add returned although %s'
                                % (disk.fired,))
            if kind in ('baddata', 'noname') or (kind == 'plotfails' and
                                                 fired):
                # the statement only speaks of additions that fail
                ctx.probe('broken addition accepted')
                h.append(None)
                raise kernel.Skip('the broken addition was accepted')
            h.append(op)
            return
        if not fired:
            raise Violation('clean-addition-fails', kernel.short(err))
        ctx.probe('addition failed')
        if may:
            # an interruption may hit just after the addition
            n = self.count(r, op['rep'])
            if n == len(h) + 1:
                h.append(op)
                return
        self.check_tex(op['rep'], h, r)
        if op['retry'] and kind in ('plotfails', 'diskfails', 'interrupt'):
            with SimDisk(root, ctx), ctx.must('repeating an addition'):
                self.add(r, o, op)
            h.append(op)
            ctx.probe('addition repeated')

    def count(self, r, n):
        with SimDisk(self.root, self.ctx), self.ctx.must('latex'):
            r.latex()
        return len(rep.sections(rep.text(os.path.join(self.root, 'r%d' % n))))

    # ------------------------------------------------------------------
    def check_tex(self, n, h, r=None):
        if r is not None:
            with SimDisk(self.root, self.ctx), self.ctx.must('latex'):
                r.latex()
        tex = rep.text(os.path.join(self.root, 'r%d' % n))
        want = [(op['name'] or 'OP%d' % (k + 1), 'OP%d' % (k + 1))
                for k, op in enumerate(h)]
        got = [(a, b) for a, b, _ in rep.sections(tex)]
        if got != want:
            raise Violation('operation-points', 'report %d has %s, added '
                            'were %s' % (n, got, want))
        if rep.overview(tex) != want:
            raise Violation('operation-points', 'overview of report %d has '
                            '%s, added were %s' % (n, rep.overview(tex),
                                                   want))
        return tex

    def judge(self, n, h, info, logo, reports):
        from emva1288.report.report import Report1288
        ctx, root = self.ctx, self.root
        out = os.path.join(root, 'r%d' % n)
        tex = self.check_tex(n, h)
        secs = rep.sections(tex)
        tree = rel_tree(out)
        for k, op in enumerate(h):
            ref = os.path.join(root, 'alone%d_%d' % (n, k))
            with SimDisk(root, ctx), ctx.must('a report of its own'):
                r = Report1288(ref, **self.infos(info, logo))
                o = self.make_op(op)
                data = copy.deepcopy(self.data[op['camp']])
                if op['results'] == 'own' and op['area']:
                    r.add(o, data, results=pipe.results(
                        data, pixel_area=op['area']))
                else:
                    r.add(o, data)
                r.latex()
            want = rep.sections(rep.text(ref))[0][2]
            me = 'OP%d' % (k + 1)
            grefs, wrefs = rep.references(secs[k][2]), rep.references(want)
            got = re.sub(r'\b%s\b' % me, 'OP1', self.blind(secs[k][2], grefs))
            a, b = self.squeeze(got), self.squeeze(self.blind(want, wrefs))
            if a != b:
                import difflib
                d = [x for x in difflib.unified_diff(b, a, n=0, lineterm='')
                     ][2:8]
                raise Violation('content', 'operation point %s of report %d '
                                'is not as added: %s' % (me, n, d))
            # the plots, wherever they are stored
            pairs = list(zip(grefs, wrefs))
            try:
                mine = reports[n].ops[k]['plots']
                theirs = r.ops[0]['plots']
                pairs += [(mine[x], theirs[x]) for x in sorted(theirs)]
            except (AttributeError, LookupError, TypeError):
                pass
            rt = rel_tree(ref)
            for g, w in pairs:
                g, w = os.path.normpath(g), os.path.normpath(w)
                if w not in rt:
                    raise Violation('plots', 'a report of its own refers to '
                                    'missing %s' % w)
                if g not in tree:
                    raise Violation('plots', 'report %d has no %s' % (n, g))
                if tree[g] != rt[w]:
                    raise Violation('plots', '%s of report %d is not the '
                                    'plot of that operation point' % (g, n))
        ctx.log('report', n, len(h))

    @staticmethod
    def blind(s, refs):
        for x in sorted(set(refs), key=len, reverse=True):
            s = s.replace('{%s}' % x, '{%s}' % os.path.basename(x))
        return s

    @staticmethod
    def squeeze(s):
        # page breaks between operation points are layout
        s = re.sub(r'\\(newpage|clearpage|cleardoublepage|end\{document\})',
                   '', s)
        return [x.strip() for x in s.split('\n') if x.strip()]


CHECK = C13()
