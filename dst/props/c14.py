"""C14 A finished report directory is complete, or an error was raised."""
import hashlib
import os
import random
import re

from .. import compare, kernel, lab, pipe, rep, world
from ..check import Check
from ..kernel import Violation
from ..simdisk import SimDisk, real_open, rel_tree, run_until_crash

# file name of each upload source; equal base names on purpose
SOURCES = ['a/img.pdf', 'b/img.pdf', 'c/_img.pdf', 'a/other.pdf',
           'd/img.pdf', 'e/logo.png']


class C14(Check):
    id = 'C14'
    runs = {'quick': 500, 'thorough': 16000}
    rule = ('one run = one to four attempts to write a report into the same '
            'directory, ended by disk errors or crashes at any operation, and '
            'a last one; every attempt that returns is compared with a report '
            'written to a fresh directory without faults and with the source '
            'files; non-trivial = a fault or crash hit')
    real = ['report', 'templates', 'static files', 'results', 'jinja2', 'PDF '
            'writer', 'one real plot class per run']
    stubs = ['raw file I/O (simulated disk)', 'the other plot classes (light '
             'ones of the same names)', 'camera (simulated device)']
    shrink_lists = ('attempts',)
    shrink_min = {'attempts': 1}
    shrink_ints = dict(lab.CAMPAIGN_SHRINK, nops=0)

    def setup(self):
        world.load()
        from . import c13
        c13.C13.setup(self)

    def gen(self, rng, tier, i):
        c = lab.gen_campaign(rng, faults=False)
        c['n'] = min(c['n'], 6)
        attempts = []

        def content():
            up = {k: rng.choice([None, None] + list(range(len(SOURCES))))
                  for k in ('logo', 'missingplot', 'qe_plot')}
            return {'up': up, 'nops': rng.choice([0, 1, 1, 2]),
                    'relpath': rng.random() < .3,
                    'cover': rng.random() < .2,
                    'tag': rng.randrange(1000)}
        base = content()
        for _ in range(rng.randint(1, 4)):
            a = dict(base) if rng.random() < .5 else content()
            a['end'] = rng.choice(['done', 'werr', 'werr', 'rerr', 'crash',
                                   'crash', 'power', 'gone'])
            a['at'] = rng.choice([rng.random(), rng.random(),
                                  rng.random() * .15])
            a['torn'] = rng.choice([0, rng.random()])
            a['err'] = rng.choice(['ENOSPC', 'EIO', 'EACCES', 'EDQUOT'])
            a['stays'] = rng.random() < .5
            a['retry'] = rng.random() < .5
            a['seed'] = rng.getrandbits(30)
            attempts.append(a)
        last = dict(base) if rng.random() < .6 else content()
        last.update(end='done', at=0, torn=0, err='EIO', stays=False,
                    retry=False, seed=rng.getrandbits(30))
        attempts.append(last)
        return {'camp': c, 'attempts': attempts,
                'keep': rng.choice([None, None, None, rng.randrange(16)]),
                'pre': rng.choice(['none', 'none', 'empty', 'nested',
                                   'foreign', 'stale']),
                'short': rng.choice([0., 0., .4]),
                'size': rng.choice([10, 900, 70000]),
                'seed': rng.getrandbits(30)}

    # ------------------------------------------------------------------
    def execute(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.root = root = ctx.dir('disk')
        from emva1288.report import report
        self.pkg = os.path.dirname(os.path.realpath(report.__file__))
        pts = lab.record(plan['camp'], ctx)
        with ctx.must('processing'):
            self.data = pipe.process(lab.store(pts, plan['camp'],
                                               os.path.join(root, 'camp')))
            compare.snapshot(pipe.results(self.data))
        rng = random.Random(plan['seed'])
        self.src = []
        for n, name in enumerate(SOURCES):
            p = os.path.join(root, 'src', name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            raw = b'%%PDF-1.4 source %d ' % n + rng.randbytes(plan['size'])
            with real_open(p, 'wb') as f:
                f.write(raw)
            self.src.append((p, raw))
        out = os.path.join(root, 'out')
        if plan['pre'] == 'nested':
            out = os.path.join(root, 'x', 'y', 'out')
        elif plan['pre'] != 'none':
            os.makedirs(out)
        if plan['pre'] == 'foreign':
            self.put(out, 'notes.txt', b'mine')
            self.put(out, 'upload/img.pdf', b'%PDF older upload')
        if plan['pre'] == 'stale':
            # remains of a report of other software versions
            for n in os.listdir(os.path.join(self.pkg, 'files')):
                self.put(out, 'files/' + n, b'%PDF-1.4 torn')
            self.put(out, 'OP1/PlotPTC.pdf', b'%PDF torn')
            self.put(out, 'report.tex', b'old text ' * 4000)
        self.out = out
        self.refs = {}
        with rep.StandIns(plan['keep']):
            for n, a in enumerate(plan['attempts']):
                self.attempt(n, a)

    @staticmethod
    def put(base, name, raw):
        p = os.path.join(base, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with real_open(p, 'wb') as f:
            f.write(raw)

    # ------------------------------------------------------------------
    def create(self, out, a):
        from emva1288.report.report import (Report1288, info_basic,
                                            info_marketing, info_setup)

        def path(k):
            if k is None:
                return None
            p = self.src[k][0]
            return os.path.relpath(p) if a['relpath'] else p
        m = info_marketing(logo=path(a['up']['logo']),
                           missingplot=path(a['up']['missingplot']))
        b = info_basic(vendor='Vd%d' % a['tag'], model='Md',
                       qe_plot=path(a['up']['qe_plot']))
        return Report1288(out, setup=info_setup(), basic=b, marketing=m,
                          cover_page=self.src[0][0] if a['cover'] else False)

    def fill(self, r, a):
        from emva1288.report.report import info_op
        for k in range(len(r.ops), a['nops']):
            o = info_op()
            o['name'] = 'Op %d of %d' % (k, a['tag'])
            o['summary_only'] = False
            r.add(o, self.data)
        r.latex()

    def write(self, out, a):
        r = self.create(out, a)
        self.box['r'] = r
        self.fill(r, a)

    def disk(self, faults=(), seed=0):
        return SimDisk(self.root, self.ctx, faults, seed=seed,
                       short_read=self.plan['short'],
                       short_write=self.plan['short'],
                       readonly_roots=(self.pkg,))

    def reference(self, a):
        key = (str(a['up']), a['nops'], a['tag'], a['cover'], a['relpath'])
        if key not in self.refs:
            ref = os.path.join(self.root, 'ref%d' % len(self.refs))
            self.box = {}
            d = self.disk()
            with d, self.ctx.must('writing a report'):
                self.write(ref, a)
            self.refs[key] = (ref, dict(d.count))
            self.examine(ref, a, 'a report in a fresh directory')
        return self.refs[key]

    def attempt(self, n, a):
        ctx = self.ctx
        ref, counts = self.reference(a)
        faults, moved = [], None
        if a['end'] in ('werr', 'rerr'):
            cls = a['end'][0]
            faults = [{'cls': cls, 'kind': a['err'], 'torn': a['torn'],
                       'stays': a['stays'],
                       'op': int(a['at'] * counts[cls])}]
        elif a['end'] in ('crash', 'power'):
            faults = [{'cls': 'crash', 'kind': 'crash', 'torn': a['torn'],
                       'op': int(a['at'] * counts['crash'])}]
        elif a['end'] == 'gone':
            ups = sorted({v for v in a['up'].values() if v is not None})
            if ups:
                moved = self.src[ups[int(a['at'] * len(ups))]][0]
                os.rename(moved, moved + '.gone')
                ctx.fault('upload missing')
        disk = self.disk(faults, a['seed'])
        self.box = {}
        err = None
        box = {}

        def work():
            try:
                self.write(self.out, a)
            except (kernel.HarnessError, Violation):
                raise
            except Exception as e:
                box['e'] = e
                kernel.clear_tb(e)
        with disk:
            crashed = run_until_crash(disk, work)
            if crashed:
                self.box.clear()
                box.clear()
                if a['end'] == 'power':
                    disk.settle_power_loss(random.Random(a['seed']))
                disk.revive()
        if moved:
            os.rename(moved + '.gone', moved)
        ctx.log('attempt', n, a['end'], crashed)
        if crashed:
            ctx.probe('crashed')
            return
        err = box.get('e')
        what = 'attempt %d' % n
        if err is None:
            if moved:
                raise Violation('fault-hidden', '%s returned although %s '
                                'does not exist' % (what, moved))
            self.hidden(disk, what)
            self.examine(self.out, a, what)
            self.equal(self.out, ref, what)
            ctx.probe('complete')
            return
        if not disk.fired and not moved:
            raise Violation('clean-attempt-fails', '%s: %s'
                            % (what, kernel.short(err)))
        ctx.probe('raised')
        r = self.box.get('r')
        if a['retry'] and r is not None and not moved:
            # the same report object, now that the disk works
            with self.disk(), ctx.must('completing a report'):
                self.fill(r, a)
            self.examine(self.out, a, what + ', completed')
            self.equal(self.out, ref, what + ', completed')
            ctx.probe('completed after an error')

    @staticmethod
    def hidden(disk, what):
        """The call returned: no operation that failed may have been
        ignored.  An operation repeated later with success is fine, so is a
        directory that exists already."""
        for kind, op, rel in disk.fired:
            if op in ('mkdir', 'listdir', 'remove'):
                continue
            at = max(n for n, (o, r) in enumerate(disk.journal)
                     if o == op and r == rel)
            if op == 'open_w' or op == 'open_r':
                again = [1 for o, r in disk.journal[at + 1:]
                         if r == rel and o.startswith('open')]
            else:
                again = [1 for o, r in disk.journal[at + 1:]
                         if r == rel and o == 'open_' + op[0].replace(
                             'c', 'w')]
            if not again:
                raise Violation('fault-hidden', '%s returned although %s '
                                'failed with %s for %s'
                                % (what, op, kind, rel))

    # ------------------------------------------------------------------
    def texts(self, out):
        res = {}
        for n in ('report.tex', 'emvadatasheet.sty'):
            p = os.path.join(out, n)
            if not os.path.isfile(p):
                raise Violation('incomplete', '%s is missing' % n)
            res[n] = rep.text(out, n)
        return res

    def refer(self, out, x):
        p = x if os.path.isabs(x) else os.path.join(out, x)
        if not os.path.isfile(p):
            return None
        with real_open(p, 'rb') as f:
            return f.read()

    def examine(self, out, a, what):
        """Complete with respect to the text and the sources."""
        tree = rel_tree(out)
        base = os.path.join(self.pkg, 'files')
        for n in sorted(os.listdir(base)):
            with real_open(os.path.join(base, n), 'rb') as f:
                raw = f.read()
            k = os.path.join('files', n)
            if tree.get(k) != raw:
                raise Violation('static-file', '%s: %s is %s' % (
                    what, k, 'missing' if k not in tree else 'not the file '
                    'of the package (%d of %d bytes)'
                    % (len(tree[k]), len(raw))))
        found = {}
        for name, text in self.texts(out).items():
            found[name] = []
            for x in rep.references(text):
                raw = self.refer(out, x)
                if raw is None:
                    raise Violation('incomplete', '%s: %s refers to %s, '
                                    'which does not exist' % (what, name, x))
                found[name].append(raw)
                if re.match(r'OP\d+/', x) and not rep.valid_pdf(raw):
                    raise Violation('incomplete', '%s: %s is no complete PDF '
                                    'file (%d bytes)' % (what, x, len(raw)))

        def default(n):
            with real_open(os.path.join(base, n), 'rb') as f:
                return f.read()
        for role, name, dflt in (
                ('logo', 'emvadatasheet.sty', 'missinglogo.pdf'),
                ('qe_plot', 'report.tex', 'missingplot.pdf')):
            k = a['up'][role]
            want = default(dflt) if k is None else self.src[k][1]
            if role == 'qe_plot' and k is None:
                # or the caller's picture of a missing plot
                m = a['up']['missingplot']
                if m is not None and self.src[m][1] in found[name]:
                    continue
            if want not in found[name]:
                raise Violation('upload', '%s: %s does not show the %s %s'
                                % (what, name, role,
                                   'default' if k is None else
                                   SOURCES[k]))
        want = ['OP%d' % (k + 1) for k in range(a['nops'])]
        got = [s[1] for s in rep.sections(self.texts(out)['report.tex'])]
        if got != want:
            raise Violation('incomplete', '%s: operation points %s instead '
                            'of %s' % (what, got, want))

    def equal(self, out, ref, what):
        """The same as written without faults to a fresh directory, whatever
        the files are called."""
        def norm(d):
            res = {}
            for n, t in self.texts(d).items():
                for x in sorted(set(rep.references(t)), key=len,
                                reverse=True):
                    raw = self.refer(d, x)
                    t = t.replace('{%s}' % x, '{%s}' % (
                        hashlib.sha1(raw).hexdigest() if raw is not None
                        else 'missing'))
                res[n] = t
            return res
        a, b = norm(out), norm(ref)
        for n in a:
            if a[n] != b[n]:
                d = [x for x in zip(a[n].split('\n'), b[n].split('\n'))
                     if x[0] != x[1]][:1]
                raise Violation('differs', '%s: %s or what it refers to is '
                                'not as written to a fresh directory: %s'
                                % (what, n, str(d)[:300]))
        ta, tb = rel_tree(out), rel_tree(ref)
        for k in sorted(tb):
            if re.match(r'OP\d+%s' % re.escape(os.sep), k):
                if ta.get(k) != tb[k]:
                    raise Violation('differs', '%s: %s is not as written to '
                                    'a fresh directory' % (what, k))


CHECK = C14()
