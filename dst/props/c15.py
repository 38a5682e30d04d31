"""C15 Stored XML results read back exactly; torn files are never results."""
import os
import random
import xml.parsers.expat
from collections import OrderedDict

import numpy as np

from .. import kernel, lab, pipe, world
from ..check import Check
from ..kernel import Violation, attempt
from ..simdisk import SimDisk, real_open, run_until_crash


def well_formed(raw):
    p = xml.parsers.expat.ParserCreate()
    try:
        p.Parse(raw, True)
    except (xml.parsers.expat.ExpatError, ValueError):
        return False
    return True


NUMBERS = [0.0, -0.0, 1.0, -1.0, 1 / 3., 1e-12, 6.02214076e23, 1e300,
           5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
           0.1 + 0.2, 123456789.123456789, -9.87654321e-5, 1e16, 1e22,
           4503599627370497.5, float('nan'), float('inf'), float('-inf')]


def gen_results(seed):
    """A result set as Results1288.results_by_section gives it."""
    rng = random.Random(seed)

    def num():
        k = rng.random()
        if k < .25:
            return rng.choice(NUMBERS)
        if k < .35:
            return rng.randint(-10 ** 6, 10 ** 12)
        x = rng.uniform(-1, 1) * 10 ** rng.uniform(-12, 12)
        return x if k < .6 else np.float64(x)
    d = OrderedDict()
    for s in range(rng.randint(1, 5)):
        sec = 'sec_%d' % s
        d[sec] = OrderedDict()
        for m in range(rng.randint(1, 6)):
            e = OrderedDict()
            e['section'] = sec
            if rng.random() < .8:
                e['short'] = rng.choice(['Gain', 'a < b & c > d', 'S/N "x"',
                                         'u ]]> v', '100 %', "it's"])
            if rng.random() < .8:
                e['symbol'] = rng.choice(['$\\mu_{y}$', '$\\sigma^2$', 'K'])
            if rng.random() < .7:
                e['unit'] = rng.choice(['$e^-$', 'DN', '\u00b5m', 'p/\u03c0'])
            if rng.random() < .6:
                e['value'] = rng.choice([None, num(), num(), num(), num()])
            else:
                e['data'] = OrderedDict()
                for a in range(rng.randint(1, 4)):
                    n = rng.choice([1, 2, 5, 40, 300, 2, 5, 40, 1100])
                    v = [num() for _ in range(n)]
                    k = rng.random()
                    if k < .2:
                        v = float(v[0])
                    elif k < .5:
                        v = np.array([rng.randint(-5, 10 ** 9)
                                      for _ in range(n)])
                    else:
                        v = np.array(v, dtype=np.float64)
                    e['data']['arr_%s' % 'abcd'[a]] = v
            d[sec][rng.choice(['R', 'K', 'sigma_d', 'LE_min', 'Hist']) +
                   '_%d' % m] = e
    return d


def expected(d):
    """What reading has to give back."""
    out = {}
    for s, ms in d.items():
        for m, e in ms.items():
            r = {}
            for k, v in e.items():
                if k == 'data':
                    r[k] = {a.lower(): np.atleast_1d(np.array(
                        x, dtype=np.float64)) for a, x in v.items()}
                elif k == 'value':
                    r[k] = None if v is None else float(v)
                else:
                    r[k] = str(v)
            out[(s.lower(), m.lower())] = r
    return out


def flatten(got):
    return {(s, m): e for s, ms in got.items() for m, e in ms.items()}


def eq(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def difference(got, want):
    """None, or the first difference."""
    if not isinstance(got, dict):
        return 'read as %r' % (got,)
    g = flatten(got)
    if set(g) != set(want):
        return 'entries %s' % sorted(set(g) ^ set(want))[:4]
    for k in sorted(want):
        e, w = g[k], want[k]
        if ('data' in e) != ('data' in w) or ('value' in e) != ('value' in w):
            return '%s has %s' % (k, sorted(e))
        for f, v in w.items():
            if f == 'data':
                if set(e[f]) != set(v):
                    return '%s has arrays %s' % (k, sorted(e[f]))
                for a in v:
                    if not eq(np.atleast_1d(e[f][a]), v[a]):
                        return '%s.%s is %s' % (k, a, str(e[f][a])[:80])
            elif f == 'value':
                if v is None or e[f] is None:
                    if v is not e[f]:
                        return '%s is %r, not %r' % (k, e[f], v)
                elif not eq(e[f], v):
                    return '%s is %r, not %r' % (k, e[f], v)
            elif (e.get(f) or '').strip() != v.strip():
                return '%s %s is %r, not %r' % (k, f, e.get(f), v)
    return None


class C15(Check):
    id = 'C15'
    runs = {'quick': 1500, 'thorough': 90000}
    rule = ('one run = a history of writing several result sets to one XML '
            'file, ended by disk errors or crashes at any operation, and of '
            'damage to the stored bytes; after each step the file is read '
            'back; non-trivial = an error, crash or damage happened')
    real = ['XML writer and reader', 'results and facade (real result sets)']
    stubs = ['raw file I/O of the writer (simulated disk); lxml reads with '
             'its own C I/O, so reads are exercised through the bytes left '
             'on the disk', 'camera (simulated device)']
    shrink_lists = ('ops',)
    shrink_min = {'ops': 1}
    shrink_ints = dict(lab.CAMPAIGN_SHRINK)

    def setup(self):
        world.load()

    def gen(self, rng, tier, i):
        sets = []
        for _ in range(rng.randint(1, 3)):
            if rng.random() < .1:
                c = lab.gen_campaign(rng)
                c['n'] = min(c['n'], 7)
                sets.append({'camp': c, 'via': rng.choice(
                    ['results', 'facade', 'dict'])})
            else:
                sets.append({'seed': rng.getrandbits(30), 'via': 'dict'})
        ops = []
        for _ in range(rng.randint(1, 6)):
            ops.append({'op': rng.choice(
                ['text', 'write', 'write', 'werr', 'werr', 'crash', 'crash',
                 'power', 'damage', 'damage']),
                'set': rng.randrange(len(sets)), 'at': rng.random(),
                'torn': rng.choice([0, rng.random()]),
                'err': rng.choice(['ENOSPC', 'EIO', 'EDQUOT', 'EACCES']),
                'how': rng.choice(['cut', 'cut', 'zeros', 'hole', 'char',
                                   'char', 'twice', 'tail']),
                'seed': rng.getrandbits(30)})
        return {'sets': sets, 'ops': ops,
                'short': rng.choice([0., 0., .5])}

    def writer(self, n):
        """(write(filename or None), expected) of a result set."""
        from emva1288.process import routines
        s = self.plan['sets'][n]
        if 'seed' in s:
            d = gen_results(s['seed'])
            return (lambda f=None: routines.dict_to_xml(d, filename=f),
                    expected(d))
        pts = lab.record(s['camp'], self.ctx)
        path = lab.store(pts, s['camp'], os.path.join(self.root, 'c%d' % n))
        if s['via'] == 'facade':
            from emva1288.process import Emva1288
            with self.ctx.must('processing'):
                e = Emva1288(path)
                d = pipe.results(pipe.process(path)).results_by_section
            return e.xml, expected(d)
        with self.ctx.must('processing'):
            r = pipe.results(pipe.process(path))
            d = r.results_by_section
        if s['via'] == 'results':
            return r.xml, expected(d)
        return lambda f=None: routines.dict_to_xml(d, filename=f), expected(d)

    def execute(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.root = root = ctx.dir('disk')
        self.sets = [self.writer(n) for n in range(len(plan['sets']))]
        self.file = os.path.join(root, 'results.xml')
        self.allowed = []        # what the file may be read as
        for n, op in enumerate(plan['ops']):
            self.step(n, op)

    def read(self, src):
        """dict or None (unreadable)"""
        from emva1288.process import routines
        got, err = attempt(routines.xml_to_dict, src)
        if err is not None:
            self.ctx.probe('unreadable: raises')
            return None
        if got is None:
            self.ctx.probe('unreadable')
        return got

    def judge(self, allowed, what, src=None, must=False):
        got = self.read(src or self.file)
        if got is None:
            if must:
                raise Violation('round-trip', '%s cannot be read back' % what)
            return
        ds = [difference(got, w) for w in allowed]
        if not any(d is None for d in ds):
            raise Violation('round-trip' if must else 'torn', '%s is read '
                            'as something else: %s' % (what, ds[:2] or
                                                       'never written'))
        self.ctx.probe('read back')

    def step(self, n, op):
        ctx, root = self.ctx, self.root
        write, want = self.sets[op['set']]
        k = op['op']
        what = 'step %d (%s)' % (n, k)
        ctx.log(n, k, op['set'])
        if k == 'text':
            with SimDisk(root, ctx), ctx.must('writing as text'):
                raw = write()
            if not isinstance(raw, (bytes, str)):
                raise Violation('round-trip', 'text is a %s' % type(raw))
            self.judge([want], what, raw, must=True)
            if isinstance(raw, bytes):
                self.judge([want], what, raw.decode('utf-8'), must=True)
            cut = raw[:int(op['at'] * len(raw.rstrip()))]
            if cut:
                self.damaged(cut, what + ' cut')
            return
        if k == 'damage':
            if not os.path.isfile(self.file):
                return
            with real_open(self.file, 'rb') as f:
                raw = f.read()
            if not raw:
                return
            bad = self.damage(raw, op)
            if bad == raw:
                return
            with real_open(self.file, 'wb') as f:
                f.write(bad)
            ctx.fault('damage ' + op['how'])
            if well_formed(bad):
                ctx.probe('damaged, still well formed')
                # anything: the damage is not detectable
                self.allowed = None
                return
            if self.read(self.file) is not None:
                raise Violation('torn', '%s: damaged file (%s) is read as '
                                'results' % (what, op['how']))
            self.allowed = []
            return
        if k == 'write':
            with SimDisk(root, ctx, seed=op['seed'],
                         short_write=self.plan['short']), \
                    ctx.must('writing'):
                write(self.file)
            self.allowed = [want]
            self.judge([want], what, must=True)
            return
        # the number of operations a write needs
        probe = SimDisk(root, ctx, seed=op['seed'])
        with probe, ctx.must('writing'):
            write(os.path.join(root, 'probe.xml'))
        cls = 'w' if k == 'werr' else 'crash'
        f = {'cls': cls, 'kind': op['err'] if k == 'werr' else 'crash',
             'op': int(op['at'] * probe.count[cls]), 'torn': op['torn']}
        disk = SimDisk(root, ctx, [f], seed=op['seed'],
                       short_write=self.plan['short'])
        box = {}

        def work():
            try:
                write(self.file)
            except (kernel.HarnessError, Violation):
                raise
            except Exception as e:
                box['e'] = True
                kernel.clear_tb(e)
        with disk:
            crashed = run_until_crash(disk, work)
            if crashed and k == 'power':
                disk.settle_power_loss(random.Random(op['seed']))
            disk.revive()
        if not crashed and not box and disk.fired:
            from .c14 import C14
            C14.hidden(disk, what)
        if not crashed and not box:
            self.allowed = [want]
            self.judge([want], what, must=True)
            return
        ctx.probe('crashed' if crashed else 'raised')
        if self.allowed is not None:
            self.allowed = self.allowed + [want]
            self.judge(self.allowed, what)
        # other files an interrupted writer leaves are no results of others
        with real_open(self.file, 'rb') if os.path.isfile(self.file) else \
                real_open(os.devnull, 'rb') as f:
            raw = f.read()
        if raw and not well_formed(raw):
            ctx.probe('torn file left')

    def damaged(self, raw, what):
        enc = raw if isinstance(raw, bytes) else raw.encode('utf-8')
        if well_formed(enc):
            return
        self.ctx.fault('text cut')
        if self.read(raw) is not None:
            raise Violation('torn', '%s is read as results' % what)

    def damage(self, raw, op):
        rng = random.Random(op['seed'])
        n = len(raw)
        at = int(op['at'] * n)
        how = op['how']
        if how == 'cut':
            return raw[:at]
        if how == 'tail':
            return raw[:max(0, n - rng.randint(1, 30))]
        if how == 'zeros':
            m = rng.choice([1, 16, 512, n])
            return raw[:at] + b'\0' * min(m, n - at) + raw[at + m:]
        if how == 'hole':
            m = rng.choice([1, 3, 40, 512, 4096])
            return raw[:at] + raw[at + m:]
        if how == 'twice':
            m = rng.choice([1, 40, 512, 4096, n])
            return raw[:at] + raw[max(0, at - m):at] + raw[at:]
        c = rng.choice(b'<>&/\0\x01x]')
        return raw[:at] + bytes([c]) + raw[at + 1:]


CHECK = C15()
