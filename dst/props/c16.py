"""C16 Comparing two result files flags every difference, nothing else."""
import copy
import decimal
import math
import os
import random
from xml.sax.saxutils import escape

from .. import kernel, world
from ..check import Check
from ..kernel import Violation, attempt
from ..simdisk import SimDisk, real_open, run_until_crash
from . import c15

SIG = 7


def scaled(x):
    """x divided by the weight of its 7th significant digit."""
    d = decimal.Decimal(x)
    return d.scaleb(SIG - 1 - d.adjusted())


def rounded(x):
    """x rounded to seven significant digits; nan, inf, None as they are."""
    if x is None or math.isnan(x) or math.isinf(x) or x == 0:
        return str(x if x else 0 if x == 0 else None)
    ctx = decimal.Context(prec=SIG, rounding=decimal.ROUND_HALF_EVEN)
    return str(ctx.plus(decimal.Decimal(x)).normalize(ctx))


def clear(x):
    """Not near a rounding boundary, nor near a power of ten."""
    if x is None or not math.isfinite(x) or x == 0:
        return True
    s = abs(scaled(x))
    f = s - s.to_integral_value(decimal.ROUND_FLOOR)
    if abs(f - decimal.Decimal('0.5')) < decimal.Decimal('0.01'):
        return False
    return decimal.Decimal(1000001) < s < decimal.Decimal(9999998)


def number(rng):
    k = rng.random()
    if k < .12:
        return rng.choice([0.0, 1.5, -2.25, 1234567.2, float('nan'),
                           float('inf'), -float('inf'), 2.5e300, -3.75e-300])
    while True:
        x = rng.uniform(-1, 1) * 10 ** rng.uniform(-14, 14)
        if rng.random() < .3:
            x = float(rng.randint(-70000, 70000))
        if clear(x):
            return x


def base(seed):
    """{section: {entry: {'value': x} or {'data': {array: [x]}}}}"""
    rng = random.Random(seed)
    d = {}
    for s in range(rng.randint(1, 5)):
        ms = d['sec_%s' % 'abcdef'[s]] = {}
        for m in range(rng.choice([1, 2, 3, 4, 5, 6, 7, 14])):
            name = '%s_%d' % (rng.choice(['R', 'K', 'hist', 'dsnu_dn']), m)
            if rng.random() < .6:
                ms[name] = {'value': None if rng.random() < .12
                            else number(rng)}
            else:
                # numbers of all elements, often equal ones
                same = rng.random() < .3
                arrs = {}
                for a in range(rng.randint(1, 3)):
                    n = rng.choice([1, 1, 2, 7, 60, 1, 2, 7, 1, 1100])
                    x = number(rng)
                    arrs['arr_%s' % 'xyz'[a]] = [
                        x if same else number(rng) for _ in range(n)]
                ms[name] = {'data': arrs}
    return d


def nudge(rng, x):
    """(another number, equal to seven digits?)"""
    if x is None or not math.isfinite(x):
        return 4.25
    for _ in range(50):
        k = rng.choice(['below', 'below', 'digit', 'digit', 'sign', 'zero',
                        'other', 'none'])
        if k == 'sign':
            y = -x
        elif k == 'zero':
            y = 0.0
        elif k == 'other':
            y = number(rng)
        elif x == 0:
            y = rng.choice([1e-9, -1e-30, 3.0])
        elif k == 'below':
            # only behind the seventh digit
            y = x * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-14, -7.6))
        else:
            # one unit of the given digit
            n = rng.randint(1, SIG)
            w = 10.0 ** (math.floor(math.log10(abs(x))) - n + 1)
            y = x + rng.choice([-1, 1]) * rng.choice([1, 1, 2]) * w
        if math.isfinite(y) and clear(y):
            return y
    return 4.25


def mutate(d, seed, n):
    rng = random.Random(seed)
    d = copy.deepcopy(d)
    done = []
    for _ in range(n):
        secs = sorted(d)
        if not secs:
            break
        s = rng.choice(secs)
        k = rng.choice(['value', 'value', 'value', 'value', 'none', 'drop',
                        'add', 'dropsec', 'addsec', 'size', 'size', 'arrname',
                        'swap', 'array', 'array', 'array', 'first', 'last'])
        done.append(k)
        if k == 'dropsec':
            if len(secs) > 1:
                del d[s]
            continue
        if k == 'addsec':
            d['sec_new%d' % rng.randint(0, 2)] = {'N_0': {'value': 1.5}}
            continue
        ms = sorted(d[s])
        m = rng.choice(ms)
        if k == 'add':
            d[s]['added_%d' % rng.randint(0, 3)] = rng.choice(
                [{'value': 2.5}, {'value': None}, {'data': {'q': [1.5]}}])
            continue
        if k == 'drop':
            if len(ms) > 1:
                del d[s][m]
            continue
        e = d[s][m]
        if k == 'swap':
            d[s][m] = {'value': 3.5} if 'data' in e else {
                'data': {'arr_x': [1.5]}}
        elif k == 'none' and 'value' in e:
            e['value'] = None
        elif 'value' in e:
            e['value'] = nudge(rng, e['value'])
        else:
            a = rng.choice(sorted(e['data']))
            v = e['data'][a]
            if k == 'size':
                c = rng.random()
                if c < .35:
                    e['data'][a] = v + [v[-1]]
                elif c < .6 and len(v) > 1:
                    e['data'][a] = v[:-1]
                elif c < .8:
                    e['data'][a] = v[:1]
                else:
                    e['data'][a] = [v[0]] * (len(v) + 3)
            elif k == 'arrname':
                if rng.random() < .5:
                    e['data'][a + 'q'] = e['data'].pop(a)
                else:
                    e['data'][a + 'q'] = list(v)
            else:
                i = {'first': 0, 'last': len(v) - 1}.get(
                    k, rng.randrange(len(v)))
                v[i] = nudge(rng, v[i])
    return d, done


def store(d, seed):
    """XML text: order, case, number format and other fields vary."""
    rng = random.Random(seed)
    comma = rng.random() < .15
    camel = rng.random() < .2
    meta = rng.random() < .7

    def tag(x):
        return x.title() if camel else x

    def num(x):
        if x is None:
            return rng.choice(['None', 'none'])
        t = repr(float(x))
        if x == int(x) and abs(x) < 1e6 if math.isfinite(x) else False:
            t = rng.choice([t, '%d' % x])
        return t
    out = ['<results>']
    secs = list(d)
    rng.shuffle(secs)
    for s in secs:
        out.append('  <%s>' % tag(s))
        ms = list(d[s])
        rng.shuffle(ms)
        for m in ms:
            out.append('    <%s>' % tag(m))
            if meta:
                out.append('      <short>%s</short>' % escape(
                    rng.choice(['a & b', 'Gain', 'x < y'])))
            e = d[s][m]
            if 'value' in e:
                v = num(e['value'])
                out.append('      <value>%s</value>' % (
                    v.replace('.', ',') if comma else v))
            else:
                out.append('      <data>')
                arrs = list(e['data'])
                rng.shuffle(arrs)
                for a in arrs:
                    out.append('        <%s>%s</%s>' % (
                        a, ' '.join(num(x) for x in e['data'][a]), a))
                out.append('      </data>')
            out.append('    </%s>' % tag(m))
        out.append('  </%s>' % tag(s))
    out.append('</results>\n')
    return '\n'.join(out)


def verdict(a, b):
    """{section: None or {entry: equal?}}"""
    low = lambda d: {s.lower(): {m.lower(): e for m, e in ms.items()}
                     for s, ms in d.items()}     # noqa: E731
    a, b = low(a), low(b)
    out = {}
    for s in set(a) | set(b):
        if s not in a or s not in b:
            out[s] = None
            continue
        out[s] = {}
        for m in set(a[s]) | set(b[s]):
            x, y = a[s].get(m), b[s].get(m)
            out[s][m] = x is not None and y is not None and equal(x, y)
    return out


def equal(x, y):
    if ('value' in x) != ('value' in y):
        return False
    if 'value' in x:
        return rounded(x['value']) == rounded(y['value'])
    p, q = x['data'], y['data']
    return set(p) == set(q) and all(
        [rounded(v) for v in p[a]] == [rounded(v) for v in q[a]] for a in p)


def parse(text):
    """verdict read from the text"""
    out = {}
    lines = text.split('\n')
    n = 0
    sec = None
    while n < len(lines):
        ln = lines[n]
        if ln.startswith('*****') and n + 2 < len(lines) and \
                lines[n + 2].startswith('*****'):
            sec = lines[n + 1].strip()
            if sec in out:
                raise Violation('verdict', 'section %s twice' % sec)
            out[sec] = {}
            n += 3
            continue
        if ln.strip():
            # long numbers run into each other
            w = ln.split()
            end = 'OK' if w[-1].endswith('OK') else \
                'FAIL' if w[-1].endswith('FAIL') else None
            if end is None or sec is None:
                raise Violation('verdict', 'line without verdict: %r' % ln)
            if w[0] == 'PRESENT':
                if end != 'FAIL':
                    raise Violation('verdict', 'missing section %s is OK'
                                    % sec)
                out[sec] = None
            elif w[0] in out[sec]:
                raise Violation('verdict', 'entry %s twice' % w[0])
            else:
                out[sec][w[0]] = end == 'OK'
        n += 1
    return out


class C16(Check):
    id = 'C16'
    runs = {'quick': 3000, 'thorough': 120000}
    rule = ('one run = a history of comparisons between two to four stored '
            'result sets derived from each other, some torn by a crash or '
            'damaged, with disk errors while the verdict is written; each '
            'verdict is compared entry by entry with exact decimal rounding; '
            'non-trivial = a fault or a torn file was involved')
    real = ['XML reader', 'comparison', 'output file']
    stubs = ['raw file I/O of the output (simulated disk); lxml reads with '
             'its own C I/O']
    assumptions = ['numbers away from the rounding boundary of the seventh '
                   'digit (0.01 of its weight) and from powers of ten']
    shrink_lists = ('ops', 'sets')
    shrink_min = {'ops': 1, 'sets': 2}

    def setup(self):
        world.load()

    def gen(self, rng, tier, i):
        sets = [{'from': None, 'seed': rng.getrandbits(30), 'n': 0,
                 'store': rng.getrandbits(20)}]
        for _ in range(rng.randint(1, 3)):
            sets.append({'from': rng.choice([0, 0, 0, None]),
                         'seed': rng.getrandbits(30),
                         'n': rng.choice([0, 1, 1, 2, 5]),
                         'store': rng.getrandbits(20)})
        ops = []
        for _ in range(rng.randint(1, 5)):
            ops.append({'op': rng.choice(['cmp', 'cmp', 'cmp', 'cmp', 'tear',
                                          'werr', 'crash', 'gone']),
                        'a': rng.randrange(4), 'b': rng.randrange(4),
                        'text': rng.random() < .2,
                        'out': rng.random() < .5, 'at': rng.random(),
                        'torn': rng.choice([0, rng.random()]),
                        'how': rng.choice(['cut', 'cut', 'zeros', 'hole',
                                           'char', 'tail', 'twice']),
                        'err': rng.choice(['ENOSPC', 'EIO', 'EDQUOT']),
                        'seed': rng.getrandbits(30)})
        return {'sets': sets, 'ops': ops, 'short': rng.choice([0., 0., .5])}

    def execute(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.root = root = ctx.dir('disk')
        self.sets, self.paths, self.raws = [], [], []
        for n, s in enumerate(plan['sets']):
            if s['from'] is None or not n:
                d = base(s['seed'])
            else:
                d, done = mutate(self.sets[0], s['seed'], s['n'])
                ctx.log('set', n, done)
            p = os.path.join(root, 'r%d.xml' % n)
            raw = store(d, s['store']).encode()
            with real_open(p, 'wb') as f:
                f.write(raw)
            self.sets.append(d)
            self.paths.append(p)
            self.raws.append(raw)
        self.out = os.path.join(root, 'verdict.txt')
        for n, op in enumerate(plan['ops']):
            self.step(n, op)

    def compare(self, a, b, out):
        from emva1288.process import routines
        if out is None:
            return routines.compare_xml(a, b)
        return routines.compare_xml(a, b, filename=out)

    def step(self, n, op):
        ctx, root = self.ctx, self.root
        a, b = op['a'] % len(self.sets), op['b'] % len(self.sets)
        what = 'comparison %d' % n
        ctx.log(n, op['op'], a, b)
        src = [self.paths[a], self.paths[b]]
        if op['text']:
            src = [self.raws[a], self.raws[b].decode()]
        k = op['op']
        if k in ('tear', 'gone'):
            self.torn(op, a, b, what)
            return
        want = verdict(self.sets[a], self.sets[b])
        if k == 'cmp':
            out = self.out if op['out'] else None
            with SimDisk(root, ctx, seed=op['seed'],
                         short_write=self.plan['short']), \
                    ctx.must('comparing'):
                t = self.compare(src[0], src[1], out)
            self.judge(t, want, what)
            if out:
                if self.content(out) != t:
                    raise Violation('output-file', '%s: the file is not the '
                                    'verdict' % what)
                ctx.probe('output file')
            with SimDisk(root, ctx), ctx.must('comparing'):
                u = self.compare(src[1], src[0], None)
            self.judge(u, want, what + ', swapped')
            return
        # the verdict is written to a failing disk
        probe = SimDisk(root, ctx)
        with probe, ctx.must('comparing'):
            self.compare(src[0], src[1], os.path.join(root, 'probe.txt'))
        cls = 'w' if k == 'werr' else 'crash'
        disk = SimDisk(root, ctx, [
            {'cls': cls, 'kind': op['err'] if k == 'werr' else 'crash',
             'op': int(op['at'] * probe.count[cls]), 'torn': op['torn']}],
            seed=op['seed'], short_write=self.plan['short'])
        box = {}

        def work():
            try:
                box['t'] = self.compare(src[0], src[1], self.out)
            except (kernel.HarnessError, Violation):
                raise
            except Exception as e:
                kernel.clear_tb(e)
        with disk:
            crashed = run_until_crash(disk, work)
            disk.revive()
        if crashed or 't' not in box:
            ctx.probe('crashed' if crashed else 'raised')
            if not disk.fired:
                raise Violation('clean-comparison-fails', what)
            return
        if disk.fired and self.content(self.out) != box['t']:
            raise Violation('fault-hidden', '%s returned although the '
                            'verdict could not be written' % what)
        if disk.fired:
            from .c14 import C14
            C14.hidden(disk, what)
        self.judge(box['t'], want, what)

    @staticmethod
    def content(p):
        if not os.path.isfile(p):
            return None
        with real_open(p, encoding='utf-8', newline='') as f:
            return f.read()

    def torn(self, op, a, b, what):
        ctx = self.ctx
        bad = os.path.join(self.root, 'bad.xml')
        if os.path.exists(bad):
            os.remove(bad)
        if op['op'] == 'tear':
            raw = c15.C15.damage(None, self.raws[a], op)
            if c15.well_formed(raw):
                return
            with real_open(bad, 'wb') as f:
                f.write(raw)
        ctx.fault('unreadable file')
        other = self.paths[b]
        if os.path.exists(self.out):
            os.remove(self.out)
        out = self.out if op['out'] else None
        for x, y in ((bad, other), (other, bad), (bad, bad)):
            with SimDisk(self.root, ctx):
                t, err = attempt(self.compare, x, y, out)
            c = self.content(self.out) if out else None
            for v in (t, c):
                if v and any(w in v for w in ('OK', 'FAIL')):
                    raise Violation('verdict-of-torn-file', '%s: %s gave %r'
                                    % (what, op['how'], v[:200]))
            if err is not None:
                ctx.probe('unreadable raises')

    def judge(self, t, want, what):
        if not isinstance(t, str):
            raise Violation('verdict', '%s: returned %r' % (what, t))
        got = parse(t)
        for s in sorted(set(got) | set(want)):
            if s not in got or s not in want or \
                    (got[s] is None) != (want[s] is None):
                raise Violation('verdict', '%s: section %s is %s, expected '
                                '%s' % (what, s, got.get(s, 'absent'),
                                        want.get(s, 'absent')))
            if want[s] is None:
                self.ctx.probe('section missing')
                continue
            for m in sorted(set(got[s]) | set(want[s])):
                g, w = got[s].get(m), want[s].get(m)
                if g is not w:
                    raise Violation('verdict', '%s: %s %s is %s, expected %s'
                                    % (what, s, m, {True: 'OK', False:
                                                    'FAIL'}.get(g, g), w))
                self.ctx.probe('entry ok' if w else 'entry differs')


CHECK = C16()
