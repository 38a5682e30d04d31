"""C05 A descriptor is read exactly as written or rejected."""
import logging
import os

from .. import grammar, kernel, pipe, world
from ..check import Check
from ..kernel import Violation, attempt
from ..simdisk import SimDisk, real_open


class Records(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.msgs = []

    def emit(self, record):
        if record.levelno >= logging.WARNING:
            self.msgs.append(record.getMessage())


def gen_doc(rng):
    """A well formed descriptor as a list of lines (structure kept so that it
    can be minimised)."""
    lines = []
    style = {'comma': rng.random() < .2, 'sep': rng.choice(['\\', '/']),
             'junkspace': rng.random() < .3, 'sci': rng.random() < .1}
    multi = rng.random() < .5
    n, lmax = rng.randint(1, 5), 6
    if rng.random() < .02:
        # a long campaign: text of up to some 10^5 characters
        n, lmax = rng.choice([(12, 60), (70, 20), (300, 90), (900, 120)])
    k = [0]
    ext = rng.choice(['png', 'tif', 'bmp', 'x'])
    sub = rng.choice(['images', 'images', 'data%ssub' % style['sep'], '.'])

    def imgs(cnt):
        out = []
        for _ in range(cnt):
            out.append('i %s%simg%d.%s' % (sub, style['sep'], k[0], ext))
            k[0] += 1
        return out

    td, pd = rng.choice([1, 1, 1, 0, 3, 6]), rng.choice([3, 3, 3, 0, 6])
    # nanoseconds, or another unit throughout
    unit = rng.choice([1., 1., 1., 1e-3, 1e-6]) if td == 6 else 1.

    def fnum(x, d):
        s = '%.*f' % (d, x)
        if style['sci'] and rng.random() < .5:
            s = rng.choice(['%.10e', '%.12E', '+%.14e']) % float(s)
        return s.replace('.', ',') if style['comma'] else s
    ts = sorted({round(unit * rng.uniform(1e4, 1e8), td) for _ in range(n)}) \
        if multi else [round(unit * rng.uniform(1e4, 1e7), td)]
    phs = [round(rng.uniform(1., 1e5), pd) for _ in range(1 if multi else n)]
    if rng.random() < .15:
        # nearly equal ones
        ts = sorted(set(ts + [round(ts[0] + 10. ** -td, td)]))
        if not multi:
            ts = ts[:1]
            phs.append(round(phs[0] + 10. ** -pd, pd))
    blocks = []
    for t in ts:
        for ph in sorted(set(phs)):
            blocks.append(['b %s %s' % (fnum(t, td), fnum(ph, pd))] + imgs(2))
        blocks.append(['d %s' % fnum(t, td)] + imgs(2))
    L = rng.randint(3, lmax)
    blocks.append(['b %s %s' % (fnum(ts[0], td), fnum(phs[0], pd))] + imgs(L))
    blocks.append(['d %s' % fnum(ts[0], td)] + imgs(L))
    rng.shuffle(blocks)
    if rng.random() < .95:
        lines.append('v %s' % rng.choice(['3.1', '4.0', '3.0Linear']))
    lines.append('n %d %d %d' % (rng.choice([8, 12, 16]),
                                 rng.randint(1, 9999), rng.randint(1, 9999)))
    if rng.random() < .2:
        rng.shuffle(lines)
    for b in blocks:
        lines += b
    out = []
    for x in lines:
        if rng.random() < .05:
            out.append(rng.choice(['', '   ', '\t']))
        if rng.random() < .05:
            out.append(rng.choice(['# comment', '#', '  # b 1 2', '#i a b c',
                                   '# \u00e9\u03bc']))
        if style['junkspace'] and rng.random() < .5:
            x = rng.choice([' ', '\t', '']) + x.replace(
                ' ', rng.choice(['  ', '\t', ' '])) + rng.choice([' ', ''])
        out.append(x)
    return out


EDITS = ['tear', 'tear', 'tear', 'drop', 'drop', 'dup', 'swap', 'moveblock',
         'byte', 'nonutf8', 'garbage', 'zeros', 'join', 'split', 'dropfield',
         'addfield', 'double', 'oldtail', 'number', 'cmd', 'dupblock']


class C05(Check):
    id = 'C05'
    runs = {'quick': 6000, 'thorough': 200000}
    rule = ('one run = one descriptor text with zero to three damages, read by '
            'the real parser through the simulated disk and compared with the '
            'reference grammar; non-trivial = a damage changed the bytes')
    real = ['parser', 'standard library text decoding']
    stubs = ['raw file I/O (simulated disk)']
    shrink_lists = ('lines', 'edits')

    def setup(self):
        world.load()

    def gen(self, rng, tier, i):
        nedit = rng.choice([0, 1, 1, 1, 2, 3])
        return {'lines': gen_doc(rng),
                'eol': rng.choice(['\n', '\n', '\r\n']),
                'final': rng.random() < .9,
                'short': rng.choice([0., 0., .5]),
                'seed': rng.getrandbits(30),
                'edits': [{'k': rng.choice(EDITS), 'a': rng.random(),
                           'b': rng.random(), 'v': rng.getrandbits(16)}
                          for _ in range(nedit)]}

    def damage(self, raw, e, eol):
        k, a, b, v = e['k'], e['a'], e['b'], e['v']
        n = len(raw)
        lines = raw.split(eol)
        i = int(a * len(lines))
        j = int(b * len(lines))
        if k == 'tear':
            return raw[:int(a * n)]
        if k == 'drop':
            del lines[i]
        elif k == 'dup':
            lines.insert(j, lines[i])
        elif k == 'swap':
            lines[i], lines[j] = lines[j], lines[i]
        elif k in ('moveblock', 'dupblock'):
            heads = [x for x, t in enumerate(lines)
                     if t.strip()[:2] in (b'b ', b'd ')]
            if heads:
                h = heads[int(a * len(heads))]
                e_ = h + 1
                while e_ < len(lines) and lines[e_].strip()[:1] == b'i':
                    e_ += 1
                blk = lines[h:e_]
                if k == 'moveblock':
                    del lines[h:e_]
                at = int(b * (len(lines) + 1))
                lines[at:at] = blk
        elif k == 'byte' and n:
            p = int(a * n)
            ok = [c for c in range(32, 127)]
            return raw[:p] + bytes([ok[v % len(ok)]]) + raw[p + 1:]
        elif k == 'nonutf8':
            p = int(a * n)
            return raw[:p] + bytes([0x80 + v % 0x40]) + \
                raw[p + v % 2:]
        elif k == 'garbage':
            g = [b'x 1 2', b'B 1 2', b'foo bar', b'lonely', b'ii a',
                 b'bright 1 2', b'i images/x.png', b'; c', b'// b 1',
                 b'image a b', b'dd 5', b'nn 1 2 3'][v % 12]
            lines.insert(i, g)
        elif k == 'zeros' and n:
            p = int(a * n)
            q = min(n, p + 1 + v % 64)
            return raw[:p] + b'\0' * (q - p) + raw[q:]
        elif k == 'join' and i + 1 < len(lines):
            lines[i:i + 2] = [lines[i] + lines[i + 1]]
        elif k == 'split':
            p = int(b * (len(lines[i]) + 1))
            lines[i:i + 1] = [lines[i][:p], lines[i][p:]]
        elif k == 'dropfield':
            f = lines[i].split(b' ')
            del f[int(b * len(f))]
            lines[i] = b' '.join(f)
        elif k == 'addfield':
            lines[i] += b' ' + [b'7', b'x', b'1.5'][v % 3]
        elif k == 'double':
            return raw + raw
        elif k == 'oldtail':
            # an older, longer file overwritten without truncation
            old = raw[int(a * n):]
            return raw + old
        elif k == 'number':
            f = lines[i].split(b' ')
            x = int(b * len(f))
            f[x] = [b'1e3', b'-5', b'abc', b'1.2.3', b'0', b'0.0', b'1;5',
                    b'0x10'][v % 8]
            lines[i] = b' '.join(f)
        elif k == 'cmd':
            c = [b'b', b'd', b'i', b'n', b'v', b'q'][v % 6]
            lines[i] = c + lines[i].lstrip()[1:]
        return eol.join(lines)

    def execute(self, plan, ctx):
        eol = plan['eol']
        raw = eol.join(plan['lines']).encode()
        if plan['final']:
            raw += eol.encode()
        intact = raw
        for e in plan['edits']:
            new = self.damage(raw, e, eol.encode())
            if new != raw:
                ctx.fault('descriptor ' + e['k'])
            raw = new
        d = ctx.dir('set')
        path = os.path.join(d, 'EMVA1288descriptor.txt')
        with real_open(path, 'wb') as f:
            f.write(raw)
        try:
            want, rej = grammar.read(raw, d), None
        except grammar.Rejected as e:
            want, rej = None, str(e)
        h = Records()
        root = logging.getLogger()
        root.addHandler(h)
        try:
            disk = SimDisk(d, ctx, seed=plan['seed'],
                           short_read=plan['short'])
            with disk:
                p, err = attempt(pipe.parse, path)
        finally:
            root.removeHandler(h)
        ctx.log(raw.decode('latin-1')[:200], rej,
                type(err).__name__ if err else 'read')
        if err is not None:
            ctx.probe('rejected')
            if raw == intact and rej is None:
                raise Violation('rejects-wellformed', kernel.short(err))
            if not isinstance(err, (SyntaxError, ValueError, OSError)):
                raise Violation('internal-error', 'a damaged descriptor ends '
                                'in %s' % kernel.short(err))
            return
        if rej is not None:
            raise Violation('accepts-damaged', 'read although: %s' % rej)
        ctx.probe('read as damaged' if raw != intact else 'read intact')
        if not want['loose']:
            ctx.check(p.version == want['version'], 'version',
                      lambda: '%r instead of %r' % (p.version,
                                                    want['version']))
        ctx.check(dict(p.format) == want['format'], 'format',
                  lambda: '%r instead of %r' % (p.format, want['format']))
        got = {}
        for kind in p.images:
            for t in p.images[kind]:
                for ph, names in p.images[kind][t].items():
                    got.setdefault(kind, []).append(
                        (repr(float(t)), repr(float(ph)),
                         [os.path.normpath(x) for x in names]))
        for kind in ('temporal', 'spatial'):
            w = sorted((repr(t), repr(ph), list(names)) for (t, ph), names
                       in want['images'][kind].items())
            g = sorted(got.get(kind, []))
            if w != g:
                diff = [x for x in w if x not in g] + \
                    [x for x in g if x not in w]
                raise Violation('points', '%s points differ from the text: %s'
                                % (kind, str(diff)[:400]))
        for line in want['unknown']:
            first = line.split()[0]
            if not any(first in m and (line in m or line.split()[1] in m)
                       for m in h.msgs):
                raise Violation('silent', 'line %r is ignored without a '
                                'warning' % line)
        if want['unknown']:
            ctx.probe('ignored lines reported')


CHECK = C05()
