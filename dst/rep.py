"""Reports: stand-in plots, reading a finished report directory."""
import os
import re
import zlib

import numpy as np
from matplotlib.lines import Line2D

from .simdisk import real_open


def warm():
    """Compile every template once per worker, not once per report (keyed by
    the template's text)."""
    import jinja2
    env = jinja2.Environment
    if getattr(env.compile, 'dst_cached', False):
        return
    real, cache = env.compile, {}

    def compile(self, source, name=None, filename=None, *a, **kw):
        key = (str(source), name, filename, a, tuple(sorted(kw.items())),
               self.variable_start_string, self.block_start_string)
        if key not in cache:
            cache[key] = real(self, source, name, filename, *a, **kw)
        return cache[key]
    compile.dst_cached = True
    env.compile = compile


class Failing(Exception):
    dst_injected = True


class StandIns:
    """Replaces the report's plots by light ones of the same names, except
    `keep` (an index); a planned failure makes one of them raise."""

    def __init__(self, keep=None):
        self.keep = keep
        self.fail_at = None       # k-th plot call raises
        self.calls = 0
        self.log = []             # (name, test) in drawing order

    def __enter__(self):
        from emva1288.process import plotting
        self.list = plotting.EVMA1288plots
        self.old = list(self.list)
        if isinstance(self.list, list):
            self.list[:] = [c if n == self.keep else self.light(c)
                            for n, c in enumerate(self.old)]
        return self

    def __exit__(self, *a):
        if isinstance(self.list, list):
            self.list[:] = self.old
        return False

    def light(self, cls):
        me = self

        class Light:
            name = cls.name

            def __init__(self, figure):
                self.figure = figure

            def plot(self, test):
                n = me.calls
                me.calls += 1
                if me.fail_at is not None and n == me.fail_at:
                    me.fail_at = None
                    raise Failing('injected: this plot cannot be drawn')
                # the data and the name as curves, without axes: cheap
                x = np.asarray(test.temporal['u_p'], dtype=float)
                y = np.asarray(test.temporal['u_y'], dtype=float)
                self.figure.add_artist(Line2D(x, y))
                k = float(test.K)
                self.figure.add_artist(Line2D([0, k], [len(self.name), k]))

            def rearrange(self):
                pass
        Light.__name__ = cls.__name__
        Light.__qualname__ = cls.__qualname__
        return Light


def text(outdir, name='report.tex'):
    """A text of a report, as TeX reads it."""
    with real_open(os.path.join(outdir, 'report.tex'), 'rb') as f:
        main = f.read()
    m = re.search(rb'\\usepackage\[([^]]*)\]\{inputenc\}', main)
    enc = m.group(1).decode('ascii') if m else 'utf8'
    enc = {'utf8': 'utf-8', 'utf8x': 'utf-8', 'ansinew': 'cp1252',
           'latin9': 'iso8859-15'}.get(enc, enc)
    with real_open(os.path.join(outdir, name), encoding=enc,
                   errors='replace') as f:
        return f.read()


def references(tex):
    """Files a TeX text refers to."""
    out = re.findall(r'\\includegraphics(?:\[[^]]*\])?\{([^}]*)\}', tex)
    out += re.findall(r'\\input\{([^}]*)\}', tex)
    return [x for x in out if x.strip()]


SECTION = re.compile(r'\\ReportSection\{Operation Point: \\textbf\{(.*?)\}')


def sections(tex):
    """[(name, id, text)] of the operation points."""
    hits = list(SECTION.finditer(tex))
    out = []
    for n, m in enumerate(hits):
        end = hits[n + 1].start() if n + 1 < len(hits) else len(tex)
        body = tex[m.start():end]
        lab = re.findall(r'\\label\{(OP\d+)\}', body)
        out.append((m.group(1), lab[0] if len(lab) == 1 else lab, body))
    return out


def overview(tex):
    """[(name, id)] of the overview at the beginning."""
    return re.findall(r'Operation Point: \\textbf\{(.*?)\} \(Page '
                      r'\\pageref\{(OP\d+)\}\)', tex)


def valid_pdf(raw):
    """A complete PDF file: header, cross reference table and trailer."""
    if not raw.startswith(b'%PDF-'):
        return False
    tail = raw[-1024:]
    if b'%%EOF' not in tail:
        return False
    m = re.findall(rb'startxref\s+(\d+)\s+%%EOF', tail)
    if not m:
        return False
    off = int(m[-1])
    if raw[off:off + 4] != b'xref' and b'/XRef' not in raw[off:off + 400]:
        return False
    for s in re.finditer(rb'<<([^>]*)>>\s*stream\r?\n', raw):
        n = re.search(rb'/Length (\d+)(?! \d+ R)\b', s.group(1))
        if n and b'endstream' not in raw[s.end() + int(n.group(1)):][:20]:
            return False
        if b'/FlateDecode' in s.group(1):
            z = zlib.decompressobj()
            try:
                z.decompress(raw[s.end():])
            except zlib.error:
                return False
            if not z.eof:
                return False
    return True
