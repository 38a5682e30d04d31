"""C17 Plots show exactly the tests given, once each, whatever was before."""
import math
import os

import numpy as np

from .. import compare, kernel, lab, pipe, world
from ..check import Check
from ..kernel import Violation
from ..sched import AsyncInjector
from .c11 import freeze, unchanged

CLASSES = ['PlotPTC', 'PlotSNR', 'PlotSensitivity', 'PlotUyDark',
           'PlotLinearity', 'PlotDeviationLinearity',
           'PlotHorizontalSpectrogramPRNU', 'PlotHorizontalSpectrogramDSNU',
           'PlotVerticalSpectrogramPRNU', 'PlotVerticalSpectrogramDSNU',
           'PlotLogarithmicHistogramDSNU', 'PlotLogarithmicHistogramPRNU',
           'PlotAccumulatedLogHistogramDSNU',
           'PlotAccumulatedLogHistogramPRNU', 'PlotHorizontalProfile',
           'PlotVerticalProfile']


class PlotFails(Exception):
    dst_injected = True


def arr(x):
    return np.asarray(x, dtype=float).ravel()


def curves(fig):
    """What a figure shows: per axes, the curves and images."""
    out = []
    for ax in fig.axes:
        ls = [(str(ln.get_label()), arr(ln.get_xdata(orig=True)),
               arr(ln.get_ydata(orig=True))) for ln in ax.get_lines()]
        ls += [('image', arr(im.get_array()), arr([])) for im in ax.images]
        ls += [('collection', arr(c.get_offsets()), arr([]))
               for c in ax.collections]
        out.append(ls)
    return out


def key(c):
    # matplotlib numbers curves without label
    lab_ = c[0] if not c[0].startswith('_child') else '_child'
    return (lab_, c[1].tobytes(), c[2].tobytes())


def keys(axes):
    return [sorted(key(c) for c in ls) for ls in axes]


def look(fig):
    """Titles, scales and limits."""
    return [(ax.get_title(), ax.get_xlabel(), ax.get_ylabel(),
             ax.get_xscale(), ax.get_yscale(),
             tuple('%.9g' % v for v in ax.get_xlim() + ax.get_ylim()))
            for ax in fig.axes]


def extents(fig):
    """[((x0, x1), (y0, y1))] of what can be seen of the curves, per axes."""
    out = []
    for ax in fig.axes:
        lims = [sorted(map(float, v)) for v in (ax.get_xlim(),
                                                ax.get_ylim())]
        pts = [np.array([arr(ln.get_xdata()), arr(ln.get_ydata())])
               for ln in ax.get_lines()
               if ln.get_transform() == ax.transData]
        pts = np.concatenate(pts or [np.zeros((2, 0))], axis=1)
        ok = np.isfinite(pts).all(axis=0)
        for p, (lo, hi) in zip(pts, lims):
            ok &= (p >= lo) & (p <= hi)
        pts = pts[:, ok]
        out.append([(float(p.min()), float(p.max())) if p.size else
                    tuple(v) for p, v in zip(pts, lims)]
                   if ok.any() else [(np.inf, -np.inf)] * 2)
    return out


def expected(name, res, data):
    """[(x, y)] of curves the plot of one test has to contain, computed from
    the test's data (measurement curves) without the plotting code."""
    t, s = data['temporal'], data['spatial']
    up, uy, ud = arr(t['u_p']), arr(t['u_y']), arr(t['u_ydark'])
    s2, sd = arr(t['s2_y']), arr(t['s2_ydark'])
    bright = np.asarray(s['sum'], dtype=float) / s['L']
    dark = np.asarray(s['sum_dark'], dtype=float) / s['L_dark']

    def spectrum(img, rotate):
        img = img.T if rotate else img
        f = np.fft.fft(img - img.mean(), axis=1)
        p = (f.real ** 2 + f.imag ** 2).mean(axis=0) / img.shape[1]
        p = p[:img.shape[1] // 2 + 1]
        return np.arange(p.size) / (2. * p.size), p
    def ends(x, y, what='sensitivity'):
        e = [int(res['index_%s_%s' % (what, w)]) for w in ('min', 'max')]
        return x[e], y[e]
    if name == 'PlotPTC':
        i = int(res['index_u_ysat'])
        return [(uy - ud, s2 - sd), (uy - ud, res['K'] * (uy - ud)),
                ((uy - ud)[i:i + 1], (s2 - sd)[i:i + 1]),
                ends(uy - ud, s2 - sd)]
    if name == 'PlotSNR':
        nz = s2 != 0
        lo, hi = float(res['u_p_min']), float(res['u_p_sat'])
        qe = res['QE'] / 100.
        dark = res['sigma_d'] ** 2 + res['s2q'] / res['K'] ** 2
        one = np.array([0., 1.])
        return [(up[nz], (uy - ud)[nz] / np.sqrt(s2[nz])),
                (np.array([lo, lo]), one), (np.array([hi, hi]), one),
                (lo, hi, np.sqrt),
                (lo, hi, lambda x: qe * x / np.sqrt(dark + qe * x)),
                (lo, hi, lambda x: qe * x / np.sqrt(
                    dark + qe * x + res['DSNU1288'] ** 2 +
                    (res['PRNU1288'] / 100. * qe * x) ** 2))]
    if name == 'PlotSensitivity':
        return [(up, uy - ud), (up, res['R'] * up), ends(up, uy - ud)]
    if name == 'PlotUyDark':
        return [(arr(t['texp']), ud)]
    if name == 'PlotLinearity':
        ln = res['linearity']
        return [(up, uy - ud), (up, ln['fit_slope'] * up + ln['fit_offset']),
                ends(up, uy - ud, 'linearity')]
    if name == 'PlotDeviationLinearity':
        a, b = int(res['index_linearity_min']), int(
            res['index_linearity_max'])
        dev = arr(res['linearity']['relative_deviation'])
        return [(up[a:b + 1], dev[a:b + 1]), ends(up, dev, 'linearity')]
    if 'Spectrogram' in name:
        rot = 'Vertical' in name
        one = np.array([0., 1.])
        if 'DSNU' in name:
            x, p = spectrum(dark, rot)
            return [(x, np.sqrt(p)), (one, one * 0 + res['DSNU1288_DN']),
                    (one, one * 0 + np.sqrt(res['sigma_2_y_stack_dark']))]
        d = bright - dark
        x, p = spectrum(d, rot)
        return [(x, 100 * np.sqrt(p) / d.mean()), (one, one * 0 + res['PRNU1288']),
                (one, one * 0 + 100 * np.sqrt(res['sigma_2_y_stack']) /
                 d.mean())]
    if 'Histogram' in name:
        h = res['histogram_' + name[-4:] + (
            '_accumulated' if 'Accumulated' in name else '')]
        out = [(arr(h['bins']), arr(h['values']))]
        if 'model' in h and 'Accumulated' not in name:
            out.append((arr(h['bins']), arr(h['model'])))
        return out
    out = []
    for img in (bright - dark, dark):
        v = name == 'PlotVerticalProfile'
        img = img.T if v else img
        x = np.arange(img.shape[1], dtype=float)
        for y in (img.mean(0), img.min(0), img.max(0),
                  img[img.shape[0] // 2]):
            out.append((y, x) if v else (x, y))
    return out


def follows(axes, lo, hi, f):
    """Whether a curve follows f from lo to (about) hi."""
    for ls in axes:
        for _, a, b in ls:
            if a.size < 20 or a.shape != b.shape:
                continue
            if abs(a.min() - lo) > 1e-7 * abs(hi) or \
                    not lo + .95 * (hi - lo) <= a.max() <= hi * 1.05:
                continue
            with np.errstate(all='ignore'):
                if np.allclose(b, f(a), rtol=1e-7, atol=0, equal_nan=True):
                    return True
    return False


def contains(axes, x, y, tol):
    for ls in axes:
        for _, a, b in ls:
            if a.shape == x.shape and b.shape == y.shape:
                if all(np.allclose(p, q, rtol=1e-7, atol=tol + 1e-9 *
                        (1e-30 + np.nanmax(np.abs(q), initial=0)),
                        equal_nan=True) for p, q in ((a, x), (b, y))):
                    return True
    return False


class C17(Check):
    id = 'C17'
    runs = {'quick': 500, 'thorough': 20000}
    rule = ('one run = a history of plot calls (various plots, the same test '
            'in several sets, plots of the caller, failing and interrupted '
            'calls, reports in between) on one to four tests; after each call '
            'every figure is compared with the curves each test draws alone '
            'on a new figure, and with its measurements; non-trivial = a '
            'failed or interrupted call, or a repeated one')
    real = ['plotting', 'results', 'matplotlib figures (Agg)']
    stubs = ['window system (no display)', 'layout of margins', 'camera (simulated device)',
             'instants of asynchronous exceptions']
    shrink_lists = ('ops', 'camps')
    shrink_min = {'ops': 1, 'camps': 1}
    shrink_ints = dict(lab.CAMPAIGN_SHRINK)

    def setup(self):
        world.load()
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        f = plt.figure()
        f.add_subplot(111).set_title(r'$\mu$ x')
        plt.close('all')
        # the margins of a figure are no property of the plots
        from matplotlib.figure import Figure
        Figure.tight_layout = lambda self, **kw: None

    def gen(self, rng, tier, i):
        camps = []
        base = lab.gen_campaign(rng)
        for _ in range(rng.randint(1, 4)):
            c = lab.gen_campaign(rng)
            if rng.random() < .4:
                # very similar tests: the same exposures
                c = dict(base, seed=rng.getrandbits(32))
            c['n'] = min(c['n'], 8)
            camps.append(c)
        ops = []
        for _ in range(rng.randint(1, 5)):
            n = rng.choice([1, 1, 2, 2, 3, 4])
            ops.append({
                'op': rng.choice(['plot', 'plot', 'plot', 'plot', 'facade',
                                  'again', 'fails', 'interrupt', 'report',
                                  'user']),
                'tests': [rng.randrange(4)
                          for _ in range(rng.choice([1, 1, 2, 3, 4]))],
                'plots': [rng.choice([rng.randrange(16), rng.randrange(17)])
                          for _ in range(n)],
                'all': rng.random() < .04,
                'at': rng.random(),
                'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
        return {'camps': camps, 'ops': ops,
                'ids': rng.choice([None, None, 'set', 'same']),
                'two': rng.random() < .5}

    # ------------------------------------------------------------------
    def execute(self, plan, ctx):
        import matplotlib.pyplot as plt
        from emva1288.process import plotting
        from emva1288.process.plotting import Emva1288Plot
        self.plan, self.ctx, self.plt = plan, ctx, plt
        self.plotting = plotting
        check = self

        class UserPlot(Emva1288Plot):
            name = 'plot of the caller'

            def plot(self, test):
                if check.fail_in is not None:
                    check.fail_in -= 1
                    if check.fail_in < 0:
                        raise PlotFails('injected')
                self.ax.imshow(np.asarray(test.spatial['sum'], dtype=float))
                self.ax.plot(test.temporal['texp'], test.temporal['u_p'],
                             label='mine')
        self.user = UserPlot
        self.fail_in = None
        self.classes = [getattr(plotting, n) for n in CLASSES] + [UserPlot]
        self.tests, self.datas, self.values = [], [], []
        for n, c in enumerate(plan['camps']):
            pts = lab.record(c, ctx)
            path = lab.store(pts, c, ctx.dir('camp%d' % n))
            with ctx.must('processing'):
                d = pipe.process(path)
                r = pipe.results(d)
                v = compare.snapshot(r)
            lo, hi = float(v['u_p_min']), float(v['u_p_sat'])
            good = all(math.isfinite(float(v[k])) for k in (
                'R', 'K', 'QE', 'u_p_min', 'u_p_sat', 'sigma_d'))
            if not good or lo >= hi or len(
                    set(d['temporal']['u_p'])) < 3:
                raise kernel.Skip('degenerate campaign')
            if plan['ids']:
                r.id = n + 1 if plan['ids'] == 'set' else 7
            self.tests.append(r)
            self.datas.append(freeze(d))
            self.values.append(v)
        self.live = [(t.temporal, t.spatial) for t in self.tests]
        self.frozen = [freeze({'t': a, 's': b}) for a, b in self.live]
        self.path0 = os.path.join(ctx.scratch, 'camp0')
        self.pristine = kernel.Pristine(self.alone_and_look)
        # instances made by the code under test
        self.made = []
        real = Emva1288Plot.__init__

        def init(me, figure):
            check.made.append((me, figure))
            real(me, figure)
        Emva1288Plot.__init__ = init
        self.objs = {}
        for n, op in enumerate(plan['ops']):
            self.step(n, op)
        for t, v, (a, b), f in zip(self.tests, self.values, self.live,
                                   self.frozen):
            w = unchanged(f, {'t': a, 's': b})
            ctx.check(w is None, 'data-changed', 'plotting changed %s' % w)
            with ctx.must('results'):
                compare.require_same(compare.snapshot(t), v,
                                     'results-changed', 'after plotting', 0.)

    def alone_and_look(self, c, ts):
        """In a process of its own: the curves each test draws alone, and the
        picture of all of them."""
        seen = self.fresh(c, ts)
        for t in ts if len(ts) > 1 else []:
            # together with others a test is as visible as alone
            for a, b in zip(seen, self.fresh(c, [t], extents)):
                for what, (lo, hi), k in zip('xy', b, (0, 2)):
                    w = sorted(float(v) for v in a[5][k:k + 2])
                    tol = 1e-6 * (w[1] - w[0])
                    if lo < w[0] - tol or hi > w[1] + tol:
                        raise Violation('cut-off', '%s of tests %s shows %s '
                                        'from %s to %s, of test %d alone %s '
                                        'to %s can be seen' % (
                                            self.classes[c].__name__, ts,
                                            what, w[0], w[1], t, lo, hi))
        return [self.draw_alone(c, t) for t in ts], seen

    def draw_alone(self, c, t):
        from matplotlib.figure import Figure
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        cls = self.classes[c]
        test = self.tests[t]
        had = getattr(test, 'id', None)
        if not had:
            test.id = 3
        fig = Figure()
        FigureCanvasAgg(fig)
        with self.ctx.must('%s of one test' % cls.__name__):
            cls(fig).plot(test)
        axes = curves(fig)
        if not had:
            test.id = had
        if c < 16:
            # rounding of the mean shows in empty parts of a spectrum
            tol = 1e-9 * float(np.max(np.abs(test.temporal['u_y']))) \
                if 'Spectrogram' in CLASSES[c] else 0.
            with np.errstate(all='ignore'):
                want = expected(CLASSES[c], self.values[t], self.datas[t])
            for e in want:
                if len(e) == 3:
                    if not follows(axes, *e):
                        raise Violation('not-the-results', '%s: no curve is '
                                        'that of the results' % CLASSES[c])
                    continue
                x, y = e
                if not contains(axes, arr(x), arr(y), tol):
                    raise Violation('not-the-data', '%s does not show the '
                                    'data of its test (x %s.., y %s..)' % (
                                        CLASSES[c], arr(x)[:3], arr(y)[:3]))
        return axes

    def fresh(self, c, ts, view=look):
        """The picture of these tests on a new figure."""
        from matplotlib.figure import Figure
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        fig = Figure()
        FigureCanvasAgg(fig)
        p = self.classes[c](fig)
        for t in ts:
            had = getattr(self.tests[t], 'id', None)
            if not had:
                self.tests[t].id = 3
            p.plot(self.tests[t])
            if not had:
                self.tests[t].id = had
        p.rearrange()
        return view(fig)

    def step(self, n, op):
        ctx, plt = self.ctx, self.plt
        ts = []
        for t in op['tests']:
            t %= len(self.tests)
            if t not in ts:
                ts.append(t)
        cs = list(range(16)) if op['all'] else op['plots']
        args = [] if op['all'] else [self.classes[c] for c in cs]
        kind = op['op']
        ctx.log(n, kind, ts, cs)
        if kind == 'user':
            # the caller's own figure
            f = plt.figure(90 + n)
            f.add_subplot(111).plot([1, 2], [3, n])
            kind = 'plot'
            mine = f
        else:
            mine = None
        if kind == 'report':
            # somebody draws the same tests into other figures
            for c in cs[:2]:
                with ctx.must('drawing'):
                    self.fresh(c, ts[:1])
            return
        if kind == 'facade':
            from emva1288.process import Emva1288
            path = [os.path.join(self.path0, f)
                    for f in sorted(os.listdir(self.path0))
                    if f.endswith('.txt')][0]
            with ctx.must('facade'):
                e = Emva1288(path)
                self.made = []
                e.plot(*args)
            self.judge(n, cs, [0])
            return
        if kind == 'again' and self.objs:
            k = sorted(self.objs)[int(op['at'] * len(self.objs))]
            obj = self.objs[k]
            ts = list(k)
            ctx.nontrivial = True
            ctx.probe('object used again')
        else:
            with ctx.must('Plotting1288'):
                obj = self.plotting.Plotting1288(*[self.tests[t] for t in ts])
            self.objs[tuple(ts)] = obj
        self.made = []
        if kind == 'fails':
            self.fail_in = int(op['at'] * len(ts))
            at = int(op['at'] * 7 * len(args)) % (len(args) + 1)
            bad = args[:at] + [self.user] + args[at:]
            try:
                obj.plot(*bad)
                raise Violation('failure-hidden', 'a plot raised, the call '
                                'returned')
            except PlotFails as e:
                kernel.clear_tb(e)
                ctx.fault('plot fails')
            except Violation:
                raise
            except Exception as e:
                kernel.clear_tb(e)
                ctx.fault('plot fails')
            self.fail_in = None
            return
        if kind == 'interrupt':
            exc = {'KeyboardInterrupt': KeyboardInterrupt,
                   'MemoryError': MemoryError}[op['exc']]
            with AsyncInjector(ctx, int(op['at'] ** 2 * 700), exc) as inj:
                try:
                    obj.plot(*args)
                except Violation:
                    raise
                except (Exception, KeyboardInterrupt) as e:
                    if inj.fired is None:
                        raise
                    kernel.clear_tb(e)
            if inj.fired is not None:
                return
        else:
            with ctx.must('plot'):
                obj.plot(*args)
        self.judge(n, cs, ts)
        if mine is not None:
            axes = curves(mine)
            ctx.check(plt.fignum_exists(90 + n) and len(axes) == 1 and
                      len(axes[0]) == 1, 'foreign-figure',
                      'a figure of the caller was changed')
            plt.close(mine)

    def judge(self, n, cs, ts):
        ctx, plt = self.ctx, self.plt
        made = [(type(p), p, f) for p, f in self.made]
        what = 'call %d' % n
        want = sorted(self.classes[c].__name__ for c in cs)
        got = sorted(k.__name__ for k, _, _ in made)
        if got != want:
            raise Violation('plots', '%s: drew %s, requested %s'
                            % (what, got, want))
        if len({id(f) for _, _, f in made}) != len(made):
            raise Violation('plots', '%s: two plots share a figure' % what)
        left = list(made)
        for c in cs:
            hit = [m for m in left if m[0] is self.classes[c]][0]
            left.remove(hit)
            fig = hit[2]
            name = self.classes[c].__name__
            num = getattr(fig, 'number', None)
            if num is None or not plt.fignum_exists(num) or \
                    plt.figure(num) is not fig:
                raise Violation('plots', '%s: the figure of %s is not shown'
                                % (what, name))
            axes = curves(fig)
            alone, want = self.pristine(c, ts)
            ref = [[] for _ in alone[0]]
            for one in alone:
                for a, ls in zip(ref, one):
                    a.extend(ls)
            if len(axes) != len(ref) or keys(axes) != keys(ref):
                na = [len(a) for a in axes]
                nr = [len(a) for a in ref]
                raise Violation('curves', '%s: %s of tests %s shows %s curves '
                                'per axes, %s expected%s' % (
                                    what, name, ts, na, nr,
                                    '' if na != nr else ', others'))
            self.judge_look(what, name, want, ts, fig)
            ctx.probe('figures')

    def judge_look(self, what, name, want, ts, fig):
        got = look(fig)
        if got != want:
            d = [(a, b) for g, w in zip(got, want)
                 for a, b in zip(g, w) if a != b][:2]
            raise Violation('look', '%s: %s of tests %s differs from a new '
                            'figure: %s' % (what, name, ts, d))


CHECK = C17()
