"""C01 Campaign results equal the standard's computation on the frames."""
import shutil
import os

from .. import compare, kernel, lab, pipe, ref, world
from ..check import Check
from ..kernel import Skip, Violation


class C01(Check):
    id = 'C01'
    runs = {'quick': 1200, 'thorough': 40000}
    rule = ('one run = one campaign recorded from a simulated device with its '
            'own noise, flicker, lost frames and hot pixels, stored to disk, '
            'processed by the real pipeline and compared with the reference '
            'model; non-trivial = a disturbance fired or the campaign has '
            'saturated points; distinct by digest of all frames and results')
    real = ['parser', 'loader', 'data', 'results', 'routines', 'facade',
            'PIL and file system']
    stubs = ['camera and light source (simulated device, own noise model)']
    assumptions = ['at least 10x10 pixels, at least 5 bright points (2 to 4: only '
                   'the data and the dark current are checked), first '
                   'point below 70 % of saturation',
                   'comparison tolerances: 1e-9 for closed forms, 2e-6 for '
                   'iterative fits, widened by conditioning']
    shrink_ints = dict(lab.CAMPAIGN_SHRINK)

    def setup(self):
        world.load()

    def gen(self, rng, tier, i):
        p = lab.gen_campaign(rng, small=rng.random() < (.9 if tier == 'quick'
                                                        else .6))
        few = rng.random() < .08
        if few:
            p.update(multi=True, n=rng.choice([2, 2, 3, 4]))
        return {'camp': p, 'few': few,
                'area': rng.choice([None, None, 4.0, 25.0]),
                'force': rng.random() < .15,
                'facade': rng.random() < .4,
                'via': rng.choice(['attr', 'attr', 'results', 'sections']),
                'before': rng.choice([None, None, None, rng.getrandbits(30)]),
                'path': rng.choice(['files', 'files', 'fload']),
                'order': rng.getrandbits(30)}

    def execute(self, plan, ctx):
        p = plan['camp']
        pts = lab.record(p, ctx)
        if plan['few']:
            self.few(plan, pts, ctx)
            return
        try:
            d, _ = compare.reference(pts)
            forced = None
            if plan['force']:
                forced = max(1, int(len(d['temporal']['u_p']) * .8))
            want = ref.results(d, plan['area'], forced)
        except (ref.Ambiguous, ref.Undefined) as e:
            raise Skip(str(e))
        sat = want['index_u_ysat'][0]
        if sat < len(d['temporal']['u_p']) - 1:
            ctx.probe('saturation inside the series')
            ctx.nontrivial = True
        out = ctx.dir('camp')
        if plan['before'] is not None:
            # an earlier campaign was recorded and processed in this place
            old = dict(p, seed=plan['before'])
            path = lab.store(lab.record(old, ctx), old, out)
            with ctx.must('processing'):
                r = pipe.results(pipe.process(path))
                kernel.attempt(lambda: (r.K, r.DSNU1288, r.PRNU1288))
                if plan['facade']:
                    from emva1288.process import Emva1288
                    kernel.attempt(lambda: Emva1288(path).xml())
            shutil.rmtree(out)
            ctx.probe('directory used before')
        path = lab.store(pts, p, out)
        with ctx.must('processing'):
            parsed = pipe.parse(path)
            kw = {}
            if plan['path'] == 'fload':
                byname = {n: img for pt in pts
                          for n, img in zip(pt.names, pt.imgs)}

                def fload(fname, tag, scale=None):
                    assert tag == 'x' and scale == 1
                    return byname[os.path.relpath(
                        fname, os.path.join(out, 'images'))]
                kw = {'fload': fload, 'fload_args': ['x'],
                      'fload_kwargs': {'scale': 1}}
            loaded = pipe.load(parsed.images, **kw)
            dat = pipe.data(loaded.data)
            res = pipe.results(dat.data, pixel_area=plan['area'],
                               index_u_ysat=forced)
        f = parsed.format
        ctx.check((f.get('bits'), f.get('width'), f.get('height')) ==
                  (p['bits'], p['w'], p['h']), 'format', lambda: str(f))
        compare.check_data(dat.data, d)
        if plan['via'] == 'attr':
            with ctx.must('results'):
                got = compare.snapshot(res)
        else:
            with ctx.must('results'):
                if plan['via'] == 'results':
                    tab = res.results
                else:
                    tab = {k: v for s in res.results_by_section.values()
                           for k, v in s.items()}
                got = compare.snapshot(res)
            n = 0
            for k, v in tab.items():
                if k in got:
                    n += 1
                    x = v['data'] if 'data' in v else v['value']
                    if not compare.same(x, got[k]):
                        raise Violation('table', '%s = %s in the table, %s '
                                        'as attribute' % (
                                            k, compare.brief(x),
                                            compare.brief(got[k])))
            ctx.check(n >= 30, 'table', 'only %d known entries' % n)
        compare.check_results(got, want, ctx)
        compare.check_histograms(got, d)
        if plan['facade'] and plan['area'] is None and forced is None:
            from emva1288.process import Emva1288
            with ctx.must('facade'):
                e = Emva1288(path)
                xml = e.xml()
            from lxml import etree
            root = etree.fromstring(xml)
            vals = {el.tag: el.findtext('value') for sec in root for el in sec}
            for k in ('R', 'K', 'QE', 'DR', 'sigma_d', 'DSNU1288', 'PRNU1288'):
                if k in vals and k in want and want[k][1] is not None:
                    if not compare.close(float(vals[k]), *want[k]):
                        raise Violation('facade', '%s = %s, expected %r'
                                        % (k, vals[k], want[k]))
            ctx.probe('facade')
        ctx.log('campaign', lab.campaign_summary(p), sat,
                [float('%.6g' % want[k][0]) for k in ('R', 'K', 's_2_y')])

    def few(self, plan, pts, ctx):
        """Too few exposure times for anything but the dark current."""
        p = plan['camp']
        d = ref.data_from_points([(x.kind, x.texp, x.photons, x.imgs)
                                  for x in pts])
        path = lab.store(pts, p, ctx.dir('camp'))
        with ctx.must('processing'):
            got = pipe.process(path)
            r = pipe.results(got)
        compare.check_data(got, d)
        t = d['temporal']
        uniq = len(set(t['texp'].tolist()))
        ctx.probe('%d exposure times' % uniq)
        with ctx.must('results'):
            mean = r.u_I_mean_DN
        want, tol = float('nan'), 0.
        if uniq > 2:
            want, _, tol, _ = (x * 1e9 for x in ref.exposure_line(
                t['texp'], t['u_ydark']))
        else:
            for n in ('u_I_mean', 'u_I_var', 'u_I_var_DN'):
                with ctx.must('results'):
                    v = compare.read(r, n)
                ctx.check(v is not None and v != v, 'results:' + n,
                          '%r with %d exposure times' % (v, uniq))
        ctx.check(compare.close(mean, want, tol), 'results:u_I_mean_DN',
                  'is %r, expected %r' % (mean, want))
        ctx.log('few', uniq, float('%.6g' % mean))


CHECK = C01()
