"""C03 Uniform flicker between the frames of a pair is not noise."""
import numpy as np

from .. import compare, kernel, lab, pipe, ref, world
from ..check import Check
from ..kernel import Skip, Violation


class C03(Check):
    id = 'C03'
    runs = {'quick': 900, 'thorough': 30000}
    rule = ('one run = one campaign and the same campaign with uniform '
            'offsets injected into single frames of some pairs; non-trivial = '
            'at least one offset was injected')
    real = ['parser', 'loader', 'data', 'results', 'routines']
    stubs = ['camera and light source (simulated device)']
    shrink_ints = dict(lab.CAMPAIGN_SHRINK)

    def setup(self):
        world.load()

    def gen(self, rng, tier, i):
        p = lab.gen_campaign(rng, faults=rng.random() < .3)
        return {'camp': p, 'faults': [
            {'pt': rng.random(), 'frame': rng.randint(0, 1),
             'amount': rng.uniform(-1, 1) ** 3, 'dark': rng.random() < .3}
            for _ in range(rng.randint(1, 6))]}

    def execute(self, plan, ctx):
        p = plan['camp']
        pts = lab.record(p, ctx)
        full = 2 ** p['bits'] - 1
        base = pipe_points(pts, p, ctx, 'a')
        shift = {}
        temporal = [x for x in pts if x.kind == 'temporal']
        for f in plan['faults']:
            pool = [x for x in temporal if (x.photons == 0.0) == f['dark']]
            pt = pool[int(f['pt'] * len(pool))]
            img = pt.imgs[f['frame']].astype(np.int64)
            room = full - int(img.max()) if f['amount'] > 0 \
                else int(img.min())
            d = int(round(f['amount'] * room))
            if not d:
                continue
            pt.imgs[f['frame']] = (img + d).astype(pt.imgs[f['frame']].dtype)
            key = (pt.texp, pt.photons)
            shift[key] = shift.get(key, 0) + d
            ctx.fault('flicker offset')
        got = pipe_points(pts, p, ctx, 'b')
        t0, t1 = base['temporal'], got['temporal']
        texps = sorted({x.texp for x in temporal})
        bright = sorted((x.texp, x.photons) for x in temporal if x.photons)
        for i, (t, ph) in enumerate(bright):
            self.point(t0, t1, 'u_y', 's2_y', i, shift.get((t, ph), 0),
                       t, ph)
        n = len(t0['u_ydark'])
        for i in range(n):
            t = texps[i] if len(texps) > 1 else texps[0]
            self.point(t0, t1, 'u_ydark', 's2_ydark', i,
                       shift.get((t, 0.0), 0), t, 0.0)
        for k in ('u_p', 'texp'):
            ctx.check(np.array_equal(t0[k], t1[k]), 'flicker:axis',
                      'axis %s changed' % k)
        s0, s1 = base['spatial'], got['spatial']
        for k in s0:
            ctx.check(np.array_equal(np.asarray(s0[k]), np.asarray(s1[k])),
                      'flicker:spatial', 'spatial %s changed' % k)
        try:
            d, want = compare.reference(pts)
        except (ref.Ambiguous, ref.Undefined):
            ctx.probe('results not compared')
        else:
            compare.check_data(got, d, 'flicker:data')
            with ctx.must('results'):
                res = pipe.results(got)
                compare.check_results(
                    res, want, ctx, 'flicker:results',
                    ['index_u_ysat', 'R', 'K', 'QE', 'sigma_y_dark'])
        ctx.log(lab.campaign_summary(p), sorted(shift.items()),
                [float('%.9g' % x) for x in t1['s2_y']])

    def point(self, t0, t1, mean, var, i, d, texp, ph):
        m0, m1 = float(t0[mean][i]), float(t1[mean][i])
        v0, v1 = float(t0[var][i]), float(t1[var][i])
        tol = 1e-9 * max(1., abs(m0), abs(m1))
        if abs(m1 - m0 - d / 2) > tol:
            raise Violation('flicker:mean', 'point %s/%s: mean %r became %r '
                            'with offset %d' % (texp, ph, m0, m1, d))
        # rounding of the squared mean difference
        tol = 1e-9 * max(1., abs(v0)) + 1e-12 * d * d + \
            1e-12 * abs(d) * max(m0, m1)
        if abs(v1 - v0) > tol:
            raise Violation('flicker:variance', 'point %s/%s: variance %r '
                            'became %r with offset %d' % (texp, ph, v0, v1,
                                                          d))


def pipe_points(pts, p, ctx, name):
    out = ctx.dir(name)
    path = lab.store(pts, p, out)
    with ctx.must('processing'):
        return pipe.process(path)


CHECK = C03()
