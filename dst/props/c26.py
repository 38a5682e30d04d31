"""C26 Planned operating points are those that were requested."""
import numpy as np

from .. import camops, kernel, pipe, world
from ..check import Check
from ..kernel import Skip, Violation
from ..sched import AsyncInjector, Scheduler

H, C = 6.62607015e-34, 299792458.       # the code's are 0.1 % off
PHYS = 5e-3


def photons(cam, rad, texp):
    """Photons per pixel and wavelength, by the standard's formula."""
    w = np.asarray(cam.qe.w) * 1e-9
    f = cam.environment['f_number']
    e = np.asarray(rad, dtype=float) * np.pi / (1 + (2. * f) ** 2) * w
    return e * (cam.pixel_area * 1e-12) * (texp * 1e-9) * w / (H * C)


def light(cam, rad, texp):
    """Mean grey value of the light."""
    return float(cam.K) * float(np.mean(np.sum(
        photons(cam, rad, texp) * cam.qe.qe, axis=2)))


def dark(spec, cam, texp):
    """Mean grey value of the dark current."""
    t = cam.environment['temperature']
    return float(cam.K) * spec.get('dark_current_ref', 30.) * 2. ** (
        (t - spec['temperature_ref']) / spec['temperature_doubling']
        ) * texp * 1e-9


def copy_points(p):
    return {k: [(t, [np.array(r, dtype=float, copy=True) for r in rs])
                for t, rs in v.items()] for k, v in p.items()}


def same_points(a, b):
    return set(a) == set(b) and all(
        len(a[k]) == len(b[k]) and all(
            t == u and len(x) == len(y) and
            all(np.array_equal(i, j) for i, j in zip(x, y))
            for (t, x), (u, y) in zip(a[k], b[k])) for k in a)


class C26(Check):
    id = 'C26'
    runs = {'quick': 2500, 'thorough': 60000}
    rule = ('one run = a history of plans, datasets, illumination '
            'computations, grabs and changes of settings on one or two '
            'cameras, some interrupted and repeated, some in threads; every '
            'plan is compared with the request; non-trivial = an earlier '
            'plan, an interruption or a thread')
    real = ['points generator, camera, dataset generator']
    stubs = ['operating system entropy', 'thread scheduler',
             'instants of asynchronous exceptions']
    assumptions = ['the dark current does not fill the range of the '
                   'converter (otherwise the run is skipped)']
    shrink_lists = ('ops', 'cams')
    shrink_min = {'ops': 1, 'cams': 1}
    shrink_ints = {'width': 4, 'height': 4, 'steps': 3, 'L': 3}

    def setup(self):
        world.load()

    def gen_req(self, rng, spec):
        fixed = rng.choice([None, None, 'f'])
        if fixed:
            fixed = rng.choice([2e6, 5e6, 1234567.0, rng.uniform(1e6, 2e7),
                                rng.randint(10 ** 6, 10 ** 7)])
        r = {'fixed': fixed, 'steps': rng.choice([2, 3, 4, 5, 6, 7, 10, 11, 23, 100]),
             'tmin': rng.choice([None, None, rng.uniform(2e5, 4e6)]),
             'tmax': rng.choice([None, None, rng.uniform(5e6, 6e7)]),
             'gain': rng.choice([None, None, rng.random()]),
             'bo': rng.choice([None, None, 0, rng.random()]),
             # fractions of the saturating light
             'rmin': rng.choice([None, None, rng.uniform(.01, .3)]),
             'rmax': rng.choice([None, None, rng.uniform(.5, 1.5)]),
             'asarray': rng.random() < .3}
        return r

    def gen(self, rng, tier, i):
        cams = []
        for _ in range(rng.choice([1, 1, 2])):
            s = camops.gen_spec(rng)
            s.update(width=rng.randint(4, 9), height=rng.randint(4, 9),
                     _prnu=None, _dsnu=None,
                     temperature_ref=rng.choice([30., 22.]),
                     temperature_doubling=rng.choice([8., 6.]),
                     dark_current_ref=rng.choice([0., 30., 300.]),
                     K_steps=rng.choice([1, 5, 17]),
                     blackoffset_steps=rng.choice([2, 5, 17]))
            cams.append(s)
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4, 6])):
            k = rng.randrange(len(cams))
            op = {'op': rng.choice(['points'] * 4 + [
                'radiance', 'radiance', 'set', 'set', 'grab', 'dataset',
                'interrupt']), 'cam': k, 'seed': rng.getrandbits(30)}
            if op['op'] in ('points', 'dataset', 'interrupt'):
                op['req'] = self.gen_req(rng, cams[k])
                op['at'] = rng.random()
                op['L'] = rng.randint(3, 4)
            elif op['op'] == 'radiance':
                op['mean'] = rng.choice([None, 0, rng.random(),
                                         rng.uniform(.2, 1.2)])
                op['texp'] = rng.choice([None, None, rng.uniform(1e6, 1e8)])
            elif op['op'] == 'set':
                op['what'] = rng.choice(['exposure', 'K', 'bo', 'temperature',
                                         'f_number'])
                op['v'] = rng.random()
            ops.append(op)
        return {'cams': cams, 'ops': ops,
                'threads': len(cams) > 1 and rng.random() < .4,
                'seed': rng.getrandbits(30)}

    # ------------------------------------------------------------------
    def execute(self, plan, ctx):
        with camops.Entropy(plan['seed']):
            np.random.seed(plan['seed'] % 2 ** 32)
            with ctx.must('camera'):
                cams = [camops.Built(s) for s in plan['cams']]
            self.kept = [[] for _ in cams]
            if plan['threads'] and len(cams) > 1:
                s = Scheduler(ctx, kernel.derive(plan['seed'], 'threads'),
                              rate=.1)

                def work(k):
                    for n, op in enumerate(plan['ops']):
                        if op['cam'] == k and op['op'] != 'interrupt':
                            self.step(plan, ctx, cams, n, op)
                for k in range(len(cams)):
                    s.spawn('cam%d' % k, lambda k=k: work(k))
                s.run()
                ctx.nontrivial = True
            else:
                for n, op in enumerate(plan['ops']):
                    self.step(plan, ctx, cams, n, op)
            for k, kept in enumerate(self.kept):
                for n, (live, frozen) in enumerate(kept):
                    ctx.check(same_points(copy_points(live), frozen),
                              'plan-changed', 'plan %d of camera %d was '
                              'changed afterwards' % (n, k))

    def step(self, plan, ctx, cams, n, op):
        k = op['cam'] % len(cams)
        b, spec = cams[k], plan['cams'][k]
        cam = b.cam
        kind = op['op']
        ctx.log(n, kind, k)
        if kind == 'grab':
            with ctx.must('grab'):
                cam.grab(0)
        elif kind == 'set':
            v = op['v']
            with ctx.must('setting'):
                if op['what'] == 'exposure':
                    cam.exposure = 1e6 + v * 2e7
                elif op['what'] == 'K':
                    cam.K = spec['K_min'] + v * (spec['K_max'] -
                                                 spec['K_min'])
                elif op['what'] == 'bo':
                    cam.blackoffset = v * spec['blackoffset_max']
                elif op['what'] == 'temperature':
                    cam.environment['temperature'] = 15 + 25 * v
                else:
                    cam.environment['f_number'] = 2 + 8 * v
            ctx.fault('settings changed between plans')
        elif kind == 'radiance':
            self.radiance(ctx, b, spec, op)
        else:
            self.points(ctx, b, spec, op, n, k)

    # ------------------------------------------------------------------
    def radiance(self, ctx, b, spec, op):
        cam = b.cam
        mean, texp = op['mean'], op['texp']
        kw = {}
        t = float(cam.exposure) if texp is None else texp
        d = dark(spec, cam, t)
        m = float(cam.img_max)
        if mean is not None:
            m = mean * cam.img_max
            kw['mean'] = m
        if m < d or (m == 0 and d > 0):
            ctx.probe('dark current alone exceeds the grey value')
            return
        if texp is not None:
            kw['exposure'] = texp
        before = camops.settings(cam)
        with ctx.must('get_radiance_for'):
            rad = cam.get_radiance_for(**kw)
        diff = camops.differ(before, camops.settings(cam))
        ctx.check(diff is None, 'radiance:settings', '%s changed' % diff)
        rad = np.asarray(rad, dtype=float)
        ctx.log('radiance', '%.9g' % rad.mean())
        got = light(cam, rad, t)
        ctx.check(abs(got + d - m) <= PHYS * m + 1e-9, 'radiance:value',
                  lambda: 'requested a mean of %.4f at %s ns, the light '
                  'gives %.4f and the dark current %.4f' % (m, t, got, d))
        # and so do frames
        with ctx.must('grab'):
            was = cam.exposure
            cam.exposure = t
            fr = [np.asarray(cam.grab(rad), dtype=float) for _ in range(6)]
            cam.exposure = was
        K = float(cam.K)
        base = K * spec['dark_signal_0'] + float(cam.blackoffset)
        var = K * K * (m / K + spec['sigma2_dark_0']) + .4
        exp = m + base
        # spread of the pixels of a camera whose efficiency varies
        spread = float(np.max(np.abs(
            photons(cam, rad, t) * cam.qe.qe).sum(axis=2))) * K - got
        top = min(float(cam.img_max), K * spec['u_esat'])
        if exp + spread + 7 * np.sqrt(var) > top or \
                base - 7 * np.sqrt(var) < 0:
            return
        n = 6 * cam.width * cam.height
        x = float(np.mean(fr))
        ctx.check(abs(x - exp) <= 6.5 * np.sqrt(var / n) + PHYS * m + .02,
                  'radiance:frames', lambda: 'frames of mean %.3f, expected '
                  '%.3f (requested %.3f)' % (x, exp, m))
        ctx.probe('frames at the requested grey value')

    def args(self, ctx, cam, spec, req):
        """Keyword arguments of a plan, by the camera's settings in force."""
        kw = {'steps': req['steps']}
        if req['fixed'] is not None:
            kw['exposure_fixed'] = req['fixed']
        for a, k in (('tmin', 'exposure_min'), ('tmax', 'exposure_max')):
            if req[a] is not None:
                kw[k] = req[a]
        if req['gain'] is not None:
            kw['gain'] = spec['K_min'] + req['gain'] * (
                spec['K_max'] - spec['K_min'])
        if req['bo'] is not None:
            kw['blackref'] = req['bo'] * spec['blackoffset_max']
        self.levels(cam, spec, req, kw)
        return kw

    def levels(self, cam, spec, req, kw):
        """Given illuminations, in W/sr/cm^2 (about the fractions asked)."""
        one = np.ones((cam.height, cam.width, len(cam.qe.w)))
        t = req['fixed'] or 1e7
        unit = light(cam, one, t) / float(cam.K)
        for a, k in (('rmin', 'radiance_min'), ('rmax', 'radiance_max')):
            if req[a] is not None:
                v = req[a] * spec['u_esat'] * .8 / unit
                kw[k] = one * v if req['asarray'] else float(v)

    def points(self, ctx, b, spec, op, n, k):
        from emva1288.camera.dataset_generator import DatasetGenerator
        from emva1288.camera.points_generator import PointsGenerator
        req = op['req']
        cam = b.cam
        if op['op'] == 'dataset':
            kw = {x: v for x, v in spec.items() if not x.startswith('_')}
            ask = {}
            self.levels(cam, spec, req, ask)
            with ctx.must('generation'):
                g = DatasetGenerator(steps=req['steps'], L=op['L'],
                                     exposure_fixed=req['fixed'],
                                     outdir=ctx.path('out%d' % n), qe=b.qe,
                                     **dict(kw, **ask))
                p = g.points
            cam = g.cam
            want = dict(ask, steps=req['steps'])
            if req['fixed'] is not None:
                want['exposure_fixed'] = req['fixed']
            # the settings it was built with
            from emva1288.camera.camera import Camera
            fresh = Camera(qe=b.qe, **kw)
            before = float(fresh.K), float(fresh.blackoffset)
            self.dataset(ctx, g, p, cam)
            ctx.probe('datasets')
        else:
            want = self.args(ctx, cam, spec, req)
            before = float(cam.K), float(cam.blackoffset)
            if op['op'] == 'interrupt':
                inj = AsyncInjector(ctx, int(op['at'] * 90),
                                    KeyboardInterrupt)
                try:
                    with inj:
                        PointsGenerator(cam, **want)
                except KeyboardInterrupt as e:
                    kernel.clear_tb(e)
                # what the caller asks for is in force
                want.setdefault('gain', before[0])
                want.setdefault('blackref', before[1])
                ctx.nontrivial = True
            with ctx.must('plan'):
                p = PointsGenerator(cam, **want).points
        self.judge(ctx, cam, spec, want, before, p)
        if self.kept[k]:
            ctx.nontrivial = True
        self.kept[k].append((p, copy_points(p)))
        ctx.log('plan', [(t, ['%.9g' % np.mean(r) for r in rs])
                         for t, rs in p['temporal'].items()])
        ctx.probe('plans')

    def dataset(self, ctx, g, p, cam):
        """The descriptor states the photons of the plan."""
        with ctx.must('parsing'):
            imgs = pipe.parse(g.descriptor_path).images
        for kind in ('temporal', 'spatial'):
            for t, rads in p[kind].items():
                got = sorted(float(x) for x in imgs[kind][t])
                want = sorted(float(np.mean(np.sum(photons(cam, r, t),
                                                   axis=2))) for r in rads)
                ctx.check(len(got) == len(want) and np.allclose(
                    got, want, rtol=PHYS, atol=2e-3), 'photons', lambda:
                    'exposure %s: descriptor states %s photons, the plan is '
                    '%s' % (t, got, want))

    def nearest(self, ctx, what, got, avail, asked):
        avail = np.asarray(avail, dtype=float)
        d = np.min(np.abs(avail - asked))
        ctx.check(abs(abs(got - asked) - d) <= 1e-9 * (1 + abs(asked)),
                  'plan:' + what, lambda: '%s %r in force, asked for %r of %s'
                  % (what, got, asked, avail[:5]))

    def judge(self, ctx, cam, spec, want, before, p):
        steps = want['steps']
        self.nearest(ctx, 'gain', float(cam.K), cam.Ks,
                     want.get('gain', before[0]))
        self.nearest(ctx, 'black offset', float(cam.blackoffset),
                     cam.blackoffsets, want.get('blackref', before[1]))
        ctx.check(set(p) == {'temporal', 'spatial'}, 'plan:kinds', str(set(p)))
        shape = (cam.height, cam.width, len(cam.qe.w))
        for v in p.values():
            for rs in v.values():
                for r in rs:
                    ctx.check(np.shape(r) == shape, 'plan:shape',
                              str(np.shape(r)))
        fixed = want.get('exposure_fixed')
        top = float(cam.img_max)
        if fixed is None:
            lo = want.get('exposure_min', spec['exposure_min'])
            hi = want.get('exposure_max', spec['exposure_max'])
            exps = [lo + (hi - lo) * i / (steps - 1.) for i in range(steps)]
            got = list(p['temporal'])
            ctx.check(len(got) == steps and np.allclose(
                sorted(got), sorted(exps), rtol=0, atol=.051),
                'plan:exposures', lambda: '%s instead of %s' % (
                    got[:4] + got[-1:], exps[:4] + exps[-1:]))
            mid = list(p['spatial'])
            ctx.check(len(mid) == 1 and mid[0] in got and
                      abs(mid[0] - exps[steps // 2]) < .051, 'plan:spatial',
                      lambda: '%s of %s' % (mid, got))
            first = None
            for kind in ('temporal', 'spatial'):
                for t, rs in p[kind].items():
                    ctx.check(len(rs) == 2, 'plan:radiances', '%d at %s' % (
                        len(rs), t))
                    br, dk = sorted(rs, key=np.mean)[::-1]
                    ctx.check(not np.any(dk), 'plan:dark', 'dark point lit')
                    first = br if first is None else first
                    ctx.check(np.array_equal(br, first), 'plan:radiances',
                              'the illumination changes at %s' % t)
            d = dark(spec, cam, hi)
            if d >= top:
                raise Skip('dark current saturates')
            s = light(cam, first, hi)
            ctx.check(abs(s + d - top) <= PHYS * top, 'plan:saturation',
                      lambda: 'light of %.3f and dark current of %.3f at the '
                      'longest exposure, full scale %s' % (s, d, top))
            return
        for kind in ('temporal', 'spatial'):
            ctx.check(len(p[kind]) == 1 and
                      abs(list(p[kind])[0] - fixed) <= .501, 'plan:exposures',
                      lambda: '%s: %s instead of %s' % (
                          kind, list(p[kind]), fixed))
        rs = list(p['temporal'].values())[0]
        ctx.check(len(rs) == steps + 1, 'plan:radiances', '%d' % len(rs))
        zero = [r for r in rs if not np.any(r)]
        lev = sorted(float(np.mean(r)) for r in rs)[1:]
        ctx.check(len(zero) == 1, 'plan:dark', '%d dark points' % len(zero))
        ctx.check(all(np.ptp(r) <= 1e-9 * np.max(r) for r in rs if np.any(r)),
                  'plan:radiances', 'not uniform')
        step = (lev[-1] - lev[0]) / (steps - 1.)
        ctx.check(np.allclose(lev, [lev[0] + step * i for i in range(steps)],
                              rtol=1e-9, atol=1e-12 * lev[-1]),
                  'plan:levels', lambda: 'not equally spaced: %s' % lev[:5])
        one = np.ones(shape)
        # levels chosen per wavelength are applied as their mean
        tol = .02 if len(cam.qe.w) == 1 else .35
        d = dark(spec, cam, fixed)
        if d >= top * .9:
            raise Skip('dark current saturates')
        ends = []
        for key in ('radiance_min', 'radiance_max'):
            if want.get(key) is None:
                ends.append(None)
            else:
                ends.append(float(np.mean(want[key])))
        if ends[0] is not None and ends[1] is None and \
                ends[0] >= .95 * lev[-1]:
            ctx.probe('given minimum above saturation')
            ctx.check(any(abs(x - ends[0]) <= 1e-9 * ends[0] for x in lev),
                      'plan:minimum', 'given radiance not in the plan')
            return
        if ends[1] is not None and ends[0] is None and \
                ends[1] <= 1.05 * lev[0]:
            ctx.probe('given maximum below the automatic minimum')
            return
        if ends[0] is not None:
            ctx.check(abs(lev[0] - ends[0]) <= 1e-9 * ends[0], 'plan:minimum',
                      lambda: 'lowest radiance %r, %r was given' % (
                          lev[0], ends[0]))
        else:
            m = float(cam.K) * spec['dark_signal_0'] + d + float(
                cam.blackoffset)
            t = (top - m) / steps + m - d
            s = light(cam, one * lev[0], fixed)
            ctx.check(abs(s - t) <= (tol + .05) * t + 1., 'plan:minimum',
                      lambda: 'lowest light gives %.3f, expected about %.3f '
                      'of %s' % (s, t, top))
        if ends[1] is not None:
            ctx.check(abs(lev[-1] - ends[1]) <= 1e-9 * ends[1],
                      'plan:maximum', lambda: 'highest radiance %r, %r was '
                      'given' % (lev[-1], ends[1]))
        else:
            s = light(cam, one * lev[-1], fixed)
            ctx.check(abs(s + d - top) <= tol * top, 'plan:maximum',
                      lambda: 'highest light gives %.3f, and the dark current '
                      '%.3f of %s' % (s, d, top))
        mid = list(p['spatial'].values())[0]
        br = sorted(mid, key=np.mean)
        ctx.check(len(mid) == 2 and not np.any(br[0]) and
                  abs(np.mean(br[1]) - lev[steps // 2]) <= 1e-9 * lev[-1],
                  'plan:spatial', 'not the middle level and dark')


CHECK = C26()
