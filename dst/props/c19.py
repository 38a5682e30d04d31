"""C19 Automatic black offset and gain are the first suitable settings."""
import os

import numpy as np

from .. import camgen, camops, kernel, world
from ..check import Check
from ..kernel import Skip, Violation

LIMIT = .005           # pixels at zero
NOISE = .5             # grey values


class Device:
    """Replaces the frames of the camera (public Camera.grab) by scripted
    ones, and records the settings in force at every grab."""

    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.grabs = []
        self.count = {}
        self.rng = np.random.default_rng(plan['seed'])
        self.cache = {}

    # -- scripted frames -------------------------------------------------
    def frame(self, cam, ki, bi, odd):
        """Frame of the device at gain ki and offset bi."""
        key = (ki, bi, odd)
        if key in self.cache:
            return self.cache[key]
        s = self.plan['script']
        h, w = cam.height, cam.width
        r = np.random.default_rng(kernel.derive(self.plan['seed'], ki, bi))
        n = h * w
        img = 6 + r.integers(0, s['pattern'] + 1, n)
        pos = r.permutation(n)
        if odd:
            m = int(round(s['noise'][ki] ** 2 * n / s['amp'] ** 2))
            m = min(m, n)
            sign = np.where(np.arange(m) % 2, -1, 1) * s['amp']
            img[pos[:m]] += sign
            img += s['drift']
        # the dark pixels are the same ones in every frame
        z = int(round(s['zeros'][bi] * n))
        img[pos[n - z:]] = 0
        img = img.reshape(h, w).astype(
            np.uint8 if cam.bit_depth <= 8 else np.uint16)
        if len(self.cache) < 400:
            self.cache[key] = img
        return img

    def wild(self, cam):
        h, w = cam.height, cam.width
        n = h * w
        img = 5 + self.rng.integers(0, 2 + self.plan['script']['pattern'])
        img = np.full(n, img) + self.rng.choice(
            [0, 0, 0, 1], n) * self.rng.choice([0, 1, 2])
        z = int(self.rng.choice([0, .002, .01, .3, 1.]) * n)
        img[self.rng.permutation(n)[:z]] = 0
        return img.reshape(h, w).astype(
            np.uint8 if cam.bit_depth <= 8 else np.uint16)

    def __enter__(self):
        from emva1288.camera.camera import Camera
        self.cls, self.orig = Camera, Camera.grab
        dev = self

        def grab(cam, radiance, *a, **k):
            dev.ctx.sim_ns += int(cam.exposure)
            if len(dev.grabs) > dev.plan['limit']:
                raise Violation('termination', 'more than %d frames grabbed'
                                % dev.plan['limit'])
            ki = int(np.argmin(np.abs(cam.Ks - cam.K)))
            bi = int(np.argmin(np.abs(cam.blackoffsets - cam.blackoffset)))
            if dev.plan['mode'] == 'script':
                c = dev.count[ki, bi] = dev.count.get((ki, bi), -1) + 1
                img = dev.frame(cam, ki, bi, c % 2)
            elif dev.plan['mode'] == 'wild':
                img = dev.wild(cam)
            else:
                img = dev.orig(cam, radiance, *a, **k)
            dark = bool(np.all(np.asarray(radiance) == 0))
            env = dict(cam.environment)
            dev.grabs.append((ki, bi, float(cam.exposure), dark, img.copy(),
                              env))
            return img.copy()
        Camera.grab = grab
        return self

    def __exit__(self, *a):
        self.cls.grab = self.orig
        return False


class C19(Check):
    id = 'C19'
    runs = {'quick': 2000, 'thorough': 50000}
    rule = ('one run = one dataset generation with automatic black offset '
            'and/or gain on a device whose frames are scripted per setting, '
            'arbitrary, or those of the simulated camera; non-trivial = the '
            'first available value is not the suitable one')
    real = ['dataset generator, points generator, camera settings']
    stubs = ['frames of the camera (scripted and arbitrary devices)',
             'operating system entropy']
    assumptions = ['device frames are away from the two limits (0.5 % of the '
                   'pixels, half a grey value) by a margin, otherwise the '
                   'run is skipped']
    shrink_lists = ()
    shrink_ints = {'width': 20, 'height': 20}

    def setup(self):
        world.load()

    def gen(self, rng, tier, i):
        mode = rng.choice(['script'] * 6 + ['wild', 'real', 'real'])
        cam = camgen.gen_cam(rng, auto=1.)
        cam.update(width=rng.randint(30, 50), height=rng.randint(30, 50))
        if mode == 'real':
            cam.update(width=rng.randint(10, 40), height=rng.randint(10, 40))
            cam['dark_signal_0'] = rng.choice([0., 10., 30.])
            cam['sigma2_dark_0'] = rng.choice([0., 1., 10., 400.])
        full = 2 ** cam['bit_depth'] - 1
        cam['K_min'] = rng.choice([.01, .1, .3])
        # the dark current must not fill the range of the converter
        cam['K_max'] = min(cam['K_min'] * rng.choice([5, 40]), full / 70.)
        cam['K_steps'] = rng.choice([1, 2, 5, 17, 60])
        cam['blackoffset_max'] = max(2., full * rng.choice([.02, .06]))
        cam['blackoffset_min'] = rng.choice([0, 0, .5])
        cam['blackoffset_steps'] = rng.choice([1, 2, 5, 17, 60])
        given = rng.choice(['none'] * 5 + ['K', 'blackoffset', 'both'])
        if given in ('K', 'both'):
            cam['K'] = rng.uniform(cam['K_min'], cam['K_max'])
        if given in ('blackoffset', 'both'):
            cam['blackoffset'] = rng.uniform(0, cam['blackoffset_max'])
        nk, nb = cam['K_steps'], cam['blackoffset_steps']
        quiet = rng.choice([0, .3, .9, 1.])
        bad = rng.choice([0, .3, .9, 1.])
        script = {
            'noise': [rng.choice([0., .2, .4, .46]) if rng.random() < quiet
                      else rng.choice([.55, .6, .65, .8, 1.2, 4.])
                      for _ in range(nk)],
            'zeros': [rng.choice([.0065, .0075, .012, .03, .5, .995, 1.])
                      if rng.random() < bad
                      else rng.choice([0., 0., .001, .0035])
                      for _ in range(nb)],
            'amp': rng.choice([1, 1, 2, 5]),
            'pattern': rng.choice([0, 0, 2, 20, 200]),
            'drift': rng.choice([0, 0, 0, 2, 10])}
        return {'mode': mode, 'cam': cam, 'script': script,
                'given': given, 'steps': rng.randint(2, 4), 'L': 2,
                'fixed': rng.choice([None, None, 2000000.0]),
                'dsnu': rng.choice([None, None, rng.getrandbits(20)]),
                'limit': 40 * (nk + nb) + 200, 'seed': rng.getrandbits(30)}

    def execute(self, plan, ctx):
        with camops.Entropy(plan['seed']):
            self.body(plan, ctx)

    def body(self, plan, ctx):
        from emva1288.camera.camera import Camera
        from emva1288.camera.dataset_generator import DatasetGenerator
        np.random.seed(plan['seed'] % 2 ** 32)
        cam = plan['cam']

        def kw():
            k = camgen.camera_kwargs(cam, 1)
            if plan['dsnu'] is not None:
                k['dsnu'] = np.random.default_rng(plan['dsnu']).normal(
                    0, 20, (cam['height'], cam['width']))
            return k
        fresh = Camera(**kw())
        dev = Device(plan, ctx)
        out = ctx.path('out')
        given = {k: v for k, v in (('K', cam.get('K')),
                                   ('blackoffset', cam.get('blackoffset')))
                 if v is not None}
        with dev, ctx.must('generation'):
            g = DatasetGenerator(steps=plan['steps'], L=plan['L'],
                                 outdir=out, exposure_fixed=plan['fixed'],
                                 **kw())
        stored = len(os.listdir(os.path.join(out, 'images')))
        sel = dev.grabs[:len(dev.grabs) - stored]
        if plan['fixed'] is not None and sel:
            # the frame that measures the dark level for the series
            while sel and sel[-1][2] != cam['exposure_min']:
                sel = sel[:-1]
        series = dev.grabs[len(dev.grabs) - stored:]
        Ks, bos = np.array(fresh.Ks), np.array(fresh.blackoffsets)
        kset = {x[0] for x in series}
        bset = {x[1] for x in series}
        ctx.check(len(kset) == 1 and len(bset) == 1, 'series',
                  'the settings change during the series')
        ki, bi = kset.pop(), bset.pop()
        ctx.check(np.isclose(g.cam.K, Ks[ki], rtol=1e-9) and
                  np.isclose(g.cam.blackoffset, bos[bi], rtol=1e-9,
                             atol=1e-12), 'series',
                  'K or black offset is not one of the available ones')
        ctx.log('chosen', plan['mode'], ki, bi, len(sel), stored)
        # everything else is as configured
        a, b = camops.settings(fresh), camops.settings(g.cam)
        for k in ('K', 'blackoffset', 'exposure'):
            a.pop(k), b.pop(k)
        d = camops.differ(a, b)
        ctx.check(d is None, 'other-settings', '%s changed' % d)
        if 'K' in given:
            ctx.check(g.cam.K == fresh.K, 'given', 'K %r became %r' % (
                fresh.K, g.cam.K))
        if 'blackoffset' in given:
            ctx.check(g.cam.blackoffset == fresh.blackoffset, 'given',
                      'black offset %r became %r' % (fresh.blackoffset,
                                                     g.cam.blackoffset))
        if ki or bi:
            ctx.nontrivial = True
        if len(given) == 2:
            return
        # the selection looks at dark frames at minimal exposure, and does
        # not touch anything else
        for n, (k, o, t, dark, _img, env) in enumerate(sel):
            ctx.check(t == cam['exposure_min'], 'selection:exposure',
                      'frame %d of the selection at %s ns' % (n, t))
            ctx.check(dark, 'selection:light', 'frame %d is not dark' % n)
            ctx.check(env == dict(fresh.environment),
                      'selection:environment', str(env))
            if 'K' in given:
                ctx.check(np.isclose(Ks[k], fresh.K, rtol=1e-9),
                          'selection:gain', 'the given gain was changed')
            if 'blackoffset' in given:
                ctx.check(np.isclose(bos[o], fresh.blackoffset, rtol=1e-9,
                                     atol=1e-12), 'selection:offset',
                          'the given black offset was changed')
        if plan['mode'] == 'script':
            self.script(plan, ctx, dev, fresh, given, ki, bi, Ks, bos)
        else:
            self.trace(plan, ctx, sel, given, ki, bi, Ks, bos)

    # ------------------------------------------------------------------
    def script(self, plan, ctx, dev, fresh, given, ki, bi, Ks, bos):
        k0 = int(np.argmin(np.abs(Ks - fresh.K)))
        if 'blackoffset' not in given:
            want = None
            for i in range(len(bos)):
                fr = [np.mean(dev.frame(fresh, k0, i, odd) == 0)
                      for odd in (0, 1)]
                if fr[0] != fr[1] or abs(fr[0] - LIMIT) < .001:
                    raise Skip('fraction close to the limit')
                if fr[0] <= LIMIT:
                    want = i
                    break
            if want is None:
                ctx.fault('device without a suitable black offset')
                want = len(bos) - 1
            ctx.check(bi == want, 'black-offset', lambda: 'number %d was '
                      'selected, the first suitable one is %d (zeros %s)' % (
                          bi, want, plan['script']['zeros'][:max(
                              bi, want) + 1]))
        if 'K' not in given:
            want = None
            for i in range(len(Ks)):
                a, b = (dev.frame(fresh, i, bi, odd).astype(np.int64)
                        for odd in (0, 1))
                s = float(np.std(a - b))
                if abs(s - NOISE) < .02:
                    raise Skip('noise close to the limit')
                if s > NOISE:
                    want = i
                    break
            if want is None:
                ctx.fault('device without a suitable gain')
                want = len(Ks) - 1
            if plan['script']['drift']:
                ctx.fault('drift of the dark level between frames')
            ctx.check(ki == want, 'gain', lambda: 'number %d was selected, '
                      'the first suitable one is %d (noise %s)' % (
                          ki, want, plan['script']['noise'][:max(
                              ki, want) + 1]))

    def trace(self, plan, ctx, sel, given, ki, bi, Ks, bos):
        """Judges by the frames that were delivered."""
        ctx.fault('arbitrary frames' if plan['mode'] == 'wild'
                  else 'noise of the simulated camera')
        if 'blackoffset' not in given:
            part, sel = sel[:bi + 1], sel[bi + 1:]
            if [x[1] for x in part] != list(range(bi + 1)):
                ctx.probe('unknown order of the search')
                return
            for i, x in enumerate(part):
                z = np.mean(x[4] == 0)
                if abs(z - LIMIT) < .001:
                    raise Skip('fraction close to the limit')
                last = i == bi
                if z <= LIMIT and not last:
                    raise Violation('black-offset', 'number %d was suitable '
                                    'and not used' % i)
                if last and z > LIMIT and i != len(bos) - 1:
                    raise Violation('black-offset', 'number %d is not '
                                    'suitable (%.3f %% at zero)' % (i,
                                                                    100 * z))
        if 'K' not in given:
            if [x[0] for x in sel] != [i for i in range(ki + 1)
                                       for _ in range(2)]:
                ctx.probe('unknown order of the search')
                return
            for i in range(ki + 1):
                a, b = sel[2 * i][4], sel[2 * i + 1][4]
                s = float(np.std(a.astype(np.int64) - b.astype(np.int64)))
                if abs(s - NOISE) < .002:
                    raise Skip('noise close to the limit')
                last = i == ki
                if s > NOISE and not last:
                    raise Violation('gain', 'number %d was suitable and not '
                                    'used' % i)
                if last and s <= NOISE and i != len(Ks) - 1:
                    raise Violation('gain', 'number %d is not suitable '
                                    '(noise %.3f)' % (i, s))


CHECK = C19()
