"""C20 Bad-pixel injection marks exactly the requested number of pixels."""
import random

import numpy as np

from .. import camops, kernel, world
from ..check import Check
from ..kernel import Violation


class C20(Check):
    id = 'C20'
    runs = {'quick': 3000, 'thorough': 80000}
    rule = ('one run = one camera and a history of injections, grabs and '
            'other uses of the global random numbers (seeded by the plan); '
            'non-trivial = more than one injection')
    real = ['bad pixels', 'camera']
    stubs = ['global random numbers (seeded)', 'operating system entropy']
    shrink_lists = ('ops',)
    shrink_min = {'ops': 1}
    shrink_ints = {'width': 1, 'height': 1}

    def setup(self):
        world.load()

    def gen(self, rng, tier, i):
        spec = camops.gen_spec(rng)
        spec.update(width=rng.choice([1, 2, 3, 5, 8, 17]),
                    height=rng.choice([1, 2, 3, 5, 8, 17]),
                    u_esat=rng.choice([1000., 15000., 40000]),
                    _qe=rng.choice(['gen', 'array']))
        if rng.random() < .03:
            spec.update(width=rng.randint(100, 320),
                        height=rng.randint(90, 250))
        n = spec['width'] * spec['height']
        ops = []
        for _ in range(rng.randint(1, 7)):
            k = rng.choice(['bad', 'bad', 'bad', 'grab', 'noise', 'reseed',
                            'env'])
            if k == 'bad':
                ops.append({'op': k, 'n': rng.choice(
                    [0, 1, n, max(0, n - 1), n // 2, rng.randint(0, n)]),
                    'v': rng.choice([None, 1, 0, .5, rng.random(), 'default',
                                     1.5])})
            elif k == 'reseed':
                # the caller's script seeds the global generator again
                ops.append({'op': k, 'v': rng.choice([0, 1])})
            else:
                ops.append({'op': k, 'v': rng.choice([10., 30.])})
        if rng.random() < .12:
            # every pixel can be hit
            spec.update(width=rng.randint(2, 9), height=rng.randint(2, 9))
            ops = []
            cover = True
        else:
            cover = False
        return {'spec': spec, 'ops': ops, 'cover': cover,
                'dtype': rng.choice(['float', 'float', 'int', 'ro'])
                if spec['_dsnu'] is not None else 'float',
                'seed': rng.getrandbits(30)}

    def execute(self, plan, ctx):
        with camops.Entropy(plan['seed']), ctx.must('injection'):
            np.random.seed(plan['seed'] % 2 ** 32)
            random.seed(plan['seed'])
            if plan['cover']:
                self.cover(plan, ctx)
            else:
                self.body(plan, ctx)

    def inject(self, cam, op):
        from emva1288.camera.bad_images import bad_pixel
        if op['v'] == 'default':
            bad_pixel(cam, op['n'])
        else:
            bad_pixel(cam, op['n'], op['v'])

    def step(self, cam, op, u_esat):
        """One injection, checked; returns the mask of the pixels."""
        before = np.array(cam.DSNU, copy=True)
        s0 = camops.settings(cam)
        self.inject(cam, op)
        after = np.array(cam.DSNU)
        s1 = camops.settings(cam)
        d = camops.differ({k: v for k, v in s0.items() if k != 'DSNU'}, s1)
        if d:
            raise Violation('settings', 'the injection changed %s' % d)
        if after.shape != before.shape:
            raise Violation('shape', 'the map is now %s' % (after.shape,))
        lv = 1 if op['v'] in (None, 'default') else op['v']
        level = lv * u_esat
        changed = after != before
        n = op['n']
        if not np.allclose(after[changed], level, rtol=1e-9, atol=1e-9):
            raise Violation('level', 'values %s, expected %r' % (
                sorted(set(after[changed].tolist()))[:4], level))
        same = np.isclose(before, level, rtol=1e-9, atol=1e-9)
        # pixels that already had the level may have been drawn again
        k = int(changed.sum())
        if not k <= n <= k + int((same & ~changed).sum()):
            raise Violation('count', '%d pixels changed, %d requested' % (
                k, n))
        return changed, int(same.sum()), level

    def body(self, plan, ctx):
        spec = plan['spec']
        b = camops.Built(spec)
        cam = b.cam
        if plan['dtype'] == 'int' and 'dsnu' in b.arrays:
            ctx.probe('caller sets the map again')
            cam.DSNU = np.rint(b.arrays['dsnu'])
        hit = np.zeros((spec['height'], spec['width']), dtype=bool)
        last = np.full(hit.shape, np.nan)
        n = 0
        for op in plan['ops']:
            if op['op'] == 'bad':
                ch, _, level = self.step(cam, op, spec['u_esat'])
                last[ch] = level
                hit |= ch
                # accumulation: what was marked before stays marked
                if not np.allclose(np.array(cam.DSNU)[hit], last[hit]):
                    raise Violation('accumulate', 'an earlier mark is gone')
                n += 1
                ctx.log('bad', op['n'], [int(x) for x in np.flatnonzero(ch)])
            elif op['op'] == 'grab':
                self.frame(cam, spec, hit, last, ctx)
            elif op['op'] == 'noise':
                np.random.random(3)
                random.random()
            elif op['op'] == 'reseed':
                ctx.fault('global generator seeded again by the caller')
                np.random.seed(op['v'])
            else:
                cam.environment['temperature'] = op['v']
        self.frame(cam, spec, hit, last, ctx)
        if n > 1:
            ctx.nontrivial = True

    def frame(self, cam, spec, hit, last, ctx):
        """The next frames show the marked pixels."""
        s0 = np.array(cam.DSNU)
        img = cam.grab(0)
        ctx.sim_ns += int(cam.exposure)
        if not np.array_equal(s0, np.array(cam.DSNU)):
            raise Violation('grab', 'a grab changed the map')
        full = 2 ** spec['bit_depth'] - 1
        K, bo = float(cam.K), float(cam.blackoffset)
        sig = np.sqrt(spec['sigma2_dark_0'])
        lv = np.array(cam.DSNU, dtype=float)
        # expected electrons: map + dark signal + dark current
        ud = spec['dark_current_ref'] if 'dark_current_ref' in spec else 30.
        ud = ud * 8 * float(cam.exposure) * 1e-9
        mid = lv + spec['dark_signal_0']
        lo = np.clip(mid - 9 * sig - 2, 0, spec['u_esat'])
        hi = np.clip(mid + 9 * sig + ud + 9 * np.sqrt(ud) + 12, 0,
                     spec['u_esat'])
        lo = np.clip(np.floor(K * lo + bo - .5), 0, full)
        hi = np.clip(np.ceil(K * hi + bo + .5), 0, full)
        bad = (img < lo) | (img > hi)
        if bad.any():
            i = tuple(int(x[0]) for x in np.nonzero(bad))
            raise Violation('frame', 'pixel %s is %d with %.1f electrons in '
                            'the map (%d to %d expected)' % (
                                i, img[i], lv[i], lo[i], hi[i]))
        ctx.probe('frame compared with the map')

    def cover(self, plan, ctx):
        """Over many injections every pixel is hit, about equally often."""
        spec = plan['spec']
        b = camops.Built(spec)
        cam = b.cam
        n = spec['width'] * spec['height']
        count = np.zeros((spec['height'], spec['width']), dtype=int)
        k = max(1, n // 4)
        rounds = 400
        for i in range(rounds):
            cam.DSNU = np.full(count.shape, -1.)
            ch, _, _ = self.step(cam, {'n': k, 'v': .5}, spec['u_esat'])
            count += ch
        ctx.nontrivial = True
        ctx.log('cover', count.ravel().tolist())
        p = k / n
        z = np.abs(count - rounds * p) / np.sqrt(rounds * p * (1 - p))
        if count.min() == 0 or z.max() > 8:
            i = np.unravel_index(int(z.argmax()), z.shape)
            raise Violation('positions', 'pixel %s was hit %d times in %d '
                            'injections of %d of %d pixels' % (
                                tuple(int(x) for x in i), count[i], rounds,
                                k, n))
        ctx.probe('positions covered')


CHECK = C20()
