"""Simulated cameras of the code under test: specifications, operations on
them and snapshots of their visible state."""
import numpy as np

from . import camgen
from . import kernel


def gen_spec(rng, seeded=True):
    c = camgen.gen_cam(rng, auto=0.0)
    full = 2 ** c['bit_depth'] - 1
    # noise well above the quantisation, mean well inside the range
    c['blackoffset_max'] = full * .1
    c['blackoffset'] = full * rng.choice([0.03, .06])
    if rng.random() < .2:
        c['blackoffset_min'] = full * .01
    c['sigma2_dark_0'] = rng.choice([40., 400.])
    c['_nw'] = rng.choice([1, 2, 3, 1, 2, 3, 1, 2, 3, 23])
    c['_qe'] = rng.choice(['gen', 'array', 'filter', 'full'])
    c['_dsnu'] = rng.choice([None, rng.getrandbits(20)])
    c['_prnu'] = rng.choice([None, rng.getrandbits(20)])
    c['seed'] = rng.choice([0, 1, 17, rng.getrandbits(32),
                            rng.getrandbits(64)])
    if not seeded:
        c['seed'] = None
    return c


class Built:
    """A camera and the arrays its builder handed in."""

    def __init__(self, spec, qe=None, dsnu='own', prnu='own'):
        from emva1288.camera.camera import Camera
        from emva1288.camera.routines import Qe
        h, w, nw = spec['height'], spec['width'], spec['_nw']
        self.spec = spec
        self.arrays = {}
        wl = np.linspace(450, 650, nw)
        self.arrays['wavelength'] = wl
        r = np.random.default_rng(kernel.derive('arrays', h, w, nw))
        if qe is None:
            kind = spec['_qe']
            if kind == 'gen':
                qe = Qe(height=h, width=w, wavelength=wl)
            else:
                arr = np.zeros((h, w, nw))
                arr[:, :] = r.uniform(.3, .8, nw)
                if kind == 'full':
                    arr = r.uniform(.3, .8, (h, w, nw))
                self.arrays['qe'] = arr
                f = None
                if kind == 'filter':
                    f = r.uniform(.2, 1., (h, w, nw))
                    self.arrays['filter'] = f
                qe = Qe(qe=arr, height=h, width=w, wavelength=wl, filter=f)
        self.qe = qe
        if isinstance(dsnu, str):
            dsnu = None
            if spec['_dsnu'] is not None:
                dsnu = np.random.default_rng(spec['_dsnu']).normal(
                    0, 20, (h, w))
        if isinstance(prnu, str):
            prnu = None
            if spec['_prnu'] is not None:
                prnu = 1 + np.random.default_rng(spec['_prnu']).normal(
                    0, .02, (h, w))
        if dsnu is not None:
            self.arrays['dsnu'] = dsnu
        if prnu is not None:
            self.arrays['prnu'] = prnu
        kw = {k: v for k, v in spec.items() if not k.startswith('_')}
        self.cam = Camera(qe=qe, dsnu=dsnu, prnu=prnu, **kw)
        self.rad = {}

    def radiance(self, op, share=None):
        """The illumination of a grab: scalar, per wavelength or full."""
        spec = self.spec
        h, w, nw = spec['height'], spec['width'], spec['_nw']
        key = (op['rad'], op['level'])
        if op['rad'] in ('reused', 'fresh'):
            # an array of the caller filled again for every grab, or a new
            # one which is dropped after it
            a = self.rad.get('reused') if op['rad'] == 'reused' else None
            if a is None:
                a = np.empty((h, w, nw))
            if op['rad'] == 'reused':
                self.rad['reused'] = a
            a[:] = self.radiance(dict(op, rad='full'))
            return a
        if key in self.rad:
            return self.rad[key]
        lev = op['level']
        if lev == 0:
            base = 0.0
        else:
            # photons that give lev * full scale
            e = lev * min(spec['u_esat'], (2 ** spec['bit_depth'] - 1) /
                          spec['K'])
            from emva1288.camera.routines import get_radiance
            base = get_radiance(1e6, e / .5 / nw, spec['pixel_area'], 8.,
                                np.linspace(450, 650, nw))
        if op['rad'] == 'scalar':
            v = base if lev == 0 else float(np.mean(base))
        elif op['rad'] == 'wave':
            v = np.zeros(nw) + base
        else:
            v = np.zeros((h, w, nw)) + base
            v *= np.random.default_rng(3).uniform(.8, 1.2, (h, w, 1))
        if isinstance(v, np.ndarray):
            self.arrays['radiance%d' % len(self.rad)] = v
        self.rad[key] = v
        return v


def gen_op(rng, bad=False):
    k = rng.choice(['grab', 'grab', 'grab', 'grab', 'exposure', 'K', 'bo',
                    'env', 'for', 'photons', 'dsnu'] + (['bad'] if bad
                                                       else []))
    if k == 'grab':
        return {'op': k, 'rad': rng.choice(['scalar', 'wave', 'full', 'full',
                                          'reused', 'fresh', 'reused']),
                'level': rng.choice([0, 0, .2, .5, 1.5]),
                't': rng.choice([None, None, None, 0, 10., 45.]),
                'f': rng.choice([None, None, None, 2., 11.])}
    if k == 'exposure':
        return {'op': k, 'v': rng.choice([500000, 1000000, 3000000.5,
                                          90000000, 1000])}
    if k in ('K', 'bo', 'for', 'dsnu'):
        return {'op': k, 'v': rng.random()}
    if k == 'env':
        what = rng.choice(['temperature', 'f_number'])
        v = [2.8, 8., 25.]
        return {'op': k, 'what': what, 'v': rng.choice(
            v + [0, -10.] if what == 'temperature' else v)}
    if k == 'bad':
        return {'op': k, 'n': rng.randint(1, 5),
                'v': rng.choice([1, .5, 0, None])}
    return {'op': k, 'v': rng.choice([None, 1000000])}


def apply(b, op, ctx=None):
    """Runs one operation; returns what it gives (a frame, an array)."""
    c, k = b.cam, op['op']
    if k == 'grab':
        kw = {}
        if op['t'] is not None:
            kw['temperature'] = op['t']
        if op['f'] is not None:
            kw['f_number'] = op['f']
        if ctx is not None:
            ctx.sim_ns += int(c.exposure)
        return c.grab(b.radiance(op), **kw)
    if k == 'exposure':
        c.exposure = op['v']
    elif k == 'K':
        c.K = b.spec['K_min'] + op['v'] * (b.spec['K_max'] - b.spec['K_min'])
        return c.K
    elif k == 'bo':
        c.blackoffset = op['v'] * b.spec['blackoffset_max']
        return c.blackoffset
    elif k == 'env':
        c.environment[op['what']] = op['v']
    elif k == 'for':
        return c.get_radiance_for(mean=(.1 + .9 * op['v']) * c.img_max)
    elif k == 'photons':
        return c.get_photons(b.radiance({'rad': 'full', 'level': .5}),
                             exposure=op['v'])
    elif k == 'dsnu':
        d = np.full((b.spec['height'], b.spec['width']), 30. * op['v'])
        b.arrays['dsnu'] = d
        c.DSNU = d
    elif k == 'bad':
        from emva1288.camera.bad_images import bad_pixel
        bad_pixel(c, op['n'], op['v'])
    return None


def settings(c):
    """The visible state of a camera, copied."""
    return {'K': float(c.K), 'blackoffset': float(c.blackoffset),
            'exposure': float(c.exposure),
            'environment': dict(c.environment),
            'DSNU': np.array(c.DSNU, copy=True),
            'qe': np.array(c.qe.qe, copy=True),
            'w': np.array(c.qe.w, copy=True),
            'Ks': np.array(c.Ks, copy=True),
            'blackoffsets': np.array(c.blackoffsets, copy=True),
            'static': (c.bit_depth, c.pixel_area, c.img_max, c.width,
                       c.height, c.exposure_min, c.exposure_max)}


def differ(a, b):
    """Name of the first setting that differs, or None."""
    for k in a:
        if isinstance(a[k], np.ndarray):
            if not np.array_equal(a[k], b[k]):
                return k
        elif a[k] != b[k]:
            return k
    return None


class Entropy:
    """The operating system's entropy source, simulated."""

    def __init__(self, seed):
        import random
        self.rng = random.Random(kernel.derive('entropy', seed))

    def __enter__(self):
        import numpy.random.bit_generator as b
        self.mod, self.old = b, b.randbits
        b.randbits = self.rng.getrandbits
        return self

    def __exit__(self, *a):
        self.mod.randbits = self.old
        return False
