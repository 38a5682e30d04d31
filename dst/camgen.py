"""Drawing camera and dataset configurations for emva1288's own simulated
camera, and reading generated datasets back with the reference grammar."""
import os

import numpy as np
from PIL import Image

from . import grammar, kernel
from .simdisk import real_open


def gen_cam(rng, auto=0.3):
    bits = rng.choice([8, 8, 10, 12, 14, 16, 8, 8, 10, 12, 14, 16,
                       rng.choice([9, 11, 13, 15])])
    full = 2 ** bits - 1
    c = {'bit_depth': bits, 'width': rng.randint(6, 16),
         'height': rng.randint(6, 14), 'seed': rng.getrandbits(20),
         'exposure_min': rng.choice([500000, 100000, 1000000]),
         'pixel_area': rng.choice([9., 25., 30.]),
         'f_number': rng.choice([2.8, 8]),
         'temperature': rng.choice([22, 35]),
         'dark_signal_0': rng.choice([10., 30.]),
         'sigma2_dark_0': rng.choice([10., 40.]),
         'u_esat': rng.choice([15000., 40000.])}
    c['exposure_max'] = c['exposure_min'] * rng.choice([50, 500])
    if rng.random() < .04:
        # frames of some 10^4 pixels
        c.update(width=rng.randint(120, 330), height=rng.randint(70, 240))
    if rng.random() < .15:
        c['_nw'] = rng.choice([1, 2, 5, 31])
    if rng.random() > auto:
        c['K'] = full / c['u_esat'] * rng.uniform(1., 1.4)
        c['K_min'] = c['K'] * .5
        c['K_max'] = c['K'] * 2
        c['blackoffset'] = full * rng.uniform(.005, .04)
    return c


def camera_kwargs(c, nw=None):
    from emva1288.camera.routines import Qe
    kw = {k: v for k, v in c.items() if not k.startswith('_')}
    nw = nw or c.get('_nw', 3)
    kw['qe'] = Qe(height=c['height'], width=c['width'],
                  wavelength=np.linspace(450, 650, nw))
    return kw


def gen_dataset(rng, auto=.3, fmt=None):
    return {'cam': gen_cam(rng, auto), 'steps': rng.randint(3, 8),
            'L': rng.randint(3, 6),
            'fmt': fmt or rng.choice(['png', 'png', 'tiff']),
            'fixed': rng.choice([None, None, 2000000.0, 5000000.0]),
            'version': rng.choice(['4.0', '3.1'])}


def generate(ds, outdir, **over):
    from emva1288.camera.dataset_generator import DatasetGenerator
    cam = dict(ds['cam'])
    cam.update(over)
    return DatasetGenerator(steps=ds['steps'], L=ds['L'],
                            version=ds['version'], image_format=ds['fmt'],
                            outdir=outdir, exposure_fixed=ds['fixed'],
                            **camera_kwargs(cam))


def find_descriptor(outdir):
    for n in sorted(os.listdir(outdir)):
        if n.endswith('.txt'):
            return os.path.join(outdir, n)
    return None


def pixels(path):
    with real_open(path, 'rb') as f:
        im = Image.open(f)
        im.load()
        return np.asarray(im.split()[0]).astype(np.int64)


def read_dataset(path):
    """[(kind, texp, photons, [basenames], [pixels])] in descriptor order,
    with the descriptor itself; raises grammar.Rejected / OSError."""
    with real_open(path, 'rb') as f:
        raw = f.read()
    d = grammar.read(raw, os.path.dirname(path))
    pts = []
    for kind in ('temporal', 'spatial'):
        for (t, ph), names in d['images'][kind].items():
            pts.append((kind, t, ph, names))
    return d, pts


class GrabTap:
    """Records every frame a camera delivers (public Camera.grab)."""

    def __init__(self, ctx=None):
        self.frames = []
        self.ctx = ctx

    def __enter__(self):
        from emva1288.camera.camera import Camera
        self.cls = Camera
        self.orig = Camera.grab
        tap = self

        def grab(cam, radiance, *a, **k):
            img = tap.orig(cam, radiance, *a, **k)
            photons = float(np.sum(
                np.broadcast_to(cam.get_photons(radiance),
                                (cam.height, cam.width,
                                 len(cam.qe.w))), axis=2).mean())
            tap.frames.append((float(cam.exposure), photons,
                               np.array(img, copy=True), float(cam.K),
                               float(cam.blackoffset)))
            if tap.ctx is not None:
                tap.ctx.sim_ns += int(cam.exposure)
            return img
        Camera.grab = grab
        return self

    def __exit__(self, *a):
        self.cls.grab = self.orig
        return False
