"""The simulated laboratory: a light source and a camera under test.

`frames(plan)` produces the frames a device delivers in one measurement
campaign, with its own noise model (independent of emva1288.camera), and the
disturbances of a real set-up: flicker, lost frames, hot pixels.  `store`
writes them as a dataset: image files and a descriptor.
"""
import os

import numpy as np
from PIL import Image

from . import kernel


def gen_campaign(rng, small=True, multi=None, bits=None, fmt=None,
                 faults=True):
    """Draws a campaign plan."""
    if multi is None:
        multi = rng.random() < 0.5
    bits = bits or rng.choice([8, 8, 10, 12, 12, 14, 16, 8, 8, 10, 12, 12,
                               14, 16, rng.choice([9, 11, 13, 15])])
    w = rng.randint(10, 22 if small else 48)
    h = rng.randint(10, 22 if small else 40)
    full = 2 ** bits - 1
    # saturation by the full scale of the converter or by the full well
    esat = rng.choice([3000., 9000., 15000., 40000.])
    clip = rng.choice(['adc', 'well', 'none'])
    if clip == 'adc':
        K = full / esat * rng.uniform(1.1, 1.6)
    elif clip == 'well':
        K = full / esat * rng.uniform(0.6, 0.85)
    else:
        K = full / esat * rng.uniform(0.3, 0.9)
    top = {'adc': 1.25, 'well': 1.25, 'none': 0.8}[clip] * min(
        esat, full / K)
    n = rng.randint(5, 13)
    qe = rng.uniform(0.2, 0.95)
    L = rng.randint(3, 9)
    plan = {
        'w': w, 'h': h, 'bits': bits, 'fmt': fmt or rng.choice(
            ['png', 'png', 'png', 'tiff', 'bmp' if bits == 8 else 'png']),
        'multi': bool(multi), 'n': n, 'K': K, 'qe': qe, 'esat': esat,
        'top_e': top, 'first': rng.uniform(0.02, 0.1),
        'dark_e': rng.uniform(5, 60), 'read': rng.uniform(2., 25.),
        'offset': rng.uniform(0.01, 0.05) * full,
        'dc': rng.choice([0., 5., 50., 400.]),
        'dsnu': rng.choice([0., 2., 10.]), 'prnu': rng.choice([0., .005, .02]),
        'rowfpn': rng.choice([0., 0., 3.]), 'colfpn': rng.choice([0., 0., 3.]),
        'texp': round(rng.uniform(1e5, 5e6), 1),
        'texp_span': rng.choice([1.5, 5., 40.]),
        'L': L, 'Ld': L, 'flicker': 0.0, 'hot': 0,
        'seed': rng.getrandbits(32),
    }
    if faults:
        if rng.random() < .5:
            plan['flicker'] = rng.choice([.002, .01, .03])
        if rng.random() < .35:
            # frames lost while recording a stack
            plan['Ld'] = rng.randint(3, 9)
        if rng.random() < .2:
            plan['hot'] = rng.randint(1, 3)
    if small and rng.random() < .04:
        k = rng.choice(['wide', 'tall', 'points', 'stack'])
        if k in ('wide', 'tall'):
            a, b = rng.choice([300, 1200, 2100]), rng.randint(10, 12)
            plan['w'], plan['h'] = (a, b) if k == 'wide' else (b, a)
            plan['n'] = min(plan['n'], 7)
        elif k == 'points':
            plan['n'] = rng.randint(20, 60)
        else:
            plan['L'] = plan['Ld'] = rng.choice([17, 33, 70])
    if rng.random() < .08:
        # exposures of seconds, or of a few microseconds
        plan['texp'] = round(rng.choice([2e-3, 300., 3000.]) *
                             plan['texp'], 1)
        plan['dc'] = min(plan['dc'], 1.5e11 / (plan['texp'] *
                                               plan['texp_span']))
    if bits >= 12 and rng.random() < .06:
        # a large full well
        for k in ('esat', 'top_e'):
            plan[k] *= 20.
        plan['K'] /= 20.
        plan['read'] *= 5.
    # how the image files hold the grey values
    plan['enc'] = None
    if rng.random() < .25:
        plan['enc'] = rng.choice(
            {'png': ['int'] if bits > 8 else ['rgb', 'alpha', 'wide'],
             'tiff': ['big endian', 'int', 'lzw'] if bits > 8
             else ['rgb', 'lzw', 'wide', 'big endian'],
             'bmp': ['rgb', 'pgm']}[plan['fmt']])
        if plan['enc'] == 'pgm':
            plan['fmt'] = 'pgm'
    plan['layout'] = 'folders' if rng.random() < .15 else None
    # digits of exposure times and photon counts in the descriptor
    plan['tdig'] = rng.choice([1, 1, 1, 0, 3, 6])
    plan['pdig'] = rng.choice([3, 3, 3, 0, 1, 6])
    return plan


class Point:
    """One measurement point: kind, exposure (ns), photons, frames."""

    def __init__(self, kind, texp, photons, imgs):
        self.kind = kind
        self.texp = texp
        self.photons = photons
        self.imgs = imgs
        self.names = None


def _levels(p):
    """[(texp, photons)] of the bright points and [texp] of the dark ones;
    numbers as a descriptor states them (usually 1 and 3 decimals)."""
    n = p['n']
    td, pd = p.get('tdig', 1), p.get('pdig', 3)
    frac = [p['first'] + (1 - p['first']) * i / (n - 1) for i in range(n)]
    ph_top = p['top_e'] / p['qe']
    if p['multi']:
        t0 = p['texp']
        span = max(p['texp_span'], 1.2)
        ts = [round(t0 * (1 + (span - 1) * i / (n - 1)), td) for i in range(n)]
        if p.get('close'):
            # two nearly equal exposure times
            ts[2] = round(ts[1] + 10. ** -td, td)
        bright = [(t, round(ph_top * f, pd)) for t, f in zip(ts, frac)]
        return bright, ts
    phs = [round(ph_top * f, pd) for f in frac]
    if p.get('close'):
        phs[2] = round(phs[1] + 10. ** -pd, pd)
    t = round(p['texp'], td)
    return [(t, ph) for ph in phs], [t]


class Device:
    def __init__(self, p):
        self.p = p
        self.rng = np.random.default_rng(p['seed'])
        h, w = p['h'], p['w']
        r = self.rng
        self.prnu = 1 + p['prnu'] * r.standard_normal((h, w))
        self.dsnu = (p['dsnu'] * r.standard_normal((h, w)) +
                     p['rowfpn'] * r.standard_normal((h, 1)) +
                     p['colfpn'] * r.standard_normal((1, w)))
        self.full = 2 ** p['bits'] - 1
        self.ns = 0
        self.hot = [(int(r.integers(h)), int(r.integers(w)))
                    for _ in range(p['hot'])]
        self.dtype = np.uint8 if p['bits'] <= 8 else np.uint16

    def grab(self, texp, photons):
        p, r = self.p, self.rng
        light = photons
        if p['flicker'] and photons:
            light = photons * (1 + p['flicker'] * r.standard_normal())
        mu = np.clip(light * p['qe'] * self.prnu, 0, None) + \
            p['dc'] * texp * 1e-9
        e = r.poisson(mu) + self.dsnu + r.normal(p['dark_e'], p['read'],
                                                 mu.shape)
        for y, x in self.hot:
            e[y, x] += 0.4 * p['esat']
        e = np.clip(e, 0, p['esat'])
        v = p['K'] * e + p['offset']
        if p['flicker'] and not photons:
            v = v + p['flicker'] * 20 * r.standard_normal()
        self.ns += texp
        return np.clip(np.rint(v), 0, self.full).astype(self.dtype)


def record(p, ctx=None):
    """The campaign as a list of Points in a canonical order."""
    dev = Device(p)
    bright, darks = _levels(p)
    pts = []
    for t, ph in bright:
        pts.append(Point('temporal', t, ph,
                         [dev.grab(t, ph) for _ in range(2)]))
    for t in darks:
        pts.append(Point('temporal', t, 0.0,
                         [dev.grab(t, 0.0) for _ in range(2)]))
    t, ph = bright[len(bright) // 2]
    pts.append(Point('spatial', t, ph,
                     [dev.grab(t, ph) for _ in range(p['L'])]))
    pts.append(Point('spatial', t, 0.0,
                     [dev.grab(t, 0.0) for _ in range(p['Ld'])]))
    if ctx is not None:
        ctx.sim_ns += int(dev.ns)
        if p['L'] != p['Ld']:
            ctx.fault('lost frames in a stack')
        if p['flicker']:
            ctx.fault('light flicker')
        if p['hot']:
            ctx.fault('hot pixels')
    return pts


def write_image(arr, path, enc=None):
    kw = {}
    if enc == 'lzw':
        kw['compression'] = 'tiff_lzw'
    if enc == 'big endian':
        h, w = arr.shape
        im = Image.frombytes('I;16B', (w, h), arr.astype('>u2').tobytes())
    elif enc == 'int':
        im = Image.fromarray(arr.astype(np.int32))
    elif arr.dtype == np.uint8 and enc != 'wide':
        im = Image.fromarray(arr)
        if enc == 'rgb':
            im = Image.merge('RGB', [im, im, im])
        elif enc == 'alpha':
            im = Image.merge('LA', [im, Image.new('L', im.size, 255)])
    else:
        im = Image.fromarray(arr.astype(np.uint16))
    im.save(path, **kw)


def descriptor(pts, p, sep='\\', version='4.0', eol='\n', comma=False,
               extra=None):
    """Text of the descriptor for points that have their names."""
    td, pd = p.get('tdig', 1), p.get('pdig', 3)
    lines = ['v %s' % version, 'n %d %d %d' % (p['bits'], p['w'], p['h'])]
    for pt in pts:
        if pt.photons == 0.0:
            s = 'd %.*f' % (td, pt.texp)
        else:
            s = 'b %.*f %.*f' % (td, pt.texp, pd, pt.photons)
        if comma:
            s = s.replace('.', ',')
        lines.append(s)
        for n in pt.names:
            lines.append('i images%s%s' % (sep, n.replace('/', sep)))
    if extra:
        lines = extra(lines)
    return eol.join(lines) + eol


def name_points(pts, p, prefix='img'):
    k = 0
    for pt in pts:
        pt.names = []
        for _ in pt.imgs:
            pt.names.append('%s_%04d.%s' % (prefix, k, p['fmt']))
            k += 1
    if p.get('layout') == 'folders':
        # a folder for each point, the same file names in all of them
        for n, pt in enumerate(pts):
            pt.names = ['pt%03d/%s_%d.%s' % (n, prefix, j, p['fmt'])
                        for j in range(len(pt.imgs))]


def store(pts, p, outdir, fname='EMVA1288descriptor.txt', **kw):
    """Writes the dataset; returns the descriptor's path."""
    os.makedirs(os.path.join(outdir, 'images'), exist_ok=True)
    if any(pt.names is None for pt in pts):
        name_points(pts, p)
    for pt in pts:
        for n, img in zip(pt.names, pt.imgs):
            f = os.path.join(outdir, 'images', n)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            write_image(img, f, p.get('enc'))
    path = os.path.join(outdir, fname)
    with open(path, 'w', newline='') as f:
        f.write(descriptor(pts, p, **kw))
    return path


def campaign_summary(p):
    return {k: p[k] for k in ('w', 'h', 'bits', 'fmt', 'multi', 'n', 'L',
                              'Ld')}


CAMPAIGN_SHRINK = {'w': 10, 'h': 10, 'n': 5, 'L': 3, 'Ld': 3, 'hot': 0,
                   'flicker': 0, 'dsnu': 0, 'prnu': 0, 'rowfpn': 0,
                   'colfpn': 0, 'dc': 0}
