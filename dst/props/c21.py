"""C21 The pipeline recovers the parameters of a simulated camera."""
import os

import numpy as np

from .. import camops, kernel, pipe, world
from ..check import Check
from ..kernel import Violation
from ..simdisk import SimDisk

Z = 8.                 # standard errors allowed


def split(m):
    """Variance of a map: total, columns, rows, pixels (EMVA1288 4.0)."""
    M, N = m.shape
    mu = m.mean()
    s2 = ((m - mu) ** 2).sum() / (M * N - 1)
    cav = ((m.mean(axis=0) - mu) ** 2).sum() / N
    rav = ((m.mean(axis=1) - mu) ** 2).sum() / M
    A = np.array([[1., 1., 1.], [1., 0., 1. / M], [0., 1., 1. / N]])
    c, r, p = np.linalg.solve(A, np.array([s2, cav, rav]))
    return {'': s2, '_col': c, '_row': r, '_pixel': p}


class Tap:
    """Counts simulated time, and lets somebody else use (and seed) the
    global random numbers between two frames."""

    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx

    def __enter__(self):
        from emva1288.camera.camera import Camera
        self.cls, self.orig = Camera, Camera.grab
        orig, ctx, reseed = Camera.grab, self.ctx, self.plan['reseed']

        def grab(cam, *a, **k):
            if reseed:
                np.random.seed(5)
            ctx.sim_ns += int(cam.exposure)
            return orig(cam, *a, **k)
        Camera.grab = grab
        return self

    def __exit__(self, *a):
        self.cls.grab = self.orig
        return False


class C21(Check):
    id = 'C21'
    runs = {'quick': 700, 'thorough': 20000}
    rule = ('one run = one simulated camera with drawn parameters, a dataset '
            'generated, stored and processed by the real code, and the '
            'results compared with the parameters; non-trivial = a dark '
            'current, non-uniformity or full well that limits the signal')
    real = ['camera, dataset generator, points generator, parser, loader, '
            'data, results, PIL']
    stubs = ['raw file I/O (simulated disk)', 'operating system entropy']
    assumptions = ['tolerances are at least %g standard errors of the '
                   'estimates' % Z,
                   'dark noise of at least 0.8 grey values, dark signal at '
                   'least 5 standard deviations above zero']
    shrink_lists = ()
    shrink_ints = {'width': 24, 'height': 24, 'steps': 8}

    def setup(self):
        world.load()

    def gen(self, rng, tier, i):
        bits = rng.choice([8, 8, 10, 12, 14, 16, rng.choice([9, 11, 13, 15])])
        full = 2 ** bits - 1
        esat = rng.choice([8000., 15000., 40000.])
        sat = rng.choice(['adc', 'well'])
        # full scale in electrons relative to the full well
        K = full / esat * (rng.uniform(1.15, 1.8) if sat == 'adc'
                           else rng.uniform(.6, .85))
        sd = max(rng.choice([4., 10., 30.]), rng.uniform(.8, 1.2) / K)
        mul = rng.random() < .55
        emin = rng.choice([100000, 500000, 1000000])
        c = {'bit_depth': bits, 'width': rng.randint(40, 80),
             'height': rng.randint(40, 60), 'K': K, 'K_min': K,
             'K_max': K * 2, 'u_esat': esat,
             'dark_signal_0': 6 * sd, 'sigma2_dark_0': sd ** 2,
             'exposure_min': emin,
             'exposure_max': emin * rng.choice([40, 200]),
             'pixel_area': rng.choice([4., 12.5, 25.]),
             'f_number': rng.choice([2.8, 8, 11.]),
             'temperature': rng.choice([22, 35, 50]),
             'temperature_ref': rng.choice([20, 30]),
             'temperature_doubling': rng.choice([6., 8.]),
             'seed': rng.choice([None, 0, rng.getrandbits(30)])}
        c['blackoffset'] = full * rng.uniform(.005, .03)
        # dark current: electrons at the longest exposure
        tmax = c['exposure_max'] if mul else 2e6
        e = rng.choice([0., .5, 30., 300.])
        e *= min(1., .02 * esat / 300.)
        c['dark_current_ref'] = e / (tmax * 1e-9) / 2. ** (
            (c['temperature'] - c['temperature_ref']) /
            c['temperature_doubling'])
        ds, pr = rng.choice([0., 0., 1., 3.]), rng.choice([0., 0., .01, .03])
        return {'cam': c, 'sat': sat, 'nw': rng.choice([1, 1, 3, 4]) if rng.random() < .95
                else rng.randint(90, 140),
                'qe': [rng.uniform(.15, .9) for _ in range(4)],
                'dsnu': {k: rng.choice([0., sd * ds * .3]) for k in
                         ('pixel', 'row', 'col')},
                'prnu': {k: rng.choice([0., pr]) for k in
                         ('pixel', 'row', 'col')},
                'prmean': rng.choice([1., 1., .8]),
                'steps': rng.randint(12, 30), 'L': rng.randint(4, 20),
                'fixed': None if mul else rng.choice([1000000.0, 2000000.0]),
                'fmt': rng.choice(['png', 'png', 'tiff']),
                'reseed': rng.random() < .3, 'crash': rng.random() < .12,
                'maps': rng.getrandbits(30), 'seed': rng.getrandbits(30)}

    def execute(self, plan, ctx):
        with camops.Entropy(plan['seed']):
            self.body(plan, ctx)

    def maps(self, plan):
        c = plan['cam']
        h, w = c['height'], c['width']
        r = np.random.default_rng(plan['maps'])

        def one(s):
            return (s['pixel'] * r.standard_normal((h, w)) +
                    s['row'] * r.standard_normal((h, 1)) +
                    s['col'] * r.standard_normal((1, w)))
        d = one(plan['dsnu'])
        d = np.clip(d - d.mean(), -.5 * c['dark_signal_0'], None)
        p = one(plan['prnu'])
        p = plan['prmean'] * (1 + p - p.mean())
        return d, p

    def body(self, plan, ctx):
        from emva1288.camera.dataset_generator import DatasetGenerator
        from emva1288.camera.routines import Qe
        np.random.seed(plan['seed'] % 2 ** 32)
        c = plan['cam']
        h, w, nw = c['height'], c['width'], plan['nw']
        dsnu, prnu = self.maps(plan)
        wl = np.linspace(450, 650, nw)
        # many wavelengths: the values in turn, from the first one to others
        qe = np.array([plan['qe'][k * 4 // max(nw, 4)] for k in range(nw)])

        def gen(out):
            arr = np.zeros((h, w, nw))
            arr[:, :] = qe
            kw = dict(c, dsnu=dsnu.copy() if dsnu.any() else None,
                      prnu=prnu.copy() if (prnu != 1).any() else None,
                      qe=Qe(qe=arr, height=h, width=w, wavelength=wl))
            with Tap(plan, ctx):
                return DatasetGenerator(
                    steps=plan['steps'], L=plan['L'], image_format=plan[
                        'fmt'], outdir=out, exposure_fixed=plan['fixed'],
                    **kw)
        if plan['crash']:
            # a full disk stops the first attempt; it is made again elsewhere
            disk = SimDisk(ctx.dir('first'), ctx, [
                {'cls': 'write', 'op': 30, 'kind': 'ENOSPC', 'torn': .4}],
                seed=plan['seed'])
            with disk:
                kernel.attempt(gen, os.path.join(ctx.dir('first'), 'a'))
        with ctx.must('generation'):
            g = gen(ctx.path('data'))
        with ctx.must('processing'):
            d = pipe.process(g.descriptor_path)
            res = pipe.results(d)
            got = {n: self.num(getattr(res, n)) for n in (
                'K', 'R', 'QE', 'sigma_d', 'sigma_y_dark', 'u_I_mean',
                'u_I_var', 'DSNU1288', 'DSNU1288_row', 'DSNU1288_col',
                'DSNU1288_pixel', 'PRNU1288', 'PRNU1288_row', 'PRNU1288_col',
                'PRNU1288_pixel', 'u_p_sat', 'u_e_sat', 'u_p_min', 'SNR_max',
                'DR', 'LE_min', 'LE_max')}
        if any(plan['dsnu'].values()) or any(plan['prnu'].values()) or \
                plan['sat'] == 'well' or c['dark_current_ref']:
            ctx.nontrivial = True
        if plan['reseed']:
            ctx.fault('global generator seeded between frames')
        ctx.log('results', {k: float('%.5g' % v) for k, v in got.items()})
        self.judge(plan, ctx, got, d, dsnu, prnu, wl, qe)

    @staticmethod
    def num(v):
        return float('nan') if v is None else float(v)

    # ------------------------------------------------------------------
    def judge(self, plan, ctx, got, d, dsnu, prnu, wl, qe):
        c = plan['cam']
        N = c['width'] * c['height']
        M_, N_ = c['height'], c['width']
        K = c['K']
        full = 2 ** c['bit_depth'] - 1
        L = plan['L']

        def close(name, want, tol, allow_nan=False):
            v = got[name]
            if np.isnan(v):
                if allow_nan:
                    return
            elif abs(v - want) <= tol:
                return
            raise Violation(name, '%s is %.6g; the camera has %.6g '
                            '(tolerance %.2g)' % (name, v, want, tol))

        # --- light: what one photon of the illumination gives
        if plan['fixed'] is None:
            wgt = np.ones(len(wl))        # equal photons per wavelength
        else:
            wgt = wl ** 2                 # equal radiance per wavelength
        QE = float((wgt * qe).sum() / wgt.sum() * prnu.mean())
        ui = c['dark_current_ref'] * 2. ** (
            (c['temperature'] - c['temperature_ref']) /
            c['temperature_doubling'])
        t = d['temporal']
        X = np.asarray(t['u_p'], dtype=float)
        T = np.asarray(t['texp'], dtype=float) * 1e-9
        sd2 = c['sigma2_dark_0'] + 1. / 12 / K ** 2
        qn = 1. / 12

        ue = QE * X
        ud = ui * T
        cap = min(c['u_esat'], (full - c['blackoffset']) / K) - \
            c['dark_signal_0']
        tot = float(prnu.std() / prnu.mean()) if prnu.any() else 0.
        # points that are certainly / possibly used for the slopes
        low = ue <= .55 * cap
        if low.sum() < 3:
            return
        y = K * ue[low]
        v = K ** 2 * (ue[low] * (1 + tot) + ud[low] + sd2) + qn
        vd = K ** 2 * (ud[low] + sd2) + qn
        # one dark pair serves a whole irradiance series: a common error
        one = plan['fixed'] is not None
        seK = np.sqrt((y ** 2 * 2 * v ** 2 / N).sum() + (
            2 / N * (y * vd).sum() ** 2 if one else
            (y ** 2 * 2 * vd ** 2 / N).sum())) / (y ** 2).sum()
        tolK = Z * seK + .004 * K
        close('K', K, tolK)
        rK = tolK / K
        if rK > .3:
            ctx.probe('gain too uncertain')
            return
        # mean signal: noise of the mean frame
        x = X[low]
        seR = np.sqrt((x ** 2 * v / (2 * N)).sum() + (
            (x * np.sqrt(vd / (2 * N))).sum() ** 2 if one else
            (x ** 2 * vd / (2 * N)).sum())) / (x ** 2).sum()
        R = QE * K
        tolR = Z * seR + .003 * R
        close('R', R, tolR)
        close('QE', 100 * QE, 100 * QE * (tolR / R + rK) * 1.3)
        # --- dark noise
        var = K ** 2 * (ud + sd2) + qn
        if plan['fixed'] is None:
            n = len(T)
            dT = T - T.mean()
            S = (dT ** 2).sum()
            sev = var * np.sqrt(2. / N)
            # weights of the offset and of the slope of a straight line
            wo = 1. / n - T.mean() * dT / S
            ws = dT / S
            seo = np.sqrt((wo ** 2 * sev ** 2).sum())
            ses = np.sqrt((ws ** 2 * sev ** 2).sum())
            s20 = K ** 2 * sd2 + qn
            tol = Z * seo + .004 * s20
            lo, hi = max(s20 - tol, .24), max(s20 + tol, .24)
            a = np.sqrt(lo - qn) / K
            b = np.sqrt(hi - qn) / K
            mid, half = (a + b) / 2, (b - a) / 2
            close('sigma_d', mid, half + mid * rK)
            sm = np.sqrt((ws ** 2 * (var / (2 * N))).sum()) / K
            close('u_I_mean', ui, Z * sm + ui * (rK + .002) + 1e-9)
            sv = ses / K ** 2
            close('u_I_var', ui, Z * sv + ui * (2 * rK + .004) + 1e-9,
                  allow_nan=ui <= Z * sv)
        else:
            s2 = float(var[0])
            tol = Z * s2 * np.sqrt(2. / N) + .002 * s2
            mid = np.sqrt(s2 - qn) / K
            close('sigma_d', mid, tol / (2 * K * np.sqrt(
                max(s2 - qn - tol, .05))) + mid * rK)
        sd = got['sigma_d']
        # --- saturation
        step = float(np.max(np.diff(ue)))
        top = float(ue[-1])
        sig = np.sqrt(max(cap, 1.) + sd2)
        # non-uniformity of the response and of the dark signal spreads it
        spread = cap * (prnu.max() / prnu.mean() - 1) + \
            np.ptp(dsnu) + 4 * sig
        want = min(cap - ud[-1] if cap > ud[-1] else cap, top)
        v = got['u_e_sat']
        hi = want * (1 + rK * 2) + spread + 2.6 * step + .02 * cap
        if c['u_esat'] < (full - c['blackoffset']) / K and \
                (ue > cap - spread).sum() > 1:
            # the small noise of a series of points at the full well has
            # maxima of its own, where the standard's search may end
            ctx.probe('long plateau at the full well')
            hi = np.inf
        if not (want - spread - 2.6 * step - .02 * cap - v * (rK * 2) <= v <= hi):
            raise Violation('u_e_sat', '%.1f electrons; the camera saturates '
                            'at %.1f (spread %.1f, step %.1f)' % (
                                v, want, spread, step))
        close('u_p_sat', got['u_e_sat'] / got['QE'] * 100,
              1e-6 * got['u_p_sat'])
        close('SNR_max', np.sqrt(got['u_e_sat']), 1e-6 * got['SNR_max'])
        upmin = (np.sqrt((got['K'] * sd) ** 2 + qn) / got['K'] + .5) / \
            got['QE'] * 100
        close('u_p_min', upmin, 1e-6 * upmin)
        close('DR', got['u_p_sat'] / got['u_p_min'], 1e-6 * got['DR'])
        # --- non-uniformities
        ts = float(d['spatial']['texp']) * 1e-9
        us = float(d['spatial']['u_p']) * QE
        if us > .8 * cap / (prnu.max() / prnu.mean()) - np.ptp(dsnu):
            return
        vdark = K ** 2 * (ui * ts + sd2) + qn
        vlight = K ** 2 * (us + ui * ts + sd2) + qn
        dmap = split(dsnu * K)
        pmap = split((us * prnu / prnu.mean() + dsnu) * K)

        def se(m, v, k):
            n = v / L
            base = np.sqrt(2. / N) * n + 2 * np.sqrt(m[''] * n / N)
            if k in ('', '_pixel'):
                return base
            dim, other = (N_, M_) if k == '_col' else (M_, N_)
            nn = n / other
            mm = abs(m[k]) + abs(m['_pixel']) / other
            return (np.sqrt(2. / dim) * nn + 2 * np.sqrt(mm * nn / dim) +
                    2 * base / other)
        sig_us = us * K
        for k in ('', '_row', '_col', '_pixel'):
            tol = (Z + 2) * se(dmap, vdark, k) + .004 * abs(dmap['']) + 2e-4
            self.root(got, 'DSNU1288' + k, dmap[k], tol, 1 / K, rK)
            both = (Z + 2) * se(pmap, vlight, k) + \
                .004 * abs(pmap['']) + 2e-4 + tol
            self.root(got, 'PRNU1288' + k, pmap[k] - dmap[k], both,
                      100. / sig_us, .01 + Z * np.sqrt(
                          (vlight + vdark) / (L * N)) / sig_us)
        ctx.probe('non-uniformities compared')

    @staticmethod
    def root(got, name, s2, tol, factor, rel):
        v = got[name]
        lo = np.sqrt(max(s2 - tol, 0.)) * factor * (1 - rel)
        hi = np.sqrt(max(s2 + tol, 0.)) * factor * (1 + rel)
        if np.isnan(v):
            if s2 <= tol:
                return
        elif lo <= v <= hi:
            return
        raise Violation(name, '%s is %.6g; the camera has %.6g (%.6g to '
                        '%.6g)' % (name, v, np.sqrt(max(s2, 0)) * factor,
                                   lo, hi))


CHECK = C21()
