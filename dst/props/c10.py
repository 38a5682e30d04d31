"""C10 Frames follow the noise model for the settings in force."""
import numpy as np

from .. import camops, kernel, world
from ..check import Check
from ..kernel import Violation

NF = 60        # frames of a block
NR = 400       # frames of the reference


def photons(rad, texp, area, wl, f):
    """Photons per pixel and wavelength (documented formula)."""
    w = wl * 1e-9
    irradiance = rad * np.pi / (1 + (2 * f) ** 2) * w
    return irradiance * (area * 1e-12) * (texp * 1e-9) * w / (6.63e-34 * 3e8)


class Model:
    """Independent model of the documented camera."""

    def __init__(self, b):
        s = b.spec
        self.s = s
        self.shape = (s['height'], s['width'])
        self.full = 2 ** s['bit_depth'] - 1
        self.wl = np.linspace(450, 650, s['_nw'])
        self.Ks = np.linspace(s['K_min'], s['K_max'], s['K_steps'])
        self.bos = np.linspace(s.get('blackoffset_min', 0),
                               s['blackoffset_max'],
                               s['blackoffset_steps'])
        self.K = self.near(self.Ks, s['K'])
        self.bo = self.near(self.bos, s['blackoffset'])
        self.texp = s['exposure']
        self.env = {'temperature': s['temperature'],
                    'f_number': s['f_number']}
        a = b.arrays
        self.dsnu = np.array(a['dsnu']) if 'dsnu' in a else 0.
        self.prnu = np.array(a['prnu']) if 'prnu' in a else 1.
        if 'qe' in a:
            self.qe = np.array(a['qe'])
            if 'filter' in a:
                self.qe = self.qe * a['filter']
        else:
            self.qe = np.array(b.qe.qe)

    @staticmethod
    def near(arr, v):
        d = np.abs(arr - v)
        return arr[d <= d.min() * (1 + 1e-12)][0]

    def draw(self, rng, rad, t, f):
        s = self.s
        t = self.env['temperature'] if t is None else t
        f = self.env['f_number'] if f is None else f
        ui = s['dark_current_ref'] * 2. ** (
            (t - s['temperature_ref']) / s['temperature_doubling'])
        ud = ui * self.texp * 1e-9
        ph = photons(rad, self.texp, s['pixel_area'], self.wl, f)
        ue = np.sum(np.broadcast_to(ph * self.qe, self.shape +
                                    (len(self.wl),)), axis=2) * self.prnu
        size = (NR,) + self.shape
        e = rng.poisson(ud + ue, size) + self.dsnu + rng.normal(
            s['dark_signal_0'], np.sqrt(s['sigma2_dark_0']), size)
        e = np.clip(e, 0, s['u_esat'])
        y = np.rint(self.K * e + self.bo + rng.uniform(-.5, .5, size))
        return np.clip(y, 0, self.full)


class C10(Check):
    id = 'C10'
    runs = {'quick': 1200, 'thorough': 30000}
    rule = ('one run = one camera, a history of changed settings and blocks '
            'of %d frames, each block compared with %d frames of an '
            'independent model for the settings in force; non-trivial = a '
            'setting changed between blocks' % (NF, NR))
    real = ['camera', 'quantum efficiency', 'photon conversion']
    stubs = ['operating system entropy']
    assumptions = ['statistical tests at 7.5 standard errors or more: a run '
                   'of the unchanged model fails with probability < 1e-9']
    shrink_lists = ('ops',)
    shrink_min = {'ops': 1}
    shrink_ints = {'width': 6, 'height': 6}

    def setup(self):
        world.load()

    def gen(self, rng, tier, i):
        spec = camops.gen_spec(rng)
        if spec['width'] > 100:
            if rng.random() < .7:
                spec.update(width=16, height=14)
            else:
                spec['_nw'] = min(spec['_nw'], 2)
        spec.update(exposure=rng.choice([500000, 1000000, 20000000]),
                    temperature_ref=rng.choice([20, 30, 45]),
                    temperature_doubling=rng.choice([6., 8., 10.]),
                    dark_current_ref=rng.choice([30., 30000., 3e6]),
                    K_steps=rng.choice([2, 17, 255]),
                    blackoffset_steps=rng.choice([5, 255]))
        ops = []
        for _ in range(rng.randint(2, 7)):
            op = camops.gen_op(rng, bad=True)
            while op['op'] in ('for', 'photons'):
                op = camops.gen_op(rng, bad=True)
            if op['op'] == 'exposure' and rng.random() < .15:
                op['v'] = 0
            ops.append(op)
        if not any(o['op'] == 'grab' for o in ops):
            ops.append({'op': 'grab', 'rad': 'full', 'level': .5, 't': None,
                        'f': None})
        if rng.random() < .5:
            # an override and then the same grab without it
            j = rng.randrange(len(ops))
            g = {'op': 'grab', 'rad': 'full', 'level': .5,
                 't': rng.choice([None, 0, 5., 60.]), 'f': rng.choice(
                     [None, 2., 16.])}
            ops[j:j] = [g, dict(g, t=None, f=None)]
        return {'spec': spec, 'ops': ops, 'seed': rng.getrandbits(30),
                'order': rng.random() < .5}

    def execute(self, plan, ctx):
        with camops.Entropy(plan['seed']), ctx.must('camera operation'):
            self.body(plan, ctx)

    def body(self, plan, ctx):
        np.random.seed(plan['seed'] % 2 ** 32)
        b = camops.Built(plan['spec'])
        m = Model(b)
        rng = np.random.default_rng(plan['seed'])
        if not (np.allclose(b.cam.Ks, m.Ks, rtol=1e-12) and
                np.allclose(b.cam.blackoffsets, m.bos, rtol=1e-12)):
            raise Violation('settings', 'available gains or black offsets')
        changed = False
        blocks = 0
        for n, op in enumerate(plan['ops']):
            k = op['op']
            if k == 'grab':
                rad = b.radiance(op)
                ref = m.draw(rng, rad, op['t'], op['f'])
                frames = [camops.apply(b, op, ctx) for _ in range(NF)]
                self.block(frames, ref, m, 'block %d %s' % (n, op), ctx)
                blocks += 1
                if changed and blocks:
                    ctx.nontrivial = True
                ctx.log('block', int(np.sum(frames[0])))
                continue
            changed = True
            s0 = camops.settings(b.cam)
            camops.apply(b, op)
            if k == 'exposure':
                m.texp = op['v']
            elif k == 'K':
                v = plan['spec']['K_min'] + op['v'] * (
                    plan['spec']['K_max'] - plan['spec']['K_min'])
                m.K = self.nearest(m.Ks, v, b.cam.K, 'gain')
            elif k == 'bo':
                m.bo = self.nearest(m.bos, op['v'] *
                                    plan['spec']['blackoffset_max'],
                                    b.cam.blackoffset, 'black offset')
            elif k == 'env':
                m.env[op['what']] = op['v']
            elif k == 'dsnu':
                m.dsnu = np.array(b.arrays['dsnu'])
            elif k == 'bad':
                m.dsnu = np.array(b.cam.DSNU)
            s1 = camops.settings(b.cam)
            touched = {'exposure': ['exposure'], 'K': ['K'],
                       'bo': ['blackoffset'], 'env': ['environment'],
                       'dsnu': ['DSNU'], 'bad': ['DSNU']}[k]
            d = camops.differ({x: v for x, v in s0.items()
                               if x not in touched}, s1)
            if d:
                raise Violation('settings', '%s changed %s' % (op, d))
        self.settings(b.cam, m)

    def nearest(self, arr, v, got, what):
        d = np.abs(arr - v)
        if not (np.min(np.abs(arr - got)) <= 1e-12 * max(1, abs(got)) and
                abs(got - v) <= d.min() + 1e-9 * max(1., abs(v))):
            raise Violation('nearest', '%s %r set to %r' % (what, v, got))
        return got

    def settings(self, c, m):
        for k, g, w in (('K', c.K, m.K), ('black offset', c.blackoffset,
                                          m.bo), ('exposure', c.exposure,
                                                  m.texp),
                        ('environment', dict(c.environment), m.env)):
            if g != w:
                raise Violation('settings', '%s is %r, expected %r'
                                % (k, g, w))

    # ------------------------------------------------------------------
    def block(self, frames, ref, m, what, ctx):
        for f in frames:
            if not isinstance(f, np.ndarray) or f.shape != m.shape:
                raise Violation('shape', '%s: %s' % (what, getattr(
                    f, 'shape', type(f))))
            if f.dtype != (np.uint8 if m.full < 256 else np.uint16):
                raise Violation('type', '%s: %s' % (what, f.dtype))
            if int(f.max()) > m.full or int(f.min()) < 0:
                raise Violation('range', '%s: %d to %d of %d' % (
                    what, f.min(), f.max(), m.full))
        y = np.array(frames).astype(float)
        self.mean_var(y.ravel(), ref.ravel(), what)
        self.ks(y.ravel(), ref.ravel(), what)
        self.pixels(y, ref, what)
        self.independence(y, ref, what, ctx)

    def mean_var(self, y, r, what):
        al = np.concatenate([y, r])
        mu, v = al.mean(), al.var()
        inv = 1. / y.size + 1. / r.size
        z = abs(y.mean() - r.mean()) / (np.sqrt(v * inv) + 1e-12)
        # between-pixel spread only lowers the true error of the mean
        if z > 7.5:
            raise Violation('mean', '%s: mean %.4f, model %.4f (%.1f standard '
                            'errors)' % (what, y.mean(), r.mean(), z))
        q = (al - mu) ** 2
        se = np.sqrt(q.var() * inv)
        d = abs(((y - mu) ** 2).mean() - ((r - mu) ** 2).mean())
        if d > 8 * se + 1e-12:
            raise Violation('variance', '%s: variance %.4f, model %.4f (%.1f '
                            'standard errors)' % (what, y.var(), r.var(),
                                                  d / se))

    def ks(self, y, r, what):
        ys, rs = np.sort(y), np.sort(r)
        x = np.unique(np.concatenate([ys, rs]))
        d = np.max(np.abs(np.searchsorted(ys, x, 'right') / ys.size -
                          np.searchsorted(rs, x, 'right') / rs.size))
        lim = np.sqrt(13.) * np.sqrt(1. / ys.size + 1. / rs.size)
        if d > lim:
            raise Violation('distribution', '%s: distance %.4f of the grey '
                            'value distribution from the model (limit %.4f)'
                            % (what, d, lim))

    def pixels(self, y, r, what):
        n, k = len(y), len(r)
        v = (y.var(axis=0) * n + r.var(axis=0) * k) / (n + k)
        d = np.abs(y.mean(axis=0) - r.mean(axis=0))
        # pooled around the common mean
        g = (y.mean(axis=0) * n + r.mean(axis=0) * k) / (n + k)
        v = v + (n * (y.mean(axis=0) - g) ** 2 +
                 k * (r.mean(axis=0) - g) ** 2) / (n + k)
        se = np.sqrt(v * (1. / n + 1. / k)) + 1e-12
        z = d / se
        if z.max() > 9:
            i = np.unravel_index(int(z.argmax()), z.shape)
            raise Violation('pixel', '%s: pixel %s has mean %.3f, model %.3f '
                            '(%.1f standard errors)' % (
                                what, tuple(int(x) for x in i),
                                y.mean(axis=0)[i], r.mean(axis=0)[i],
                                z.max()))
        # temporal variance of the well behaved pixels
        al = np.concatenate([y, r])
        good = self.good(al)
        if good.sum() >= 12:
            mu = al.mean(axis=0)
            t = (((y - mu) ** 2).mean(axis=0) - ((r - mu) ** 2).mean(axis=0)
                 )[good] / al.var(axis=0)[good]
            lim = 9 * np.sqrt(5. * (1. / n + 1. / k) / good.sum())
            if abs(t.mean()) > lim:
                raise Violation('variance', '%s: temporal variance is %.2f '
                                'times that of the model' % (
                                    what, 1 + t.mean()))

    @staticmethod
    def good(r):
        """Pixels whose distribution is not dominated by rare events."""
        s = r.std(axis=0)
        ok = s >= .45
        s = np.where(ok, s, 1.)
        return ok & ((((r - r.mean(axis=0)) / s) ** 4).mean(axis=0) < 6)

    def independence(self, y, r, what, ctx):
        good = self.good(np.concatenate([y, r]))
        if good.sum() < 12:
            ctx.probe('block without independence test')
            return
        ctx.probe('block with independence test')
        s = np.where(good, r.std(axis=0), 1.)
        z = np.where(good, (y - r.mean(axis=0)) / s, 0.)
        n = len(z)

        def score(x, pairs, name):
            if not pairs:
                return
            t = x.sum() / np.sqrt(pairs)
            if abs(t) > 9:
                raise Violation('correlated', '%s: noise is correlated '
                                'between %s (%.1f standard errors)'
                                % (what, name, t))
        score(z[1:] * z[:-1], (n - 1) * good.sum(), 'successive frames')
        score(z[2:] * z[:-2], (n - 2) * good.sum(), 'every second frame')
        score(z[:, 1:] * z[:, :-1], n * (good[1:] & good[:-1]).sum(), 'rows')
        score(z[:, :, 1:] * z[:, :, :-1],
              n * (good[:, 1:] & good[:, :-1]).sum(), 'columns')

        def chi(x, count, name):
            ok = count > 0
            x = x[:, ok] if x.ndim > 1 else x
            count = count[ok] if x.ndim > 1 else count
            q = x ** 2 / count
            t = (q.mean() - 1) * np.sqrt(q.size / 2.)
            if abs(t) > 12:
                raise Violation('correlated', '%s: common noise of %s (%.1f '
                                'standard errors)' % (what, name, t))
        chi(z.sum(axis=(1, 2)), good.sum(), 'frames')
        chi(z.sum(axis=2), good.sum(axis=1), 'rows')
        chi(z.sum(axis=1), good.sum(axis=0), 'columns')


CHECK = C10()
