"""C06 A generated dataset stores exactly the delivered frames, or raises."""
import os

import numpy as np

from .. import camgen, grammar, kernel, pipe, world
from ..check import Check
from ..kernel import Violation, attempt
from ..simdisk import SimDisk


def verify(ctx, outdir, ds, frames, descr, kind='dataset'):
    """The dataset in outdir is complete and holds the frames."""
    found = camgen.find_descriptor(outdir)
    ctx.check(found is not None, kind + ':descriptor', 'no descriptor')
    ctx.check(os.path.realpath(descr) == os.path.realpath(found),
              kind + ':descriptor', 'descriptor path is wrong')
    try:
        d, pts = camgen.read_dataset(found)
    except grammar.Rejected as e:
        raise Violation(kind + ':descriptor', 'not well formed: %s' % e)
    cam = ds['cam']
    ctx.check(not d['unknown'], kind + ':descriptor', 'unknown lines')
    ctx.check(d['version'] == ds['version'], kind + ':descriptor', 'version')
    ctx.check(d['format'] == {'bits': cam['bit_depth'],
                              'width': cam['width'],
                              'height': cam['height']},
              kind + ':descriptor', 'format line: %s' % d['format'])
    names = [n for p in pts for n in p[3]]
    ctx.check(len(set(names)) == len(names), kind + ':names',
              'an image is listed twice')
    have = set()
    for r, _, fs in os.walk(outdir):
        have |= {os.path.join(r, f) for f in fs}
    extra = have - set(names) - {found}
    ctx.check(not extra, kind + ':names', lambda: 'files not listed: %s'
              % sorted(os.path.basename(x) for x in extra)[:5])

    # the documented plan
    steps, L = ds['steps'], ds['L']
    temporal = [p for p in pts if p[0] == 'temporal']
    spatial = [p for p in pts if p[0] == 'spatial']
    if ds['fixed'] is None:
        exps = np.round(np.linspace(cam['exposure_min'], cam['exposure_max'],
                                    steps), 1)
    else:
        exps = [round(ds['fixed'])]
    nb = 1 if ds['fixed'] is None else steps
    for t in exps:
        b = [p for p in temporal if abs(p[1] - t) < .06 and p[2] > 0]
        k = [p for p in temporal if abs(p[1] - t) < .06 and p[2] == 0]
        ctx.check(len(b) == nb and len(k) == 1, kind + ':plan', lambda:
                  '%d bright and %d dark points at exposure %s'
                  % (len(b), len(k), t))
    ctx.check(len(temporal) == len(exps) * (nb + 1), kind + ':plan',
              '%d temporal points' % len(temporal))
    ctx.check(len(spatial) == 2 and len({p[1] for p in spatial}) == 1 and
              sorted(p[2] > 0 for p in spatial) == [False, True] and
              all(len(p[3]) == L for p in spatial), kind + ':plan',
              lambda: 'spatial points %s' % [(p[1], p[2], len(p[3]))
                                             for p in spatial])
    if ds['fixed'] is None:
        ctx.check(abs(spatial[0][1] - exps[steps // 2]) < .06,
                  kind + ':plan', 'spatial exposure')

    # stored frames are a subsequence of the delivered ones, in order
    pos = 0
    for kd, t, ph, fs in pts:
        for f in fs:
            try:
                px = camgen.pixels(f)
            except Exception as e:
                raise Violation(kind + ':image', '%s cannot be read: %s' % (
                    os.path.basename(f), kernel.short(e)))
            start = pos
            while pos < len(frames):
                x = frames[pos]
                pos += 1
                if abs(x[0] - t) < .06 and \
                        abs(round(x[1], 3) - ph) < 2e-3 + 1e-9 * ph and \
                        px.shape == x[2].shape and np.array_equal(px, x[2]):
                    break
            else:
                raise Violation(kind + ':frame', '%s (exposure %s, photons '
                                '%s) is not a frame delivered for this point '
                                'in this order (after %d)' % (
                                    os.path.basename(f), t, ph, start))
    return pts


class C06(Check):
    id = 'C06'
    runs = {'quick': 700, 'thorough': 20000}
    rule = ('one run = one dataset generated fault-free and then up to three '
            'times with write faults; every image read back and matched with '
            'the frames the camera delivered; non-trivial = a fault fired')
    real = ['dataset generator', 'points generator', 'camera', 'PIL encoding',
            'standard library buffering']
    stubs = ['raw file I/O and directory operations (simulated disk)']
    shrink_lists = ('attempts', 'faults')
    shrink_ints = {'steps': 3, 'L': 3, 'width': 6, 'height': 6}

    def setup(self):
        world.load()

    def gen(self, rng, tier, i):
        at = []
        for _ in range(rng.randint(1, 3)):
            at.append({'short': rng.choice([0., 0., .5, .95]),
                       'max_open': rng.choice([None, None, None, 1, 2, 4]),
                       'faults': [
                {'cls': rng.choice(['w', 'w', 'write', 'open', 'any']),
                 'at': rng.choice([rng.random(), rng.random(),
                                   1 - rng.random() * .05]),
                 'torn': rng.choice([0, rng.random()]),
                 'stays': rng.random() < .7,
                 'kind': rng.choice(['ENOSPC', 'ENOSPC', 'EIO', 'EACCES',
                                     'EMFILE', 'EDQUOT'])}
                for _ in range(rng.choice([0, 1, 1, 1, 2]))]})
        ds = camgen.gen_dataset(rng)
        if i % 40 == 7:
            # a long campaign: hundreds of frames
            ds['cam'].update(width=6, height=6)
            n = rng.choice([120, 260, 300, 560])
            if rng.random() < .5:
                ds.update(steps=rng.randint(3, 5), L=n, fixed=None)
            else:
                ds.update(steps=n // 2, L=3)
            at = at[:1]
        return {'ds': ds, 'attempts': at,
                'tmp': rng.random() < .2, 'seed': rng.getrandbits(30)}

    def simpler(self, plan):
        if plan['ds']['fixed'] is not None:
            p = dict(plan, ds=dict(plan['ds'], fixed=None))
            yield p

    def execute(self, plan, ctx):
        ds = plan['ds']
        root = ctx.dir('disk')
        out = os.path.join(root, 'base')
        disk = SimDisk(root, ctx, seed=plan['seed'])
        with disk, camgen.GrabTap(ctx) as tap, ctx.must('generation'):
            g = camgen.generate(ds, None if plan['tmp'] else out)
        self.judge(ctx, g, ds, tap, out, plan)
        # the repository's own loader agrees with the stored pixels
        with ctx.must('loading'):
            pipe.load(pipe.parse(g.descriptor_path).images)
        counts = dict(disk.count)
        ctx.log('baseline', sorted(counts.items()), len(tap.frames))
        del g
        for n, a in enumerate(plan['attempts']):
            out = os.path.join(root, 'a%d' % n)
            faults = [dict(f, op=int(f['at'] * counts[f['cls']]))
                      for f in a['faults']]
            disk = SimDisk(root, ctx, faults, seed=plan['seed'] + n,
                           short_write=a['short'], max_open=a['max_open'])
            with disk, camgen.GrabTap(ctx) as tap:
                g, err = attempt(camgen.generate, ds,
                                 None if plan['tmp'] else out)
            ctx.log('attempt', n, disk.fired,
                    type(err).__name__ if err else 'ok')
            hard = [f for f in disk.fired]
            if err is not None:
                if not hard:
                    raise Violation('clean-generation-fails',
                                    kernel.short(err))
                ctx.probe('raised')
                continue
            if hard:
                ctx.probe('completed in spite of a fault')
            self.judge(ctx, g, ds, tap, out, plan, 'after-fault')
            del g

    def judge(self, ctx, g, ds, tap, out, plan, kind='dataset'):
        if plan['tmp']:
            out = os.path.dirname(g.descriptor_path)
        verify(ctx, out, ds, tap.frames, g.descriptor_path, kind)


CHECK = C06()
