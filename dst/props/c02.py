"""C02 Recording order never changes the results."""
import random

from .. import compare, lab, pipe, ref, world
from ..check import Check
from ..kernel import Skip


def shuffled(d, rng):
    keys = list(d)
    rng.shuffle(keys)
    return {k: d[k] for k in keys}


def reorder(tree, rng):
    """Same {kind: {exposure: {photons: x}}}, other insertion orders."""
    out = {}
    for k in tree:
        v = tree[k]
        if isinstance(v, dict) and k in ('temporal', 'spatial'):
            v = {t: shuffled(v[t], rng) for t in v}
            v = shuffled(v, rng)
        out[k] = v
    return shuffled(out, rng)


class C02(Check):
    id = 'C02'
    runs = {'quick': 900, 'thorough': 30000}
    rule = ('one run = one campaign processed in its canonical order and in a '
            'history with permuted blocks, frames and dictionary orders; '
            'non-trivial = at least one reordering changed something')
    real = ['parser', 'loader', 'data', 'results', 'routines']
    stubs = ['camera and light source (simulated device)']
    shrink_ints = dict(lab.CAMPAIGN_SHRINK)
    KINDS = ['blocks', 'frames', 'names', 'images', 'loaded', 'reverse',
             'dark_last', 'spatial_first']

    def setup(self):
        world.load()

    def gen(self, rng, tier, i):
        ks = rng.sample(self.KINDS, rng.randint(1, len(self.KINDS)))
        camp = lab.gen_campaign(rng)
        camp['close'] = rng.random() < .15
        return {'camp': camp,
                'ops': [{'k': k, 'seed': rng.getrandbits(30)} for k in ks]}

    def execute(self, plan, ctx):
        p = plan['camp']
        pts = lab.record(p, ctx)
        try:
            d, want = compare.reference(pts)
        except (ref.Ambiguous, ref.Undefined) as e:
            raise Skip(str(e))
        lab.name_points(pts, p)
        base = lab.store(pts, p, ctx.dir('a'))
        with ctx.must('processing in canonical order'):
            dat0 = pipe.process(base)
            got0 = compare.snapshot(pipe.results(dat0))
        after = {}
        for op in plan['ops']:
            rng = random.Random(op['seed'])
            k = op['k']
            order = [id(x) for x in pts]
            frames = [[id(f) for f in x.imgs] for x in pts]
            if k == 'blocks':
                rng.shuffle(pts)
            elif k == 'reverse':
                pts.reverse()
            elif k == 'dark_last':
                pts.sort(key=lambda x: x.photons == 0.0)
            elif k == 'spatial_first':
                pts.sort(key=lambda x: x.kind)
            elif k == 'frames':
                for pt in pts:
                    z = list(zip(pt.imgs, pt.names))
                    rng.shuffle(z)
                    pt.imgs = [a for a, _ in z]
                    pt.names = [b for _, b in z]
            elif k == 'names':
                names = [n for pt in pts for n in pt.names]
                rng.shuffle(names)
                it = iter(names)
                for pt in pts:
                    pt.names = [next(it) for _ in pt.imgs]
            else:
                after[k] = rng
                ctx.fault('reordered ' + k)
            if order != [id(x) for x in pts] or frames != [
                    [id(f) for f in x.imgs] for x in pts] or k == 'names':
                ctx.fault('reordered ' + k)
        path = lab.store(pts, p, ctx.dir('b'))
        with ctx.must('processing in another order'):
            images = pipe.parse(path).images
            if 'images' in after:
                images = reorder(images, after['images'])
            loaded = pipe.load(images).data
            if 'loaded' in after:
                loaded = reorder(loaded, after['loaded'])
            dat = pipe.data(loaded).data
            got = compare.snapshot(pipe.results(dat))
        compare.check_data(dat, d, 'order:data')
        compare.require_same(got, got0, 'order:results', 'another order')
        compare.check_results(got, want, ctx, 'order:results')
        ctx.log(lab.campaign_summary(p), [o['k'] for o in plan['ops']],
                [(x.kind, x.texp, x.photons, x.names) for x in pts])


CHECK = C02()
