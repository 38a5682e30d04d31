"""C12 Concurrent and interleaved campaigns do not affect each other."""
import os
import random

import numpy as np

from .. import camgen, compare, kernel, lab, pipe, world
from ..check import Check
from ..kernel import Violation, attempt
from ..sched import Scheduler
from ..simdisk import SimDisk, rel_tree


class C12(Check):
    id = 'C12'
    runs = {'quick': 700, 'thorough': 25000}
    rule = ('one run = two to five campaigns (processing or generating, some '
            'of them failing), each alone and then all together, as threads '
            'switched at source lines and I/O operations or interleaved step '
            'by step; non-trivial = switches between campaigns')
    real = ['parser', 'loader', 'data', 'results', 'XML output', 'facade',
            'report', 'dataset generator', 'camera', 'PIL']
    stubs = ['thread scheduler', 'raw file I/O (simulated disk)', 'camera '
             '(simulated device) of the processed campaigns']
    shrink_lists = ('jobs',)
    shrink_min = {'jobs': 2}
    shrink_ints = dict(lab.CAMPAIGN_SHRINK, steps=3)

    def setup(self):
        world.load()

    def gen(self, rng, tier, i):
        jobs = []
        base = lab.gen_campaign(rng)
        for _ in range(rng.randint(2, 5)):
            k = rng.choice(['proc', 'proc', 'proc', 'proc', 'facade', 'gen'])
            j = {'kind': k}
            if k == 'gen':
                ds = camgen.gen_dataset(rng)
                ds.update(steps=3, L=3)
                j['ds'] = ds
                j['temp'] = rng.random() < .4
            else:
                p = lab.gen_campaign(rng)
                if rng.random() < .5:
                    # the same exposures and sizes, other contents
                    p = dict(base, seed=rng.getrandbits(32))
                p['n'] = min(p['n'], 7)
                j['camp'] = p
                j['area'] = rng.choice([None, 25.])
                j['fail'] = rng.choice([None, None, None, 'missing', 'resize',
                                        'garbage', 'descr', 'eio'])
                j['at'] = rng.random()
                j['shift'] = rng.choice([0, 0, 0, 1, 2])
                j['xml'] = rng.random() < .4
            jobs.append(j)
        return {'jobs': jobs, 'mode': rng.choice(['threads', 'threads',
                                                  'steps']),
                'rate': rng.choice([.01, .05, .2]),
                'repeat': rng.random() < .3,
                'fresh': rng.random() < .6,
                'short': rng.choice([0., 0., .5]),
                'seed': rng.getrandbits(30)}

    # -- one campaign as a sequence of steps --------------------------------
    def proc(self, j, path, xml):
        state = {}
        kw = {}
        if j['shift']:
            kw = {'fload': shifted, 'fload_args': [j['shift']],
                  'fload_kwargs': {'step': 1}}

        def facade():
            from emva1288.process import Emva1288
            e = Emva1288(path)
            e.results()
            state['x'] = e.xml()
        if j['kind'] == 'facade':
            yield facade
        else:
            def parse():
                state['p'] = pipe.parse(path)

            def load():
                state['l'] = pipe.load(state['p'].images, **kw)

            def data():
                state['d'] = pipe.data(state['l'].data)

            def res():
                a = {'pixel_area': j['area']} if j['area'] else {}
                state['r'] = pipe.results(state['d'].data, **a)
            yield parse
            yield load
            yield data
            yield res

            def values():
                state['v'] = compare.snapshot(state['r'])
            yield values
        if j['xml'] and j['kind'] == 'proc':
            def write():
                state['r'].xml(xml)
                with open(xml) as f:
                    state['x'] = f.read()
            yield write

        def done():
            t = None
            if 'd' in state:
                d = state['d'].data
                t = (d['temporal'], {k: v for k, v in d['spatial'].items()})
            return state.get('v'), state.get('x'), t
        yield done

    def gen_steps(self, j, out):
        state = {}

        def make():
            state['g'] = camgen.generate(j['ds'], None if j['temp'] else out)

        def done():
            return rel_tree(os.path.dirname(state['g'].descriptor_path)), \
                None, None
        yield make
        yield done

    def steps(self, n, tag):
        j = self.plan['jobs'][n]
        if j['kind'] == 'gen':
            return self.gen_steps(j, os.path.join(self.root, 'g%d%s'
                                                  % (n, tag)))
        return self.proc(j, self.paths[n], os.path.join(
            self.root, 'x%d%s.xml' % (n, tag)))

    def whole(self, n, tag):
        r = None
        for s in self.steps(n, tag):
            r = s()
        return r

    # ------------------------------------------------------------------
    def execute(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.root = root = ctx.dir('disk')
        self.paths = {}
        faults_on = {}
        for n, j in enumerate(plan['jobs']):
            if j['kind'] == 'gen':
                continue
            pts = lab.record(j['camp'], ctx)
            out = os.path.join(root, 'camp%d' % n)
            self.paths[n] = lab.store(pts, j['camp'], out)
            self.damage(ctx, j, pts, out, self.paths[n])
        want = []
        for n in range(len(plan['jobs'])):
            # each in a process of its own, or one after the other in this
            want.append(kernel.isolated(self.alone, n) if plan['fresh']
                        else self.alone(n))
            ctx.log('alone', n, type(want[-1][1]).__name__)
        del faults_on
        for rep in range(2 if plan['repeat'] else 1):
            disk = SimDisk(root, ctx, seed=plan['seed'] + rep,
                           short_read=plan['short'],
                           short_write=plan['short'])
            with disk:
                if plan['mode'] == 'threads':
                    got = self.threads(ctx, rep)
                else:
                    got = self.interleaved(ctx, rep)
            for n, (g, w) in enumerate(zip(got, want)):
                self.judge(n, g, w, rep)

    def alone(self, n):
        with SimDisk(self.root, self.ctx, seed=n):
            r, err = attempt(self.whole, n, 'alone')
        return (r, None) if err is None else \
            (None, RuntimeError(kernel.short(err)))

    def damage(self, ctx, j, pts, out, path):
        if not j['fail']:
            return
        names = [n for pt in pts for n in pt.names]
        f = os.path.join(out, 'images', names[int(j['at'] * len(names))])
        ctx.fault('campaign ' + j['fail'])
        if j['fail'] == 'missing':
            os.remove(f)
        elif j['fail'] == 'resize':
            lab.write_image(pts[0].imgs[0][:-1], f)
        elif j['fail'] in ('garbage', 'eio'):
            with open(f, 'wb') as h:
                h.write(b'garbage')
        else:
            with open(path, 'a') as h:
                h.write('b 12.0\n')

    def threads(self, ctx, rep):
        s = Scheduler(ctx, self.plan['seed'] + rep, rate=self.plan['rate'],
                      max_steps=3000000)
        for n in range(len(self.plan['jobs'])):
            s.spawn('job%d' % n, lambda n=n: self.whole(n, 'r%d' % rep))
        out = []
        for t in s.run():
            e = t.error
            if e is not None:
                if not isinstance(e, Exception):
                    raise e
                kernel.clear_tb(e)
            out.append((t.result, e))
        return out

    def interleaved(self, ctx, rep):
        rng = random.Random(kernel.derive(self.plan['seed'], rep))
        live = {n: iter(self.steps(n, 'r%d' % rep))
                for n in range(len(self.plan['jobs']))}
        out = {n: (None, None) for n in live}
        last = None
        while live:
            n = rng.choice(sorted(live))
            try:
                step = next(live[n])
            except StopIteration:
                del live[n]
                continue
            if last not in (None, n):
                ctx.nontrivial = True
                ctx.probe('steps interleaved')
            last = n
            r, err = attempt(step)
            out[n] = (r, err)
            if err is not None:
                del live[n]
        return [out[n] for n in sorted(out)]

    def judge(self, n, got, want, rep):
        (g, ge), (w, we) = got, want
        j = self.plan['jobs'][n]
        what = 'campaign %d (%s)' % (n, j['kind'])
        if we is not None:
            if ge is None:
                raise Violation('failure-hidden', '%s fails alone (%s) but '
                                'not together with others'
                                % (what, kernel.short(we)))
            return
        if ge is not None:
            raise Violation('fails-together', '%s fails only together with '
                            'others: %s' % (what, kernel.short(ge)))
        if j['kind'] == 'gen':
            if g[0] != w[0]:
                raise Violation('generation-differs', '%s: files differ: %s'
                                % (what, sorted(
                                    k for k in set(g[0]) | set(w[0])
                                    if g[0].get(k) != w[0].get(k))[:5]))
            return
        if w[0] is not None:
            compare.require_same(g[0], w[0], 'result-differs', what)
        if w[1] != g[1]:
            a, b = str(w[1]).split('\n'), str(g[1]).split('\n')
            d = [x for x in zip(a, b) if x[0] != x[1]][:2]
            raise Violation('xml-differs', '%s: %s' % (what, d))
        if w[2] is not None:
            for a, b in zip(w[2], g[2]):
                for k in a:
                    if not np.array_equal(np.asarray(a[k]),
                                          np.asarray(b[k])):
                        raise Violation('data-differs', '%s: %s' % (what, k))


def shifted(fname, shift, step=0):
    """A loader of the caller, with arguments."""
    from PIL import Image
    img = np.asarray(Image.open(fname)).astype(np.int64)
    if img.ndim == 3:
        img = img[:, :, 0]
    return img + shift * step


CHECK = C12()
