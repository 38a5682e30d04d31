"""C09 Seeded cameras are reproducible and isolated from each other."""
import copy
import os
import pickle
import random

import numpy as np

from .. import camgen, camops, kernel, world
from ..check import Check
from ..kernel import Violation
from ..sched import Scheduler
from ..simdisk import SimDisk, rel_tree


def equal(a, b):
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b)


class C09(Check):
    id = 'C09'
    runs = {'quick': 2500, 'thorough': 60000}
    rule = ('one run = two to four camera specifications with operation '
            'sequences, run alone and then interleaved (by a random step '
            'order or as threads switched at source lines) with other '
            'cameras and users of the global random numbers; non-trivial = '
            'operations of different cameras interleaved')
    real = ['camera', 'quantum efficiency', 'bad pixels', 'dataset '
            'generator, PIL encoding']
    stubs = ['operating system entropy', 'thread scheduler', 'raw file I/O']
    shrink_lists = ('cams', 'ops')
    shrink_min = {'cams': 1, 'ops': 1}
    shrink_ints = {'width': 6, 'height': 6}

    def setup(self):
        world.load()

    def gen(self, rng, tier, i):
        cams = []
        for _ in range(rng.randint(2, 4)):
            if cams and rng.random() < .4:
                spec = dict(rng.choice(cams)['spec'])
                if rng.random() < .5:
                    spec['seed'] = rng.getrandbits(32)
            else:
                spec = camops.gen_spec(rng)
            cams.append({'spec': spec, 'ops': [
                camops.gen_op(rng) for _ in range(rng.randint(2, 7))]})
        return {'cams': cams, 'mode': rng.choice(['steps', 'steps',
                                                  'threads']),
                'share_qe': rng.random() < .4, 'noise': rng.random() < .8,
                'unseeded': rng.random() < .3, 'bad': rng.random() < .4,
                'dataset': camgen.gen_dataset(rng)
                if rng.random() < .12 else None,
                'copies': rng.choice([None, 'deep copy', 'pickle',
                                      'restart']),
                'seed': rng.getrandbits(30)}

    def alone(self, c, ctx=None):
        b = camops.Built(c['spec'])
        return [self.copy(camops.apply(b, op, ctx)) for op in c['ops']]

    @staticmethod
    def copy(v):
        return np.array(v, copy=True) if isinstance(v, np.ndarray) else v

    def compare(self, got, want, c, kind, what):
        for n, (g, w) in enumerate(zip(got, want)):
            if not equal(g, w):
                raise Violation(kind, '%s: operation %d %s gives another '
                                'result' % (what, n, c['ops'][n]))

    def execute(self, plan, ctx):
        with camops.Entropy(plan['seed']), ctx.must('camera operation'):
            self.body(plan, ctx)

    def body(self, plan, ctx):
        rng = random.Random(kernel.derive(plan['seed'], 'run'))
        want = []
        for c in plan['cams']:
            first = self.alone(c, ctx)
            if plan['noise']:
                self.disturb(rng)
            self.compare(self.alone(c), first, c, 'not-reproducible',
                         'two cameras with seed %r' % c['spec']['seed'])
            want.append(first)
            ctx.log('alone', [int(np.sum(v)) if isinstance(v, np.ndarray) and
                              v.dtype.kind == 'u' else 0 for v in first])
        if plan['mode'] == 'threads':
            self.threads(plan, ctx, want, rng)
        else:
            self.steps(plan, ctx, want, rng)
        self.seeds(plan, ctx, rng)
        if plan['dataset']:
            self.dataset(plan['dataset'], ctx, rng)

    def build(self, plan):
        out, qes = [], {}
        for c in plan['cams']:
            s = c['spec']
            key = tuple(s[k] for k in ('height', 'width', '_nw', '_qe'))
            b = camops.Built(s, qe=qes.get(key) if plan['share_qe'] else None)
            qes.setdefault(key, b.qe)
            out.append(b)
        return out

    def disturb(self, rng):
        r = rng.random()
        if r < .35:
            np.random.seed(rng.getrandbits(20))
        elif r < .7:
            np.random.random(rng.randint(1, 50))
            random.random()
        else:
            random.seed(rng.getrandbits(20))

    def steps(self, plan, ctx, want, rng):
        cams = self.build(plan)
        extra = None
        if plan['bad']:
            extra = camops.Built(dict(plan['cams'][0]['spec'], seed=99))
        todo = [[i, 0] for i in range(len(cams))]
        keep = []       # (frame object, copy, who)
        frozen = {}     # arrays of the callers
        last = None
        while todo:
            t = rng.choice(todo)
            i, n = t
            b, c = cams[i], plan['cams'][i]
            if plan['noise'] and rng.random() < .5:
                self.disturb(rng)
                ctx.probe('global random numbers used')
            others = {j: camops.settings(x.cam) for j, x in enumerate(cams)
                      if j != i}
            op = c['ops'][n]
            if plan.get('copies') and rng.random() < .3:
                self.replace(plan, ctx, rng, b, c, i, n, want[i])
            if op['op'] == 'grab':
                b.radiance(op)
            for j, x in enumerate(cams):
                for k, a in x.arrays.items():
                    key = (j, k, id(a))
                    if key not in frozen:
                        frozen[key] = (a, np.array(a, copy=True))
            got = camops.apply(b, op)
            if not equal(got, want[i][n]):
                raise Violation('not-isolated', 'camera %d operation %d %s '
                                'gives another result when interleaved'
                                % (i, n, op))
            if isinstance(got, np.ndarray):
                keep.append((got, np.array(got, copy=True), (i, n)))
            if extra is not None and rng.random() < .3:
                # damage to another camera of the same kind
                camops.apply(extra, {'op': 'bad', 'n': 3, 'v': 1})
                extra.cam.grab(0)
                ctx.probe('bad pixels on another camera')
            for j, s in others.items():
                d = camops.differ(s, camops.settings(cams[j].cam))
                if d:
                    raise Violation('other-camera-changed', '%s of camera %d '
                                    'changed by %s on camera %d'
                                    % (d, j, op, i))
            for g, copy, who in keep:
                if not np.array_equal(g, copy):
                    raise Violation('frame-changed', 'a frame delivered '
                                    'earlier changed: %s after %s on %d'
                                    % (who, op, i))
            for (j, k, _), (a, copy) in frozen.items():
                if not np.array_equal(a, copy):
                    raise Violation('caller-array-changed', '%s of the '
                                    'builder of camera %d changed by %s'
                                    % (k, j, op))
            if last is not None and last != i:
                ctx.nontrivial = True
                ctx.probe('interleaved')
            last = i
            t[1] += 1
            if t[1] == len(c['ops']):
                todo.remove(t)
        for x in range(len(keep)):
            for y in range(x):
                if keep[x][0].dtype.kind == 'u' and \
                        np.shares_memory(keep[x][0], keep[y][0]):
                    raise Violation('frame-changed', 'two frames share '
                                    'memory')

    def replace(self, plan, ctx, rng, b, c, i, n, want):
        """A copy of the camera goes on instead of it, here or in another
        process."""
        ctx.probe('camera goes on as ' + plan['copies'])
        old = b.cam
        if plan['copies'] == 'restart':
            raw = pickle.dumps(old)

            def rest():
                b.cam = pickle.loads(raw)
                return [self.copy(camops.apply(b, op))
                        for op in c['ops'][n:]]
            ctx.fault('restart')
            got = kernel.isolated(rest)
            for m, (g, w) in enumerate(zip(got, want[n:]), n):
                if not equal(g, w):
                    raise Violation('copy-differs', 'operation %d %s gives '
                                    'another result when camera %d was '
                                    'stored before operation %d and goes on '
                                    'in another process'
                                    % (m, c['ops'][m], i, n))
            return
        b.cam = copy.deepcopy(old) if plan['copies'] == 'deep copy' \
            else pickle.loads(pickle.dumps(old))
        d = camops.differ(camops.settings(old), camops.settings(b.cam))
        if d:
            raise Violation('copy-differs', '%s of the %s of camera %d'
                            % (d, plan['copies'], i))
        # the original is used for something else
        for _ in range(rng.randint(0, 2)):
            was = camops.settings(b.cam)
            old.grab(0)
            old.exposure = old.exposure_min + rng.random() * 1e6
            old.environment['temperature'] = 70.
            old.K = old.Ks[0]
            d = camops.differ(was, camops.settings(b.cam))
            if d:
                raise Violation('copy-not-isolated', '%s of a %s of camera '
                                '%d changed by the original'
                                % (d, plan['copies'], i))

    def threads(self, plan, ctx, want, rng):
        cams = self.build(plan)
        s = Scheduler(ctx, plan['seed'], rate=rng.choice([.02, .1, .3]))

        def work(i):
            b, c = cams[i], plan['cams'][i]
            out = []
            for op in c['ops']:
                out.append(self.copy(camops.apply(b, op)))
            return out

        def noise():
            from emva1288.camera.bad_images import bad_pixel
            r = random.Random(plan['seed'])
            b = camops.Built(dict(plan['cams'][0]['spec'], seed=5))
            for _ in range(6):
                self.disturb(r)
                bad_pixel(b.cam, 2)
                b.cam.grab(0)
        for i in range(len(cams)):
            s.spawn('cam%d' % i, lambda i=i: work(i))
        if plan['noise']:
            s.spawn('noise', noise)
        for i, t in enumerate(s.run()):
            if t.error is not None:
                raise Violation('thread-failed', '%s: %s' % (
                    t.name, kernel.short(t.error)))
            if t.name.startswith('cam'):
                self.compare(t.result, want[i], plan['cams'][i],
                             'not-isolated', 'in a thread')

    def seeds(self, plan, ctx, rng):
        """Different seeds, or none, give different noise."""
        spec = plan['cams'][0]['spec']
        seeds = [spec['seed'], spec['seed'] + 1, rng.getrandbits(31),
                 spec['seed'] + 2 ** rng.choice([16, 31, 32, 63, 64, 80])]
        if plan['unseeded']:
            seeds += [None, None]
        frames = []
        for s in seeds:
            if plan['noise']:
                np.random.seed(7)
                random.seed(7)
            b = camops.Built(dict(spec, seed=s))
            b.cam.K = spec['K_max']
            b.cam.blackoffset = spec['blackoffset_max']
            # two frames, so that an accidental coincidence of small ones
            # is out of the question
            frames.append(np.concatenate([b.cam.grab(0), b.cam.grab(0)]))
        std = float(np.std(frames[0].astype(float)))
        if std < 1.:
            ctx.probe('noise too small to tell seeds apart')
            return
        for x in range(len(frames)):
            h = frames[x].shape[0] // 2
            if np.array_equal(frames[x][:h], frames[x][h:]):
                raise Violation('same-noise', 'two frames of one camera are '
                                'identical')
            for y in range(x):
                if np.array_equal(frames[x], frames[y]):
                    raise Violation('same-noise', 'seeds %r and %r give the '
                                    'same frames' % (seeds[x], seeds[y]))

    def dataset(self, ds, ctx, rng):
        root = ctx.dir('disk')
        trees = []
        for n in range(3):
            out = os.path.join(root, 'd%d' % n)
            self.disturb(rng)
            over = {'seed': ds['cam']['seed'] + 1} if n == 2 else {}
            with SimDisk(root, ctx, seed=n):
                g = camgen.generate(ds, out, **over)
            trees.append(rel_tree(out))
            del g
        if trees[0] != trees[1]:
            raise Violation('dataset-not-reproducible', 'files differ: %s'
                            % sorted(k for k in set(trees[0]) | set(trees[1])
                                     if trees[0].get(k) != trees[1].get(k)
                                     )[:5])
        if trees[0] == trees[2]:
            raise Violation('same-noise', 'datasets with different seeds are '
                            'identical')
        ctx.probe('datasets compared')


CHECK = C09()
