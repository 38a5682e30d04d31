"""C08 A temporary dataset lives exactly as long as its generator."""
import gc
import os

from .. import camgen, compare, kernel, pipe, world
from ..check import Check
from ..kernel import Violation, attempt
from ..simdisk import SimDisk, rel_tree


class C08(Check):
    id = 'C08'
    runs = {'quick': 600, 'thorough': 25000}
    rule = ('one run = a history of up to 12 creations, failing creations, '
            'drops, collections and readings of dataset generators, the file '
            'system inspected after each; non-trivial = a fault fired or a '
            'generator was dropped while another one lived')
    real = ['dataset generator', 'tempfile', 'camera', 'PIL', 'parser',
            'loader']
    stubs = ['raw file I/O, directory operations and temporary file names '
             '(simulated disk)', 'garbage collection instants']
    shrink_lists = ('ops',)
    shrink_min = {'ops': 1}
    shrink_ints = {'steps': 3, 'L': 3, 'width': 6, 'height': 6}

    def setup(self):
        world.load()

    def gen(self, rng, tier, i):
        ops = []
        for _ in range(rng.randint(3, 12)):
            kind = rng.choice(['create', 'create', 'create', 'fail', 'drop',
                               'drop', 'process', 'gc', 'alias', 'badcam',
                               'replace', 'cycle', 'raise'])
            op = {'op': kind, 'slot': rng.randrange(4)}
            if kind in ('create', 'fail', 'replace', 'raise'):
                ds = camgen.gen_dataset(rng, auto=.1)
                ds.update(steps=3, L=3)
                ds['cam'].update(width=rng.randint(6, 8), height=6)
                op['ds'] = ds
                op['given'] = rng.random() < .3
                op['nested'] = rng.random() < .5
                op['at'] = rng.choice([rng.random(), rng.random() * .1])
                op['kind'] = rng.choice(['ENOSPC', 'EIO', 'EACCES', 'EMFILE'])
            ops.append(op)
        return {'ops': ops, 'seed': rng.getrandbits(30),
                'autogc': rng.random() < .5}

    def execute(self, plan, ctx):
        root = ctx.dir('disk')
        self.root = root
        self.ctx = ctx
        self.live = {}        # slot -> [list of references]
        self.info = {}        # slot -> (dir, tree, given)
        self.given = {}       # caller's directories: path -> tree
        self.gone = set()
        self.cycles = []
        if not plan['autogc']:
            gc.disable()
        nops = None
        try:
            for n, op in enumerate(plan['ops']):
                nops = self.step(n, op, plan, nops)
                self.inspect(op)
            self.live.clear()
            gc.collect()
            for slot in list(self.info):
                self.retire(slot)
            self.inspect({'op': 'end'})
        finally:
            gc.enable()

    def step(self, n, op, plan, nops):
        ctx, root = self.ctx, self.root
        kind, slot = op['op'], op['slot']
        ctx.log(n, kind, slot)
        if kind in ('create', 'replace', 'fail', 'raise'):
            if kind == 'create' and slot in self.live:
                return nops
            out = None
            if op['given']:
                out = os.path.join(root, 'given%d' % n)
                if op['nested']:
                    os.makedirs(out)
                    with open(os.path.join(out, 'mine.dat'), 'w') as f:
                        f.write('precious')
            faults = []
            if kind == 'fail':
                faults = [{'cls': 'w', 'kind': op['kind'],
                           'op': int(op['at'] * (nops or 70))}]
            before = set(os.listdir(root))
            disk = SimDisk(root, ctx, faults, seed=plan['seed'] + n)
            with disk:
                if kind == 'raise':
                    g, err = attempt(self.broken, op['ds'], out)
                else:
                    g, err = attempt(camgen.generate, op['ds'], out)
            if err is not None:
                if kind not in ('fail', 'raise') or (
                        kind == 'fail' and not disk.fired):
                    raise Violation('clean-generation-fails',
                                    kernel.short(err))
                ctx.probe('failed creation')
                del err
                gc.collect()
                left = set(os.listdir(root)) - before
                left.discard(os.path.basename(out) if out else None)
                ctx.check(not left, 'failure-leaves-directory',
                          lambda: 'a failed generation left %s' % left)
                if out and op['nested']:
                    ctx.check(os.path.exists(os.path.join(out, 'mine.dat')),
                              'given-removed', 'a failed generation removed '
                              'files of the caller')
                return nops
            nops = nops or disk.count['w']
            if kind == 'replace' and slot in self.live:
                self.drop(slot)
            elif slot in self.live:
                del g
                gc.collect()
                return nops
            d = os.path.dirname(g.descriptor_path)
            self.live[slot] = [g]
            self.info[slot] = (d, rel_tree(d), out is not None)
            if out:
                ctx.check(os.path.realpath(d) == os.path.realpath(out),
                          'directory', 'dataset not in the given directory')
            else:
                ctx.check(d not in self.gone or True, 'directory', '')
                for s2, (d2, _, _) in self.info.items():
                    ctx.check(s2 == slot or d2 != d, 'directory',
                              'two generators share a directory')
        elif kind == 'badcam':
            before = set(os.listdir(root))
            with SimDisk(root, ctx, seed=n):
                _, err = attempt(self.badcam)
            ctx.check(err is not None, 'badcam', 'accepted')
            del err
            gc.collect()
            left = set(os.listdir(root)) - before
            ctx.check(not left, 'failure-leaves-directory',
                      lambda: 'a failed generation left %s' % left)
        elif slot not in self.live:
            return nops
        elif kind == 'drop':
            if len(self.live) > 1:
                ctx.nontrivial = True
            self.drop(slot)
        elif kind == 'alias':
            self.live[slot].append(self.live[slot][0])
        elif kind == 'cycle':
            # the generator is part of a reference cycle of its owner
            box = [self.live[slot][0]]
            box.append(box)
            self.cycles.append(box)
            box = None
            self.cycles.clear()
        elif kind == 'gc':
            gc.collect()
        elif kind == 'process':
            with SimDisk(root, ctx, seed=n), ctx.must('processing'):
                pipe.process(self.live[slot][0].descriptor_path)
        return nops

    def broken(self, ds, out):
        """The camera fails in the middle of a generation."""
        from emva1288.camera.camera import Camera
        orig = Camera.grab
        n = [0]

        def grab(cam, *a, **k):
            n[0] += 1
            if n[0] > 8:
                self.ctx.fault('camera error')
                raise RuntimeError('injected camera failure')
            return orig(cam, *a, **k)
        Camera.grab = grab
        try:
            return camgen.generate(ds, out)
        finally:
            Camera.grab = orig

    def badcam(self):
        from emva1288.camera.dataset_generator import DatasetGenerator
        return DatasetGenerator(steps=3, L=3, width=6, height=6, K=.1,
                                blackoffset=2., no_such_parameter=1)

    def drop(self, slot):
        refs = self.live[slot]
        while len(refs) > 1:
            # all but the last reference: nothing may happen
            refs.pop()
            self.inspect({'op': 'drop alias'})
        del refs
        del self.live[slot]
        gc.collect()
        self.retire(slot)

    def retire(self, slot):
        d, tree, given = self.info.pop(slot)
        if given:
            self.given[d] = tree
        else:
            self.gone.add(d)
            self.ctx.check(not os.path.exists(d), 'directory-survives',
                           'the directory of a dropped generator is still '
                           'there')

    def inspect(self, op):
        for slot, (d, tree, _) in self.info.items():
            now = rel_tree(d) if os.path.isdir(d) else None
            self.ctx.check(now is not None, 'dataset-vanished', 'dataset of a '
                           'referenced generator is gone after ' + op['op'])
            self.ctx.check(now == tree, 'dataset-changed', lambda:
                           'dataset of a referenced generator changed after '
                           '%s: %s' % (op['op'], sorted(
                               k for k in set(now) | set(tree)
                               if now.get(k) != tree.get(k))[:5]))
            self.ctx.check(self.live[slot][0].descriptor_path ==
                           self.path_of(slot), 'descriptor-path', 'changed')
        for d, tree in self.given.items():
            now = rel_tree(d) if os.path.isdir(d) else None
            self.ctx.check(now == tree, 'given-removed', 'the directory given '
                           'by the caller changed after ' + op['op'])

    def path_of(self, slot):
        return camgen.find_descriptor(self.info[slot][0])


CHECK = C08()
