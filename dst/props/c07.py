"""C07 An interrupted generation never yields a silently wrong dataset."""
import os
import random

import numpy as np

from .. import camgen, compare, grammar, kernel, pipe, ref, world
from ..check import Check
from ..kernel import Violation, attempt
from ..simdisk import SimDisk, rel_tree, run_until_crash
from . import c06


class Run:
    """What a complete generation of one variant holds."""

    def __init__(self, tree_dir, descr, frames):
        d, pts = camgen.read_dataset(descr)
        self.by_name = {}
        for kind, t, ph, fs in pts:
            for f in fs:
                self.by_name[os.path.relpath(f, tree_dir)] = (
                    t, ph, camgen.pixels(f))
        self.frames = frames


class C07(Check):
    id = 'C07'
    runs = {'quick': 500, 'thorough': 20000}
    rule = ('one run = a history of one to four generations into one '
            'directory, each complete, killed or cut by a power loss at a '
            'drawn write operation; what is on disk is processed after each; '
            'non-trivial = a crash fired')
    real = ['dataset generator', 'camera', 'PIL encoding and decoding',
            'parser', 'loader', 'data']
    stubs = ['raw file I/O and directory operations (simulated disk), '
             'process death']
    assumptions = ['a power loss keeps an arbitrary prefix of every file, '
                   'possibly zero filled; only PNG datasets are exposed to it '
                   '(other formats have no check sums)']
    shrink_lists = ('ops',)
    shrink_min = {'ops': 1}
    shrink_ints = {'steps': 3, 'L': 3, 'width': 6, 'height': 6}

    def setup(self):
        world.load()

    def gen(self, rng, tier, i):
        ds = camgen.gen_dataset(rng, fmt=rng.choice(['png', 'png', 'tiff']))
        big = rng.random() < .08
        if big:
            # a descriptor longer than the write buffer
            ds.update(steps=rng.randint(60, 75), L=rng.randint(10, 25))
            ds['cam'].update(width=6, height=6)
        ops = []
        for n in range(rng.randint(1, 2 if big else 4)):
            end = rng.choice(['kill', 'kill', 'power', 'power', 'done'])
            if end == 'power' and ds['fmt'] != 'png':
                end = 'kill'
            at = rng.choice([rng.random(), rng.random(), rng.random() * .03,
                             1 - rng.random() * .12])
            ops.append({'variant': rng.choice([0, 0, 1]), 'end': end,
                        'at': at, 'torn': rng.choice([0, rng.random()]),
                        'seed': rng.getrandbits(30)})
        return {'ds': ds, 'ops': ops, 'seed2': rng.getrandbits(20),
                'steps2': rng.choice([0, 0, -2, -1, 1, 2]),
                'short': rng.choice([0., 0., .6])}

    def execute(self, plan, ctx):
        ds = plan['ds']
        root = ctx.dir('disk')
        variants = []
        counts = None
        for v in range(2):
            d2 = dict(ds, cam=dict(ds['cam']))
            if v:
                d2['cam']['seed'] = plan['seed2']
                d2['steps'] = max(3, ds['steps'] + plan['steps2'])
            out = os.path.join(root, 'base%d' % v)
            disk = SimDisk(root, ctx, seed=v)
            with disk, camgen.GrabTap(ctx) as tap, ctx.must('generation'):
                g = camgen.generate(d2, out)
            counts = dict(disk.count)
            variants.append((d2, Run(out, g.descriptor_path, tap.frames),
                             counts))
        out = os.path.join(root, 'data')
        for n, op in enumerate(plan['ops']):
            d2, run, counts = variants[op['variant']]
            before = self.verdict(ctx, out, variants) if n else None
            existed = os.path.isdir(out)
            faults = []
            if op['end'] != 'done':
                faults = [{'cls': 'crash', 'kind': 'crash',
                           'op': int(op['at'] * counts['crash']),
                           'torn': op['torn']}]
            disk = SimDisk(root, ctx, faults, seed=op['seed'],
                           short_write=plan['short'])
            box = {}

            def work():
                box['r'] = attempt(camgen.generate, d2, out)
            with disk, camgen.GrabTap(ctx) as tap:
                crashed = run_until_crash(disk, work)
                if crashed:
                    box.clear()
                    if op['end'] == 'power':
                        # the files of this process lose their tails
                        disk.settle_power_loss(random.Random(op['seed']))
                    disk.revive()
            ctx.log('op', n, op['end'], crashed)
            if crashed:
                ctx.probe('crashed')
            else:
                g, err = box.pop('r')
                if err is None:
                    ctx.probe('completed')
                    c06.verify(ctx, out, d2, tap.frames, g.descriptor_path,
                               'regenerated' if n else 'dataset')
                    # not only self-consistent: the whole new dataset
                    ctx.check(self.verdict(ctx, out, variants) is not None,
                              'regenerated', 'the new dataset cannot be '
                              'processed')
                    del g
                else:
                    ctx.check(existed, 'fresh-generation-fails',
                              lambda: kernel.short(err))
                    ctx.probe('refused')
                    after = self.verdict(ctx, out, variants)
                    ctx.check(before is None or after is not None,
                              'refusal-destroys', 'a refused generation made '
                              'the dataset in the directory unreadable')
            self.verdict(ctx, out, variants)
        ctx.log('end', sorted(rel_tree(out)) if os.path.isdir(out) else [])

    # ------------------------------------------------------------------
    def verdict(self, ctx, out, variants):
        """None if what is on disk is rejected; its number of frames if it is
        accepted and exact; Violation if it is accepted and wrong."""
        path = camgen.find_descriptor(out) if os.path.isdir(out) else None
        if path is None:
            return None
        dat, err = attempt(pipe.process, path)
        if err is not None:
            ctx.probe('leftover rejected')
            return None
        ctx.probe('leftover accepted')
        try:
            d, pts = camgen.read_dataset(path)
        except grammar.Rejected as e:
            raise Violation('leftover', 'processed, but the descriptor is '
                            'damaged: %s' % e)
        got = []
        owners = None
        for kind, t, ph, fs in pts:
            imgs = []
            for f in fs:
                try:
                    px = camgen.pixels(f)
                except Exception as e:
                    raise Violation('leftover', 'processed, but %s cannot be '
                                    'read: %s' % (f, kernel.short(e)))
                name = os.path.relpath(f, out)
                match = {v for v, (_, run, _) in enumerate(variants)
                         if name in run.by_name and
                         run.by_name[name][0] == t and
                         run.by_name[name][1] == ph and
                         run.by_name[name][2].shape == px.shape and
                         np.array_equal(run.by_name[name][2], px)}
                if not match:
                    raise Violation('leftover', 'processed, but %s is not the '
                                    'frame delivered for exposure %s, photons '
                                    '%s' % (name, t, ph))
                owners = match if owners is None else owners & match
                if not owners:
                    raise Violation('mixed', 'processed, but the frames come '
                                    'from different generations')
                imgs.append(px)
            got.append((kind, t, ph, imgs))
        n = sum(len(x[3]) for x in got)
        try:
            want = ref.data_from_points(got)
        except (ref.Ambiguous, ref.Undefined):
            return n
        compare.check_data(dat, want, 'leftover-data')
        return n


CHECK = C07()
