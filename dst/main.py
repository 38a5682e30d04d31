"""python -m dst.main check <ID> | replay <file> | selftest [ID...] | list"""
import os
import sys


def prepare():
    import warnings
    warnings.simplefilter('ignore')
    os.environ.setdefault('MPLBACKEND', 'Agg')
    from . import world
    world.install()


def main(argv):
    prepare()
    from . import runner, registry
    if not argv:
        print(__doc__)
        return 2
    cmd = argv[0]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if cmd == 'check':
        if len(argv) > 2:
            tier = argv[2]
        return runner.run_check(registry.load([argv[1]])[argv[1]], tier, seed)
    if cmd == 'replay':
        import json
        pid = json.load(open(argv[1]))['property']
        return runner.replay(argv[1], registry.load([pid]))
    if cmd == 'digests':
        from . import selftest
        selftest.digests(argv[1], int(argv[2]), int(argv[3]))
        return 0
    if cmd == 'peer':
        # a job of C23 in an interpreter of its own
        from .props import c23
        c23.peer(argv[1])
        return 0
    if cmd == 'selftest':
        from . import selftest
        return selftest.main(argv[1:], seed)
    if cmd == 'list':
        for k in registry.IDS:
            print(k)
        return 0
    print(__doc__)
    return 2


if __name__ == '__main__':
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
