"""Base class of the property checks."""


class Check:
    id = None
    runs = {'quick': 200, 'thorough': 5000}
    rule = ''
    real = []
    stubs = []
    assumptions = []
    shrink_lists = ('ops', 'faults', 'edits', 'points')
    shrink_ints = {}
    shrink_min = {}
    technique = 'deterministic simulation with fault injection'

    def setup(self):
        """Imports and warm-up in the parent, before forking."""

    def gen(self, rng, tier, i):
        raise NotImplementedError

    def execute(self, plan, ctx):
        raise NotImplementedError

    def simpler(self, plan):
        """Property specific smaller plans."""
        return ()
