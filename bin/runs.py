"""A run: one symbolic execution of a harness entry, with fixed parameters."""
class Run:
    def __init__(self, harness, entry, ver=16, cfg='std', cost=1, steps=400000000, time=400, validate=True, **params):
        self.harness, self.entry, self.ver, self.cfg, self.params = harness, entry, ver, cfg, params
        self.cost, self.steps, self.time, self.validate = cost, steps, time, validate
    def name(self): return '%s[v%d %s %s]' % (self.entry, self.ver, self.cfg, ' '.join('%s=%s' % kv for kv in sorted(self.params.items())))

class Prop:
    """runs: tier -> list of Run; reach: labels that must be reached; bounds: tier -> dict of text."""
    def __init__(self, runs, reach, bounds, outside, assumptions=()):
        self.runs, self.reach, self._bounds, self.outside, self.assumptions = runs, list(reach), bounds, outside, list(assumptions)
    def bounds(self, tier): return self._bounds(tier) if callable(self._bounds) else self._bounds
