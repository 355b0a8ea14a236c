"""Whole-program rules: property -> [(name, function(lib, bin, tier) -> Result)]."""


class Result:
    def __init__(self):
        self.coverage, self.functions, self.violations, self.dead = {}, set(), [], None


from . import casing, effects, loops  # noqa: E402

RULES = {
    "C02": [("effects of a conversion", effects.effects)],
    "C25": [("loops end", loops.loops)],
    "C29": [("snake-casing of both builds", casing.casing)],
    "C04": [("no output from the library", effects.prints)],
}
