"""Cases: one harness function with fixed parameters."""
import importlib


class Case:
    def __init__(self, name, fn, kw=None, **opts):
        self.name, self.fn, self.kw, self.opts = name, fn, kw or {}, opts


def load_cases(check, tier):
    m = importlib.import_module('checks.' + check.lower())
    cs = m.cases(tier)
    names = [c.name for c in cs]
    assert len(set(names)) == len(names), names
    return cs
