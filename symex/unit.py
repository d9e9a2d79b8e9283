"""Registry of harness units of a property module."""


class Units:
    def __init__(self):
        self.units = {}     # name -> (fn, tiers, weight)

    def unit(self, tiers=("quick", "thorough"), each=None, paths=100000, name=None):
        """each: list of values; one unit per value, passed as second argument (splits the work)"""
        def deco(fn):
            base = name or fn.__name__
            if each is None:
                self.units[base] = (fn, tiers, paths)
            else:
                for v in each:
                    nm = f"{base}[{v if isinstance(v, str) else '/'.join(map(str, v)) if isinstance(v, tuple) else v}]"
                    self.units[nm] = ((lambda h, v=v: fn(h, v)), tiers, paths)
            return fn
        return deco

    def fn(self, name):
        return self.units[name][0]
