"""Registry of the properties' scenarios."""
PROPS = {}


class Scn:
    def __init__(self, pid, name, fn, configs, opts):
        self.pid, self.name, self.fn, self.configs, self.opts = pid, name, fn, configs, opts


def scenario(pid, configs, **opts):
    """configs: fn(tier, rng) -> list of json-able dicts"""
    def deco(fn):
        PROPS.setdefault(pid, []).append(Scn(pid, fn.__name__, fn, configs, opts))
        return fn
    return deco
