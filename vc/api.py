"""What contract files import: registration only, no dependency on either mode."""
REG = {}


class Missing(Exception):
    """The code asks a stand-in for something outside the interface it stands for."""


class Stub:
    """Base of stand-ins: what the contract does not provide is undecided, not wrong."""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Missing('%s.%s is outside the interface of the stand-in' % (type(self).__name__, name))


class Contract:
    def __init__(self, f, prop, funcs, variants, seeds, bounded, note):
        self.f = f
        self.name = f.__name__
        self.prop = prop
        self.funcs = funcs
        self.variants = variants
        self.seeds = seeds
        self.bounded = bounded
        self.note = note


def contract(prop, funcs=(), variants=(None,), seeds=1.0, bounded='', note=''):
    """prop: property id; funcs: the functions of /repo this contract is about;
    variants: configurations checked as separate obligations; bounded: non-empty
    text states the bound when the contract does not quantify over everything."""
    def deco(f):
        c = Contract(f, prop, list(funcs), list(variants), seeds, bounded, note)
        REG.setdefault(prop, []).append(c)
        return f
    return deco
