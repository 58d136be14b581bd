"""Registry of analysis cases."""


class Case(object):
    def __init__(self, cid, prop, fn, aspects, tier, variants):
        self.cid = cid
        self.prop = prop            # property decided by the 'value' aspect
        self.fn = fn
        self.aspects = aspects      # further aspects this case is meaningful for
        self.tier = tier
        self.variants = variants


CASES = []
_SEEN = set()
ALL = ('cform', 'alias', 'dtype', 'rank')


def case(cid, prop, aspects=ALL, tier='quick', variants=True):
    """Decorator: register fn(w) as a case.  aspects: which cross-cutting properties it also serves."""
    def deco(fn):
        assert cid not in _SEEN, cid
        _SEEN.add(cid)
        CASES.append(Case(cid, prop, fn, tuple(aspects), tier, variants))
        return fn
    return deco
