"""Registry of the harness cases."""
CASES = {}
INFO = {}


class Case(object):
    def __init__(self, prop, name, fn, params, config, tier, budget, max_paths, runs):
        self.prop, self.name, self.fn, self.params, self.config = prop, name, fn, params, config
        self.tier, self.budget, self.max_paths, self.runs = tier, budget, max_paths, runs

    @property
    def key(self):
        return '%s/%s' % (self.name, self.config)


def case(prop, name, params=None, configs=('pure',), tier='quick', budget=240, max_paths=20000, runs=6):
    """decorator: register fn(h) as a case of a property"""
    def deco(fn):
        add(prop, name, fn, params, configs, tier, budget, max_paths, runs)
        return fn
    return deco


def add(prop, name, fn, params=None, configs=('pure',), tier='quick', budget=240, max_paths=20000, runs=6):
    for c in configs:
        k = Case(prop, name, fn, dict(params or {}), c, tier, budget, max_paths, runs)
        lst = CASES.setdefault(prop, [])
        if any(o.key == k.key for o in lst):
            raise ValueError('duplicate case %s %s' % (prop, k.key))
        lst.append(k)


def info(prop, bounds, stubs, technique=None):
    """bounds: text; stubs: list of environment models and assumptions"""
    INFO[prop] = {'bounds': bounds, 'stubs': list(stubs), 'technique': technique}


def label(prefix, kw):
    """readable case name from its parameters"""
    def s(v):
        return ''.join(map(s, v)) if isinstance(v, (tuple, list)) else (''.join('%s%s' % z for z in sorted(v.items())) if isinstance(v, dict) else str(v))
    return prefix + ''.join('-%s%s' % (k, s(v)) for k, v in sorted(kw.items()))


def bound(props, text):
    """more cases of properties described before"""
    for p in props:
        INFO[p]['bounds'] += '; ' + text
