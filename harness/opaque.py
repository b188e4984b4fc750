"""Free numbers in place of log densities."""
import numpy as np
from harness.e_kalman import flat


class Opaque(object):
    """log densities as free numbers, the same number for the same expression: what they are is not the point here"""

    def __init__(self, h):
        self.h, self.seen, self.made = h, {}, set()

    def __call__(self, x):
        h = self.h
        if not h.sym:
            return x
        if not np.shape(x):
            return self.one(x)
        out = [self.one(v) for v in flat(h, x)]
        return h.mkarr(out, np.shape(x))

    def one(self, v):
        r = getattr(v, 'r', None)
        if r is None or r.isconst() or r in self.made:
            return v
        if r not in self.seen:
            x = self.seen[r] = self.h.real('L%d' % len(self.seen))
            self.made.add(x.r)
        return self.seen[r]

    def wrap(self, model):
        """the densities of the model"""
        for nm in ('measure', 'logp_xnext', 'logp_xnext_full', 'logp_xnext_singlestep', 'eval_1st_stage_weights', 'logp_proposal'):
            if hasattr(model, nm):
                setattr(model, nm, self.around(getattr(model, nm)))
        return model

    def around(self, fn):
        return lambda *a, **k: self(fn(*a, **k))
