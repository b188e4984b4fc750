"""C48: what the library is given is only read."""
import inspect
import types
import numpy as np
from engine.cases import CASES, add, info
from harness import f_nlg, g_ltv, h_mlnlg, i_hier, j_marg, j_mlobj, p_repeat
from harness.g_ltv import EXT

# questions about states: the answer is a number or a new state
ASK = ('logp_xnext', 'logp_xnext_full', 'logp_xnext_singlestep', 'logp_xnext_max', 'logp_xnext_max_full', 'logp_proposal', 'propose_smooth', 'logp_q', 'qsample',
       'eval_logp_xnext', 'eval_logp_y', 'eval_logp_x0', 'eval_logp_xnext_val_grad', 'eval_logp_y_val_grad', 'eval_logp_x0_val_grad',
       'eval_logp_xnext_val_grad_fulltraj', 'eval_logp_y_val_grad_fulltraj', 'eval_logp_x0_val_grad_fulltraj', 'eval_logp_xnext_fulltraj', 'eval_logp_y_fulltraj',
       'eval_1st_stage_weights', 'sample_process_noise', 'sample_process_noise_full', 'sample_smooth', 'get_states')


def numbers(x):
    return isinstance(x, np.ndarray) and (x.dtype != object or type(x) is not np.ndarray)


# these change the states, not the data they are given
DATA = ('measure', 'measure_full', 'update', 'update_full', 'cond_predict', 'cond_predict_single_step')
NAMES = ('u', 'y', 't', 'ut', 'yt', 'tt', 'uvec', 'yvec', 'tvec', 'noise')


class Watch(object):
    """the harness of another property with its obligations left out; remembers what was handed to the library"""
    def __init__(self, h):
        self.h, self.got, self.made = h, {}, {}

    def __getattr__(self, nm):
        return getattr(self.h, nm)

    def eq(self, *a, **k):
        pass
    true = same = fail = eq

    def keep(self, x, what):
        """everything inside x, as it is now"""
        if isinstance(x, (list, tuple)):
            for v in x:
                self.keep(v, what)
        if (isinstance(x, list) or numbers(x)) and id(x) not in self.got:
            self.got[id(x)] = (x, list(x) if isinstance(x, list) else x.copy(), what)
        return x

    def check(self, got=None):
        for x, was, what in list((self.got if got is None else got).values()):
            what = '%s is only read' % what
            if isinstance(x, list):
                self.h.same(len(x) == len(was) and all(a is b for a, b in zip(x, was)), True, what)
            else:
                self.h.same(np.shape(x), np.shape(was), what)
                self.h.eq(x, was, what)

    def mod(self, name):
        return Mod(self, self.h.mod(name))


class Mod(object):
    def __init__(self, w, m):
        self.w, self.m = w, m

    def __getattr__(self, nm):
        x = getattr(self.m, nm)
        return watched(self.w, x) if isinstance(x, type) and any(hasattr(x, q) for q in ('update', 'measure', 'eval_logp_xnext')) else x


def watched(w, base):
    if base not in w.made:
        w.made[base] = subclass(w, base)
    return w.made[base]


def subclass(w, base):
    def around(nm, fn):
        def g(self, *a, **k):
            v = Watch(w.h)
            for x in list(a) + [k[q] for q in sorted(k)]:
                v.keep(x, 'what %s is asked about' % nm)
            r = fn(self, *a, **k)
            v.check()
            return r
        return g

    def data(nm, fn):
        sig = inspect.signature(fn)

        def g(self, *a, **k):
            v = Watch(w.h)
            for q, x in sig.bind(self, *a, **k).arguments.items():
                if q in NAMES:
                    v.keep(x, 'the data handed to %s' % nm)
            r = fn(self, *a, **k)
            v.check()
            return r
        return g

    def answers(nm, fn):
        def g(self, *a, **k):
            return w.keep(fn(self, *a, **k), 'what %s of the model returns' % nm)
        return g

    def creates(fn):
        def g(self, *a, **k):
            for x in list(a) + [k[q] for q in sorted(k)]:
                w.keep(x, 'what the constructor is given')
            fn(self, *a, **k)
        return g

    def sub(cls, **k):
        """the model of the user: methods as they are found for it"""
        for nm, fn in list(cls.__dict__.items()):
            if isinstance(fn, types.FunctionType) and (nm.startswith('get_') or nm.startswith('calc_')):
                setattr(cls, nm, answers(nm, fn))
        for nm in ASK:
            if hasattr(cls, nm) and nm not in cls.__dict__:
                setattr(cls, nm, around(nm, getattr(cls, nm)))
        for nm in DATA:
            if hasattr(cls, nm) and nm not in cls.__dict__:
                setattr(cls, nm, data(nm, getattr(cls, nm)))
        if cls.__init__ is not object.__init__ and '__init__' not in cls.__dict__:
            cls.__init__ = creates(cls.__init__)
    return type(base.__name__, (base,), {'__init_subclass__': classmethod(sub)})


def handed(fn):
    """the same calls as for another property"""
    def c48(h):
        w = Watch(h)
        fn(w)
        w.check()
    return c48


OF = ('C25', 'C26', 'C27', 'C28', 'C29', 'C30', 'C31', 'C32', 'C33', 'C34', 'C35', 'C36')
for c in [c for q in OF for c in CASES[q] if c.config == 'pure' and not c.params.get('warm') and not c.params.get('before')]:   # the warm cases write into their own arrays
    add('C48', '%s-%s' % (c.prop, c.name), handed(c.fn), c.params, runs=min(c.runs, 4), tier=c.tier, budget=c.budget)
for c in [c for c in CASES['C46'] if c.tier == 'quick' and c.name in ('nlg-mhips', 'nlg-mhbp', 'nlg-CPFAS', 'ltv-full', 'mixed-full', 'mixed-mhips', 'marg-full', 'hier-full')]:
    add('C48', 'run-' + c.name, handed(c.fn), c.params, runs=min(c.runs, 3), budget=c.budget)
info('C48', 'the calls made for properties C25 to C36, and two whole runs of every built-in model: every list and array given to constructors, every list and array returned by the system functions of the user model, every state and datum passed to a density, gradient, proposal or noise sampler, and every input, measurement and noise passed to an update; dimensions and numbers of particles as stated there',
     ['the user model answers by arbitrary tables', 'log densities of whole runs replaced by free numbers'] + EXT)
