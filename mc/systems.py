"""Closed systems built from adapters."""
from . import core
from .core import System, canon


class AdapterSystem(System):
    """All histories of one object of one kind over a small alphabet."""

    observing = True

    def __init__(self, name, adapter, cfg=(), vals=(1, 2), cap=3, probes=(),
                 max_depth=None, max_states=None, init=None, opfilter=None,
                 observe_kw=None, ranked=False, extra_ops=()):
        self.name = name
        self.ad = adapter
        self.cfg = cfg
        self.vals = vals
        self.cap = cap
        self.probes = probes
        self.max_depth = max_depth
        self.max_states = max_states
        self.init = init
        self.opfilter = opfilter
        self.observe_kw = observe_kw or {}

    def start(self):
        w = self.ad.new(*self.cfg)
        for op in self.init or ():
            self.ad.do(w, op)
        return w

    def ops(self, w):
        for op in self.ad.mutators(w, self.vals, self.cap):
            if self.opfilter is None or self.opfilter(op):
                yield op

    def step(self, w, op):
        return self.ad.do(w, op)

    def check(self, w):
        self.ad.observe(w, self.probes, **self.observe_kw)

    def key(self, w):
        # values named by rank may be renamed, given values may not
        rank = None if self.vals else getattr(self.ad, "rank", None)
        aux = getattr(self.ad, "auxkey", None)
        return (canon([w.real], rank(w) if rank else None),
                repr(w.model) if rank is None else len(w.model),
                repr(aux(w) if aux else w.aux))
