"""Loop contracts of mountain ranges"""
from engine.api import *
from contracts.mmrtree import *

@loop('MerkleMountainRange.extend#0')
class Extend(LoopSpec):
    """after k values the range is the one over the old list and those"""
    def enter(self, L):
        c, cl = L.env('range'); L.g.c = c; L.g.cl = cl
        L.g.base = listed(c, cl, L['self']); L.g.new = L.whole()
    def havoc(self, L): return {'r': range_over(L.g.c, L.g.cl, L.g.base + L.g.new[:L.k])}
    def inv(self, L):
        l = listed(L.g.c, L.g.cl, L['r'])
        return [('a range', l is not None), ('the range so far', L.same_list('values', l, L.g.base + L.g.new[:L.k]))]
