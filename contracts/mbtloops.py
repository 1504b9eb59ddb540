"""Loop contracts of merbinner trees"""
from engine.api import *
from contracts.mbt import *

def rebuilt(L, P, first):
    """tip k: what the trees so far make, below everything but the siblings left"""
    return P.W.stand_in(P.W.Bits(P.kp[:P.at[L.k - 1 + first]]), L.fresh_bytes('tip', 32), step=L.k)
class Rebuild(LoopSpec):
    """after k siblings the tip is an inner node: of the key's bits before the level of the last of them, with that one on
    the other side and the tip before it on the key's"""
    first = 0
    def enter(self, L): L.g.start = L['new_tip']; L.g.tip = None; L.g.P = L.env('path')
    def havoc(self, L):
        P = L.g.P
        L.g.tip = L.g.start if L.is_zero(L.k) else rebuilt(L, P, self.first)
        if not L.is_zero(L.k): P.siblings[L.k - 1 + self.first]
        return {'new_tip': L.g.tip}
    def inv(self, L):
        P = L.g.P; tip = L['new_tip']
        if L.g.tip is None or L.mode == 'assume': return [('a tree', isinstance(tip, P.W.cl))]
        l = P.at[L.k - 1 + self.first]; s = P.siblings[L.k - 1 + self.first]
        if type(tip) is not P.W.cl.InnerNodeClass: return [('an inner node', False)]
        one, other = (tip.right, tip.left) if P.c.split(P.kp[l] == 1) == 0 else (tip.left, tip.right)
        return [('prefix', tip.prefix == P.W.Bits(P.kp[:l])), ('the way so far', same_tree(P.c, one, L.g.tip)), ('the sibling', same_tree(P.c, other, s))]
@loop('MerbinnerTree.put#0')
class Put(Rebuild): pass
@loop('MerbinnerTree.remove#0')
class Remove(Rebuild): first = 1

@loop('MerbinnerTree.items#0')
class Items(LoopSpec):
    """the items come in the order of the keys"""
    def havoc(self, L): return {}
@loop('MerbinnerTree.__new__#0')
class Filled(LoopSpec):
    """after k items the tree is the one all of them have been put into"""
    def enter(self, L): L.g.T = L.env('filled'); L.g.new = L.whole(); L.g.at = None
    def havoc(self, L): L.g.at = L.k; return {'self': L.g.T.tree(L.g.new[:L.k])}
    def inv(self, L):
        h = L.g.T.history(L['self'])
        if h is None: return [('a tree', False)]
        return [('the items so far', L.same_list('items', h, L.g.new[:L.k]))]
