"""loop contracts of the vector serializers, shared by the wire-format properties"""
from engine.api import *

def write_loop(key):
    # what is written so far, followed by the encodings of the items left, is the encoding of the vector
    @loop(key)
    class Write(LoopSpec):
        def enter(self, L):
            L.g.f = L['f']; L.g.pre = L.g.f.getvalue(); L.g.vec = L.env('vec')
        def havoc(self, L):
            L.g.f.done = (L.g.pre + L.fresh_bytes('written')).segs
            L.havocs(L.g.f)
        def inv(self, L):
            n = len(L.g.pre); out = L.g.f.getvalue()
            return [('keeps what was written', L.eqn(out[:n], L.g.pre)),
                    ('encoding', L.unfolds(L.g.vec.at(0), out[n:] + L.g.vec.at(L.k)))]
def read_loop(key, var):
    # the list read so far is the first k items, and the encodings of the others remain
    @loop(key)
    class Read(LoopSpec):
        def enter(self, L):
            L.g.f = L['f']; L.g.r = L[var]; L.g.vec = L.env('vec'); L.g.tail = L.env('tail')
        def havoc(self, L):
            L.g.f.done = L.fresh_bytes('done').segs
            L.g.f.rest = (L.g.vec.at(L.k) + L.g.tail).segs
            L.g.r.segs = L.g.vec.items[:L.k].segs
            L.havocs(L.g.f, L.g.r)
        def inv(self, L):
            return [('read so far', L.deep_eq(L.g.r, L.g.vec.items[:L.k])),
                    ('rest of the stream', L.eqn(L.g.f.remaining(), L.g.vec.at(L.k) + L.g.tail))]
def cut_loop(key, var):
    # the same on a stream that ends inside an item
    @loop(key + ':truncated')
    class ReadCut(LoopSpec):
        def enter(self, L):
            L.g.f = L['f']; L.g.r = L[var]; L.g.vec = L.env('vec')
        def havoc(self, L):
            L.g.f.done = L.fresh_bytes('done').segs
            L.g.f.rest = L.g.vec.at(L.k).segs
            L.g.r.segs = L.fresh_list('read').segs
            L.havocs(L.g.f, L.g.r)
        def inv(self, L):
            return [('not past the cut', L.k <= L.g.vec.cut),
                    ('rest of the stream', L.eqn(L.g.f.remaining(), L.g.vec.at(L.k)))]
for cls, var in (('VectorSerializer', 'r'), ('uint256VectorSerializer', 'r'), ('intVectorSerialzer', 'ints')):
    write_loop(cls + '.stream_serialize#0')
    read_loop(cls + '.stream_deserialize#0', var)
    cut_loop(cls + '.stream_deserialize#0', var)
