"""Base58 text by contract: encode is a function of the bytes, and decode its inverse (proved in c27.py)"""
from engine.api import *
class Text(str):
    """the text of some bytes"""
    def __new__(cls, b):
        t = str.__new__(cls, 'base58'); t.b = b
        return t
def _encode(w, orig): return Text
def _decode(w, orig):
    def decode(s):
        if type(s) is not Text: raise Unsupported('text of which the bytes are not known')
        return s.b
    return decode
BASE58 = [('bitcoin.base58:encode', _encode), ('bitcoin.base58:decode', _decode)]
def text_of(c, b):
    if c.symbolic: return Text(b)
    from contracts.c27 import ref_encode
    return ref_encode(b)
def is_text(c, t, b):
    """t is the text of b"""
    if not c.symbolic: return t == text_of(c, b)
    return type(t) is Text and c.same(t.b, b)
