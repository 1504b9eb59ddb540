"""Bit arrays of any length by the contract C03 establishes for them: sequences of bits built from shared pieces"""
from engine.api import *
from contracts.bitsgen import BITS

def agree(c, a, b):
    """length of the longest common prefix of two bit sequences"""
    done = 0
    for _ in range(12):
        # pieces of one sequence, or equal sequences, agree wholesale; otherwise bit by bit
        n = c.shared(a, b)
        done = done + n; a = a[n:]; b = b[n:]
        if c.split(c.either(len(a) == 0, len(b) == 0)) == 0: return done
        if c.split(a[0] == b[0]): return done
        done = done + 1; a = a[1:]; b = b[1:]
    c.unsupported('bit sequences that share no structure')
def Rope_class(c):
    B = c.mod(BITS).Bits
    if 'Rope' in c.__dict__: return c.Rope
    class Rope(B):
        """what a bit array does, by its contract (C03)"""
        __module__ = 'proofmarshal.bits'
        def __new__(r, seq, enc=None):
            self = object.__new__(r); object.__setattr__(self, 'seq', seq); object.__setattr__(self, 'enc', enc)
            return self
        def __len__(self): return len(self.seq)
        def __getitem__(self, i): return Rope(self.seq[i]) if isinstance(i, slice) else self.seq[i]
        def common_prefix(self, other): return Rope(self.seq[:agree(c, self.seq, other.seq)])
        def startswith(self, other): return len(other.seq) <= len(self.seq) and agree(c, self.seq, other.seq) == len(other.seq)
        def __eq__(self, other):
            if not isinstance(other, B): return NotImplemented
            return len(self.seq) == len(other.seq) and agree(c, self.seq, other.seq) == len(other.seq)
        def __ne__(self, other): return not self.__eq__(other)
        def __iter__(self): return iter(self.seq)
        __hash__ = None
    c.Rope = Rope
    return Rope
def bit(d, k): return d.int("bit", 0, 1)
