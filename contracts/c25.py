"""C25: compact targets and proof of work"""
from engine.api import *

S = 'bitcoin.core.serialize'
B = 'bitcoin.core'
NETS = {'mainnet': 2**224 - 1, 'testnet': 2**224 - 1, 'regtest': 2**255 - 1}

def compact_target(c):
    """an arbitrary 32-bit compact value and the target it stands for"""
    e = c.choice('exponent', range(256))
    m = c.int('mantissa', 0, 2**24 - 1)
    t = m * 256 ** (e - 3) if e >= 3 else m // 256 ** (3 - e)
    return e * 2**24 + m, m, t

@contract('C25', 'decoded target', samples=600)
def decoded(c):
    n, m, t = compact_target(c)
    c.eq('target', c.returns('uint256_from_compact', c.mod(S).uint256_from_compact, n), t)

@contract('C25', 'hash as a little-endian integer', samples=100)
def from_str(c):
    b = c.bytes('hash', n=32)
    c.eq('value', c.returns('uint256_from_str', c.mod(S).uint256_from_str, b), c.from_le(b))

def near(c, t):
    """a hash: arbitrary when proving; when sampling often at the boundary of the target"""
    if c.symbolic: return c.bytes('hash', n=32)
    h = c.bytes('hash', n=32)
    d = c.choice('near', (None, 0, 1, -1, 2**16, -2**16, 2**200))
    if d is None or not 0 <= t + d < 2**256: return h
    return (t + d).to_bytes(32, 'little')

@contract('C25', 'accepted exactly when valid', parts=list(NETS), samples=1200)
def pow_check(c):
    import bitcoin
    core = c.mod(B)
    core._SelectCoreParams(c.part)
    try:
        limit = NETS[c.part]
        n, m, t = compact_target(c)
        h = near(c, t)
        ok = c.both(m < 2**23, t > 0, t <= limit, c.from_le(h) <= t)
        r, e = c.catch(core.CheckProofOfWorkError, core.CheckProofOfWork, h, n)
        c.check('verdict', ok if e is None else c.neg(ok))
        c.check('no result', r is None)
    finally: core._SelectCoreParams('mainnet')
