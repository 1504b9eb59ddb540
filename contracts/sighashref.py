"""The signature hash: reference definition"""
from contracts.scriptref import remove
import hashlib

HASH_ONE = b'\x01' + bytes(31)
def compact(n):
    if n < 0xfd: return bytes([n])
    if n <= 0xffff: return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xffffffff: return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')
def var(b): return compact(len(b)) + bytes(b)

def preimage(script, tx, idx, hashtype):
    """what is hashed, or None where the protocol prescribes the constant one"""
    kind = hashtype & 0x1f
    if idx >= len(tx.vin) or kind == 3 and idx >= len(tx.vout): return None
    ins = []
    for k, i in enumerate(tx.vin):
        if hashtype & 0x80 and k != idx: continue
        mine = k == idx
        ins.append(bytes(i.prevout.hash) + i.prevout.n.to_bytes(4, 'little') + var(remove(bytes(script), b'\xab') if mine else b'')
                   + (0 if not mine and kind in (2, 3) else i.nSequence).to_bytes(4, 'little'))
    outs = [o.nValue.to_bytes(8, 'little', signed=True) + var(o.scriptPubKey) for o in tx.vout]
    if kind == 2: outs = []
    elif kind == 3: outs = [b'\xff' * 8 + b'\0'] * idx + [outs[idx]]
    return (tx.nVersion.to_bytes(4, 'little', signed=True) + compact(len(ins)) + b''.join(ins) + compact(len(outs)) + b''.join(outs)
            + tx.nLockTime.to_bytes(4, 'little') + hashtype.to_bytes(4, 'little'))
def sighash(script, tx, idx, hashtype):
    p = preimage(script, tx, idx, hashtype)
    return HASH_ONE if p is None else hashlib.sha256(hashlib.sha256(p).digest()).digest()
