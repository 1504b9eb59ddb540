"""Scripts, stacks, keys and transactions to sample from"""
from engine.api import *
from contracts.wire import *
from contracts import scriptref, sighashref
from contracts.scriptspec import parse, push

KEYS = [bytes([7 + k]) * 32 for k in range(4)]
_keys = {}
def key_of(c, k):
    """(key object, public key), with the repository's own key code"""
    if k not in _keys:
        o = c.mod('bitcoin.core.key').CECKey()
        o.set_secretbytes(KEYS[k]); o.set_compressed(k % 2 == 0)
        _keys[k] = (o, o.get_pubkey())
    return _keys[k]
def verifies(c, key, h, sig):
    o = c.mod('bitcoin.core.key').CECKey()
    o.set_pubkey(key)
    return o.verify(h, sig)

def plain_env(c, script, tx, idx):
    return scriptref.Plain(script, lambda sig, key, code, ht: verifies(c, key, sighashref.sighash(code, tx, idx, ht), sig))

def small_tx(c):
    s = c.sub('tx')
    m = c.mod(B)
    ins = s.items('vin', lambda d, k: m.CTxIn(m.COutPoint(d.bytes('hash', n=32), d.int('n', 0, U32)), m.script.CScript(d.bytes('s', 0, 5)), d.int('seq', 0, U32)), 1, 3)
    outs = s.items('vout', lambda d, k: m.CTxOut(d.int('v', 0, 2**62), m.script.CScript(d.bytes('s', 0, 5))), 0, 3)
    return m.CTransaction(ins, outs, s.int('lock', 0, U32), s.int('version', 1, 2))

EXEC = [0x4f, 0x51, 0x52, 0x53, 0x5f, 0x60, 0x61] + [0x69] + list(range(0x6b, 0x7e)) + [0x82, 0x87, 0x88, 0x8b, 0x8c, 0x8f, 0x90, 0x91, 0x92] + \
       [0x93, 0x94] + list(range(0x9a, 0xab)) + [0xab, 0xb0, 0xb5, 0xb9]
def item(s):
    """a stack item, often a number or a truth value"""
    how = s.choice('how', ('number', 'number', 'truth', 'bytes', 'small'))
    if how == 'number': return scriptref.number_form(s.int('v', -2**33, 2**33))
    if how == 'truth': return s.choice('t', (b'', b'\0', b'\x01', b'\x80', b'\0\0', b'\0\x80', b'\x80\0', b'\x01\0', b'\0\x01', b'\0\x80\0'))
    if how == 'small': return scriptref.number_form(s.int('v', -2, 5))
    return s.bytes('b', 0, 90)
def one_op(s):
    how = s.choice('how', ('exec',) * 8 + ('item', 'item', 'number', 'flow', 'flow', 'any', 'push'))
    if how == 'exec': return bytes([s.choice('op', EXEC)])
    if how == 'flow': return bytes([s.choice('op', (0x63, 0x64, 0x67, 0x67, 0x68))])
    if how == 'any': return bytes([s.int('op', 79, 255)])
    if how == 'number': return push(scriptref.number_form(s.int('v', -1, 6)))
    if how == 'push': return push(s.bytes('b', n=s.choice('size', (519, 520, 521, 255, 256, 75, 76))))
    return push(item(s))

