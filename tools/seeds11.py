C='lib/python-bitcoinlib/bitcoin/core/'
B='lib/python-bitcoinlib/bitcoin/'
P='lib/python-proofmarshal/proofmarshal/'
SEEDS = {
'ecdh-leading-zero': dict(property='C31', edits=[(C+'key.py', "        return ecdh_keybuffer.raw\n", "        return ecdh_keybuffer.raw.lstrip(b'\\0')\n")],
  needs='two keys whose product point has an x coordinate starting with a zero byte (one pair in 256)', breaks='the shared secret is shorter, and its hash another', demo='''
from bitcoin.core.key import CECKey
def key(n):
    k = CECKey(); k.set_secretbytes(n.to_bytes(32, 'big')); return k
assert len(key(3).get_raw_ecdh_key(key(82))) == 32
'''),
'txout-valid-upper': dict(property='C24', edits=[(C+'__init__.py', "        if not MoneyRange(self.nValue):\n            return False\n        if not self.scriptPubKey.is_valid():", "        if self.nValue < 0 or self.nValue > 2 * MAX_MONEY:\n            return False\n        if not self.scriptPubKey.is_valid():")],
  needs='an output of more than the money supply', breaks='is_valid accepts it', demo='''
from bitcoin.core import *
assert CTxOut(MAX_MONEY).is_valid() and not CTxOut(MAX_MONEY + 1).is_valid()
'''),
'txin-final-signed': dict(property='C24', edits=[(C+'__init__.py', "        return (self.nSequence == 0xffffffff)", "        return (self.nSequence >= 0xfffffffe)")],
  needs='the sequence number one below the largest', breaks='the input counts as final', demo='''
from bitcoin.core import *
assert CTxIn().is_final() and not CTxIn(nSequence=0xfffffffe).is_final()
'''),
'privkey-export-truncated': dict(property='C31', edits=[(C+'key.py', "        _ssl.i2d_ECPrivateKey(self.k, ctypes.byref(ctypes.pointer(mb_pri)))\n        return mb_pri.raw", "        _ssl.i2d_ECPrivateKey(self.k, ctypes.byref(ctypes.pointer(mb_pri)))\n        return mb_pri.value + bytes(size - len(mb_pri.value))")],
  needs='a private key whose export holds a zero byte', breaks='the export is cut off there', demo='''
from bitcoin.core.key import CECKey
k = CECKey(); k.set_secretbytes(bytes(31) + b'\\1')
d = k.get_privkey(); q = CECKey(); q.set_privkey(d)
assert q.get_pubkey() == k.get_pubkey()
'''),
}
