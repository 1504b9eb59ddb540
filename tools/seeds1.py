SEEDS = {
'varuint-wide-shift': dict(property='C01',
  edits=[('lib/python-proofmarshal/proofmarshal/serialize.py', "                break\n            shift += 7\n", "                break\n            shift = min(shift + 7, 63)\n")],
  needs='a variable-length integer of 71 or more bits in the stream',
  breaks='integers wider than 70 bits decode to another value',
  demo='''from proofmarshal.serialize import *
for bits in range(0, 200):
    for v in ((1 << bits) - 1, 1 << bits, (1 << bits) | 1):
        s = BytesSerializationContext(); s.write_varuint(v)
        assert BytesDeserializationContext(s.getbytes()).read_varuint() == v, bits
'''),
'varbytes-decode-max': dict(property='C02',
  edits=[('lib/python-proofmarshal/proofmarshal/serialize.py', "        l = ctx.read_varuint()\n        if not (cls.MIN_LENGTH <= l <= cls.MAX_LENGTH):", "        l = ctx.read_varuint()\n        if not (min(cls.MIN_LENGTH, 1) <= l <= cls.MAX_LENGTH):")],
  needs='a bounded byte string class with a minimum length above one and an encoding shorter than that',
  breaks='decoding returns a value below the declared minimum length',
  demo='''from proofmarshal.serialize import *
S = VarBytes(3, 9)
for n in range(0, 12):
    enc = bytes([n]) + b'x' * n
    try: v = S.deserialize(enc); ok = True
    except DeserializationError: ok = False
    assert ok == (3 <= n <= 9), n
'''),
'uint-bool': dict(property='C02',
  edits=[('lib/python-proofmarshal/proofmarshal/serialize.py', "        if not (0 <= r <= cls.MAX_INT):\n            raise Des", "        if r >> (cls.MAX_INT.bit_length() + 1):\n            raise Des")],
  needs='decoding an integer just above the declared range',
  breaks='an out-of-range integer is returned by the decoder',
  demo='''from proofmarshal.serialize import *
for S in (UInt8, UInt16, UInt32, UInt64):
    s = BytesSerializationContext(); s.write_varuint(S.MAX_INT + 1)
    try: S.deserialize(s.getbytes())
    except DeserializationError: pass
    else: raise AssertionError(S)
'''),
}
