"""secp256k1, from its definition"""
P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)

def plus(a, b):
    if a is None: return b
    if b is None: return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0: return None
        m = 3 * a[0] * a[0] * pow(2 * a[1], -1, P) % P
    else: m = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (m * m - a[0] - b[0]) % P
    return x, (m * (a[0] - x) - a[1]) % P
def _jdouble(a):
    if a is None or not a[1]: return None
    x, y, z = a; s = 4 * x * y * y % P; m = 3 * x * x % P; x2 = (m * m - 2 * s) % P
    return x2, (m * (s - x2) - 8 * pow(y, 4, P)) % P, 2 * y * z % P
def _jadd(a, b):
    if a is None: return b
    if b is None: return a
    x1, y1, z1 = a; x2, y2, z2 = b
    u1, u2 = x1 * z2 * z2 % P, x2 * z1 * z1 % P; s1, s2 = y1 * z2**3 % P, y2 * z1**3 % P
    if u1 == u2: return _jdouble(a) if s1 == s2 else None
    h = u2 - u1; r = s2 - s1; h2 = h * h % P; h3 = h * h2 % P; v = u1 * h2 % P; x = (r * r - h3 - 2 * v) % P
    return x, (r * (v - x) - s1 * h3) % P, h * z1 * z2 % P
def times(k, a):
    r = None; q = None if a is None else (a[0], a[1], 1)
    while k:
        if k & 1: r = _jadd(r, q)
        q = _jdouble(q); k >>= 1
    if r is None: return None
    z = pow(r[2], -1, P); return r[0] * z * z % P, r[1] * z * z * z % P

def encode(a, compressed):
    if compressed: return bytes([2 + a[1] % 2]) + a[0].to_bytes(32, 'big')
    return b'\x04' + a[0].to_bytes(32, 'big') + a[1].to_bytes(32, 'big')
def decode(b):
    """the point a public key denotes, or None (the hybrid form included)"""
    if len(b) == 33 and b[0] in (2, 3):
        x = int.from_bytes(b[1:], 'big')
        if x >= P: return None
        y2 = (x * x * x + 7) % P; y = pow(y2, (P + 1) // 4, P)
        if y * y % P != y2: return None
        return x, (P - y if y % 2 != b[0] % 2 else y)
    if len(b) == 65 and b[0] in (4, 6, 7):
        x, y = int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:], 'big')
        if x >= P or y >= P or (y * y - x**3 - 7) % P: return None
        if b[0] != 4 and b[0] % 2 != y % 2: return None
        return x, y
    return None

def der_int(v):
    b = v.to_bytes(v.bit_length() // 8 + 1, 'big'); return b'\x02' + bytes([len(b)]) + b
def der(r, s):
    b = der_int(r) + der_int(s); return b'\x30' + bytes([len(b)]) + b
def undo(sig):
    """(r, s) of a signature in DER, or None"""
    if len(sig) < 8 or sig[0] != 0x30 or sig[1] != len(sig) - 2 or sig[1] >= 0x80: return None
    out = []; i = 2
    for _ in (0, 1):
        if i + 2 > len(sig) or sig[i] != 2: return None
        n = sig[i + 1]; v = sig[i + 2:i + 2 + n]
        if n >= 0x80 or not n or len(v) != n or v[0] >= 0x80: return None
        out.append(int.from_bytes(v, 'big')); i += 2 + n
    return tuple(out) if i == len(sig) and der(*out) == sig else None
def verify(point, h, sig):
    rs = undo(sig)
    if rs is None or point is None: return False
    r, s = rs
    if not (0 < r < N and 0 < s < N): return False
    e = int.from_bytes(h[:32], 'big'); w = pow(s, -1, N)
    q = plus(times(e * w % N, G), times(r * w % N, point))
    return q is not None and q[0] % N == r
def sign(secret, h, k):
    e = int.from_bytes(h[:32], 'big'); r = times(k, G)[0] % N; s = pow(k, -1, N) * (e + r * secret) % N
    return r, s
