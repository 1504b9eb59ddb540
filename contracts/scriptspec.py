"""The script encoding: reference definitions on plain bytes"""

def parse(b):
    """[(opcode, data or None, position)], whole: the opcodes of a script; whole is False if it ends inside a push"""
    out = []; i = 0; n = len(b)
    while i < n:
        start = i; op = b[i]; i += 1
        if op > 78: out.append((op, None, start)); continue
        if op < 76: size = op
        else:
            w = {76: 1, 77: 2, 78: 4}[op]
            if n - i < w: return out, False
            size = int.from_bytes(b[i:i + w], 'little'); i += w
        if n - i < size: return out, False
        out.append((op, b[i:i + size], start)); i += size
    return out, True

def sigops(b, accurate):
    """signature operations; a script that ends inside a push counts what precedes it"""
    n = 0; last = None
    for op, data, _ in parse(b)[0]:
        if op in (0xac, 0xad): n += 1
        elif op in (0xae, 0xaf): n += last - 0x50 if accurate and last is not None and 0x51 <= last <= 0x60 else 20
        last = op
    return n

def push(d):
    """shortest length-prefixed push"""
    n = len(d)
    if n < 76: return bytes([n]) + d
    if n < 256: return b'\x4c' + bytes([n]) + d
    if n < 65536: return b'\x4d' + n.to_bytes(2, 'little') + d
    return b'\x4e' + n.to_bytes(4, 'little') + d
