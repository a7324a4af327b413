"""128-bit symbolic decomposition of block values (each bit an ANF over bits of opaque blocks)."""
import re
from dom import *


def pbits(v, w):
    """bits of an integer value (low w), or None per unknown bit"""
    c = const_of(v) if v[0] in ('P', 'B') and v[0] == 'P' else None
    if c is not None:
        return [F1 if (c >> i) & 1 else F0 for i in range(w)]
    if v[0] == 'B':
        return [v[1]] + [F0] * (w - 1)
    if v[0] != 'P':
        return [None] * w
    k = atom_of(v)
    if k is None:
        return [None] * w
    if k[0] == 'lane' and k[2] is not None:
        lw = k[3] or 64
        x = kbits(k[1]) if k[1][0] == 'K' else [None] * 128
        return (x[k[2] * lw:(k[2] + 1) * lw] + [F0] * w)[:w]
    if k[0] == 'O' and k[1] in ('or', 'and', 'xor') and len(k) >= 4:
        k = k[1:]
    if k[0] in ('or', 'and', 'xor') and len(k) >= 3:
        a, b = pbits(k[1], w), pbits(k[2], w)
        return [comb(k[0], x, y) for x, y in zip(a, b)]
    if k[0] == 'low':
        x = kbits(k[2]) if k[2][0] == 'K' else [None] * 128
        return x[:w]
    return [None] * w


def comb(op, x, y):
    if op == 'xor':
        return None if x is None or y is None else x ^ y
    if op == 'and':
        if x == F0 or y == F0:
            return F0
        return None if x is None or y is None else band(x, y)
    if x == F1 or y == F1:
        return F1
    return None if x is None or y is None else bor(x, y)


def vbits(v):
    """bits of a vector expression"""
    if v[0] == 'K':
        return kbits(v)
    if v[0] == 'O':
        if v[1] == 'kv':
            return kbits(v[2])
        if v[1] == 'bitcast':
            return vbits(v[2])
        if v[1] == 'ins':
            m = re.match(r'<(\d+) x i(\d+)>', v[5])
            i = const_of(v[4])
            if m and i is not None:
                w = int(m.group(2))
                b = list(vbits(v[2]))
                b[i * w:(i + 1) * w] = pbits(v[3], w)
                return b
        if v[1] in ('or', 'and', 'xor') and len(v) >= 4:
            return [comb(v[1], x, y) for x, y in zip(vbits(v[2]), vbits(v[3]))]
    return [None] * 128


def kbits(kv):
    out = [F0] * 128
    for a, c in kv[1]:
        x = abits(key(a))
        out = [None if o is None or (y is None and c != F0) else o ^ band(c, y) for o, y in zip(out, x)]
    return out


def abits(kk):
    if kk[0] == 'cblk':
        return [F1 if (kk[1] >> i) & 1 else F0 for i in range(128)]
    if kk[0] == 'bits':
        return vbits(kk[1])
    if kk[0] == 'vec' and len(kk[1]) == 2:
        return pbits(kk[1][0], 64) + pbits(kk[1][1], 64)
    if kk[0] == 'vl':
        z = [F0] * 64
        return pbits(kk[2], 64) + z if kk[1] == 0 else z + pbits(kk[2], 64)
    if kk[0] == 'O':
        return vbits(kk)
    if kk[0] == 'lin':
        x = kbits(kk[3])
        out = []
        for l in (0, 1):
            y, n = x[64 * l:64 * l + 64], kk[2]
            out += [F0] * n + y[:64 - n] if kk[1] == 'shl' else y[n:] + [F0] * n
        return out
    if kk[0] in ('vor', 'vand') and len(kk) == 3:
        return [comb(kk[0][1:], x, y) for x, y in zip(vbits(kk[1]), vbits(kk[2]))]
    return [batom(('lsb', kk))] + [batom(('kbit', kk, i)) for i in range(1, 128)]
