"""Abstract value domain used by the analyses (value numbering with algebraic normal forms).

  P  multivariate integer polynomial over interned atoms        (array indices, sizes, counters)
  B  boolean, algebraic normal form over GF(2)                  (guards, select bits, LSBs)
  K  128-bit block: XOR-combination of block atoms with ANF coefficients (labels, table rows)
  Ptr  (base, byte offset P)
  O  anything else, an interned opaque term

Two values are equal iff their normal forms are identical.  No solver is involved.
"""
from functools import lru_cache

_ids = {}
_keys = []


def A(key):
    i = _ids.get(key)
    if i is None:
        i = len(_keys)
        _ids[key] = i
        _keys.append(key)
    return i


def key(i):
    return _keys[i]


# ---------------------------------------------------------------- polynomials
def P_const(n):
    return ('P', ((((), int(n)),) if n else ()))


ZERO = P_const(0)
ONE = P_const(1)


def P_atom(k):
    return ('P', (((A(k),), 1),))


def _pn(d):
    return ('P', tuple(sorted((m, c) for m, c in d.items() if c)))


def P_add(a, b, s=1):
    d = dict(a[1])
    for m, c in b[1]:
        d[m] = d.get(m, 0) + s * c
    return _pn(d)


def P_sub(a, b):
    return P_add(a, b, -1)


def P_scale(a, k):
    return _pn({m: c * k for m, c in a[1]})


def P_mul(a, b):
    d = {}
    for m, c in a[1]:
        for n, e in b[1]:
            x = tuple(sorted(m + n))
            d[x] = d.get(x, 0) + c * e
    return _pn(d)


def is_const(v):
    return v[0] == 'P' and (not v[1] or (len(v[1]) == 1 and v[1][0][0] == ()))


def const_of(v):
    if not is_const(v):
        return None
    return v[1][0][1] if v[1] else 0


def P_atoms(v):
    s = set()
    for m, _ in v[1]:
        s.update(m)
    return s


def P_subst(v, sub):
    """sub: atom id -> P"""
    if not (P_atoms(v) & set(sub)):
        return v
    r = ZERO
    for m, c in v[1]:
        t = P_const(c)
        for a in m:
            t = P_mul(t, sub[a] if a in sub else ('P', (((a,), 1),)))
        r = P_add(r, t)
    return r


# ---------------------------------------------------------------- booleans (ANF)
F0 = frozenset()
F1 = frozenset([frozenset()])


def bx(a, b):
    return a ^ b


def band(a, b):
    if a == F1:
        return b
    if b == F1:
        return a
    if not a or not b:
        return F0
    r = set()
    for m in a:
        for n in b:
            x = m | n
            if x in r:
                r.remove(x)
            else:
                r.add(x)
            if len(r) > 20000:
                raise OverflowError("ANF too large")
    return frozenset(r)


def bnot(a):
    return a ^ F1


def bor(a, b):
    return a ^ b ^ band(a, b)


def batom(k):
    return frozenset([frozenset([A(k)])])


def B(f):
    return ('B', f)


TRUE = B(F1)
FALSE = B(F0)


def banf_subst(f, sub):
    """sub: atom id -> ANF"""
    r = F0
    for m in f:
        t = F1
        for a in m:
            t = band(t, sub[a] if a in sub else frozenset([frozenset([a])]))
        r = r ^ t
    return r


def banf_atoms(f):
    s = set()
    for m in f:
        s.update(m)
    return s


# ---------------------------------------------------------------- blocks
def K(d):
    return ('K', tuple(sorted(((a, c) for a, c in d.items() if c), key=lambda x: x[0])))


KZERO = ('K', ())


def K_atom(k):
    return ('K', ((A(k), F1),))


def K_xor(a, b):
    d = dict(a[1])
    for x, c in b[1]:
        d[x] = d.get(x, F0) ^ c
    return K(d)


def K_scale(f, a):
    return K({x: band(c, f) for x, c in a[1]})


def K_subst(v, bsub=None, ksub=None):
    r = KZERO
    for a, c in v[1]:
        if bsub:
            c = banf_subst(c, bsub)
        t = ksub[a] if ksub and a in ksub else ('K', ((a, F1),))
        r = K_xor(r, K_scale(c, t))
    return r


# ---------------------------------------------------------------- pointers / opaque
def Ptr(base, off=ZERO):
    return ('Ptr', base, off)


NULL = ('Ptr', ('null',), ZERO)


def O(*t):
    return ('O',) + t


UNDEF = ('U',)


def as_P(v):
    t = v[0]
    if t == 'P':
        return v
    if t == 'B':
        if v[1] == F0:
            return ZERO
        if v[1] == F1:
            return ONE
        return P_atom(('b2i', v[1]))
    if t == 'Ptr':
        if v == NULL:
            return ZERO
        return P_add(P_atom(('pbase', v[1])), v[2])
    return P_atom(v)


def atom_of(v):
    """if v is a P made of exactly one atom with coefficient 1, return its key"""
    if v[0] == 'P' and len(v[1]) == 1 and v[1][0][1] == 1 and len(v[1][0][0]) == 1:
        return key(v[1][0][0][0])
    return None


# ---------------------------------------------------------------- printing
def show(v, d=0):
    if not isinstance(v, tuple):
        return str(v)
    if not v:
        return '()'
    t = v[0]
    if d > 14:
        return '..'
    if t == 'P':
        if not v[1]:
            return '0'
        o = []
        for m, c in v[1]:
            s = '*'.join(show(key(a), d + 1) for a in m)
            if not s:
                o.append(str(c))
            elif c == 1:
                o.append(s)
            else:
                o.append('%d*%s' % (c, s))
        return ' + '.join(o)
    if t == 'B':
        return showb(v[1], d)
    if t == 'K':
        if not v[1]:
            return 'Z'
        return ' ^ '.join((('' if c == F1 else '[' + showb(c, d + 1) + ']') + show(key(a), d + 1)) for a, c in v[1])
    if t == 'Ptr':
        if v[2] == ZERO:
            return '&' + show(v[1], d + 1)
        return '&' + show(v[1], d + 1) + '{' + show(v[2], d + 1) + '}'
    return str(t) + '(' + ', '.join(show(x, d + 1) if isinstance(x, tuple) else (showb(x, d + 1) if isinstance(x, frozenset) else str(x)) for x in v[1:]) + ')'


def showb(f, d=0):
    if f == F0:
        return 'false'
    if f == F1:
        return 'true'
    o = []
    for m in sorted(f, key=lambda m: (len(m), sorted(m))):
        o.append('1' if not m else '.'.join(show(key(a), d + 1) for a in sorted(m)))
    return ' + '.join(o)
