"""Big-number term machine on top of the abstract interpreter.

A big number is a memory cell holding its value as an integer polynomial over opaque terms.  Heap objects created in a loop are cells of an
arena, one per iteration, so that `x[i]` read in a later loop is the object created in iteration i.  Messages are recorded in order."""
import re
from dom import *
from absint import Interp, Config, Event, Frame

STRIDE = 1 << 24
BIG = 1 << 64
LOOP = re.compile(r'^L\d+$')


def loops_of(prefix):
    out = []
    cur = ''
    for part in prefix.split('/'):
        cur = cur + '/' + part if cur else part
        if LOOP.match(part):
            out.append(cur)
    return out


def arena(fr, what):
    ls = loops_of(fr.prefix)
    off = ZERO
    for i, l in enumerate(reversed(ls)):
        off = P_add(off, P_scale(P_atom(('k', l)), STRIDE * BIG ** i))
    return Ptr(('new', fr.uid(what)), off)


def uid_key(fr, what):
    """identity of a call: site plus the counters of the loops around it"""
    return (fr.uid(what),) + tuple(P_atom(('k', l)) for l in loops_of(fr.prefix))


# ---------------------------------------------------------------- terms
def is_mod(t, n):
    k = atom_of(t)
    return k is not None and k[0] == 'nnmod' and k[2] == n


def strip_mod(t, n):
    """t modulo n: every summand that is itself a residue modulo n may be replaced by what it is the residue of"""
    r = ZERO
    for m, c in t[1]:
        y = P_const(c)
        done = False
        if len(m) == 1:
            k = key(m[0])
            if k[0] == 'nnmod' and k[2] == n:
                y = P_scale(strip_mod(k[1], n), c)
                done = True
        if not done:
            for a in m:
                y = P_mul(y, P_atom(key(a)))
        r = P_add(r, y)
    return r


def nnmod(t, n):
    t = strip_mod(t, n)
    return P_atom(('nnmod', t, n))


def rsa_pair(n, e, d):
    a, b, c = atom_of(n), atom_of(e), atom_of(d)
    return a is not None and b is not None and c is not None and a[0] == b[0] == c[0] == 'rsa' and a[1] == b[1] == c[1] and (a[2], b[2], c[2]) in (('n', 'e', 'd'), ('n', 'd', 'e'))


def modexp(b, e, n):
    b = strip_mod(b, n)
    k = atom_of(b)
    if k is not None and k[0] == 'modexp' and k[3] == n and rsa_pair(n, k[2], e):
        return nnmod(k[1], n)
    return P_atom(('modexp', b, e, n))


def bxor(a, b, bits):
    """xor of the low `bits` bits"""
    s = set()
    for x in (a, b):
        k = atom_of(x)
        if k is not None and k[0] == 'bxor' and k[2] == bits:
            s ^= set(k[1])
        elif x != ZERO:
            s ^= {x}
    return P_atom(('bxor', tuple(sorted(s, key=repr)), bits)) if s else ZERO


def rebuild(x, sub):
    """substitute atoms in a term and apply the term rules again"""
    memo = {}

    def rP(t):
        if t in memo:
            return memo[t]
        r = ZERO
        for m, c in t[1]:
            y = P_const(c)
            for a in m:
                y = P_mul(y, rA(key(a)))
            r = P_add(r, y)
        memo[t] = r
        return r

    def rF(f):
        r = F0
        for m in f:
            t = F1
            for a in m:
                k = key(a)
                y = sub.get(k)
                if y is None:
                    k2 = rk(k)
                    y = sub.get(k2)
                    if y is None:
                        y = B(batom(k2)) if k2 != k else B(frozenset([frozenset([a])]))
                t = band(t, as_F(y))
            r = r ^ t
        return r

    def rA(k):
        if k in sub:
            return as_P(sub[k])
        k2 = rk(k)
        if k2 in sub:
            return as_P(sub[k2])
        if k2[0] == 'nnmod':
            return nnmod(k2[1], k2[2])
        if k2[0] == 'modexp':
            return modexp(*k2[1:4])
        if k2[0] == 'bxor':
            r = ZERO
            for y in k2[1]:
                r = bxor(r, y, k2[2])
            return r
        if k2[0] == 'ite':
            return ite(k2[1], k2[2], k2[3])
        if k2[0] == 'b2i':
            return P_const(1) if k2[1] == F1 else (ZERO if k2[1] == F0 else P_atom(k2))
        return P_atom(k2)

    def rk(k):
        return tuple(rx(x) for x in k)

    def rx(x):
        if isinstance(x, tuple) and x:
            if x[0] == 'P':
                return rP(x)
            if x[0] == 'B':
                return B(rF(x[1]))
            if x[0] == 'Ptr':
                return Ptr(rk(x[1]), rP(as_P(x[2])))
            return rk(x)
        if isinstance(x, frozenset):
            if all(isinstance(m, frozenset) for m in x):
                return rF(x)
            return frozenset(rx(y) for y in x)
        return x
    return rx(x)


def as_F(y):
    if y[0] == 'B':
        return y[1]
    c = const_of(y)
    if c is not None:
        return F1 if c else F0
    k = atom_of(y)
    if k and k[0] == 'b2i':
        return k[1]
    return bnot(batom(('eq0', y)))


def ite(g, a, b):
    if g == F1 or a == b:
        return a
    if g == F0:
        return b
    return P_atom(('ite', g, a, b))


# ---------------------------------------------------------------- the machine
class Sim:
    def __init__(self, prog, fn, args, facts=(), on_load=None, extra=None, unroll=4, nonneg=None):
        self.prog = prog
        self.chan = []            # (event) in emission order are taken from the event tree
        cfg = Config(unroll=unroll)
        cfg.facts = list(facts)
        cfg.nonneg = nonneg or (lambda k: k[0] in ('n', 'q', 'bitlen', 'kk', 'bpos'))
        cfg.nonnull = lambda b: True
        cfg.on_load = on_load
        ops = {n[3:]: getattr(self, n) for n in dir(self) if n.startswith('op_')}
        cfg.calls = {}
        for n, h in ops.items():
            cfg.calls[n] = h
        for n in ('operator new[]', 'operator new', 'malloc', 'operator new[](unsigned long)'):
            cfg.calls[n] = self.new
        cfg.calls.update(extra or {})
        self.I = Interp(prog, cfg)
        self.fr = self.I.run(prog.fn(fn), args, {})
        self.mem = getattr(self.fr, 'mem_at_ret', None)

    # cells
    def get(self, fr, mem, p):
        if p[0] != 'Ptr':
            return P_atom(('unknown', p))
        v = self.I.load(p[1], p[2], 'i64', self.I.ver(mem, p[1]))
        if v[0] == 'O' and v[1] == 'undef' or v == UNDEF:
            return P_atom(('undef', p[1]))
        if v[0] == 'B':
            v = as_P(v)
        if v[0] == 'P':
            return v
        if v[0] == 'O' and len(v) > 4 and v[1] == 'ite':
            return ite(v[2], as_P(v[3]), as_P(v[4]))
        return P_atom(('val', v))

    def put(self, fr, mem, p, v, g, ins):
        fr.store(mem, p, v, 8, g, ins)

    def rec(self, fr, what, ins, mem, g, vals, ret=None):
        fr.emit(Event('bn', what, vals, g, fr.site(ins), mem=dict(mem), ret=ret, ins=ins))

    def new(self, fr, ins, mem, g, a):
        p = arena(fr, 'new')
        if p[1] not in mem:
            mem[p[1]] = A(('undef', p[1]))
        fr.emit(Event('alloc', ins['mangled'], a, g, fr.site(ins), mem=dict(mem), ret=p, ins=ins))
        fr.written.add(p[1])
        return p

    def op_BN_new(self, fr, ins, mem, g, a):
        p = arena(fr, 'bn')
        self.put(fr, mem, p, ZERO, g, ins)
        self.rec(fr, 'BN_new', ins, mem, g, [p], p)
        return p

    def op_BN_CTX_new(self, fr, ins, mem, g, a):
        return Ptr(('ctx', fr.uid('ctx')))

    def op_RSA_new(self, fr, ins, mem, g, a):
        return Ptr(('rsaobj', fr.uid('rsa')))

    def op_BN_free(self, fr, ins, mem, g, a):
        self.rec(fr, 'BN_free', ins, mem, g, a)
        return None
    op_BN_clear_free = op_BN_free

    def nop(self, fr, ins, mem, g, a):
        return ONE
    op_BN_CTX_free = op_RSA_free = op_RSA_check_key = op_RSA_generate_key_ex = op_BN_CTX_start = op_BN_CTX_end = nop

    def op_RSA_get0_key(self, fr, ins, mem, g, a):
        for p, c in zip(a[1:4], 'ned'):
            if p[0] == 'Ptr' and p[1][0] != 'null':
                q = Ptr(('rsabn', a[0][1], c))
                self.put(fr, mem, q, P_atom(('rsa', a[0][1], c)), g, ins)
                fr.store(mem, p, q, 8, g, ins)
        return None

    def op_BN_set_word(self, fr, ins, mem, g, a):
        self.put(fr, mem, a[0], as_P(a[1]), g, ins)
        self.rec(fr, 'BN_set_word', ins, mem, g, a)
        return ONE

    def op_BN_rand(self, fr, ins, mem, g, a):
        t = P_atom(('rand', as_P(a[1])) + uid_key(fr, 'rand'))
        self.put(fr, mem, a[0], t, g, ins)
        self.rec(fr, 'BN_rand', ins, mem, g, a, t)
        return ONE
    op_BN_priv_rand = op_BN_rand

    def op_BN_copy(self, fr, ins, mem, g, a):
        self.put(fr, mem, a[0], self.get(fr, mem, a[1]), g, ins)
        return a[0]

    def op_BN_dup(self, fr, ins, mem, g, a):
        p = arena(fr, 'bn')
        self.put(fr, mem, p, self.get(fr, mem, a[0]), g, ins)
        self.rec(fr, 'BN_new', ins, mem, g, [p], p)
        return p

    def op_BN_add(self, fr, ins, mem, g, a):
        self.put(fr, mem, a[0], P_add(self.get(fr, mem, a[1]), self.get(fr, mem, a[2])), g, ins)
        return ONE

    def op_BN_sub(self, fr, ins, mem, g, a):
        self.put(fr, mem, a[0], P_sub(self.get(fr, mem, a[1]), self.get(fr, mem, a[2])), g, ins)
        return ONE

    def op_BN_nnmod(self, fr, ins, mem, g, a):
        self.put(fr, mem, a[0], nnmod(self.get(fr, mem, a[1]), self.get(fr, mem, a[2])), g, ins)
        return ONE

    def op_BN_mod_add(self, fr, ins, mem, g, a):
        self.put(fr, mem, a[0], nnmod(P_add(self.get(fr, mem, a[1]), self.get(fr, mem, a[2])), self.get(fr, mem, a[3])), g, ins)
        return ONE

    def op_BN_mod_sub(self, fr, ins, mem, g, a):
        self.put(fr, mem, a[0], nnmod(P_sub(self.get(fr, mem, a[1]), self.get(fr, mem, a[2])), self.get(fr, mem, a[3])), g, ins)
        return ONE

    def op_BN_mod_exp(self, fr, ins, mem, g, a):
        self.put(fr, mem, a[0], modexp(*[self.get(fr, mem, x) for x in a[1:4]]), g, ins)
        return ONE

    def op_BN_is_bit_set(self, fr, ins, mem, g, a):
        return B(batom(('bit', self.get(fr, mem, a[0]), as_P(a[1]))))

    def op_BN_set_bit(self, fr, ins, mem, g, a):
        self.rec(fr, 'BN_set_bit', ins, mem, g, a)
        self.put(fr, mem, a[0], P_atom(('setbit', self.get(fr, mem, a[0]), as_P(a[1]), ONE)), g, ins)
        return ONE

    def op_BN_clear_bit(self, fr, ins, mem, g, a):
        self.rec(fr, 'BN_clear_bit', ins, mem, g, a)
        self.put(fr, mem, a[0], P_atom(('setbit', self.get(fr, mem, a[0]), as_P(a[1]), ZERO)), g, ins)
        return ONE

    def op_BN_xor(self, fr, ins, mem, g, a):          # repository helper: r, bits, a, b
        self.put(fr, mem, a[0], bxor(self.get(fr, mem, a[2]), self.get(fr, mem, a[3]), as_P(a[1])), g, ins)
        return ONE

    def op_BN_invert(self, fr, ins, mem, g, a):       # repository helper: a, bits
        self.put(fr, mem, a[0], P_atom(('binv', self.get(fr, mem, a[0]), as_P(a[1]))), g, ins)
        return ONE

    def op_BN_full_one(self, fr, ins, mem, g, a):
        self.rec(fr, 'BN_full_one', ins, mem, g, a)
        self.put(fr, mem, a[0], P_atom(('ones', as_P(a[1]))), g, ins)
        return ONE

    def op_HashBN(self, fr, ins, mem, g, a):          # repository helper: r, bits, tweak, v
        self.put(fr, mem, a[0], P_atom(('hash', as_P(a[1]), as_P(a[2]), self.get(fr, mem, a[3]))), g, ins)
        return ZERO

    # channel
    def op_SendBN(self, fr, ins, mem, g, a):
        self.rec(fr, 'send', ins, mem, g, [a[0], self.get(fr, mem, a[1])])
        return ZERO

    def op_RecvBN(self, fr, ins, mem, g, a):
        t = P_atom(('rcv',) + uid_key(fr, 'rcv'))
        self.put(fr, mem, a[1], t, g, ins)
        self.rec(fr, 'recv', ins, mem, g, [a[0], t], t)
        return ZERO

    def op_SendData(self, fr, ins, mem, g, a):
        c = const_of(as_P(a[2])) or 0
        v = self.I.load(a[1][1], a[1][2], 'i%d' % (8 * c), self.I.ver(mem, a[1][1])) if c in (1, 2, 4, 8) and a[1][0] == 'Ptr' else P_atom(('buf',) + uid_key(fr, 'buf'))
        self.rec(fr, 'send', ins, mem, g, [a[0], v])
        return ZERO

    def op_RecvData(self, fr, ins, mem, g, a):
        c = const_of(as_P(a[2])) or 0
        t = P_atom(('rcv',) + uid_key(fr, 'rcv'))
        if a[1][0] == 'Ptr':
            if c in (1, 2, 4, 8):
                fr.store(mem, a[1], t, c, g, ins)
            else:
                fr.havoc(mem, a[1][1], fr.uid('rcvbuf'))
        self.rec(fr, 'recv', ins, mem, g, [a[0], t], t)
        return ZERO

    def op_BlockToBN(self, fr, ins, mem, g, a):
        b = a[1:]
        v = b[0] if len(b) == 1 and b[0][0] == 'K' else None
        self.put(fr, mem, a[0], P_atom(('ofblk', v if v is not None else tuple(b))), g, ins)
        return ZERO

    def op_BNToBlock(self, fr, ins, mem, g, a):
        v = self.get(fr, mem, a[0])
        k = atom_of(v)
        fr.store(mem, a[1], k[1] if k and k[0] == 'ofblk' and k[1][0] == 'K' else K_atom(('toblk', v)), 16, g, ins)
        return ZERO

    # ------------------------------------------------------------ results
    def read(self, p, ty='i64', facts=()):
        n = len(self.I.facts)
        self.I.facts.extend(facts)
        try:
            v = self.I.load(p[1], p[2], ty, self.I.ver(self.mem, p[1]))
        finally:
            del self.I.facts[n:]
        return v

    def value(self, p, facts=()):
        n = len(self.I.facts)
        self.I.facts.extend(facts)
        try:
            return self.get(None, self.mem, p)
        finally:
            del self.I.facts[n:]

