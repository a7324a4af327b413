"""Abstract interpreter over the JSON IR: gated value numbering.

One forward pass over every block (no path enumeration): joins build gated (if-then-else) normal forms,
loops are summarised by one generic iteration (loop-written objects are havocked at the header and
the pass is repeated until the written set is stable), memory is an object/version store.  The result
is a tree of *events* (calls, stores, loops), each with its guard and with arguments in normal form.
"""
import re
from math import gcd
from dom import *
import bits
from frontend import Broken

SUCCESS, FAILURE = 0, -1


class Event:
    __slots__ = ('kind', 'name', 'args', 'guard', 'site', 'body', 'mem', 'ret', 'info', 'ins', 'order')

    def __init__(self, kind, name, args, guard, site, mem=None, body=None, ret=None, info=None, ins=None):
        self.kind = kind; self.name = name; self.args = args; self.guard = guard; self.site = site
        self.mem = mem; self.body = body; self.ret = ret; self.info = info; self.ins = ins

    def __repr__(self):
        return 'Event(%s %s %s)' % (self.kind, self.name, self.site)


INTS = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'short': (16, True), 'unsigned short': (16, False),
        'char': (8, True), 'unsigned char': (8, False), 'long long': (64, True), 'unsigned long long': (64, False)}


def I_BREAKS(cfg):
    return cfg.unroll_breaks


class LoopInfo:
    pass


def contains_key(t, k):
    return t == k or isinstance(t, tuple) and any(contains_key(x, k) for x in t)


class Config:
    """what an analysis run treats as primitive, and its trace partition"""

    def __init__(self, **kw):
        self.calls = {}            # callee -> f(I, st, ins, args) -> value   (full control)
        self.exact_trunc = None    # f(v) -> True where narrowing must not be taken as the identity
        self.exact_unsigned = None # f(P) -> True where the value may be negative and unsigned comparisons must say so
        self.on_load = None        # f(base, ver, off, ty) -> value or None   (trace partition)
        self.nonneg = None         # f(atom key) -> bool
        self.opaque_inst = False   # objects allocated per iteration are named by the cell that holds them, outside the loop
        self.facts = []            # list of P known >= 0
        self.unroll = 8
        self.walking = False      # pointers that advance through an object by unknown amounts stay pointers into it
        self.unroll_breaks = False # unroll loops that may also be left early
        self.assume_success = True
        self.fail_edges = True     # prune edges whose only outcome is `return FAILURE`
        self.readonly = set()      # callees that do not write through their pointer args
        self.store_hook = None
        self.lsb1 = set()          # block atom keys whose LSB is the constant 1
        self.eqblk = None          # f(diff K) -> ANF or None
        self.bool_calls = {'BN_is_bit_set'}
        self.touch = None          # f(fr, ptr, ins, mem, guard): an object is accessed
        self.nonnull = None        # f(base) -> bool: pointer base known non-null
        self.__dict__.update(kw)


NOEFFECT = re.compile(r'^(llvm\.(lifetime|dbg|assume|experimental|var\.annotation|invariant|stackrestore|stacksave|prefetch|donothing)|'
                      r'LogStream|DummyLogStream|Dump$|__cxa_begin_catch|__cxa_end_catch|exit$|abort$|__assert_fail|std::terminate)')
STD = re.compile(r'(\bstd::|__gnu_cxx::|\bboost::|__cxa_|operator<<)')


class Interp:
    def __init__(self, prog, cfg=None):
        self.prog = prog
        self.cfg = cfg or Config()
        self.facts = list(self.cfg.facts)
        self.nn_cache = {}
        self.loopinfo = {}
        self.unknown_ops = {}
        self.stats = {'blocks': 0, 'instructions': 0, 'calls': 0, 'loops': 0, 'functions': 0}
        self.fninfo = {}
        self.rb_memo = {}
        self.freads = {}

    # ------------------------------------------------------------ sign decisions
    def nonneg(self, aid):
        r = self.nn_cache.get(aid)
        if r is None:
            k = key(aid)
            r = False
            if k[0] in ('k', 'b2i', 'nat', 'BN_num_bits', 'size', 'strlen'):
                r = True
            elif k[0] == 'mod' and self.ge0(k[1]) is True:
                r = True
            elif self.cfg.nonneg and self.cfg.nonneg(k):
                r = True
            self.nn_cache[aid] = r
        return r

    def _easy_ge0(self, p):
        for m, c in p[1]:
            if c < 0:
                return False
            if m and not all(self.nonneg(a) for a in m):
                return False
        return True

    @staticmethod
    def _gred(p):
        """integer tightening: g*q + c >= 0  <=>  q + floor(c/g) >= 0"""
        g = 0
        for m, c in p[1]:
            if m:
                g = gcd(g, abs(c))
        if g <= 1:
            return p
        return ('P', tuple(x for x in ((m, (c // g)) for m, c in p[1]) if x[1]))

    def ge0(self, p):
        """True/False/None: p >= 0 ?"""
        p = self._gred(p)
        if self._easy_ge0(p):
            return True
        n = self._gred(P_sub(P_scale(p, -1), ONE))
        if self._easy_ge0(n):
            return False
        for f in self.facts:
            if self._easy_ge0(P_sub(p, f)):
                return True
            if self._easy_ge0(P_sub(n, f)):
                return False
        L = len(self.facts)
        if L <= 14:
            for i in range(L):
                for j in range(i + 1, L):
                    s = P_add(self.facts[i], self.facts[j])
                    if self._easy_ge0(P_sub(p, s)):
                        return True
                    if self._easy_ge0(P_sub(n, s)):
                        return False
        return None

    # ------------------------------------------------------------ comparisons
    def _split_atom(self, d):
        for a in P_atoms(d):
            k = key(a)
            if k[0] in ('ite', 'b2i'):
                return a, k
        return None

    def b_eq0(self, d):
        c = const_of(d)
        if c is not None:
            return F1 if c == 0 else F0
        sp = self._split_atom(d)
        if sp:
            a, k = sp
            if k[0] == 'b2i':
                t, e, g = ONE, ZERO, k[1]
            else:
                g, t, e = k[1], as_P(k[2]), as_P(k[3])
            x = self.b_eq0(P_subst(d, {a: t})); y = self.b_eq0(P_subst(d, {a: e}))
            return band(g, x) ^ band(bnot(g), y)
        if self.ge0(P_sub(d, ONE)) is True or self.ge0(P_sub(P_scale(d, -1), ONE)) is True:
            return F0
        # gcd / parity argument: constant term not divisible by gcd of the coefficients
        if d[1][0][1] < 0:
            d = P_scale(d, -1)
        g = 0; c0 = 0
        for m, c in d[1]:
            if m:
                g = gcd(g, abs(c))
            else:
                c0 = c
        if g and c0 % g:
            return F0
        return batom(('eq0', d))

    def b_ge0(self, d):
        c = const_of(d)
        if c is not None:
            return F1 if c >= 0 else F0
        sp = self._split_atom(d)
        if sp:
            a, k = sp
            if k[0] == 'b2i':
                t, e, g = ONE, ZERO, k[1]
            else:
                g, t, e = k[1], as_P(k[2]), as_P(k[3])
            x = self.b_ge0(P_subst(d, {a: t})); y = self.b_ge0(P_subst(d, {a: e}))
            return band(g, x) ^ band(bnot(g), y)
        s = self.ge0(d)
        if s is not None:
            return F1 if s else F0
        lead = [x for x in d[1] if x[0]][0][1]
        if lead > 0:
            return batom(('ge0', d))
        return bnot(batom(('ge0', P_sub(P_scale(d, -1), ONE))))

    def equiv(self, a, b):
        """two conditions agree wherever their integer comparisons can hold together"""
        def clash(fs):
            for i, f in enumerate(fs):
                if self._easy_ge0(P_sub(P_scale(f, -1), ONE)):
                    return True
                for g in fs[i + 1:]:
                    if self._easy_ge0(P_sub(P_scale(P_add(f, g), -1), ONE)):
                        return True
            return False

        def go(d, fs, depth):
            if d == F0 or clash(fs):
                return True
            ats = [x for m in d for x in m if key(x)[0] in ('ge0', 'eq0')]
            if not ats or depth == 0:
                return False
            x = ats[0]; k = key(x); q = k[1]
            rest = frozenset(m for m in d if x not in m)
            one = rest ^ frozenset(m - {x} for m in d if x in m)
            n = P_sub(P_scale(q, -1), ONE)
            if k[0] == 'ge0':
                return go(one, fs + [q], depth - 1) and go(rest, fs + [n], depth - 1)
            return go(one, fs + [q, P_scale(q, -1)], depth - 1) and go(rest, fs + [P_sub(q, ONE)], depth - 1) and go(rest, fs + [n], depth - 1)
        return a == b or go(a ^ b, [], 10)

    def cmp(self, pred, a, b):
        if a[0] == 'O' and a[1] == 'ite':
            return band(a[2], self.cmp(pred, a[3], b)) ^ band(bnot(a[2]), self.cmp(pred, a[4], b))
        if b[0] == 'O' and b[1] == 'ite':
            return band(b[2], self.cmp(pred, a, b[3])) ^ band(bnot(b[2]), self.cmp(pred, a, b[4]))
        if a[0] == 'B' and b[0] == 'B':
            if pred == 'eq':
                return bnot(a[1] ^ b[1])
            if pred == 'ne':
                return a[1] ^ b[1]
        if a[0] == 'Ptr' or b[0] == 'Ptr':
            if a[0] == 'Ptr' and b[0] == 'Ptr':
                if a[1] == b[1]:
                    a, b = a[2], b[2]
                elif pred in ('eq', 'ne') and (a == NULL or b == NULL):
                    x = b if a == NULL else a
                    if x[1][0] in ('alloca', 'new', 'arg', 'g') or (self.cfg.nonnull and self.cfg.nonnull(x[1])):
                        return F0 if pred == 'eq' else F1
                    if x[1][0] == 'pite':
                        _, c, u, w = x[1]
                        f = band(c, self.cmp('eq', Ptr(u[1], P_add(u[2], x[2])), NULL)) ^ band(bnot(c), self.cmp('eq', Ptr(w[1], P_add(w[2], x[2])), NULL))
                        return f if pred == 'eq' else bnot(f)
                    r = batom(('isnull', x))
                    return r if pred == 'eq' else bnot(r)
                elif pred in ('eq', 'ne'):
                    if a[1][0] in ('alloca', 'new') and b[1][0] in ('alloca', 'new'):
                        return F0 if pred == 'eq' else F1
                    r = batom(('ptreq',) + tuple(sorted((a, b), key=repr)))
                    return r if pred == 'eq' else bnot(r)
                else:
                    return batom(('ptrcmp', pred, a, b))
        if a[0] == 'fp' or b[0] == 'fp':
            return batom(('fcmp', pred, a, b))
        pa, pb = as_P(a), as_P(b)
        if pred in ('ult', 'ule', 'ugt', 'uge'):
            if pred in ('ugt', 'uge'):
                pa, pb = pb, pa
                strict = pred == 'ugt'
            else:
                strict = pred == 'ult'
            if self.ge0(P_sub(P_scale(pa, -1), ONE)) is True and self.ge0(pb) is True:
                return F0
            if self.ge0(P_sub(P_scale(pb, -1), ONE)) is True and self.ge0(pa) is True:
                return F1
            xu = self.cfg.exact_unsigned
            if xu:
                # values that may be negative as signed numbers are huge as unsigned ones
                if xu(pa) and not xu(pb):
                    return band(self.b_ge0(P_sub(P_sub(pb, pa), ONE if strict else ZERO)), self.b_ge0(pa))
                if xu(pb) and not xu(pa):
                    return bnot(band(self.b_ge0(P_sub(P_sub(pa, pb), ZERO if strict else ONE)), self.b_ge0(pb)))
                if xu(pa) and xu(pb):
                    return batom(('ucmp', strict, pa, pb))
            return self.b_ge0(P_sub(P_sub(pb, pa), ONE if strict else ZERO))
        d = P_sub(pa, pb)
        if pred == 'eq':
            return self.b_eq0(d)
        if pred == 'ne':
            return bnot(self.b_eq0(d))
        if pred in ('slt',):
            return self.b_ge0(P_sub(P_scale(d, -1), ONE))
        if pred == 'sle':
            return self.b_ge0(P_scale(d, -1))
        if pred == 'sgt':
            return self.b_ge0(P_sub(d, ONE))
        if pred == 'sge':
            return self.b_ge0(d)
        return batom(('cmp', pred, a, b))

    # ------------------------------------------------------------ gated merge
    def ite(self, c, x, y):
        if x == y:
            return x
        if c == F1:
            return x
        if c == F0:
            return y
        if x == UNDEF:
            return y
        if y == UNDEF:
            return x
        if x[0] == 'B' and y[0] == 'B':
            return B(band(c, x[1]) ^ band(bnot(c), y[1]))
        if x[0] == 'K' and y[0] == 'K':
            return K_xor(y, K_scale(c, K_xor(x, y)))
        if frozenset() in c:           # canonical polarity: no constant term
            c, x, y = bnot(c), y, x
        if x[0] in ('P', 'B') and y[0] in ('P', 'B'):
            px, py = as_P(x), as_P(y)
            if px == py:
                return px
            cx, cy = const_of(px), const_of(py)
            if cx is not None and cy is not None and {cx, cy} == {0, 1}:
                return B(c) if cx == 1 else B(bnot(c))
            # one-armed nesting: ite(c, ite(c,a,b), y)
            ka, kb = atom_of(px), atom_of(py)
            if ka and ka[0] == 'ite' and ka[1] == c:
                return self.ite(c, ka[2], y)
            if kb and kb[0] == 'ite' and kb[1] == c:
                return self.ite(c, x, kb[3])
            return P_atom(('ite', c, px, py))
        if x[0] == 'Ptr' and y[0] == 'Ptr':
            if x[1] == y[1]:
                return Ptr(x[1], as_P(self.ite(c, x[2], y[2])))
            return Ptr(('pite', c, x, y), ZERO)
        if x[0] == 'O' and x[1] == 'ite' and x[2] == c:
            x = x[3]
        if y[0] == 'O' and y[1] == 'ite' and y[2] == c:
            y = y[4]
        return O('ite', c, x, y)

    # ------------------------------------------------------------ memory
    @staticmethod
    def v0(base):
        return A(('v0', base))

    def ver(self, mem, base):
        v = mem.get(base)
        return self.v0(base) if v is None else v

    def typed(self, tup, ty):
        if ty.startswith('<2 x i64>'):
            return K_atom(tup)
        if ty == 'ptr':
            return Ptr(tup, ZERO)
        if ty == 'i1':
            return B(batom(tup))
        if ty.startswith('i'):
            return P_atom(tup)
        return O(*tup)

    def tysize(self, ty):
        if ty.startswith('<'):
            m = re.match(r'<(\d+) x i(\d+)>', ty)
            return int(m.group(1)) * int(m.group(2)) // 8 if m else 0
        if ty == 'ptr' or ty == 'i64' or ty == 'double':
            return 8
        m = re.match(r'i(\d+)$', ty)
        if m:
            return max(1, int(m.group(1)) // 8)
        if ty == 'float':
            return 4
        return 0

    def coerce(self, val, ty, size, sty):
        """value of type-size `size` stored; read at same offset with type ty"""
        if val == UNDEF:
            return UNDEF
        n = self.tysize(ty)
        if ty == '<2 x i64>':
            if val[0] == 'K':
                return val
            if is_const(val) and const_of(val) == 0:
                return KZERO
            return K_atom(('asblk', val))
        if val[0] == 'K':
            if n < 16:
                return P_atom(('low', n * 8, val))
            return O('asty', ty, val)
        if ty == 'ptr':
            if val[0] == 'Ptr':
                return val
            if is_const(val) and const_of(val) == 0:
                return NULL
            return Ptr(('asptr', val), ZERO)
        if n < size and val[0] in ('P', 'B'):
            c = const_of(as_P(val))
            if c is not None:
                return P_const(c & ((1 << (8 * n)) - 1))
            return P_atom(('low', n * 8, val))
        if ty.startswith('i') and val[0] not in ('P', 'B'):
            if val[0] == 'Ptr':
                return as_P(val)
            return P_atom(val)
        return val

    def disjoint(self, o1, n1, o2, n2):
        """accesses [o1,o1+n1) and [o2,o2+n2) provably disjoint?"""
        d = P_sub(o1, o2)
        c = const_of(d)
        if c is not None:
            return c >= n2 or c <= -n1
        g = 0; c0 = 0
        for m, x in d[1]:
            if m:
                g = gcd(g, abs(x))
            else:
                c0 = x
        if g:
            r = c0 % g
            if r >= n2 and r + n1 <= g:
                return True
        if self.ge0(P_sub(d, P_const(n2))) is True or self.ge0(P_sub(P_scale(d, -1), P_const(n1))) is True:
            return True
        return False

    def small(self, p, depth=0):
        """a constant, or a choice between constants"""
        if depth > 3:
            return False
        for m, c in p[1]:
            for a in m:
                k = key(a)
                if k[0] == 'b2i':
                    continue
                if not (k[0] == 'ite' and len(k) == 4 and self.small(as_P(k[2]), depth + 1) and self.small(as_P(k[3]), depth + 1)):
                    return False
        return True

    def switch(self, off):
        """an offset that depends on one condition: (condition, offset when true, offset when false)"""
        for m, c in off[1]:
            for a in m:
                k = key(a)
                if k[0] == 'b2i':
                    return k[1], P_subst(off, {a: ONE}), P_subst(off, {a: ZERO})
                if k[0] == 'ite' and len(k) == 4 and self.small(as_P(k[2])) and self.small(as_P(k[3])):
                    return k[1], P_subst(off, {a: as_P(k[2])}), P_subst(off, {a: as_P(k[3])})
        return None

    def load(self, base, off, ty, ver, depth=0):
        sw = self.switch(off) if depth == 0 else None
        if sw and sw[0] not in (F0, F1):
            return self.ite(sw[0], self.load(base, sw[1], ty, ver), self.load(base, sw[2], ty, ver))
        size = self.tysize(ty)
        while True:
            k = key(ver)
            t = k[0]
            if t == 'st':
                _, prev, o2, s2, val = k
                d = P_sub(off, o2)
                c = const_of(d)
                if c == 0 and size <= s2:
                    return self.coerce(val, ty, s2, None)
                if self.disjoint(off, size, o2, s2):
                    ver = prev
                    continue
                if c is not None and c > 0 and c + size <= s2 and val[0] == 'K' and not val[1]:
                    return self.coerce(ZERO, ty, size, None)
                if c is not None and 0 <= c and c + size <= s2:
                    x = ('sub', val, c, size)
                    return self.typed(x, ty)
                break
            if t == 'ite':
                a = self.load(base, off, ty, k[2], depth + 1)
                b = self.load(base, off, ty, k[3], depth + 1)
                return self.ite(k[1], a, b)
            if t == 'cpy':
                _, prev, do, n, sb, sver, so = k
                d = P_sub(off, do)
                nn = as_P(n)
                if (const_of(d) is not None and const_of(nn) is not None and 0 <= const_of(d) and const_of(d) + size <= const_of(nn)) or \
                        (self.ge0(d) is True and self.ge0(P_sub(P_sub(nn, d), P_const(size))) is True):
                    return self.load(sb, P_add(so, d), ty, sver, depth + 1)
                cn = const_of(nn)
                if cn is not None and self.disjoint(off, size, do, cn):
                    ver = prev
                    continue
                if self.ge0(P_sub(d, nn)) is True or self.ge0(P_sub(P_scale(d, -1), P_const(size))) is True:
                    ver = prev
                    continue
                break
            if t == 'set':
                _, prev, o2, n, byte = k
                d = P_sub(off, o2)
                nn = as_P(n)
                if self.ge0(d) is True and self.ge0(P_sub(P_sub(nn, d), P_const(size))) is True:
                    bc = const_of(as_P(byte))
                    if bc == 0:
                        return KZERO if ty == '<2 x i64>' else (NULL if ty == 'ptr' else ZERO)
                    return self.typed(('setb', byte, size), ty)
                cn = const_of(nn)
                if cn is not None and self.disjoint(off, size, o2, cn):
                    ver = prev
                    continue
                break
            if t == 'undef':
                return UNDEF
            if t == 'zero':
                return KZERO if ty == '<2 x i64>' else (NULL if ty == 'ptr' else ZERO)
            if t == 'end':
                r = self.load_end(base, off, ty, size, k, depth)
                if r is not None:
                    if r[0] == 'goto':
                        ver = r[1]
                        continue
                    return r[1]
                break
            break
        if base[0] == 'g':
            r = self.load_global(base[1], off, ty)
            if r is not None:
                return r
        if base[0] == 'pite':
            return self.ite(base[1], self.load(base[2][1], P_add(base[2][2], off), ty, self.ver(self._curmem, base[2][1]), depth + 1),
                            self.load(base[3][1], P_add(base[3][2], off), ty, self.ver(self._curmem, base[3][1]), depth + 1))
        if self.cfg.on_load:
            r = self.cfg.on_load(self, base, ver, off, ty)
            if r is not None:
                return r
        return self.typed(('ld', base, ver, off, size), ty)

    def load_global(self, name, off, ty):
        g = self.prog.globals.get(name)
        if not g or not g.get('const') or 'init' not in g:
            return None
        c = const_of(off)
        if c is None:
            return None
        init = g['init']
        m = re.match(r'\[(\d+) x (i(\d+))\]', g['ty'])
        if init[0] == 'agg' and m:
            es = int(m.group(3)) // 8
            n = self.tysize(ty)
            if ty == '<2 x i64>' and c % es == 0:
                v = 0
                for i in range(16 // es):
                    v |= (int(init[2][c // es + i][1]) & ((1 << (8 * es)) - 1)) << (8 * es * i)
                return self.kconst(v)
            if n == es and c % es == 0 and c // es < len(init[2]):
                return P_const(int(init[2][c // es][1]))
        if init[0] == 'i' and c == 0:
            return P_const(int(init[1]))
        return None

    @staticmethod
    def kconst(v):
        r = KZERO
        i = 0
        while v:
            if v & 1:
                r = K_xor(r, K_atom(('cblk', 1 << i)))
            v >>= 1; i += 1
        return r

    def klin(self, op, n, k):
        """constant shift of the 64-bit lanes of a block: linear over xor"""
        r = KZERO
        M = (1 << 64) - 1
        for a, c in k[1]:
            kk = key(a)
            if kk[0] == 'cblk':
                ls = [(kk[1] >> (64 * i)) & M for i in (0, 1)]
                ls = [(x << n) & M if op == 'shl' else x >> n for x in ls]
                x = self.kconst(ls[0] | ls[1] << 64)
            else:
                x = K_atom(('lin', op, n, K_atom(kk)))
            r = K_xor(r, K_scale(c, x))
        return r

    def klane(self, i, p):
        """block with integer p in 64-bit lane i and zero elsewhere (low bits that are known split off)"""
        c = const_of(p)
        if c is not None:
            return self.kconst((c & ((1 << 64) - 1)) << (64 * i))
        m = 1 << 32
        for mm, k in p[1]:
            if mm:
                while k % m:
                    m >>= 1
        c = sum(k for mm, k in p[1] if not mm) % m
        r = K_atom(('vl', i, P_sub(p, P_const(c))))
        return K_xor(r, self.kconst(c << (64 * i))) if c else r

    def lane_of(self, kv, i):
        """integer in lane i of a block, or None"""
        r = None; c = 0
        for a, g in kv[1]:
            kk = key(a)
            if g != F1 or kk[0] not in ('vl', 'cblk'):
                return None
            if kk[0] == 'cblk':
                c |= (kk[1] >> (64 * i)) & ((1 << 64) - 1)
            elif kk[1] == i:
                if r is not None:
                    return None
                r = kk[2]
        if r is None:
            return P_const(c - (1 << 64) if c >> 63 else c)
        if c:
            m = 1 << 62
            for mm, k in r[1]:
                while k % m:
                    m >>= 1
            if c >= m:
                return None
        return P_add(r, P_const(c))

    def chain_stores(self, ver, stop):
        """store offsets in a version chain back to `stop`; None if something else is found"""
        out = []
        seen = set()
        work = [ver]
        while work:
            v = work.pop()
            if v == stop or v in seen:
                continue
            seen.add(v)
            k = key(v)
            if k[0] == 'st':
                out.append((k[2], k[3]))
                work.append(k[1])
            elif k[0] == 'cpy' and const_of(as_P(k[3])) is not None:
                out.append((k[2], const_of(as_P(k[3]))))
                work.append(k[1])
            elif k[0] == 'ite':
                work += [k[2], k[3]]
            else:
                return None
        return out

    def load_end(self, base, off, ty, size, k, depth):
        """read after a loop: ('end', lname, base, prev, final, kid)"""
        _, lname, b, prev, final = k
        li = self.loopinfo.get(lname)
        if li is None or depth > 30:
            return None
        stop = A(('loop', lname, base))
        sts = self.chain_stores(final, stop)
        if sts is None:
            return None
        kid = A(('k', lname))
        # untouched by every iteration?
        if li.trip is not None:
            self.facts.append(P_sub(P_sub(li.trip, ONE), P_atom(('k', lname))))
        try:
            if all(self.disjoint(off, size, so, n) for so, n in sts):
                return ('goto', prev)
        finally:
            if li.trip is not None:
                self.facts.pop()
        if li.trip is None or li.breaks:
            return None
        cand = None
        for so, n in sts:
            co = {m: c for m, c in so[1]}
            s = co.get((kid,))
            if s is None or any(kid in m and m != (kid,) for m in co):
                return None
            a = P_sub(so, P_scale(P_atom(('k', lname)), s))
            d = P_sub(off, a)
            if d is None:
                continue
            if all(c % s == 0 for _, c in d[1]):
                kk = ('P', tuple((m, c // s) for m, c in d[1]))
                kk = _pnorm(kk)
                if self.ge0(kk) is True and self.ge0(P_sub(P_sub(li.trip, ONE), kk)) is True:
                    # other stores of other iterations must not clobber: same stride, distinct residue or identical
                    if all(({m: c for m, c in so2[1]}.get((kid,)) == s) and abs(s) >= n2 for so2, n2 in sts):
                        cand = kk
                        break
        if cand is None:
            return None
        off_it = self.rebuild(off, {})  # off unaffected
        # value at the end of iteration `cand`
        offk = None
        for so, n in sts:
            if P_subst(so, {kid: cand}) == off:
                offk = so
                break
        if offk is None:
            return None
        v = self.load(base, offk, ty, final, depth + 1)
        if self.cfg.opaque_inst and v[0] == 'Ptr' and v[1][0] == 'new' and v[1][1].startswith(lname + '/'):
            return None              # one of the objects the iterations allocated: named by the cell that holds it
        return ('val', self.rebuild(v, {('k', lname): cand}))

    # ------------------------------------------------------------ deep substitution
    def lsb(self, kv):
        r = F0
        for a, c in kv[1]:
            kk = key(a)
            if kk in self.cfg.lsb1:
                x = F1
            elif kk[0] == 'cblk':
                x = F1 if kk[1] & 1 else F0
            elif kk[0] in ('bits', 'O', 'vec', 'vl', 'vor', 'vand', 'lin'):
                x = bits.abits(kk)[0]
                if x is None:
                    x = batom(('lsb', kk))
            else:
                x = batom(('lsb', kk))
            r = r ^ band(c, x)
        return r

    def parity(self, v):
        """least-significant bit of a value as ANF, or None when it is not a known shape"""
        if v[0] == 'B':
            return v[1]
        if v[0] == 'K':
            return self.lsb(v)
        if v[0] != 'P':
            return None
        r = F0
        for m, c in v[1]:
            if not c & 1:
                continue
            if not m:
                r ^= F1
                continue
            k = key(m[0]) if len(m) == 1 else ('?',)
            if k[0] == 'low' and k[2][0] == 'K':
                r ^= self.lsb(k[2])
            elif k[0] == 'b2i':
                r ^= k[1]
            elif k[0] == 'lane' and k[2] == 0:
                r ^= self.lsb(k[1])
            elif k[0] in ('xor', 'and', 'or') and len(k) == 3:
                x, y = self.parity(k[1]), self.parity(k[2])
                if x is None or y is None:
                    return None
                r ^= x ^ y if k[0] == 'xor' else (band(x, y) if k[0] == 'and' else bor(x, y))
            elif k[0] in ('BN_is_bit_set', 'bit'):
                r ^= bnot(self.b_eq0(P_atom(k)))
            else:
                return None
        return r

    def helper(self):
        if not hasattr(self, '_helper'):
            self._helper = Frame.__new__(Frame)
            self._helper.I = self
        return self._helper

    def as_bit(self, p):
        c = const_of(p)
        if c in (0, 1):
            return F1 if c else F0
        k = atom_of(p)
        return k[1] if k and k[0] == 'b2i' else None

    def rebuild(self, v, sub):
        """replace atoms (by key) everywhere inside v, re-normalising"""
        if not sub:
            return v
        memo = {}

        def rv(v):
            if not isinstance(v, tuple) or not v:
                return v
            r = memo.get(v)
            if r is not None:
                return r
            t = v[0]
            if t == 'P':
                r = ZERO
                for m, c in v[1]:
                    x = P_const(c)
                    for a in m:
                        x = P_mul(x, as_P(ra(a, 'P')))
                    r = P_add(r, x)
                # a lone atom may have become a boolean/other value
                a1 = atom_of(v)
                if a1 is not None:
                    y = ra(A(a1), 'P')
                    if y[0] != 'P':
                        r = y
            elif t == 'B':
                r = B(rb(v[1]))
            elif t == 'K':
                r = KZERO
                for a, c in v[1]:
                    r = K_xor(r, K_scale(rb(c), ra(a, 'K')))
            elif t == 'Ptr':
                b = v[1]
                if b in sub:
                    nb = sub[b]
                else:
                    nb = rk(b)
                r = Ptr(nb, as_P(rv(v[2]))) if not (isinstance(nb, tuple) and nb and nb[0] == 'Ptr') else Ptr(nb[1], P_add(nb[2], as_P(rv(v[2]))))
            elif t == 'O' and v[1] == 'ite':
                r = self.ite(rb(v[2]), rv(v[3]), rv(v[4]))
            else:
                r = rk(v)
            memo[v] = r
            return r

        def rb(f):
            if f in (F0, F1):
                return f
            r = memo.get(f)
            if r is not None:
                return r
            r = F0
            for m in f:
                t = F1
                for a in m:
                    x = ra(a, 'B')
                    t = band(t, x[1] if x[0] == 'B' else bnot(self.b_eq0(as_P(x))))
                r = r ^ t
            memo[f] = r
            return r

        def rk(k):
            return tuple(rx(x) for x in k)

        def rx(x):
            if isinstance(x, tuple):
                if x and x[0] in ('P', 'B', 'K', 'Ptr', 'O'):
                    return rv(x)
                return rk(x)
            if isinstance(x, frozenset):
                return rb(x)
            return x

        def ra(a, want):
            mk = ('#', a, want)
            if mk in memo:
                return memo[mk]
            k = key(a)
            if k in sub:
                r = sub[k]
            else:
                t = k[0]
                if t == 'eq0' and want == 'B':
                    r = B(self.b_eq0(as_P(rv(k[1]))))
                elif t == 'ge0' and want == 'B':
                    r = B(self.b_ge0(as_P(rv(k[1]))))
                elif t == 'ite' and want == 'P':
                    r = self.ite(rb(k[1]), rv(k[2]), rv(k[3]))
                elif t == 'b2i':
                    r = B(rb(k[1]))
                elif t == 'lsb' and want == 'B':
                    r = B(self.lsb(ra(A(k[1]), 'K')))
                elif t == 'low1' and want == 'B':
                    pa = rv(k[1])
                    x = self.parity(pa)
                    r = B(x if x is not None else batom(('low1', pa)))
                elif t == 'lin' and want == 'K':
                    x = rv(k[3])
                    r = self.klin(k[1], k[2], x) if x[0] == 'K' else K_atom(('lin', k[1], k[2], x))
                elif t == 'vl' and want == 'K':
                    r = self.klane(k[1], as_P(rv(k[2])))
                elif t == 'xel' and want == 'P':
                    r = self.helper().extract(rv(k[1]), k[2], 'i16')
                elif t in ('xor', 'and', 'or') and want == 'P' and len(k) == 3:
                    x, y = rv(k[1]), rv(k[2])
                    r = P_atom(k) if (x, y) == (k[1], k[2]) or x[0] not in ('P', 'B') or y[0] not in ('P', 'B') else self.helper().binop(t, x, y, 'i64')
                elif t == 'low':
                    x = rv(k[2])
                    r = P_atom(('low', k[1], x))
                elif t == 'ld':
                    base = rk(k[1]) if k[1] not in sub else sub[k[1]]
                    off = as_P(rv(k[3]))
                    if isinstance(base, tuple) and base and base[0] == 'Ptr':
                        off = P_add(off, base[2]); base = base[1]
                    nv = rver(k[2])
                    ty = {'K': '<2 x i64>', 'B': 'i1'}.get(want, 'i%d' % (8 * k[4]))
                    nk = ('ld', base, nv, off, k[4])
                    r = None
                    if nk != k:
                        if nv != k[2] or base != k[1] or True:
                            r = self.load(base, off, ty, nv)
                    if r is None:
                        r = self.typed(nk, ty)
                else:
                    nk = rk(k)
                    if nk == k:
                        r = ('P', (((a,), 1),)) if want == 'P' else (('K', ((a, F1),)) if want == 'K' else B(frozenset([frozenset([a])])))
                    else:
                        r = P_atom(nk) if want == 'P' else (K_atom(nk) if want == 'K' else B(batom(nk)))
            memo[mk] = r
            return r

        def rver(v):
            mk = ('v', v)
            if mk in memo:
                return memo[mk]
            memo[mk] = v
            k = key(v)
            if k in sub:
                r = sub[k]
            elif k[0] in ('st', 'ite', 'cpy', 'set'):
                nk = []
                for i, x in enumerate(k):
                    if (k[0] == 'st' and i == 1) or (k[0] == 'ite' and i in (2, 3)) or (k[0] in ('cpy', 'set') and i == 1) or (k[0] == 'cpy' and i == 5):
                        nk.append(rver(x))
                    elif i == 0:
                        nk.append(x)
                    else:
                        nk.append(rx(x))
                r = A(tuple(nk))
            else:
                r = v
            memo[mk] = r
            return r
        return rv(v)

    # ------------------------------------------------------------ CFG
    def info(self, f):
        nm = f['mangled']
        fi = self.fninfo.get(nm)
        if fi is None:
            fi = FnInfo(f)
            self.fninfo[nm] = fi
        return fi

    # ------------------------------------------------------------ running a function
    def run(self, f, args=None, mem=None, tag=None):
        self.stats['functions'] += 1
        self.stats['blocks'] += len(f['blocks'])
        self.stats['instructions'] += sum(len(b) for b in f['blocks'])
        fr = Frame(self, f, tag or f['dem'])
        for i, a in enumerate(f['args']):
            if args is not None and i < len(args) and args[i] is not None:
                fr.env[a['id']] = args[i]
            else:
                fr.env[a['id']] = self.typed(('arg', i), a['ty'])
        st = dict(mem or {})
        self.events = []
        fr.exec_top(st)
        return fr


def _pnorm(v):
    d = {}
    for m, c in v[1]:
        d[m] = d.get(m, 0) + c
    return ('P', tuple(sorted((m, c) for m, c in d.items() if c)))


class FnInfo:
    def __init__(self, f):
        self.f = f
        B_ = f['blocks']
        n = len(B_)
        self.succ = []
        for b in B_:
            t = b[-1]
            op = t['op']
            if op == 'br':
                s = list(dict.fromkeys(t['succ']))
            elif op == 'switch':
                s = list(dict.fromkeys([t['default']] + [c[1] for c in t['cases']]))
            elif op == 'invoke':
                s = [t['normal']]
            else:
                s = []
            self.succ.append(s)
        # reachable, RPO
        seen = set(); post = []
        stack = [(0, iter(self.succ[0]))]; seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        self.rpo = post[::-1]
        self.reach = seen
        self.rpon = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                nd = ps[0]
                for p in ps[1:]:
                    x, y = p, nd
                    while x != y:
                        while self.rpon[x] > self.rpon[y]:
                            x = idom[x]
                        while self.rpon[y] > self.rpon[x]:
                            y = idom[y]
                    nd = x
                if idom.get(b) != nd:
                    idom[b] = nd
                    ch = True
        self.idom = idom
        # loops
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work += self.pred[x]
        self.hdrs = sorted(self.loops, key=lambda h: (len(self.loops[h])))
        self.defblock = {}
        for i, b in enumerate(B_):
            for ins in b:
                self.defblock[ins['id']] = i
        self.fail = {}

    def dom(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    def parent_loop(self, hdr):
        best = None
        for h, body in self.loops.items():
            if h != hdr and hdr in body and (best is None or len(body) < len(self.loops[best])):
                best = h
        return best

    def innermost(self, b):
        best = None
        for h, body in self.loops.items():
            if b in body and (best is None or len(body) < len(self.loops[best])):
                best = h
        return best

    # does edge (a->b) inevitably end in `ret FAILURE`?  (constant propagation along the edge only)
    def failing(self, a, b):
        k = (a, b)
        if k in self.fail:
            return self.fail[k]
        self.fail[k] = False
        r = self._walk(a, b, {}, 0, set())
        self.fail[k] = r
        return r

    def _walk(self, a, b, env, depth, seen):
        if depth > 40 or (a, b) in seen:
            return False
        seen = seen | {(a, b)}
        env = dict(env)
        blk = self.f['blocks'][b]

        def val(o):
            if o[0] == 'i':
                return int(o[1])
            if o[0] == 'v':
                return env.get(o[1])
            return None
        newphi = {}
        for ins in blk:
            if ins['op'] == 'phi':
                for p, o in ins['in']:
                    if p == a:
                        newphi[ins['id']] = val(o)
                continue
            if newphi:
                env.update(newphi); newphi = {}
            op = ins['op']
            if op == 'icmp':
                x, y = val(ins['args'][0]), val(ins['args'][1])
                if x is not None and y is not None:
                    if ins['pred'] == 'eq':
                        env[ins['id']] = int(x == y)
                    elif ins['pred'] == 'ne':
                        env[ins['id']] = int(x != y)
                    elif ins['pred'] == 'slt':
                        env[ins['id']] = int(x < y)
            elif op == 'select':
                c = val(ins['args'][0])
                if c is not None:
                    env[ins['id']] = val(ins['args'][1 if c & 1 else 2])
            elif op == 'zext':
                env[ins['id']] = val(ins['args'][0])
            elif op == 'xor':
                x, y = val(ins['args'][0]), val(ins['args'][1])
                if x is not None and y is not None:
                    env[ins['id']] = x ^ y
            elif op == 'ret':
                if not ins['args'] or self.f['ret'] != 'i32':
                    return False
                return val(ins['args'][0]) == FAILURE
            elif op == 'unreachable':
                return True
            elif op == 'br':
                if len(ins['succ']) == 1 or not ins.get('args'):
                    return self._walk(b, ins['succ'][0], env, depth + 1, seen)
                c = val(ins['args'][0])
                if c is not None:
                    return self._walk(b, ins['succ'][0 if c & 1 else 1], env, depth + 1, seen)
                return all(self._walk(b, s, env, depth + 1, seen) for s in ins['succ'])
            elif op == 'switch':
                c = val(ins['args'][0])
                if c is not None:
                    d = ins['default']
                    for cv, dst in ins['cases']:
                        if cv == c:
                            d = dst
                    return self._walk(b, d, env, depth + 1, seen)
                return all(self._walk(b, s, env, depth + 1, seen) for s in self.succ[b])
            elif op == 'invoke':
                return self._walk(b, ins['normal'], env, depth + 1, seen)
        if newphi:
            env.update(newphi)
        return False


class Frame:
    """one activation (functions are inlined by irdump, so one frame per analysed root)"""

    def __init__(self, I, f, tag):
        self.I = I; self.f = f; self.tag = tag
        self.fi = I.info(f)
        self.env = {}
        self.events = []
        self.rets = []
        self.ret = None
        self.mem_at_ret = None
        self.callctr = {}
        self.failed_guards = []
        self.hdrtrip = {}

    # ---- operands
    def val(self, o):
        t = o[0]
        if t == 'v':
            v = self.env.get(o[1])
            if v is None:
                return UNDEF
            return v
        if t == 'i':
            n = int(o[1])
            if o[2] == 1:
                return TRUE if n & 1 else FALSE
            return P_const(n)
        if t == 'null':
            return NULL
        if t == 'g':
            return Ptr(('g', o[1]), P_const(o[2]))
        if t == 'f':
            return Ptr(('fn', o[1]), ZERO)
        if t == 'undef':
            return UNDEF
        if t == 'zero':
            return KZERO if o[1] == '<2 x i64>' else ZERO if o[2] <= 8 else O('zero', o[1])
        if t == 'agg':
            if o[1] == '<2 x i64>' and len(o[2]) == 2 and all(x[0] == 'i' for x in o[2]):
                v = (int(o[2][0][1]) & (2**64 - 1)) | ((int(o[2][1][1]) & (2**64 - 1)) << 64)
                return Interp.kconst(v)
            return O('cagg', o[1], tuple(tuple(x) for x in o[2] if not isinstance(x[-1], list)))
        if t == 'fp':
            return ('fp', o[1])
        return O('const', str(o))

    def site(self, ins):
        d = ins.get('dbg')
        if not d:
            return '%s:?' % self.f.get('file')
        return '%s:%d (%s)' % (d[0][0], d[0][1], d[0][2] if len(d) == 1 else d[0][2] + ' in ' + d[-1][2])

    def uid(self, what):
        c = self.callctr.get((self.prefix, what), 0)
        self.callctr[(self.prefix, what)] = c + 1
        return '%s/%s%d' % (self.prefix, what, c)

    # ---- regions
    def exec_top(self, mem):
        self.prefix = self.tag
        self.loopstack = []
        blocks = set(self.fi.reach)
        self.evstack = [self.events]
        self.written = set()
        self.exec_region(blocks, 0, None, mem, None)
        if self.rets:
            total = F0
            v = None; m = None
            for g, x, mm in self.rets:
                if v is None:
                    v, m = x, mm
                else:
                    v = self.I.ite(g, x, v) if x is not None else v
                    m = self.merge_mem([(g, mm), (bnot(g), m)])
            self.ret = v
            self.mem_at_ret = m

    def merge_mem(self, lst):
        lst = [(c, m) for c, m in lst if c != F0]
        if not lst:
            return {}
        res = dict(lst[-1][1])
        for c, m in reversed(lst[:-1]):
            if m is res:
                continue
            out = {}
            for b in set(m) | set(res):
                v1 = self.I.ver(m, b); v2 = self.I.ver(res, b)
                if v1 == v2:
                    out[b] = v1
                elif c == F1:
                    out[b] = v1
                else:
                    out[b] = A(('ite', c, v1, v2))
            res = out
        return res

    def exec_region(self, blocks, entry, hdr, mem, loopname):
        """execute the acyclic region; inner loops are collapsed. returns (latch edges, exit edges)"""
        I, fi = self.I, self.fi
        inner = {}
        rep = {}
        for h, body in fi.loops.items():
            if h != hdr and h in blocks and fi.parent_loop(h) == hdr:
                inner[h] = body
                for b in body:
                    rep[b] = h
        nodes = []
        for b in fi.rpo:
            if b in blocks and rep.get(b, b) == b:
                nodes.append(b)
        # collapsed topological order: RPO is fine for reducible graphs, but loop exits may precede in RPO; redo
        nodeset = set(nodes)
        csucc = {}
        for n in nodes:
            s = []
            src = inner[n] if n in inner else [n]
            for b in src:
                for t in fi.succ[b]:
                    if t in blocks and not (n in inner and t in inner[n]):
                        t2 = rep.get(t, t)
                        if t2 != entry and t2 != n:
                            s.append(t2)
            csucc[n] = s
        order = []; seen = set()

        def dfs(x):
            seen.add(x)
            st = [(x, iter(csucc[x]))]
            while st:
                y, it = st[-1]
                for z in it:
                    if z not in seen and z in nodeset:
                        seen.add(z)
                        st.append((z, iter(csucc[z])))
                        break
                else:
                    order.append(y)
                    st.pop()
        e = rep.get(entry, entry)
        dfs(e)
        order = order[::-1]
        in_edges = {n: [] for n in order}      # (pred node, pred block, target block, cond(rel to pred node), mem)
        rel = {e: F1}
        cidom = {e: None}
        latch = []; exits = []
        for n in order:
            if n == e:
                m = mem
            else:
                edges = [x for x in in_edges[n] if x[3] != F0]
                if not edges:
                    continue
                # idom in the collapsed graph
                d = edges[0][0]
                depth = lambda x: self._depth(cidom, x)
                for x in edges[1:]:
                    a, b = x[0], d
                    while a != b:
                        if depth(a) >= depth(b):
                            a = cidom[a]
                        else:
                            b = cidom[b]
                    d = a
                cidom[n] = d

                def relto(p):
                    r = F1
                    while p != d:
                        r = band(r, rel[p])
                        p = cidom[p]
                    return r
                conds = [band(relto(x[0]), x[3]) for x in edges]
                tot = F0
                for c in conds:
                    tot = tot ^ c          # edges are mutually exclusive
                rel[n] = tot
                if tot == F0:
                    continue
                m = self.merge_mem([(c, x[4]) for c, x in zip(conds, edges)]) if len(edges) > 1 else edges[0][4]
                # phis
                blk = self.f['blocks'][n]
                if n not in inner:
                    new = {}
                    for ins in blk:
                        if ins['op'] != 'phi':
                            break
                        inc = {p: o for p, o in ins['in']}
                        v = None
                        for c, x in reversed(list(zip(conds, edges))):
                            xv = self.val(inc[x[1]])
                            v = xv if v is None else I.ite(c, xv, v)
                        new[ins['id']] = v
                    self.env.update(new)
            # guard of n relative to region entry
            g = F1; p = n
            while p is not None:
                g = band(g, rel[p]); p = cidom[p]
            self.curguard = g
            if n in inner:
                pin = None
                outs = self.exec_loop(n, inner[n], m, [x for x in in_edges[n]] if n != e else None, g,
                                      conds if n != e else None, [x for x in edges] if n != e else None)
                for (src, dst, cond, mm) in outs:
                    self._edge(n, src, dst, cond, mm, blocks, rep, entry, in_edges, latch, exits, g)
            else:
                mm = dict(m)
                outs = self.exec_block(n, mm, g)
                for (dst, cond) in outs:
                    self._edge(n, n, dst, cond, mm, blocks, rep, entry, in_edges, latch, exits, g)
        return latch, exits

    @staticmethod
    def _depth(cidom, x):
        d = 0
        while cidom[x] is not None:
            x = cidom[x]; d += 1
        return d

    def _edge(self, n, src, dst, cond, mm, blocks, rep, entry, in_edges, latch, exits, g):
        if cond == F0:
            return
        if dst == entry:
            latch.append((src, band(g, cond), mm))
        elif dst not in blocks:
            exits.append((src, dst, band(g, cond), mm))
        else:
            in_edges[rep.get(dst, dst)].append((n, src, dst, cond, mm))

    # ---- loops
    def exec_loop(self, hdr, body, mem, in_edges, guard, conds, edges):
        I, fi = self.I, self.fi
        I.stats['loops'] += 1
        blk = self.f['blocks'][hdr]
        phis = [ins for ins in blk if ins['op'] == 'phi']
        # start values
        start = {}
        for ins in phis:
            inc = {p: o for p, o in ins['in']}
            v = None
            for c, x in reversed(list(zip(conds, edges))):
                xv = self.val(inc[x[1]])
                v = xv if v is None else I.ite(c, xv, v)
            start[ins['id']] = v
        # try full evaluation (constant trip count)
        if I.cfg.unroll:
            r = self.try_unroll(hdr, body, mem, phis, start, guard)
            if r is not None:
                return r
        saved_prefix = self.prefix
        lname = self.uid('L')
        nfacts = len(I.facts)
        W = set()
        bind = {}
        kinds = {}
        allw = set()
        saved_events = self.evstack
        saved_written = self.written
        karr = P_atom(('k', lname))
        li = LoopInfo(); li.name = lname; li.trip = None; li.breaks = True; li.hdr = hdr
        li.at_hdr = False; li.hdr_exit = None; li.hdr = hdr
        I.loopinfo[lname] = li
        self.hdrtrip[hdr] = (li, body)
        for it in range(12):
            for i, ins in enumerate(phis):
                if ins['id'] in kinds and kinds[ins['id']][0] == 'inv':
                    bind[ins['id']] = start[ins['id']]
                elif ins['id'] in kinds and kinds[ins['id']][0] == 'aff':
                    s = kinds[ins['id']][1]
                    st = start[ins['id']]
                    if st[0] == 'Ptr':
                        bind[ins['id']] = Ptr(st[1], P_add(st[2], P_mul(karr, s)))
                    else:
                        bind[ins['id']] = P_add(as_P(st), P_mul(karr, s))
                elif I.cfg.walking and ins['ty'] == 'ptr' and start[ins['id']] and start[ins['id']][0] == 'Ptr' and self.walks(ins, body):
                    bind[ins['id']] = Ptr(start[ins['id']][1], P_atom(('phi', lname, i)))
                else:
                    bind[ins['id']] = I.typed(('phi', lname, i), ins['ty'])
            self.env.update(bind)
            del I.facts[nfacts:]
            if li.trip is not None:
                I.facts.append(P_sub(P_sub(li.trip, ONE), karr))
            m0 = dict(mem)
            for o in W:
                m0[o] = A(('loop', lname, o))
            ev = []
            self.evstack = saved_events + [ev]
            self.written = set()
            self.prefix = lname
            self.callctr = {k: v for k, v in self.callctr.items() if not (k[0] == lname or k[0].startswith(lname + '/'))}
            latch, exits = self.exec_region(body, hdr, hdr, m0, lname)
            # drop failing exits
            okex = [x for x in exits]
            W2 = set(W)
            for (src_, c_, mm_) in latch:
                for o in mm_:
                    if o not in W2 and mm_[o] != m0.get(o, I.v0(o)) and o in self.written:
                        W2.add(o)
            allw = allw | self.written
            # phi kinds
            nk = {}
            lats = [x for x in latch]
            for ins in phis:
                inc = {p: o for p, o in ins['in']}
                v = None
                for (src, c, mm) in reversed(lats):
                    xv = self.under(c, self.val(inc[src]))
                    v = xv if v is None else I.ite(c, xv, v)
                cur = bind[ins['id']]
                ins_kind = ('opq', v)
                if v is not None:
                    if v == cur:
                        ins_kind = ('inv',) if ins['id'] not in kinds or kinds[ins['id']][0] != 'aff' else kinds[ins['id']]
                    elif cur[0] == 'Ptr' and v[0] == 'Ptr' and cur[1] == v[1]:
                        s = P_sub(v[2], cur[2])
                        if self.invariant(s, lname):
                            ins_kind = ('aff', s)
                    elif cur[0] in ('P',) and v[0] in ('P', 'B'):
                        s = P_sub(as_P(v), cur)
                        if self.invariant(s, lname):
                            ins_kind = ('aff', s)
                nk[ins['id']] = ins_kind
            # trip count from the header (or single) exit
            cond_exits = [(s, d, c, mm) for (s, d, c, mm) in okex]
            trip = None; breaks = True
            if li.at_hdr and li.trip is not None:
                trip = li.trip
                breaks = len(cond_exits) > 0
                okex = [(li.hdr_exit[0], li.hdr_exit[1], F1, li.hdr_exit[2])] + okex
                cond_exits = okex
            elif len(cond_exits) >= 1:
                hx = [x for x in cond_exits if x[0] == hdr]
                if len(hx) == 1:
                    trip = self.trip_of(bnot(hx[0][2]), lname)
                    li.at_hdr = trip is not None
                    breaks = len(cond_exits) > 1
                elif len(cond_exits) == 1 and not hx:
                    # bottom-test loop: exit at latch
                    t = self.trip_of(bnot(cond_exits[0][2]), lname)
                    if t is not None and cond_exits[0][0] in [x[0] for x in lats]:
                        trip = P_add(t, ONE)
                    breaks = False
            stable = (W2 == W and all(nk[i][0] == kinds.get(i, (None,))[0] and (nk[i][0] != 'aff' or nk[i] == kinds[i]) for i in nk) and trip == li.trip)
            W = W2
            kinds = nk
            li.trip = trip; li.breaks = breaks
            li.cond = [(s, d, c) for (s, d, c, mm) in cond_exits]
            if stable:
                break
        else:
            pass
        del I.facts[nfacts:]
        self.hdrtrip.pop(hdr, None)
        self.prefix = saved_prefix
        self.evstack = saved_events
        self.written = saved_written | W | allw
        li.W = W
        li.phis = {i: (start[ins['id']], nk[ins['id']]) for i, ins in enumerate(phis)}
        li.phity = {i: ins['ty'] for i, ins in enumerate(phis)}
        li.start = start
        # body-final memory
        fin = self.merge_mem([(c, mm) for (s, c, mm) in lats]) if lats else {}
        li.final = fin
        li.entry = dict(mem)
        endmem = dict(mem)
        for o in W:
            endmem[o] = A(('end', lname, o, I.ver(mem, o), I.ver(fin, o)))
        # iteration-local bases need no end state
        e = Event('loop', lname, [], guard, self.site(blk[-1]) if blk[-1].get('dbg') else self.site(self.first_dbg(hdr)), body=ev, info=li)
        e.mem = mem
        saved_events[-1].append(e)
        # SSA values leaving the loop
        single = (li.trip is not None and not li.breaks)
        cnt = 0
        for i, ins in enumerate(phis):
            kd = nk[ins['id']]
            if single and kd[0] == 'aff' and okex and okex[0][0] == hdr:
                st = start[ins['id']]
                if st[0] == 'Ptr':
                    self.env[ins['id']] = Ptr(st[1], P_add(st[2], P_mul(li.trip, kd[1])))
                else:
                    self.env[ins['id']] = P_add(as_P(st), P_mul(li.trip, kd[1]))
            elif kd[0] == 'inv':
                self.env[ins['id']] = start[ins['id']]
            elif bind[ins['id']][0] == 'Ptr' and bind[ins['id']][2] == P_atom(('phi', lname, i)):
                self.env[ins['id']] = Ptr(bind[ins['id']][1], P_atom(('phiout', lname, i)))
            else:
                self.env[ins['id']] = I.typed(('phiout', lname, i), ins['ty'])
        cbreak = F0
        for (s_, d_, c_, m_) in okex:
            if s_ != hdr:
                cbreak = bor(cbreak, c_)
        li.outs = {}
        for b in body:
            for ins in self.f['blocks'][b]:
                if ins['op'] == 'phi' and b == hdr:
                    continue
                v = self.env.get(ins['id'])
                if b != hdr and v is not None and cbreak != F0 and ins['ty'] != 'void' and ins['op'] != 'alloca':
                    v = self.env[ins['id']] = self.under(cbreak, v)
                li.outs[cnt] = v
                if v is not None and ins['ty'] != 'void' and ins['op'] != 'alloca' and not self.invariant(v, lname):
                    if single and b == hdr and ins['op'] not in ('call', 'invoke', 'load'):
                        w = I.rebuild(v, {('k', lname): li.trip})
                        if self.invariant(w, lname):
                            self.env[ins['id']] = w
                            continue
                    self.env[ins['id']] = I.typed(('out', lname, cnt), ins['ty'])
                cnt += 1
        # exit edges
        outs = []
        n = len(okex)
        # a break keeps the state of its (last) iteration: k and the loop versions then mean that iteration
        def xmem(s_, mm_):
            if s_ == hdr or li.trip is None or not li.at_hdr:
                return endmem
            r_ = dict(mem)
            for o in (W | allw):
                r_[o] = mm_.get(o, I.v0(o))
            return r_
        if n == 1:
            outs.append((okex[0][0], okex[0][1], F1, xmem(okex[0][0], okex[0][3])))
        else:
            # distinct targets?
            bydst = {}
            emems = {}
            for (s, d, c, mm) in okex:
                bydst.setdefault((s, d), []).append(c)
                emems[(s, d)] = xmem(s, mm)
            ks = list(bydst)
            rest = F1
            for i, (s, d) in enumerate(ks):
                if i == len(ks) - 1:
                    c = rest
                else:
                    c = band(rest, batom(('exit', lname, i)))
                    rest = rest ^ c
                outs.append((s, d, c, emems[(s, d)]))
            li.exitkeys = ks
        return outs

    def under(self, c, v):
        """simplify v under the assumption that c holds"""
        if c in (F0, F1) or v is None or v == UNDEF:
            return v
        t = v[0]
        if t == 'P' and is_const(v):
            return v

        def truth(g):
            x = band(c, g)
            if x == F0:
                return False
            if x == c:
                return True
            return None
        try:
            if t == 'B':
                r = truth(v[1])
                return v if r is None else (TRUE if r else FALSE)
            if t == 'P':
                sub = {}
                for a in P_atoms(v):
                    k = key(a)
                    if k[0] == 'ite':
                        r = truth(k[1])
                        if r is not None:
                            sub[a] = as_P(self.under(c, k[2] if r else k[3]))
                        else:
                            x = self.under(band(c, k[1]), k[2]); y = self.under(band(c, bnot(k[1])), k[3])
                            if (x, y) != (k[2], k[3]):
                                sub[a] = as_P(self.I.ite(k[1], x, y))
                    elif k[0] == 'b2i':
                        r = truth(k[1])
                        if r is not None:
                            sub[a] = ONE if r else ZERO
                return P_subst(v, sub) if sub else v
            if t == 'K':
                return K({a: (F1 if truth(x) else F0) if truth(x) is not None else x for a, x in v[1]})
            if t == 'Ptr' and v[1][0] == 'pite':
                r = truth(v[1][1])
                if r is not None:
                    x = v[1][2 if r else 3]
                    return self.under(c, Ptr(x[1], P_add(x[2], v[2])))
            if t == 'O' and v[1] == 'ite':
                r = truth(v[2])
                if r is not None:
                    return self.under(c, v[3 if r else 4])
        except OverflowError:
            pass
        return v

    def first_dbg(self, b):
        for ins in self.f['blocks'][b]:
            if ins.get('dbg'):
                return ins
        return self.f['blocks'][b][-1]

    def invariant(self, v, lname, memo=None):
        """v does not depend on the loop's iteration"""
        cache = self.__dict__.setdefault('_invc', {})
        mk = (v, lname)
        if mk in cache:
            return cache[mk]

        def inv(x):
            if isinstance(x, int):
                return True
            if isinstance(x, str):
                return x != lname and not x.startswith(lname + '/')
            if isinstance(x, frozenset):
                return all(inva(a) for m in x for a in m)
            if isinstance(x, tuple):
                if x and x[0] == 'P':
                    return all(inva(a) for a in P_atoms(x))
                if x and x[0] == 'K':
                    return all(inva(a) and inv(c) for a, c in x[1])
                if x and x[0] == 'ld':
                    return inv(x[1]) and invver(x[2]) and inv(x[3])
                return all(inv(y) for y in x)
            return True
        seen = {}

        def inva(a):
            if a in seen:
                return seen[a]
            seen[a] = True
            seen[a] = inv(key(a))
            return seen[a]

        def invver(v):
            kk = ('v', v)
            if kk in seen:
                return seen[kk]
            seen[kk] = True
            k = key(v)
            if k[0] in ('st',):
                r = invver(k[1]) and inv(k[2]) and inv(k[4])
            elif k[0] == 'ite':
                r = inv(k[1]) and invver(k[2]) and invver(k[3])
            elif k[0] == 'cpy':
                r = invver(k[1]) and inv(k[2]) and inv(k[3]) and inv(k[4]) and invver(k[5]) and inv(k[6])
            elif k[0] == 'set':
                r = invver(k[1]) and inv(k[2]) and inv(k[3])
            elif k[0] == 'end':
                r = not (k[1] == lname or k[1].startswith(lname + '/')) and invver(k[3])
            else:
                r = inv(k)
            seen[kk] = r
            return r
        r = inv(v)
        cache[mk] = r
        return r

    def trip_of(self, cont, lname):
        """continue-condition (ANF) -> trip count P, when it has the shape  k < N  or  k != N"""
        kid = A(('k', lname))
        f = cont
        neg = False
        if len(f) == 2 and frozenset() in f:
            f = f ^ F1
            neg = True
        if len(f) != 1:
            # the bound is chosen by a condition of its own (min, max)?
            for g in sorted({a for m in f for a in m}):
                if not self.invariant(B(frozenset([frozenset([g])])), lname):
                    continue
                rest = frozenset(m for m in f if g not in m)
                t1 = self.trip_of(rest ^ frozenset(m - {g} for m in f if g in m), lname)
                t0 = self.trip_of(rest, lname) if t1 is not None else None
                if t0 is not None:
                    return as_P(self.I.ite(frozenset([frozenset([g])]), t1, t0))
            return None
        m = next(iter(f))
        if len(m) != 1:
            return None
        k = key(next(iter(m)))
        if k[0] == 'ge0':
            d = k[1]
            if neg:
                d = P_sub(P_scale(d, -1), ONE)
            c = dict(d[1]).get((kid,))
            if c is None or any(kid in mm and mm != (kid,) for mm, _ in d[1]):
                return None
            a = P_sub(d, P_scale(P_atom(('k', lname)), c))
            if c == -1:
                return P_add(a, ONE)     # a - k >= 0  -> k in [0, a]
            if c < -1:
                # a >= |c| k : trip = floor(a/|c|)+1
                s = -c
                ap = P_add(a, P_const(s))
                if all(x % s == 0 for _, x in a[1]):
                    return P_add(('P', tuple((mm, x // s) for mm, x in a[1])), ONE)
                if all(x % s == 0 for mm, x in a[1] if mm):
                    c0 = dict(a[1]).get((), 0)
                    return P_add(('P', tuple((mm, x // s) for mm, x in a[1] if mm)), P_const(c0 // s + 1))
                return P_atom(('div', ap, s))
            return None
        if k[0] == 'ptreq' and neg:
            # iterator loop: begin + c*k against a fixed end of another base
            for p, q in ((k[1], k[2]), (k[2], k[1])):
                c = dict(p[2][1]).get((kid,))
                b = Ptr(p[1], P_sub(p[2], P_scale(P_atom(('k', lname)), c or 0)))
                if c and c > 0 and not any(kid in mm for mm, _ in b[2][1]) and not any(kid in mm for mm, _ in q[2][1]) and not contains_key(q[1], ('k', lname)):
                    return P_atom(('plen', q, b, c))
        if k[0] == 'eq0' and neg:
            d = k[1]
            c = dict(d[1]).get((kid,))
            if c in (1, -1):
                a = P_sub(d, P_scale(P_atom(('k', lname)), c))
                return P_scale(a, -1) if c == 1 else a
            if c and all(x % c == 0 for _, x in d[1]) and not any(kid in mm and mm != (kid,) for mm, _ in d[1]):
                a = P_sub(d, P_scale(P_atom(('k', lname)), c))
                return ('P', tuple((mm, x // -c) for mm, x in a[1]))
        return None

    def try_unroll(self, hdr, body, mem, phis, start, guard):
        """constant propagation through a loop whose exit test folds to a constant each time"""
        I = self.I
        # cheap pre-check: some phi starts constant and the header/latch test is an icmp with constants
        if not any(start[i['id']] is not None and (start[i['id']][0] == 'P' and const_of(start[i['id']]) is not None or start[i['id']][0] == 'Ptr' and start[i['id']][1][0] == 'alloca') for i in phis):
            return None
        if not self._unrollable(hdr, body, start):
            return None
        env0 = dict(self.env)
        ctr0 = dict(self.callctr)
        ev0 = len(self.evstack[-1])
        w0 = set(self.written)
        prefix0 = self.prefix
        cur = dict(start)
        m = dict(mem)
        outs_all = []
        going = F1
        if I.cfg.unroll_breaks and self._escapes(body):
            return None
        saved_guard = self.curguard
        u = self.uid('u')
        r = None
        for n in range(I.cfg.unroll + 1):
            self.env.update(cur)
            self.prefix = u + '.%d' % n
            ev1 = len(self.evstack[-1])
            latch, exits = self.exec_region(body, hdr, hdr, m, None)
            if I.cfg.unroll_breaks:
                for e in self.evstack[-1][ev1:]:
                    e.guard = band(going, e.guard)
                outs_all += [(s_, d_, band(going, c_), mm_) for s_, d_, c_, mm_ in exits]
                if not latch:
                    r = outs_all or None
                    break
                lc = F0
                for (s_, c_, mm_) in latch:
                    lc = bor(lc, c_)
                going = band(going, lc)
                exits = []
            if exits and latch:
                break        # not a constant decision
            if exits:
                if len(exits) == 1:
                    r = [(exits[0][0], exits[0][1], F1, exits[0][3])]
                break
            if not latch:
                break
            new = {}
            for ins in phis:
                inc = {p: o for p, o in ins['in']}
                v = None
                for (src, c, mm) in reversed(latch):
                    xv = self.val(inc[src])
                    v = xv if v is None else I.ite(c, xv, v)
                new[ins['id']] = v
            cur = new
            m = self.merge_mem([(c, mm) for (s, c, mm) in latch])
        self.prefix = prefix0
        self.curguard = saved_guard
        if r is None:
            self.env = env0
            self.callctr = ctr0
            del self.evstack[-1][ev0:]
            self.written = w0
            return None
        # guards of the events emitted in the body are relative to the body: conjoin
        for e in self.evstack[-1][ev0:]:
            e.guard = band(guard, e.guard)
        return r

    def walks(self, phi, body):
        """the pointer moves within the object it starts in: every round adds to it"""
        seen = set()

        def back(o):
            if o[0] != 'v':
                return False
            if o[1] == phi['id'] or o[1] in seen:
                return True
            seen.add(o[1])
            x = self._find(o[1])
            if x is None:
                return False
            if x['op'] == 'getelementptr':
                return back(x['base'])
            if x['op'] == 'select':
                return all(back(a) for a in x['args'][1:])
            if x['op'] == 'phi':
                return all(back(a) for p, a in x['in'])
            return False
        return all(back(o) for p, o in phi['in'] if p in body)

    def _escapes(self, body):
        """some value defined in the loop is used outside it"""
        inside = {ins['id'] for b in body for ins in self.f['blocks'][b] if 'id' in ins}

        def uses(x):
            if isinstance(x, list):
                if len(x) == 2 and x[0] == 'v':
                    return x[1] in inside
                return any(uses(y) for y in x)
            return False
        return any(uses(v) for b, blk in enumerate(self.f['blocks']) if b not in body for ins in blk for k, v in ins.items() if isinstance(v, list) and k != 'dbg')

    def _is_counter(self, i, start, depth=3):
        if i in start:
            return True
        x = self._find(i)
        return depth > 0 and x is not None and x['op'] in ('zext', 'sext', 'trunc', 'freeze', 'add') and any(a[0] == 'v' and self._is_counter(a[1], start, depth - 1) for a in x['args'])

    def _unrollable(self, hdr, body, start):
        """single exit test comparing an affine const-start phi with a constant, <= unroll"""
        fi = self.fi
        for b in body:
            t = self.f['blocks'][b][-1]
            if t['op'] == 'br' and t.get('args') and any(s not in body for s in t['succ']):
                c = t['args'][0]
                if c[0] != 'v':
                    return False
                ins = self._find(c[1])
                if I_BREAKS(self.I.cfg) and (ins is None or ins['op'] != 'icmp' or not any(a[0] == 'i' for a in ins['args']) or not any(a[0] == 'v' and self._is_counter(a[1], start) for a in ins['args'])):
                    continue
                if ins is None or ins['op'] != 'icmp':
                    return False
                for a in ins['args']:
                    # a pointer walking over a local array
                    if a[0] == 'v' and self.fi.defblock.get(a[1]) not in body:
                        e = self.val(a)
                        if e[0] == 'Ptr' and e[1][0] == 'alloca' and const_of(e[2]) is not None:
                            for v in start.values():
                                if v is not None and v[0] == 'Ptr' and v[1] == e[1] and const_of(v[2]) is not None and abs(const_of(e[2]) - const_of(v[2])) <= self.I.cfg.unroll * 16:
                                    return True
                ks = [int(a[1]) for a in ins['args'] if a[0] == 'i']
                vs = [const_of(self.val(a)) if a[0] == 'v' and self.val(a)[0] == 'P' and self.fi.defblock.get(a[1]) not in body else None for a in ins['args']]
                ks += [v for v in vs if v is not None]
                if len(ks) != 1:
                    return False
                st = [const_of(v) for v in start.values() if v is not None and v[0] == 'P' and const_of(v) is not None]
                if not any(abs(ks[0] - s) <= self.I.cfg.unroll * 16 for s in st):
                    return False
                return True
        return False

    def _find(self, i):
        b = self.fi.defblock.get(i)
        if b is None:
            return None
        for ins in self.f['blocks'][b]:
            if ins.get('id') == i:
                return ins
        return None

    # ---- blocks
    def emit(self, e):
        self.evstack[-1].append(e)

    def exec_block(self, b, mem, guard):
        I, fi = self.I, self.fi
        I._curmem = mem
        blk = self.f['blocks'][b]
        for ins in blk:
            op = ins['op']
            if op == 'phi':
                continue
            if op == 'br':
                if not ins.get('args'):
                    return [(ins['succ'][0], F1)]
                t, f = ins['succ']
                if t == f:
                    return [(t, F1)]
                if I.cfg.fail_edges:
                    ft, ff = fi.failing(b, t), fi.failing(b, f)
                    if ft and not ff:
                        self.note_fail(ins, self.val(ins['args'][0]), True, guard, mem)
                        return [(f, F1)]
                    if ff and not ft:
                        self.note_fail(ins, self.val(ins['args'][0]), False, guard, mem)
                        return [(t, F1)]
                hl = self.hdrtrip.get(b)
                if hl is not None and hl[0].trip is not None and hl[0].at_hdr:
                    tin, fin_ = t in hl[1], f in hl[1]
                    if tin != fin_:
                        hl[0].hdr_exit = (b, f if tin else t, dict(mem))
                        return [(t if tin else f, F1)]
                c = self.bool(self.val(ins['args'][0]))
                if c == F1:
                    return [(t, F1)]
                if c == F0:
                    return [(f, F1)]
                return [(t, c), (f, bnot(c))]
            if op == 'switch':
                v = as_P(self.val(ins['args'][0]))
                outs = {}
                rest = F1
                for cv, dst in ins['cases']:
                    c = band(rest, I.b_eq0(P_sub(v, P_const(cv))))
                    # distinct constants: exclusive
                    outs[dst] = outs.get(dst, F0) ^ c
                    rest = rest ^ c
                outs[ins['default']] = outs.get(ins['default'], F0) ^ rest
                return [(d, c) for d, c in outs.items() if c != F0]
            if op == 'ret':
                v = self.val(ins['args'][0]) if ins.get('args') else None
                self.rets.append((guard, v, dict(mem)))
                return []
            if op == 'unreachable' or op == 'resume':
                return []
            if op in ('call', 'invoke'):
                v = self.do_call(ins, mem, guard)
                if ins['ty'] != 'void':
                    self.env[ins['id']] = v
                if op == 'invoke':
                    return [(ins['normal'], F1)]
                continue
            self.env[ins['id']] = self.eval(ins, mem, guard)
        return []

    def note_fail(self, ins, cond, sense, guard, mem):
        c = self.bool(cond)
        self.emit(Event('assert', None, [B(bnot(c) if sense else c)], guard, self.site(ins), mem=dict(mem), ins=ins))

    def bool(self, v):
        if v[0] == 'B':
            return v[1]
        if v[0] == 'P':
            return bnot(self.I.b_eq0(v))
        if v == UNDEF:
            return batom(('undefcond', self.uid('ud')))
        return batom(('nz', v))

    def eval(self, ins, mem, guard):
        I = self.I
        op = ins['op']; ty = ins['ty']
        if op == 'alloca':
            base = ('alloca', self.tag, ins['id'])
            if base not in mem:
                mem[base] = A(('undef', base))
            else:
                # loop-local object: reset per iteration is not guaranteed; keep
                pass
            return Ptr(base)
        if op == 'getelementptr':
            p = self.val(ins['base'])
            off = P_const(ins['off'])
            for o, s in ins['var']:
                off = P_add(off, P_scale(as_P(self.val(o)), s))
            if p[0] != 'Ptr':
                return Ptr(('oddptr', p), off)
            if p[1][0] == 'pite':
                _, c, x, y = p[1]
                off = P_add(off, p[2])
                return Ptr(('pite', c, Ptr(x[1], P_add(x[2], off)), Ptr(y[1], P_add(y[2], off))), ZERO)
            return Ptr(p[1], P_add(p[2], off))
        if op == 'load':
            p = self.val(ins['args'][0])
            if p[0] != 'Ptr':
                return I.typed(('ldodd', p, self.uid('ld')), ty)
            I._curmem = mem
            if I.cfg.touch:
                I.cfg.touch(self, p, ins, mem, guard)
            return I.load(p[1], p[2], ty, I.ver(mem, p[1]))
        if op == 'store':
            v = self.val(ins['args'][0]); p = self.val(ins['args'][1])
            if I.cfg.touch:
                I.cfg.touch(self, p, ins, mem, guard)
            self.store(mem, p, v, ins['sz'], guard, ins)
            return None
        if op == 'icmp':
            a, b = self.val(ins['args'][0]), self.val(ins['args'][1])
            if ins['aty'].startswith('<'):
                if ins['aty'] == '<2 x i64>' and ins['pred'] == 'eq':
                    return O('veq', a, b)
                return O('vcmp', ins['pred'], ins['aty'], a, b)
            if a == UNDEF or b == UNDEF:
                return B(batom(('undefcmp', self.uid('ud'))))
            return B(I.cmp(ins['pred'], a, b))
        if op == 'select':
            c = self.bool(self.val(ins['args'][0]))
            return I.ite(c, self.val(ins['args'][1]), self.val(ins['args'][2]))
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            v = self.val(ins['args'][0])
            src = ins.get('src', ty)
            return self.cast(op, v, src, ty)
        if op in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = self.val(ins['args'][0]), self.val(ins['args'][1])
            return self.binop(op, a, b, ty)
        if op == 'extractelement':
            a, i = self.val(ins['args'][0]), self.val(ins['args'][1])
            return self.extract(a, i, ty)
        if op == 'insertelement':
            a, e, i = [self.val(x) for x in ins['args']]
            return self.insert(a, e, i, ty)
        if op == 'shufflevector':
            a, b = [self.val(x) for x in ins['args'][:2]]
            return self.kwrap(O('shuf', a, b, tuple(ins['mask'])), ty)
        if op == 'extractvalue':
            return I.typed(('xval', self.val(ins['args'][0]), tuple(ins['idx'])), ty)
        if op == 'insertvalue':
            return O('ival', self.val(ins['args'][0]), self.val(ins['args'][1]), tuple(ins['idx']))
        if op == 'fcmp':
            return B(batom(('fcmp', ins['pred'], self.val(ins['args'][0]), self.val(ins['args'][1]))))
        I.unknown_ops[op] = I.unknown_ops.get(op, 0) + 1
        return O(op, *[self.val(x) for x in ins.get('args', [])])

    def kwrap(self, o, ty):
        return K_atom(o) if ty == '<2 x i64>' else o

    def cast(self, op, v, src, ty):
        I = self.I
        if v == UNDEF:
            return UNDEF
        if op == 'freeze':
            return v
        if op == 'bitcast':
            if v[0] == 'O' and v[1] in ('vmask',):
                return v
            if src == '<2 x i64>' or ty == '<2 x i64>':
                if v[0] == 'K' and ty != '<2 x i64>':
                    return O('kv', v, ty) if v != KZERO else O('kv', KZERO, ty)
                if v[0] == 'O' and v[1] == 'kv' and ty == '<2 x i64>':
                    return v[2]
                if ty == '<2 x i64>':
                    return K_atom(('bits', v))
            if src in ('i64', '<1 x i64>') and ty in ('<1 x i64>', 'i64'):
                return v
            if src == '<1 x i64>' or ty == '<1 x i64>':
                return v
            if v[0] == 'O' and v[1] == 'kv':
                return O('kv', v[2], ty)
            return O('bitcast', v, ty)
        if op == 'ptrtoint':
            return as_P(v) if v[0] == 'Ptr' else P_atom(O('p2i', v))
        if op == 'inttoptr':
            k = atom_of(v) if v[0] == 'P' else None
            if k and k[0] == 'pbase':
                return Ptr(k[1], ZERO)
            return Ptr(('i2p', v), ZERO)
        if src.startswith('<'):
            if op == 'sext' and v[0] == 'O' and v[1] == 'veq':
                return O('vmask', v[2], v[3])
            return self.kwrap(O(op, v, src, ty), ty)
        if op == 'trunc':
            if ty == 'i1':
                return B(self.bool(v)) if v[0] != 'P' else B(self.low1(v))
            if v[0] == 'P':
                c = const_of(v)
                if c is not None:
                    n = int(ty[1:])
                    c &= (1 << n) - 1
                    if c >> (n - 1):
                        c -= 1 << n
                    return P_const(c)
                if I.cfg.exact_trunc and I.cfg.exact_trunc(v) or int(ty[1:]) < 32 and v[0] == 'P' and any(key(a)[0] in ('n', 'idx') for mono, co in v[1] for a in mono):
                    return P_atom(('trunc', v, int(ty[1:])))
            return v
        if op in ('zext', 'sext'):
            if v[0] == 'B' and op == 'sext' and src == 'i1':
                return P_scale(as_P(v), -1)
            if v[0] == 'P' and op == 'zext':
                c = const_of(v)
                if c is not None and c < 0:
                    return P_const(c & ((1 << int(src[1:])) - 1))
            return v
        return v

    def low1(self, v):
        """least-significant bit of an integer value as ANF (bool memory cells hold 0/1)"""
        x = self.I.parity(v)
        return x if x is not None else bnot(self.I.b_eq0(v))

    def lsb(self, kv):
        return self.I.lsb(kv)

    def eqlo(self, a, b):
        """CmpBlock: equality of two blocks"""
        d = K_xor(a, b)
        if d == KZERO:
            return F1
        if self.I.cfg.eqblk:
            r = self.I.cfg.eqblk(d)
            if r is not None:
                return r
        return batom(('eqblk', d))

    def extract(self, a, i, ty):
        I = self.I
        ci = const_of(as_P(i)) if i[0] in ('P', 'B') else None
        if a[0] == 'O' and a[1] == 'vmask':
            return P_atom(('vmel', a[2], a[3], ci))
        if ty == 'i64' and a[0] in ('P',):        # <1 x i64>
            return a
        if a[0] == 'K':
            if len(a[1]) == 1 and a[1][0][1] == F1:
                kk = key(a[1][0][0])
                if kk[0] == 'vec' and ci is not None:
                    return kk[1][ci]
            if ci in (0, 1):
                x = I.lane_of(a, ci)
                if x is not None:
                    return x
            return P_atom(('lane', a, ci, 64))
        if a[0] == 'O' and a[1] == 'kv':
            m = re.match(r'<\d+ x i(\d+)>', a[3])
            return P_atom(('lane', a[2], ci, int(m.group(1)) if m else 0))
        return I.typed(('xel', a, i), ty)

    def insert(self, a, e, i, ty):
        I = self.I
        ci = const_of(as_P(i)) if i[0] in ('P', 'B') else None
        if ty == '<1 x i64>':
            return e
        if ty == '<2 x i64>' and ci is not None:
            lanes = [None, None]
            if a[0] == 'K' and len(a[1]) == 1 and key(a[1][0][0])[0] == 'vec':
                lanes = list(key(a[1][0][0])[1])
            elif a == KZERO:
                lanes = [ZERO, ZERO]
            elif a != UNDEF:
                lanes = [self.extract(a, P_const(0), 'i64'), self.extract(a, P_const(1), 'i64')]
            lanes[ci] = e
            if lanes[0] == ZERO and lanes[1] == ZERO:
                return KZERO
            if all(x is not None and x[0] in ('P', 'B') for x in lanes):
                return K_xor(I.klane(0, as_P(lanes[0])), I.klane(1, as_P(lanes[1])))
            return K_atom(('vec', tuple(UNDEF if x is None else x for x in lanes)))
        return self.kwrap(O('ins', a, e, i, ty), ty)

    def splat(self, b):
        n = 0
        for a, c in b[1]:
            if key(a)[0] != 'cblk' or c != F1:
                return None
            n |= key(a)[1]
        lo_, hi_ = n & ((1 << 64) - 1), n >> 64
        return lo_ if lo_ == hi_ and lo_ < 64 else None

    def binop(self, op, a, b, ty):
        I = self.I
        if ty == '<2 x i64>':
            if op == 'xor' and a[0] == 'K' and b[0] == 'K':
                return K_xor(a, b)
            if op in ('shl', 'lshr') and a[0] == 'K' and b[0] == 'K':
                n = self.splat(b)
                if n is not None:
                    return I.klin(op, n, a)
            return K_atom(('v' + op, a, b))
        if ty.startswith('<'):
            return O('v' + op, a, b, ty)
        if ty == 'i1' or (a[0] == 'B' and b[0] == 'B' and op in ('xor', 'and', 'or')):
            x, y = self.bool(a), self.bool(b)
            if op == 'xor' or op == 'add' or op == 'sub':
                return B(x ^ y)
            if op == 'and' or op == 'mul':
                return B(band(x, y))
            if op == 'or':
                return B(bor(x, y))
        if a == UNDEF or b == UNDEF:
            return P_atom(('undefop', self.uid('ud')))
        if a[0] not in ('P', 'B', 'Ptr', 'O') or b[0] not in ('P', 'B', 'Ptr', 'O'):
            return I.typed((op, a, b), ty)
        pa, pb = as_P(a), as_P(b)
        ca, cb = const_of(pa), const_of(pb)
        if op == 'add':
            return P_add(pa, pb)
        if op == 'sub':
            return P_sub(pa, pb)
        if op == 'mul':
            return P_mul(pa, pb)
        if op == 'shl' and cb is not None and 0 <= cb < 63:
            return P_scale(pa, 1 << cb)
        if ca is not None and cb is not None:
            n = int(ty[1:]); msk = (1 << n) - 1
            try:
                r = {'and': lambda: ca & cb, 'or': lambda: ca | cb, 'xor': lambda: ca ^ cb,
                     'shl': lambda: ca << cb, 'lshr': lambda: (ca & msk) >> cb, 'ashr': lambda: ca >> cb,
                     'udiv': lambda: (ca & msk) // (cb & msk), 'urem': lambda: (ca & msk) % (cb & msk),
                     'sdiv': lambda: int(ca / cb), 'srem': lambda: ca - cb * int(ca / cb)}[op]()
                r &= msk
                if r >> (n - 1):
                    r -= 1 << n
                return P_const(r)
            except ZeroDivisionError:
                pass
        if op == 'and':
            if ca is not None:
                pa, pb, ca, cb = pb, pa, cb, ca
            if cb == 1:
                k = atom_of(pa)
                if k and k[0] == 'BN_is_bit_set':
                    return pa
                x = I.parity(pa)
                return B(x if x is not None else batom(('low1', pa)))
            if cb == 0:
                return ZERO
            if cb in (0xff, 0xffff, 0xffffffff):
                k = atom_of(pa)
                if k and k[0] in ('vmel', 'lane', 'low'):
                    return pa
            k = atom_of(pa)
            if k and k[0] == 'ite':
                return I.ite(k[1], self.binop('and', k[2], pb, ty), self.binop('and', k[3], pb, ty))
            if k and k[0] == 'b2i' and cb is not None:
                return P_scale(pa, cb & 1) if cb & 1 else ZERO
        if op in ('and', 'or', 'xor'):
            x, y = I.as_bit(pa), I.as_bit(pb)
            if x is not None and y is not None:
                return B(x ^ y if op == 'xor' else (band(x, y) if op == 'and' else bor(x, y)))
            if cb == 0 and op != 'and':
                return pa
            if ca is not None:
                pa, pb, ca, cb = pb, pa, cb, ca
            if op in ('or', 'xor') and cb is not None and cb > 0 and all(c % (1 << cb.bit_length()) == 0 for _, c in pa[1]):
                return P_add(pa, pb)
            x = tuple(sorted((pa, pb), key=repr))
            return P_atom((op,) + x)
        if op in ('urem', 'srem'):
            return P_atom(('mod', pa, pb))
        if op in ('udiv', 'sdiv', 'lshr', 'ashr'):
            if op in ('lshr', 'ashr') and cb is not None:
                pb, cb = P_const(1 << cb), 1 << cb
            if cb and all(c % cb == 0 for _, c in pa[1]):
                return ('P', tuple((m, c // cb) for m, c in pa[1]))
            if cb == 1:
                return pa
            return P_atom(('div', pa, pb))
        return P_atom((op, pa, pb))

    # vector-compare idiom: (vmel == 0xffff)
    def store(self, mem, p, v, size, guard, ins, kind='store'):
        I = self.I
        if p[0] != 'Ptr':
            self.emit(Event('store', None, [p, v, size], guard, self.site(ins), ins=ins))
            return
        base, off = p[1], p[2]
        if base[0] == 'pite':
            _, c, x, y = base
            old = dict(mem)
            self.store(mem, Ptr(x[1], P_add(x[2], off)), v, size, band(guard, c), ins)
            m1 = dict(mem)
            mem.clear(); mem.update(old)
            self.store(mem, Ptr(y[1], P_add(y[2], off)), v, size, band(guard, bnot(c)), ins)
            mm = self.merge_mem([(c, m1), (bnot(c), dict(mem))])
            mem.clear(); mem.update(mm)
            return
        if base[0] != 'alloca':
            self.emit(Event('store', base, [p, v, size], guard, self.site(ins), mem=dict(mem), ins=ins))
        self.written.add(base)
        mem[base] = self.put(I.ver(mem, base), off, size, v)

    def put(self, prev, off, size, v):
        k = key(prev)
        if k[0] == 'st' and k[2] == off and k[3] == size:
            prev = k[1]
        return A(('st', prev, off, size, v))

    def havoc(self, mem, base, why):
        self.written.add(base)
        mem[base] = A(('havoc', base, why))

    # ---- calls
    def do_call(self, ins, mem, guard):
        I = self.I
        I.stats['calls'] += 1
        I._curmem = mem
        name = ins.get('callee')
        ty = ins['ty']
        args = [self.val(a) for a in ins['args']]
        if I.cfg.touch and name and not name.startswith(('llvm.lifetime', 'llvm.dbg')):
            for a in args:
                if a[0] == 'Ptr':
                    I.cfg.touch(self, a, ins, mem, guard)
        if name is None:
            if ins.get('ind', [''])[0] == 'm':   # inline asm (rdtsc)
                return I.typed(('asm', self.uid('asm')), ty)
            u = self.uid('ind')
            self.emit(Event('call', '*indirect*', args, guard, self.site(ins), mem=dict(mem), ins=ins))
            return I.typed(('ret', 'indirect', u), ty) if ty != 'void' else None
        h = I.cfg.calls.get(name)
        if h:
            r = h(self, ins, mem, guard, args)
            if r is not NotImplemented:
                return r
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
            self.memcpy(mem, args[0], args[1], args[2], guard, ins)
            return args[0]
        if name.startswith('llvm.memset') or name == 'memset':
            d = args[0]
            if d[0] == 'Ptr':
                self.written.add(d[1])
                mem[d[1]] = A(('set', I.ver(mem, d[1]), d[2], as_P(args[2]), as_P(args[1]) if args[1] != UNDEF else ZERO))
                if d[1][0] != 'alloca':
                    self.emit(Event('set', d[1], args, guard, self.site(ins), mem=dict(mem), ins=ins))
            return args[0]
        if name.startswith('llvm.eh.typeid'):
            return I.typed(('eh',), ty)
        if name.startswith('llvm.expect'):
            return args[0]
        if NOEFFECT.match(name):
            if name in ('LogStream', 'DummyLogStream', 'Dump'):
                self.emit(Event('log', name, args, guard, self.site(ins), ins=ins))
            return I.typed(('noeff', name), ty) if ty != 'void' else None
        if name.startswith('llvm.'):
            sh = {'llvm.x86.sse2.pslli.q': 'shl', 'llvm.x86.sse2.psrli.q': 'lshr'}.get(name)
            if sh and args[0][0] == 'K':
                n = const_of(as_P(args[1]))
                if n is not None and 0 <= n < 64:
                    return I.klin(sh, n, args[0])
            if ty == '<2 x i64>':
                return K_atom((name,) + tuple(args))
            return I.typed((name,) + tuple(args), ty) if ty != 'void' else None
        if name in ('operator new[]', 'operator new', 'malloc', 'operator new[](unsigned long)') or ins.get('mangled') in ('_Znam', '_Znwm', 'malloc'):
            u = self.uid('new')
            base = ('new', u)
            mem[base] = A(('undef', base))
            self.emit(Event('alloc', ins['mangled'], args, guard, self.site(ins), mem=dict(mem), ret=base, ins=ins))
            self.written.add(base)
            return Ptr(base)
        if name == 'calloc':
            u = self.uid('new')
            base = ('new', u)
            mem[base] = A(('zero', base))
            self.written.add(base)
            self.emit(Event('alloc', 'calloc', args, guard, self.site(ins), mem=dict(mem), ret=base, ins=ins))
            return Ptr(base)
        if name == 'posix_memalign':
            u = self.uid('new')
            base = ('new', u)
            mem[base] = A(('undef', base))
            self.written.add(base)
            self.emit(Event('alloc', 'posix_memalign', args, guard, self.site(ins), mem=dict(mem), ret=base, ins=ins))
            self.store(mem, args[0], Ptr(base), 8, guard, ins)
            return ZERO
        if ins.get('mangled') in ('_ZdaPv', '_ZdlPv', '_ZdaPvm', '_ZdlPvm', 'free'):
            self.emit(Event('free', ins['mangled'], args, guard, self.site(ins), mem=dict(mem), ins=ins))
            return None
        if name == 'operator<<' or (STD.search(name)):
            return self.std_call(name, ins, mem, guard, args, ty)
        u = self.uid(name)
        e = Event('call', name, args, guard, self.site(ins), mem=dict(mem), ins=ins)
        self.emit(e)
        if name not in I.cfg.readonly:
            for a in args:
                if a[0] == 'Ptr' and a[1][0] not in ('null', 'fn') and not (a[1][0] == 'g' and I.prog.globals.get(a[1][1], {}).get('const')):
                    self.havoc(mem, a[1], u)
        e.info = u
        if ty == 'void':
            return None
        if ins.get('repo') and ty == 'i32' and I.cfg.assume_success:
            e.ret = P_const(SUCCESS)
            return P_const(SUCCESS)
        e.ret = I.typed(('ret', name, u), ty)
        return e.ret

    def std_call(self, name, ins, mem, guard, args, ty):
        I = self.I
        if getattr(I, 'on_std', None):
            I.std_at = (mem, guard, ins)
            r = I.on_std(self, name, args, ty)
            if r is not None:
                return r
        m = re.search(r'std::(min|max)<([\w ]+)>$', name)
        if m and len(args) == 2 and args[0][0] == 'Ptr' == args[1][0] and m.group(2) in INTS:
            n, sg = INTS[m.group(2)]
            x, y = [self.I.load(a[1], a[2], 'i%d' % n, I.ver(mem, a[1])) for a in args]
            less = I.cmp('slt' if sg else 'ult', y, x)          # min(x, y) is y when y < x
            c = less if m.group(1) == 'min' else I.cmp('slt' if sg else 'ult', x, y)
            return I.ite(c, args[1], args[0])
        u = self.uid('std')
        e = Event('std', name, args, guard, self.site(ins), mem=dict(mem), ins=ins)
        e.info = u
        self.emit(e)
        algo = re.search(r'std::\w+<[^<>]*\*', name)          # an algorithm over arrays that stdmodel.h does not define
        for a in args:
            if a[0] == 'Ptr' and (a[1][0] == 'alloca' or algo and a[1][0] not in ('g', 'null')):
                self.havoc(mem, a[1], u)
        if ty == 'void':
            return None
        e.ret = I.typed(('ret', name, u), ty)
        return e.ret

    def memcpy(self, mem, d, s, n, guard, ins):
        I = self.I
        if d[0] != 'Ptr' or s[0] != 'Ptr':
            return
        nn = as_P(n)
        fl = ins.get('fields')
        if fl and const_of(nn) == 16 * len(fl) and all(o == 16 * i and z == 16 for i, (o, z) in enumerate(sorted(fl))) and d[1][0] != 'alloca' :
            # a structure of blocks: the same as storing its fields one by one
            I._curmem = mem
            vals = [I.load(s[1], P_add(s[2], P_const(16 * i)), '<2 x i64>', I.ver(mem, s[1])) for i in range(len(fl))]
            for i, v in enumerate(vals):
                self.store(mem, Ptr(d[1], P_add(d[2], P_const(16 * i))), v, 16, guard, ins)
            return
        self.written.add(d[1])
        sb = s[1]
        if sb[0] == 'pite' or d[1][0] == 'pite':
            # expand to 16-byte cells for small constant copies
            c = const_of(nn)
            if c is not None and c <= 64 and d[1][0] != 'pite':
                _, cnd, x, y = sb
                m1 = dict(mem); m2 = dict(mem)
                self.memcpy(m1, d, Ptr(x[1], P_add(x[2], s[2])), n, guard, ins)
                self.memcpy(m2, d, Ptr(y[1], P_add(y[2], s[2])), n, guard, ins)
                mm = self.merge_mem([(cnd, m1), (bnot(cnd), m2)])
                mem.clear(); mem.update(mm)
                return
            self.havoc(mem, d[1], self.uid('cpy'))
            return
        mem[d[1]] = A(('cpy', I.ver(mem, d[1]), d[2], nn, sb, I.ver(mem, sb), s[2]))
        if d[1][0] != 'alloca':
            self.emit(Event('copy', d[1], [d, s, nn], guard, self.site(ins), mem=dict(mem), ins=ins))


# ---------------------------------------------------------------- icmp refinement for the CmpBlock idiom
_old_cmp = Interp.cmp


def _cmp(self, pred, a, b):
    for x, y in ((a, b), (b, a)):
        if x[0] == 'P':
            k = atom_of(x)
            if k and k[0] == 'vmel' and pred in ('eq', 'ne'):
                c = const_of(as_P(y))
                if c is not None:
                    f = self._eqlo(k[1], k[2])
                    if c in (0xffff, -1, 0xffffffff, 0xff, 2**64 - 1):
                        return f if pred == 'eq' else bnot(f)
                    if c == 0:
                        return bnot(f) if pred == 'eq' else f
    return _old_cmp(self, pred, a, b)


def _eqlo(self, a, b):
    d = K_xor(a, b)
    if d == KZERO:
        return F1
    if self.cfg.eqblk:
        r = self.cfg.eqblk(d)
        if r is not None:
            return r
    return batom(('eqblk', d))


Interp.cmp = _cmp
Interp._eqlo = _eqlo


# ---------------------------------------------------------------- event helpers
def walk(events, stack=()):
    for e in events:
        yield e, stack
        if e.kind == 'loop':
            yield from walk(e.body, stack + (e,))


def show_events(events, ind=0, kinds=None):
    out = []
    for e in events:
        if kinds and e.kind not in kinds and e.kind != 'loop':
            continue
        g = '' if e.guard == F1 else '  if ' + showb(e.guard)
        if e.kind == 'loop':
            out.append('  ' * ind + 'LOOP %s trip=%s brk=%s%s   @%s' % (e.name, show(e.info.trip) if e.info.trip else None, e.info.breaks, g, e.site))
            out += show_events(e.body, ind + 1, kinds)
        else:
            out.append('  ' * ind + '%s %s(%s)%s   @%s' % (e.kind, show(e.name) if isinstance(e.name, tuple) else e.name, ', '.join(show(a) if isinstance(a, tuple) else str(a) for a in e.args), g, e.site))
    return out
