"""P09  lengths, counts and indices from the peer are validated before they size or index anything."""
from dom import *
from absint import walk, Event
from frontend import program, Broken
from runner import pmap
from calls import Calls
from bnsim import STRIDE
from view import View
import own, p20
from flow import DUMMY
from own import Own, loopfacts

SCALAR = (1, 2, 4, 8)
# library routines that read or write `len` bytes of a buffer: name -> (buffer arguments, length argument)
BUF = {'RecvData': ((1,), 2), 'SendData': ((1,), 2), 'BN_bin2bn': ((0,), 1), 'BN_lebin2bn': ((0,), 1), 'EVP_DigestUpdate': ((1,), 2), 'memcpy': ((0, 1), 2), 'memmove': ((0, 1), 2),
       'memset': ((0,), 2), 'read': ((1,), 2), 'recv': ((1,), 2), 'strncpy': ((0, 1), 2), 'memcmp': ((0, 1), 2), 'fread': ((0,), None), 'BN_bn2binpad': ((1,), 2), 'BN_bn2lebinpad': ((1,), 2)}
TOBIN = {'BN_bn2bin': (0, 1)}
NUMBITS = ('BN_num_bits',)
RAWRECV = {'RecvData'}
_P = None


class Root(Own):
    def __init__(self, prog, root):
        self.circ = {}
        self.size = {}
        self.rbases = set()
        ex = p20.handlers([self])
        ex['RecvData'] = self.h_recv
        for n in NUMBITS:
            ex[n] = self.h_numbits
        for n in BUF:
            if n not in ex:
                ex[n] = self.h_buf
        for n in list(BUF) + list(TOBIN):
            ex.setdefault(n, self.h_buf)
        for n in ('ReduceFanout', 'GarbleGate', 'EvalGate', 'GarbleEvalGateKnownValue', 'NumOfNonXor'):
            ex[n] = self.h_keepcirc
        f = prog.fn(root)
        self.asize = {}
        for b in f['blocks']:
            for i in b:
                if i['op'] == 'alloca':
                    self.asize[i['id']] = i.get('sz')
        super().__init__(prog, root, readonly=set(p20.LEAF), extra=ex)

    # ---------------------------------------------------------------- what came from the peer
    def peer(self, v):
        rb = self.rbases

        def hit(k):
            return k[0] in ('recv', 'nbits') or k[0] == 'ld' and k[1] in rb
        return View.atoms_in(v, hit)

    def tune(self, cfg):
        old = cfg.nonneg
        raw = lambda v: View.atoms_in(v, lambda k: k[0] == 'recv')
        cfg.nonneg = lambda k: k[0] == 'nbits' or k[0] == 'div' and not raw(k[1]) and self.peer(k[1]) and all(c >= 0 for m, c in k[1][1]) or old(k)
        cfg.exact_unsigned = raw
        cfg.exact_trunc = raw

    def h_recv(self, fr, ins, mem, g, a):
        I = self.I
        fr.emit(Event('call', 'RecvData', a, g, fr.site(ins), mem=dict(mem), ins=ins))
        c = const_of(as_P(a[2]))
        u = fr.uid('rcv')
        for p, c_ in self.sides(a[1]):
            if p == NULL or p[1] == ('null',):
                continue
            if c in SCALAR:
                fr.store(mem, p, P_atom(('recv', u)), c, band(g, c_), ins)
            else:
                self.rbases.add(p[1])
                fr.havoc(mem, p[1], ('recv', u))
        return ZERO

    def h_numbits(self, fr, ins, mem, g, a):
        if a[0][0] != 'Ptr':
            return NotImplemented
        return P_atom(('nbits', a[0], self.I.ver(mem, a[0][1])))

    def h_buf(self, fr, ins, mem, g, a):
        fr.emit(Event('use', ins['callee'], a, g, fr.site(ins), mem=dict(mem), ins=ins))
        return NotImplemented

    def h_keepcirc(self, fr, ins, mem, g, a):
        """gate-level primitives leave the circuit description alone"""
        fr.emit(Event('call', ins['callee'], a, g, fr.site(ins), mem=dict(mem), ins=ins))
        for x in a:
            for q, c in self.sides(x):
                if q[1] not in self.circ and q != NULL:
                    fr.havoc(mem, q[1], fr.uid('gate'))
        return self.I.typed(('ret', ins['callee'], fr.uid(ins['callee'])), ins['ty']) if ins['ty'] != 'void' else None

    def sides(self, p, g=F1):
        if p[0] != 'Ptr':
            return []
        if p[1][0] == 'pite':
            _, c, x, y = p[1]
            return [(q, h) for z, d in ((x, c), (y, bnot(c))) for q, h in self.sides(Ptr(z[1], P_add(z[2], p[2])), band(g, d))]
        return [(p, g)]

    def h_alloc(self, fr, ins, mem, g, a):
        p = super().h_alloc(fr, ins, mem, g, a)
        if p is not NotImplemented and p is not None and p[0] == 'Ptr' and a and ins.get('mangled') in own.NEWS:
            n = strip(as_P(a[0]))
            if ins['mangled'] == 'calloc':
                n = P_mul(as_P(a[0]), as_P(a[1]))
            self.size[p[1]] = (n, p[2])
            fr.emit(Event('size', ins.get('mangled'), [p, n], g, fr.site(ins), ins=ins))
        return p

    def h_memalign(self, fr, ins, mem, g, a):
        r = super().h_memalign(fr, ins, mem, g, a)
        for e in reversed(fr.evstack[-1]):
            if e.kind == 'alloc':
                self.size[e.ret[1]] = (as_P(a[2]), e.ret[2])
                fr.emit(Event('size', 'posix_memalign', [e.ret, as_P(a[2])], g, fr.site(ins), ins=ins))
                break
        return r

    def touch(self, fr, p, ins, mem, g):
        if ins.get('op') in ('load', 'store') and p[0] == 'Ptr':
            n = ins.get('sz')
            if any(key(x)[0] in ('k', 'phi', 'recv', 'nbits', 'ld', 'div', 'ite') for m, _ in p[2][1] for x in m) or p[1][0] == 'pite':
                fr.emit(Event('access', ins['op'], [p, n], g, fr.site(ins), ins=ins))
        super().touch(fr, p, ins, mem, g)


# ---------------------------------------------------------------- facts that hold at an event
def literals(f):
    """atoms that are true / false wherever f is"""
    out = []
    if f == F1 or f == F0:
        return out
    for a in {x for m in f for x in m}:
        at = frozenset([frozenset([a])])
        if band(f, bnot(at)) == F0:
            out.append((key(a), True))
        elif band(f, at) == F0:
            out.append((key(a), False))
    return out


def order_facts(f):
    out = []
    for k, t in literals(f):
        if k[0] == 'ge0':
            out.append(k[1] if t else P_sub(P_scale(k[1], -1), ONE))
        elif k[0] == 'eq0' and t:
            out += [k[1], P_scale(k[1], -1)]
    return out


def tree(events, stack=(), acc=()):
    acc = list(acc)
    for e in events:
        yield e, stack, acc
        if e.kind == 'loop':
            yield from tree(e.body, stack + (e,), list(acc))
        elif e.kind == 'assert' and e.args and e.args[0][0] == 'B':
            acc = acc + [(e.guard, e.args[0][1])]


def facts_at(O, e, st, acc, extra=F1):
    g = band(e.guard, extra)
    for s in st:
        g = band(g, s.guard)
    out = loopfacts(st)
    c = g
    for ag, cond in acc:
        if ag == F1 or band(g, bnot(ag)) == F0:
            c = band(c, cond) if len(c) * len(cond) < 4096 else c
            out += order_facts(cond)
    for s in st:
        out += order_facts(s.guard)
        if s.info.trip is None:
            for src, dst, x in getattr(s.info, 'cond', []):
                if src == s.info.hdr:
                    c = band(c, bnot(x))            # inside the loop the exit test at its head was not taken
    out += order_facts(e.guard) + order_facts(extra) + order_facts(c)
    n = len(O.I.facts)
    O.I.facts.extend(out)
    try:
        c = O.I.rebuild(B(c), DUMMY)                # conditions that are decided by what is known already
    finally:
        del O.I.facts[n:]
    return out + (order_facts(c[1]) if c[0] == 'B' else []), g


def bound(O, p):
    """size of the object a pointer points to and the offset in it, or None (the caller's object)"""
    b, off = p[1], p[2]
    if b[0] == 'alloca':
        n = O.asize.get(b[2])
        return (P_const(n), off) if n else None
    if b in O.size:
        n, ao = O.size[b]
        return n, P_sub(off, own.objoff(ao, off))
    return None


def products(O, st, *ps):
    """row-major indices: the slack of a loop counter times a size is not negative"""
    out = []
    ats = {x for p in ps for m, c in p[1] if len(m) > 1 for x in m}
    for s in st:
        if s.info.trip is None:
            continue
        sl = P_sub(P_sub(s.info.trip, ONE), P_atom(('k', s.name)))
        for x in ats:
            if O.cfg.nonneg(key(x)) and x != A(('k', s.name)):
                out.append(P_mul(sl, ('P', (((x,), 1),))))
    return out


def ge0(O, p, facts, depth=5, splits=2):
    """p is a nonnegative combination of facts and nonnegative atoms"""
    I = O.I
    facts = list(dict.fromkeys(facts))
    for q in [p] + facts:                          # min and max: each case on its own
        for a in P_atoms(q):
            k = key(a)
            if k[0] == 'ite' and splits:
                return all(ge0(O, P_subst(p, {a: as_P(v)}), [P_subst(f, {a: as_P(v)}) for f in facts] + order_facts(c), depth, splits - 1)
                           for c, v in ((k[1], k[2]), (bnot(k[1]), k[3])))

    def go(p, d):
        if I.ge0(p) is True:
            return True
        if d == 0:
            return False
        bad = [(m, c) for m, c in p[1] if not (c >= 0 and all(O.cfg.nonneg(key(x)) for x in m))]
        bad = [x for x in bad if x[0]] or bad
        for m, c in bad[:1]:
            for f in facts:
                e = dict(f[1]).get(m, 0)
                if e * c > 0:
                    if c % e:
                        q = P_sub(P_scale(p, abs(e)), P_scale(f, abs(c)))
                    else:
                        q = P_sub(p, P_scale(f, c // e))
                    if go(q, d - 1):
                        return True
            return False
        return False
    return go(p, depth)


def root(r):
    out = []
    cnt = {'receives': 0, 'allocations': 0, 'peer-dependent uses': 0, 'buffers converted': 0, 'accesses looked at': 0}
    O = Root(_P, r)

    def ob(ok, k, w, rule, d=''):
        out.append((bool(ok), k, w, rule, d))

    def fits(e, st, acc, p, n, nm, what, dep=False):
        """n bytes at p lie inside the object, whichever object p is"""
        for q, c in O.sides(p):
            if q == NULL or q[1] == ('null',):
                continue
            B_ = bound(O, q)
            if B_ is None and (O.peer(n) or O.peer(q[2]) or dep):
                # the caller's array: it holds as many elements as one of the parameters says
                fs, g = facts_at(O, e, st, acc, c)
                stride = max([abs(x) for m, x in q[2][1] if m] + [1])
                ok = any(ge0(O, q[2], fs) and ge0(O, n, fs) and ge0(O, P_sub(P_sub(P_scale(z, stride), q[2]), n), fs) for z in O.args if z[0] == 'P' and not O.peer(z))
                ob(ok, nm + ':caller', e.site, what, 'a length or index from the peer is used on an array of the caller without being bounded by a parameter: %s, length %s' % (show(q), show(n)))
            if B_ is None:
                continue
            size, off = B_
            fs, g = facts_at(O, e, st, acc, c)
            if g == F0:
                continue
            fs = fs + products(O, st, off, size)
            lo = ge0(O, off, fs); ln = ge0(O, n, fs); hi = ge0(O, P_sub(P_sub(size, off), n), fs)
            ob(lo and ln and hi, nm, e.site, what, 'object of %s bytes, offset %s, length %s%s%s%s' % (show(size), show(off), show(n), '' if lo else '; the offset may be negative', '' if ln else '; the length may be negative', '' if hi else '; the end may lie beyond the object'))

    for e, st, acc in tree(O.fr.events):
        nm = r + ':%s:' + own.short(e.site)
        if e.kind == 'size':
            cnt['allocations'] += 1
            n = e.args[1]
            if O.peer(n):
                cnt['peer-dependent uses'] += 1
                fs, g = facts_at(O, e, st, acc)
                ob(ge0(O, n, fs), nm % 'alloc', e.site, 'memory sized by a number from the peer is sized by a checked number', 'size %s may be negative' % show(n))
        elif e.kind == 'call' and e.name == 'RecvData':
            cnt['receives'] += 1
            fits(e, st, acc, e.args[1], as_P(e.args[2]), nm % 'recv', 'a receive fits into the memory it goes to')
        elif e.kind == 'use' and e.name in TOBIN:
            cnt['buffers converted'] += 1
            bn, buf = e.args
            nb = P_atom(('nbits', bn, O.I.ver(e.mem, bn[1])))
            for q, c in O.sides(buf):
                B_ = bound(O, q)
                if B_ is None:
                    continue
                size, off = B_
                want = nbytes(O, nb)
                ob(P_sub(P_sub(size, off), want) == ZERO or ge0(O, P_sub(P_sub(size, off), want), facts_at(O, e, st, acc, c)[0]), nm % 'bn2bin', e.site, 'a number of any length fits into the buffer it is written to',
                   'buffer of %s bytes, number of %s bytes' % (show(P_sub(size, off)), show(want)))
        elif e.kind == 'use' and e.name in BUF:
            ps, l = BUF[e.name]
            n = as_P(e.args[l]) if l is not None else P_mul(as_P(e.args[1]), as_P(e.args[2]))
            if O.peer(n) or any(e.args[x][0] == 'Ptr' and O.peer(e.args[x][2]) for x in ps):
                cnt['peer-dependent uses'] += 1
                for x in ps:
                    if e.args[x][0] == 'Ptr':
                        fits(e, st, acc, e.args[x], n, nm % e.name, 'a length from the peer fits the memory it is used on')
        elif e.kind == 'access':
            cnt['accesses looked at'] += 1
            p, n = e.args
            dep = O.peer(p[2]) or p[1][0] == 'pite' and (O.peer(p[1][2][2]) or O.peer(p[1][3][2]))
            if not dep:
                ks = {x for m, _ in p[2][1] for x in m if key(x)[0] == 'k'}
                for s in st:
                    if s.info.trip is not None and A(('k', s.name)) in ks and O.peer(s.info.trip):
                        dep = True
                    if s.info.trip is None and A(('k', s.name)) in ks and any(O.peer(B(c)) for x, y, c in getattr(s.info, 'cond', [])):
                        dep = True
            if dep:
                cnt['peer-dependent uses'] += 1
                fits(e, st, acc, p, P_const(n or 1), nm % 'access', 'an index from the peer lies inside the memory it is used on', True)
        elif e.kind == 'call' and e.name not in RAWRECV and e.name not in BUF:
            for x in e.args:
                if x[0] == 'P' and O.peer(x) and not str(e.name).startswith(('BN_', 'EVP_', 'operator', 'std::', '__')):
                    cnt['peer-dependent uses'] += 1
                    ob(False, nm % 'call', e.site, 'a number from the peer is not handed on unchecked', '%s(%s)' % (e.name, show(x)))
    return r, out, cnt, {e.site.split(' ')[0] for e, st in walk(O.fr.events) if e.kind == 'call' and e.name in RAWRECV | {'RecvBN'}}


def strip(n):
    """the size that was asked for, without the overflow test of new[] (an overflow throws)"""
    k = atom_of(n)
    if k and k[0] == 'ite':
        for x, y in ((k[2], k[3]), (k[3], k[2])):
            if const_of(as_P(x)) == -1:
                return strip(as_P(y))
    if k and k[0] == 'xval' and k[1][0] == 'O':
        o = k[1][1:]
        if o and 'mul.with.overflow' in str(o[0]):
            return P_mul(as_P(o[1]), as_P(o[2]))
    return n


def nbytes(O, nb):
    return P_atom(('div', P_add(nb, P_const(7)), P_const(8)))


def receivers():
    """functions that receive data and can run as part of a program (demonstrations and tests aside)"""
    c = Calls()
    reach = set()
    work = [m for m in c.by_m if c.dem(m).startswith('main_') and not c.by_m[m]['file'].endswith(('_test.cpp', 'OT_main.cpp'))]
    while work:
        m = work.pop()
        if m in reach or m not in c.by_m:
            continue
        reach.add(m)
        work += list(c.out[m])
    out = {}
    for m in reach:
        for bi, ii, i in c.sites[m]:
            if i.get('callee') in RAWRECV | {'RecvBN'} and c.dem(m).split('(')[0] not in ('RecvData',):
                out.setdefault(c.dem(m).split('(')[0], []).append(c.site(i).split(' ')[0])
    return out


def run(ctx):
    global _P
    _P = program(keep=p20.KEEP)
    rc = receivers()
    covered = set()

    def analyse(roots):
        for r, out, cnt, sites in pmap(root, roots):
            for ok, k, w, rule, d in out:
                ctx.ob(ok, k, w, rule, d, group=r)
            for k, n in cnt.items():
                ctx.count(k, n)
            ctx.functions.add(r)
            covered.update(sites)
    analyse(p20.ROOTS)
    extra = sorted(f for f, s in rc.items() if any(x not in covered for x in s) and f not in p20.ROOTS and not f.startswith('main_'))
    analyse(extra)
    for f, s in sorted(rc.items()):
        for x in s:
            ctx.ob(x in covered, 'site:%s:%s' % (f, x.split(':')[0]), x, 'every receive of the programs was analysed', f, group='receive sites')
    ctx.count('functions that receive', len(rc))
    ctx.anchors(ctx.counts.get('receives', 0), 'receives', 10)
    ctx.assumptions = ['sizes of the circuit are those the party read from its own file; a number received through RecvBN may have any length',
                       'a number of bytes below 2^31 may be allocated for a big number (an allocation that fails ends the program)',
                       'library calls write no more than their documented length']
    ctx.explanation = ('Every value received from the peer is an opaque symbol that may be negative as a signed and huge as an unsigned number. In both sessions and in each transfer routine every receive, every allocation, '
                       'every buffer handed to a library routine and every memory access whose length, offset or loop bound contains such a symbol (or the length of a received number) must be shown to lie inside the object, '
                       'from the checks that precede it on the path, the conditions it is under and the bounds of the loops around it.')
