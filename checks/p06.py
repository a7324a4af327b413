"""P06  oblivious transfer delivers exactly the chosen message (basic protocol, extension, block wrappers, protocol choice)."""
from dom import *
from absint import Interp, Config, Event, walk
from bnsim import *
import bnsim
from frontend import program, Broken
from gcmodel import *
import gcmodel
from view import *
from duality import Side, Duality
from runner import pmap

KEEP = ['OTSendBN', 'OTRecvBN', 'OTExtSendBN', 'OTExtRecvBN', 'SendBN', 'RecvBN', 'SendData', 'RecvData', 'HashBN', 'BN_xor', 'BN_full_one', 'BN_invert',
        'BlockToBN', 'BNToBlock', 'SwitchRowColumnBN', 'SwitchRowColumnBNPair', 'LogStream']
N = P_atom(('n',)); Q = P_atom(('q',)); FD = P_atom(('fd',)); BITS = P_atom(('bitlen',))
BB = P_atom(('bpos',))                       # a generic bit position below 128
INQ = [P_sub(P_sub(N, ONE), Q)]


def div8(off):
    return ('P', tuple((m, c // 8) for m, c in off[1])) if all(c % 8 == 0 for _, c in off[1]) else None


def onload(I, base, ver, off, ty):
    if ty != 'ptr':
        return None
    if base[0] in ('sarr', 'rarr', 'varr'):
        k = div8(off)
        return Ptr((base[0] + '1',), P_scale(k, STRIDE)) if k is not None else None
    if base[0] in ('sarr1', 'varr1'):
        return Ptr(('msg',), off)
    return None


def msg_atom(k):
    return k[0] == 'ld' and k[1] == ('msg',)


def canon(t):
    """message cells are named by index and side, whatever memory version they were read under"""
    sub = {}
    for a in atoms_in(t):
        k = key(a)
        if msg_atom(k) and k[4] == 8:
            off = k[3]
            j = None
            for jj in (0, 8):
                o = P_sub(off, P_const(jj))
                if all(c % STRIDE == 0 for _, c in o[1]):
                    j = jj // 8
                    idx = ('P', tuple((m, c // STRIDE) for m, c in o[1]))
            if j is not None:
                sub[k] = P_atom(('M', idx, j))
    return bnsim.rebuild(t, sub) if sub else t


def atoms_in(x, acc=None):
    acc = set() if acc is None else acc
    seen = set()

    def go(x):
        if isinstance(x, tuple):
            if x in seen:
                return
            seen.add(x)
            if x and x[0] == 'P' and len(x) == 2:
                for m, c in x[1]:
                    for a in m:
                        if a not in acc:
                            acc.add(a); go(key(a))
            elif x and x[0] == 'B' and len(x) == 2:
                go(x[1])
            else:
                for y in x:
                    go(y)
        elif isinstance(x, frozenset):
            for y in x:
                if isinstance(y, frozenset):
                    for a in y:
                        if isinstance(a, int) and a not in acc:
                            acc.add(a); go(key(a))
                else:
                    go(y)
    go(x)
    return acc


# ---------------------------------------------------------------- message pairing
class Msg:
    def __init__(self, e, stack):
        self.e = e; self.dir = e.name; self.stack = stack; self.val = e.args[1]; self.site = e.site; self.guard = e.guard


def leaves(evs, stack=()):
    out = []
    for e in evs:
        if e.kind == 'loop':
            out += leaves(e.body, stack + (e,))
        elif e.kind == 'bn' and e.name in ('send', 'recv'):
            out.append(Msg(e, stack))
    return out


def pair(ob, pre, where, S, R):
    """match the k-th message of each direction; returns the substitution for what each side received"""
    sub = {}
    for a, b, nm in ((S, R, 'to receiver'), (R, S, 'to sender')):
        snd = [l for l in a if l.dir == 'send']; rcv = [l for l in b if l.dir == 'recv']
        ok = ob(len(snd) == len(rcv), pre + nm + ':count', where, 'both sides exchange the same number of kinds of message ' + nm, '%d sent, %d received' % (len(snd), len(rcv)))
        if not ok:
            return None
        for i, (s, r) in enumerate(zip(snd, rcv)):
            w = '%s <-> %s' % (s.site, r.site)
            same = len(s.stack) == len(r.stack) and all(x.info.trip is not None and x.info.trip == y.info.trip and not x.info.breaks and not y.info.breaks for x, y in zip(s.stack, r.stack))
            # the same messages share one loop on both sides
            grp = [x for x in snd if x.stack[:1] == s.stack[:1] or (x.stack and s.stack and x.stack[0] is s.stack[0])]
            grp2 = [x for x in rcv if (x.stack[:1] == r.stack[:1]) or (x.stack and r.stack and x.stack[0] is r.stack[0])]
            same = same and (not s.stack or (len(grp) == len(grp2) and snd.index(grp[0]) == rcv.index(grp2[0])))
            ok = ob(same and s.guard == F1 == r.guard, pre + nm + ':%d' % i, w, 'each message sent is received by the matching iteration, unconditionally',
                    [show(x.info.trip) if x.info.trip else '?' for x in s.stack + r.stack])
            if not ok:
                return None
            ren = {('k', x.name): P_atom(('k', y.name)) for x, y in zip(s.stack, r.stack)}
            sub[atom_of(r.val)[:2]] = (s.val, [x.name for x in s.stack], [y.name for y in r.stack])
    return sub


def resolve(t, sub, depth=0):
    """replace received values by what the peer sent, index for index"""
    if depth > 20:
        return t
    m = {}
    for a in atoms_in(t):
        k = key(a)
        if k[0] == 'rcv' and k[:2] in sub:
            v, sl, rl = sub[k[:2]]
            idx = k[2:]
            if len(idx) == len(sl):
                m[k] = bnsim.rebuild(v, {('k', l): i for l, i in zip(sl, idx)})
    if not m:
        return t
    return resolve(bnsim.rebuild(t, m), sub, depth + 1)


def progress(ob, pre, where, S, R):
    """every wait is for a message that is sent before the peer waits for something later (skeleton unfolded a few times)"""
    for n in (1, 2, 3, 4):
        def unfold(ls):
            out = []; i = 0
            while i < len(ls):
                l = ls[i]
                if not l.stack:
                    out.append(l.dir); i += 1
                    continue
                j = i
                while j < len(ls) and ls[j].stack and ls[j].stack[0] is l.stack[0]:
                    j += 1
                out += [x.dir for x in ls[i:j]] * n
                i = j
            return out
        a, b = unfold(S), unfold(R)
        i = j = 0; ab = ba = 0
        while True:
            mv = False
            while i < len(a) and (a[i] == 'send' or ba > 0):
                if a[i] == 'send':
                    ab += 1
                else:
                    ba -= 1
                i += 1; mv = True
            while j < len(b) and (b[j] == 'send' or ab > 0):
                if b[j] == 'send':
                    ba += 1
                else:
                    ab -= 1
                j += 1; mv = True
            if not mv:
                break
        ob(i == len(a) and j == len(b) and ab == ba == 0, pre + 'progress:%d' % n, where, 'neither side waits for a message the other sends only after its own wait', (i, len(a), j, len(b)))


# ---------------------------------------------------------------- basic protocol
def chosen(t, selbit, case):
    """value of t when the choice bit at the generic index is `case`"""
    return bnsim.rebuild(t, {selbit: P_const(case)})


def basic(ob, p):
    fs, fr = p.fn('OTSendBN'), p.fn('OTRecvBN')
    where = '%s:%s (OTSendBN) <-> %s:%s (OTRecvBN)' % (fs['file'], fs['line'], fr['file'], fr['line'])
    S = Sim(p, 'OTSendBN', [Ptr(('sarr',)), N, FD], on_load=onload)
    R = Sim(p, 'OTRecvBN', [Ptr(('selbn',)), N, FD, Ptr(('rarr',))], on_load=onload)
    s, r = leaves(S.fr.events), leaves(R.fr.events)
    sub = pair(ob, 'basic:', where, s, r)
    progress(ob, 'basic:', where, s, r)
    for X, nm in ((S, 'OTSendBN'), (R, 'OTRecvBN')):
        ob(X.fr.ret == ZERO, 'basic:return:' + nm, where, 'an honest run is reported as success', show(X.fr.ret) if X.fr.ret is not None else None)
    if sub is None:
        return
    t = R.value(Ptr(('rarr1',), P_scale(Q, STRIDE)), INQ)
    selv = ('ld', ('selbn',), R.I.ver({}, ('selbn',)), ZERO, 8)
    sb = ('bit', P_atom(selv), Q)
    for case in (0, 1):
        u = canon(resolve(chosen(t, sb, case), sub))
        # choice bits inside the values the sender computed from the receiver's messages
        u = canon(chosen(u, sb, case))
        ob(u == P_atom(('M', Q, case)), 'basic:result:%d' % case, where, 'when the choice bit at index q is %d the receiver ends with the sender\'s message m[q][%d]' % (case, case), show(u)[:600])
    # number of messages: everything the caller passed is transferred
    lv = [l for l in s if l.dir == 'send' and not l.stack and l.val == N]
    ob(len(lv) == 1, 'basic:length', where, 'the sender announces the number of messages', [show(l.val) for l in s if not l.stack][:3])


# ---------------------------------------------------------------- rows and columns
def bitloop(evs, is_bn):
    """value of bit k of a number filled by a loop over its bits: (initial, loop, index, set guard, clear guard, order ok) or None"""
    init = None; lp = None; sg = cg = F0; idx = None; cnt = 0
    for e, st in walk(evs):
        if e.kind != 'bn' or e.name not in ('BN_new', 'BN_full_one', 'BN_set_bit', 'BN_clear_bit', 'BN_set_word', 'BN_rand', 'BN_free') or not is_bn(e.args[0]):
            continue
        if e.name == 'BN_new':
            init = ('zero',)
        elif e.name == 'BN_full_one':
            if lp is not None or e.guard != F1:
                return None
            init = ('ones', as_P(e.args[1]))
        elif e.name in ('BN_set_bit', 'BN_clear_bit'):
            if not st or (lp is not None and st[-1] is not lp):
                return None
            lp = st[-1]
            i = as_P(e.args[1])
            if idx is not None and i != idx:
                return None
            idx = i; cnt += 1
            if e.name == 'BN_set_bit':
                sg = bor(sg, e.guard); cg = band(cg, bnot(e.guard))
            else:
                cg = bor(cg, e.guard); sg = band(sg, bnot(e.guard))
        elif e.name == 'BN_free':
            if lp is None:
                return None
        else:
            return None
    if init is None or lp is None:
        return None
    return init, lp, idx, sg, cg


def transposer(ob, p, fn, pair_):
    f = p.fn(fn)
    where = '%s:%s (%s)' % (f['file'], f['line'], fn)
    K = P_atom(('n', 'vlen')); W = P_atom(('n', 'vbits'))

    def ol(I, base, ver, off, ty):
        if ty != 'ptr':
            return None
        if base[0] == 'varr':
            k = div8(off)
            return Ptr(('varr1',) if pair_ else ('vbn',), P_scale(k, STRIDE)) if k is not None else None
        if base[0] == 'varr1':
            return Ptr(('vbn',), off)
        return None
    S = Sim(p, fn, [Ptr(('varr',)), K, W, Ptr(('wout',))], on_load=ol)
    evs = S.fr.events
    res = S.read(Ptr(('wout',)), 'ptr')
    pre = fn + ':'
    if not ob(res[0] == 'Ptr' and res[1][0] == 'new' and res[2] == ZERO, pre + 'result', where, 'the caller receives a freshly built array', show(res)):
        return
    i = P_atom(('n', 'i'))
    facts = [P_sub(P_sub(W, ONE), i)]
    n0 = len(S.I.facts)
    S.I.facts.extend(facts)
    for j in ((0, 1) if pair_ else (0,)):
        b = S.read(Ptr(res[1], P_scale(i, 8)), 'ptr')
        if pair_ and b[0] == 'Ptr':
            b = S.read(Ptr(b[1], P_add(b[2], P_const(8 * j))), 'ptr')
        if not ob(b[0] == 'Ptr' and b[1][0] == 'new', pre + 'element:%d' % j, where, 'element i of the result is a number of its own for every i below the width', show(b)):
            continue
        bl = bitloop(evs, lambda a: a[0] == 'Ptr' and a[1] == b[1])
        if not ob(bl is not None, pre + 'bits:%d' % j, where, 'the number is filled by one loop over its bits', bl):
            continue
        init, lp, idx, sg, cg = bl
        k = P_atom(('k', lp.name))
        outer = [l for l in walk(evs) if l[0] is lp][0][1]
        ok = lp.info.trip == K and not lp.info.breaks and idx == k and len(outer) == 1 and outer[0].info.trip == W and not outer[0].info.breaks
        ob(ok, pre + 'range:%d' % j, where, 'bits 0..v_len-1 are all written, for every element', (show(lp.info.trip) if lp.info.trip else None, show(idx)))
        io = P_atom(('k', outer[0].name)) if outer else ZERO
        off = P_scale(k, STRIDE)
        want = None
        bits_ = set()
        for a in atoms_in(B(sg)) | atoms_in(B(cg)):
            kk = key(a)
            if kk[0] == 'bit':
                bits_.add(a)
        ok = False
        if len(bits_) == 1:
            kk = key(list(bits_)[0])
            src = atom_of(kk[1])
            ok = src is not None and src[0] == 'ld' and src[1] == ('vbn',) and src[3] == P_add(off, P_const(8 * j if pair_ else 0)) and kk[2] == io
            want = frozenset([frozenset([list(bits_)[0]])])
        ob(ok, pre + 'source:%d' % j, where, 'bit k of element i is taken from bit i of input k', [show(P_atom(key(a)))[:200] for a in bits_])
        one = F1 if init[0] == 'ones' and init[1] == K else F0
        val = sg ^ band(band(bnot(sg), bnot(cg)), one)
        ob(val == want and (cg == F0 or one == F1), pre + 'value:%d' % j, where, 'bit k of the result equals that bit, from a known start', showb(val)[:200])
        at = atom_of(P_scale(b[2], 1)) if b[2] != ZERO else None
        ob(b[2] == P_scale(i, STRIDE), pre + 'place:%d' % j, where, 'element i is the number of iteration i', show(b[2]))
    del S.I.facts[n0:]


# ---------------------------------------------------------------- extension
def bitof(t, b, sub):
    """bit b (b < 128, generic) of a term, as ANF over bits of random numbers; None if unknown"""
    k = atom_of(t)
    if t == ZERO:
        return F0
    if k is None:
        return None
    if k[0] == 'rand':
        return batom(('bit', t, b)) if k[1] == P_const(128) else None
    if k[0] == 'bxor':
        if k[2] != P_const(128):
            return None
        r = F0
        for y in k[1]:
            z = bitof(y, b, sub)
            if z is None:
                return None
            r = r ^ z
        return r
    if k[0] == 'binv':
        z = bitof(k[1], b, sub)
        return bnot(z) if z is not None and k[2] == P_const(128) else None
    if k[0] == 'ite':
        x, y = bitof(k[2], b, sub), bitof(k[3], b, sub)
        return None if x is None or y is None else band(k[1], x) ^ band(bnot(k[1]), y)
    if k[0] == 'col':
        # ('col', V(kk), kk, row index, members, width): bit b is bit `row` of V at b
        return bitof_at(bnsim.rebuild(k[1], {('kk', k[2][1]): b}), k[3])
    return None


def bitof_at(t, row):
    """bit `row` of t, where t is as wide as there are messages"""
    k = atom_of(t)
    if k is None:
        return None
    if k[0] == 'col':
        # bit `row` of an element of a transposed family is that bit of the family's member `row`
        return bitof(bnsim.rebuild(k[1], {('kk', k[2][1]): row}), k[3], None)
    if k[0] == 'ite':
        x, y = bitof_at(k[2], row), bitof_at(k[3], row)
        return None if x is None or y is None else band(k[1], x) ^ band(bnot(k[1]), y)
    return None


class Ext:
    """handlers for the pieces of the extension that are decided on their own"""

    def __init__(self):
        self.calls = []
        self.fam = {}

    def family(self, S, fr, mem, arr, kk, j=None):
        b = S.I.load(arr[1], P_add(arr[2], P_scale(kk, 8)), 'ptr', S.I.ver(mem, arr[1]))
        if j is not None and b[0] == 'Ptr':
            b = S.I.load(b[1], P_add(b[2], P_const(8 * j)), 'ptr', S.I.ver(mem, b[1]))
        return S.get(fr, mem, b) if b[0] == 'Ptr' else P_atom(('unknown', b)), b

    def handlers(self):
        X = self

        def switch(pair_):
            def h(fr, ins, mem, g, a):
                S = X.sim(fr)
                vlen, vbits = as_P(a[1]), as_P(a[2])
                u = fr.uid('sw')
                kk = P_atom(('kk', u))
                n0 = len(S.I.facts)
                S.I.facts.append(P_sub(P_sub(vlen, ONE), kk))
                fams = [X.family(S, fr, mem, a[0], kk, j if pair_ else None)[0] for j in ((0, 1) if pair_ else (0,))]
                del S.I.facts[n0:]
                X.fam[u] = (fams, vlen, vbits)
                arr = Ptr(('swarr', u))
                if a[3][0] == 'Ptr':
                    fr.store(mem, a[3], arr, 8, g, ins)
                S.rec(fr, 'switch', ins, mem, g, [P_atom(('fam', u)), vlen, vbits])
                X.calls.append(('switch', u, fr.site(ins), g, vlen, vbits, fams))
                return ZERO
            return h

        def otrecv(fr, ins, mem, g, a):
            S = X.sim(fr)
            sel = S.get(fr, mem, a[0])
            kk = P_atom(('kk',))
            n0 = len(S.I.facts)
            S.I.facts.append(P_sub(P_sub(as_P(a[1]), ONE), kk))
            b = S.I.load(a[3][1], P_add(a[3][2], P_scale(kk, 8)), 'ptr', S.I.ver(mem, a[3][1])) if a[3][0] == 'Ptr' else ('?',)
            del S.I.facts[n0:]
            u = fr.uid('ot')
            ok = b[0] == 'Ptr' and b[2] == P_scale(kk, STRIDE)
            if ok:
                fr.written.add(b[1])
                mem[b[1]] = A(('havoc', b[1], ('otout', u)))
            S.rec(fr, 'ot', ins, mem, g, [a[2], P_atom(('otdir', 'R')), as_P(a[1])])
            X.calls.append(('otrecv', u, fr.site(ins), g, as_P(a[1]), sel, b[1] if ok else None))
            X.otout = b[1] if ok else None
            X.otu = u
            return ZERO

        def otsend(fr, ins, mem, g, a):
            S = X.sim(fr)
            u = fr.uid('ot')
            kk = P_atom(('kk', u))
            n0 = len(S.I.facts)
            S.I.facts.append(P_sub(P_sub(as_P(a[1]), ONE), kk))
            fams = [X.family(S, fr, mem, a[0], kk, j)[0] for j in (0, 1)]
            del S.I.facts[n0:]
            S.rec(fr, 'ot', ins, mem, g, [a[2], P_atom(('otdir', 'S')), as_P(a[1])])
            X.calls.append(('otsend', u, fr.site(ins), g, as_P(a[1]), fams, ('kk', u)))
            return ZERO
        return {'SwitchRowColumnBN': switch(False), 'SwitchRowColumnBNPair': switch(True), 'OTRecvBN': otrecv, 'OTSendBN': otsend}

    def sim(self, fr):
        return self.S

    def load(self, I, base, ver, off, ty):
        if ty == 'ptr' and base[0] == 'swarr':
            k = div8(off)
            if k is None:
                return None
            fams = self.fam[base[1]][0]
            return Ptr(('swrow', base[1]) if len(fams) == 2 else ('swbn', base[1], 0), P_scale(k, STRIDE))
        if ty == 'ptr' and base[0] == 'swrow':
            for j in (0, 1):
                o = P_sub(off, P_const(8 * j))
                if all(c % STRIDE == 0 for _, c in o[1]):
                    return Ptr(('swbn', base[1], j), o)
            return None
        if ty == 'i64' and base[0] == 'swbn' and key(ver)[0] != 'st':
            if all(c % STRIDE == 0 for _, c in off[1]):
                fams, vlen, vbits = self.fam[base[1]]
                row = ('P', tuple((m, c // STRIDE) for m, c in off[1]))
                return P_atom(('col', fams[base[2]], ('bound', base[1]), row, vlen, vbits))
            return None
        if ty == 'i64' and getattr(self, 'otout', None) == base and key(ver)[0] == 'havoc' and key(ver)[2] == ('otout', self.otu):
            if all(c % STRIDE == 0 for _, c in off[1]):
                return P_atom(('otout', self.otu, ('P', tuple((m, c // STRIDE) for m, c in off[1]))))
        return onload(I, base, ver, off, ty)


class SimX(Sim):
    def __init__(self, prog, fn, args, X):
        X.S = self
        Sim.__init__(self, prog, fn, args, on_load=X.load, extra=X.handlers())


def one(calls, kind, pred=lambda c: True):
    """the distinct calls of a kind (loop bodies are interpreted repeatedly)"""
    d = {}
    for c in calls:
        if c[0] == kind:
            d[c[1]] = c
    return [c for c in d.values() if pred(c)]


def extension(ob, p):
    fs, fr_ = p.fn('OTExtSendBN'), p.fn('OTExtRecvBN')
    where = '%s:%s (OTExtSendBN) <-> %s:%s (OTExtRecvBN)' % (fs['file'], fs['line'], fr_['file'], fr_['line'])
    XS, XR = Ext(), Ext()
    S = SimX(p, 'OTExtSendBN', [Ptr(('sarr',)), BITS, N, FD], XS)
    R = SimX(p, 'OTExtRecvBN', [Ptr(('selbn',)), BITS, N, FD, Ptr(('rarr',))], XR)
    s, r = leaves(S.fr.events), leaves(R.fr.events)
    sub = pair(ob, 'ext:', where, s, r)
    for Y, nm in ((S, 'OTExtSendBN'), (R, 'OTExtRecvBN')):
        ob(Y.fr.ret == ZERO, 'ext:return:' + nm, where, 'an honest run is reported as success', show(Y.fr.ret) if Y.fr.ret is not None else None)
    so, ro = one(XS.calls, 'otrecv'), one(XR.calls, 'otsend')
    if not ob(len(so) == len(ro) == 1 and so[0][3] == ro[0][3] == F1 and not one(XS.calls, 'otsend') and not one(XR.calls, 'otrecv'), 'ext:base', where,
              'one basic transfer in the reverse direction', (len(so), len(ro))):
        return
    so, ro = so[0], ro[0]
    # order of the inner transfer relative to the messages
    def order(evs):
        return [e.name for e, st in walk(evs) if e.kind == 'bn' and e.name in ('send', 'recv', 'ot')]
    a, b = order(S.fr.events), order(R.fr.events)
    ob(a == [{'send': 'recv', 'recv': 'send'}.get(x, x) for x in b], 'ext:order', where, 'the inner transfer and the masked messages are exchanged in dual order', (a, b))
    C = P_const(128)
    ob(so[4] == ro[4] == C, 'ext:base:length', where, 'both sides run the inner transfer over 128 columns', (show(so[4]), show(ro[4])))
    ob(so[6] is not None, 'ext:base:store', where, 'the received columns are kept as separate numbers', so[6])
    if sub is None:
        return
    selS = so[5]
    ob(atom_of(selS) is not None and atom_of(selS)[0] == 'rand' and atom_of(selS)[1] == C, 'ext:base:choice', where, 'the sender of the extension chooses columns by a random 128-bit number', show(selS))
    fams = ro[5]

    def subst_ot(t):
        """received column j of the inner transfer = the column the choice bit j selects"""
        m = {}
        for a in atoms_in(t):
            k = key(a)
            if k[0] == 'otout':
                m[k] = ite(batom(('bit', selS, k[2])), bnsim.rebuild(fams[1], {ro[6]: k[2]}), bnsim.rebuild(fams[0], {ro[6]: k[2]}))
        return bnsim.rebuild(t, m) if m else t
    for nm, Y, cs in (('sender', XS, one(XS.calls, 'switch')), ('receiver', XR, one(XR.calls, 'switch'))):
        for c in cs:
            exp = (C, N) if nm == 'sender' else (N, C)
            ob((c[4], c[5]) == exp and c[3] == F1, 'ext:transpose:' + nm, c[2], 'the bit matrix is transposed with its own dimensions', (show(c[4]), show(c[5])))
    t = R.value(Ptr(('rarr1',), P_scale(Q, STRIDE)), INQ)
    bnp = R.read(Ptr(('rarr',), P_scale(Q, 8)), 'ptr', INQ)
    if bnp[0] == 'Ptr' and bnp[1] != ('rarr1',):
        t = R.value(bnp, INQ)
    selv = ('ld', ('selbn',), R.I.ver({}, ('selbn',)), ZERO, 8)
    sb = ('bit', P_atom(selv), Q)
    bb = P_atom(('bpos',))
    for case in (0, 1):
        u = canon(resolve(chosen(t, sb, case), sub))
        u = chosen(subst_ot(u), sb, case)
        u = canon(u)
        # hash inputs are compared bit by bit
        m = {}
        for a in atoms_in(u):
            k = key(a)
            if k[0] == 'hash':
                z = bitof(k[3], bb, None)
                if z is not None:
                    z = as_F(chosen(B(z), sb, case))
                    m[k] = P_atom(('hash', k[1], k[2], B(z)))
        u2 = rehash(u, m)
        exp = P_atom(('bxor', (P_atom(('M', Q, case)),), BITS))
        ob(u2 == exp, 'ext:result:%d' % case, where, 'when the choice bit at index q is %d the two masks of that message are the same hash and the receiver ends with m[q][%d]' % (case, case), show(u2)[:900])


def rehash(t, m):
    k = atom_of(t)
    if k is not None and k[0] == 'bxor':
        r = ZERO
        for y in k[1]:
            r = bxor(r, rehash(y, m), k[2])
        return r
    return m.get(k, t) if k is not None else t


# ---------------------------------------------------------------- block wrappers
def wrappers(ob, p, send, recv, isend, irecv):
    ext = isend != 'OTSendBN'
    f = p.fn(send)
    where = '%s:%s (%s)' % (f['file'], f['line'], send)
    got = []

    def blk(I, base, ver, off, ty):
        if ty == 'ptr' and base[0] == 'marr':
            k = div8(off)
            return Ptr(('mrow',), P_scale(k, STRIDE)) if k is not None else None
        if base[0] == 'mrow' and ty == '<2 x i64>':
            for j in (0, 1):
                o = P_sub(off, P_const(16 * j))
                if all(c % STRIDE == 0 for _, c in o[1]):
                    return K_atom(('MB', ('P', tuple((m, c // STRIDE) for m, c in o[1])), j))
        return None

    holder = {}

    def hsend(fr, ins, mem, g, a):
        S = holder['S']
        ln = as_P(a[2] if ext else a[1])
        n0 = len(S.I.facts)
        S.I.facts.extend(INQ)
        vals = []
        for j in (0, 1):
            b = S.I.load(a[0][1], P_add(a[0][2], P_scale(Q, 8)), 'ptr', S.I.ver(mem, a[0][1]))
            b = S.I.load(b[1], P_add(b[2], P_const(8 * j)), 'ptr', S.I.ver(mem, b[1])) if b[0] == 'Ptr' else b
            vals.append(S.get(fr, mem, b) if b[0] == 'Ptr' else None)
        del S.I.facts[n0:]
        got.append((fr.site(ins), g, ln, as_P(a[1]) if ext else P_const(128), as_P(a[-1]), vals))
        return P_atom(('status',))

    class W(Sim):
        def __init__(self, *a, **k):
            holder['S'] = self
            Sim.__init__(self, *a, **k)

    S = W(p, send, [Ptr(('marr',)), N, FD], on_load=blk, extra={isend: hsend})
    ok = ob(len(got) == 1 and got[0][1] == F1, send + ':call', where, 'the messages are handed to one run of the protocol', len(got))
    if ok:
        site, g, ln, bl, fd, vals = got[0]
        ob(ln == N and fd == FD and bl == P_const(128), send + ':length', site, 'all messages, at full width, over the caller\'s connection', (show(ln), show(bl)))
        for j in (0, 1):
            ob(vals[j] == P_atom(('ofblk', K_atom(('MB', Q, j)))), send + ':message:%d' % j, site, 'message %d of index q is the caller\'s block m[q][%d]' % (j, j), show(vals[j]) if vals[j] else None)
        ob(S.fr.ret == P_atom(('status',)), send + ':status', where, 'the status of the transfer is the caller\'s', show(S.fr.ret))
    # receiver
    f = p.fn(recv)
    where = '%s:%s (%s)' % (f['file'], f['line'], recv)
    got = []

    def selb(I, base, ver, off, ty):
        if base[0] == 'selarr' and ty == 'i8':
            return P_atom(('b2i', batom(('sel', off))))
        if ty == 'i64' and holder.get('out') == base and key(ver)[0] == 'havoc' and all(c % STRIDE == 0 for _, c in off[1]):
            return P_atom(('otout', ('P', tuple((m, c // STRIDE) for m, c in off[1]))))
        if ty == 'ptr' and holder.get('outarr') == base and key(ver)[0] == 'havoc':
            k = div8(off)
            return Ptr(('fresh',), P_scale(k, STRIDE)) if k is not None else None
        if ty == 'i64' and base == ('fresh',):
            return P_atom(('otout', ('P', tuple((m, c // STRIDE) for m, c in off[1])))) if all(c % STRIDE == 0 for _, c in off[1]) else None
        return None

    def hrecv(fr, ins, mem, g, a):
        S = holder['S']
        ln = as_P(a[2] if ext else a[1])
        out = a[-1]
        n0 = len(S.I.facts)
        S.I.facts.extend(INQ)
        b = S.I.load(out[1], P_add(out[2], P_scale(Q, 8)), 'ptr', S.I.ver(mem, out[1]))
        del S.I.facts[n0:]
        good = b[0] == 'Ptr' and b[2] == P_scale(Q, STRIDE)
        if good:
            holder['out'] = b[1]
            fr.written.add(b[1])
            mem[b[1]] = A(('havoc', b[1], 'ot'))
        if ext:
            holder['outarr'] = out[1]
            fr.written.add(out[1])
            mem[out[1]] = A(('havoc', out[1], 'ot'))
        evs = [e for l in fr.evstack for e in l]
        got.append((fr.site(ins), g, ln, as_P(a[1]) if ext else P_const(128), as_P(a[-2]), a[0], out, good, list(fr.evstack[0])))
        return P_atom(('status',))
    R = W(p, recv, [Ptr(('selarr',)), N, FD, Ptr(('mout',))], on_load=selb, extra={irecv: hrecv})
    ok = ob(len(got) == 1 and got[0][1] == F1, recv + ':call', where, 'the messages come from one run of the protocol', len(got))
    if not ok:
        return
    site, g, ln, bl, fd, sel, out, good, evs = got[0]
    ob(ln == N and fd == FD and bl == P_const(128) and good, recv + ':length', site, 'all messages, at full width, over the caller\'s connection, each into a number of its own', (show(ln), good))
    bl = bitloop(evs, lambda a: a == sel)
    if ob(bl is not None, recv + ':choice', where, 'the choice number is filled by one loop over its bits', None):
        init, lp, idx, sg, cg = bl
        k = P_atom(('k', lp.name))
        want = batom(('sel', k))
        val = sg
        ob(init == ('zero',) and lp.info.trip == N and not lp.info.breaks and idx == k and sg == want and cg == F0, recv + ':choice:bits', where,
           'bit i of the choice number is the caller\'s choice i, for every i', (show(idx), showb(sg)))
    v = R.read(Ptr(('mout',), P_scale(Q, 16)), '<2 x i64>', INQ)
    st = P_atom(('status',))
    def is_ok(v):
        if v == K_atom(('toblk', P_atom(('otout', Q)))):
            return True
        return False
    # on the success path
    sub = {('status',): ZERO}
    v2 = R.I.rebuild(v, sub)
    ob(is_ok(v2), recv + ':message', where, 'block q of the caller receives message q', show(v2)[:300])
    r2 = R.I.rebuild(R.fr.ret, sub) if R.fr.ret is not None else None
    ob(r2 == ZERO, recv + ':status', where, 'a successful transfer is reported as success', show(R.fr.ret) if R.fr.ret is not None else None)


# ---------------------------------------------------------------- which protocol is used
def _choice(low):
    sd = [Side(Session(_P, r, low, False, extra_facts=()), r) for r in ('GarbleStr', 'EvaluateStr')]
    G, E = sd
    D = Duality(G, E, values=(0, 1, G.S.SECRET, G.S.INV))
    D.run()
    pairs = [(g.e.name, e.e.name, str(g.site), str(e.site)) for g, e, _ in D.pairs.values() if g.kind in ('ot', 'otx') or e.kind in ('ot', 'otx')]
    errs = [(w, str(g.site) if g else '-', str(e.site) if e else '-') for w, g, e, d in D.err]
    return low, pairs, errs


def choice(ctx, ob):
    global _P
    _P = gcmodel.prog()
    for low, pairs, errs in pmap(_choice, [False, True]):
        nm = 'low' if low else 'high'
        for a, b, x, y in pairs:
            ob({a, b} in ({'OTSend', 'OTRecv'}, {'OTExtSend', 'OTExtRecv'}), 'choice:%s:%s:%s' % (nm, a, b), '%s <-> %s' % (x, y), 'both parties run the same protocol, in opposite roles')
        ob(not errs, 'choice:%s:session' % nm, 'GarbleStr <-> EvaluateStr', 'a transfer is started by both parties under the same conditions with the same number of messages', errs[:3])
        ctx.anchors(len(pairs), 'transfer call pairs (%s memory)' % nm)
        names = {a for a, b, x, y in pairs}


def run(ctx):
    p = program(keep=KEEP)

    def ob(ok, key_, where, rule, detail='', group=None):
        return ctx.ob(bool(ok), key_, where, rule, detail, group=group)
    basic(ob, p)
    transposer(ob, p, 'SwitchRowColumnBN', False)
    transposer(ob, p, 'SwitchRowColumnBNPair', True)
    extension(ob, p)
    wrappers(ob, p, 'OTSend', 'OTRecv', 'OTSendBN', 'OTRecvBN')
    wrappers(ob, p, 'OTExtSend', 'OTExtRecv', 'OTExtSendBN', 'OTExtRecvBN')
    choice(ctx, ob)
    ctx.functions |= {'OTSendBN', 'OTRecvBN', 'OTExtSendBN', 'OTExtRecvBN', 'SwitchRowColumnBN', 'SwitchRowColumnBNPair', 'OTSend', 'OTRecv', 'OTExtSend', 'OTExtRecv'}
    n = P_atom(('rsa', 'x', 'n')); e = P_atom(('rsa', 'x', 'e')); d = P_atom(('rsa', 'x', 'd')); z = nnmod(P_atom(('z',)), n)
    ctx.selftest(modexp(modexp(z, e, n), d, n) == z and modexp(modexp(z, e, n), e, n) != z, 'the RSA rule needs the private exponent')
    ctx.assumptions += ['RSA_generate_key_ex returns a valid key pair', 'OpenSSL number routines compute what they document and do not fail', 'both sides are called with the same number of messages']
    ctx.explanation = ('Both sides of each transfer protocol are interpreted over symbolic message arrays and choice bits for a generic number of messages; received values are replaced by what the peer '
                       'sent in the matching iteration, and the receiver\'s final value at a generic index is compared in normal form with the chosen message.')
