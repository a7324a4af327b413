"""P25  conversions between blocks and big numbers, bitwise helpers and big-number transport are lossless for every value."""
from dom import *
from absint import Interp, Config, walk, Event
from frontend import program, Broken
from bytesim import *

A16 = tuple(range(16))
BN_FILE = 'crypto/BN.cpp'


# ---------------------------------------------------------------- block <-> big number, byte by byte
class Conv:
    """one conversion, for big numbers of exactly n bytes"""

    def __init__(self, p, fn, n, bits):
        self.n, self.bits = n, bits
        self.bn = {}                        # object -> little-endian bytes
        self.size = {}                      # heap object -> bytes
        self.bad = []
        self.nobj = 0
        self.p = p
        self.S = ByteSim(p, self.intrin)
        self.S.input_byte = self.uninit

    def uninit(self, obj, off):
        if obj[0] in ('new', 'alloca'):
            if obj in self.size and not 0 <= off < self.size[obj]:
                self.bad.append('reads byte %d of a buffer of %d' % (off, self.size[obj]))
            return atom('uninit', obj, off)
        return atom('in', obj, off)

    def value(self, p):
        if p is None or p[0] != 'ptr':
            return None
        return self.bn.get(p[1])

    def intrin(self, S, nm, A, n, ins, mem):
        num = lambda v: v[2] if v is not None and v[0] == 'I' else None
        none = ('V', ())
        if nm == 'BN_num_bits':
            v = self.value(A[0])
            return ('I', 32, self.bits) if v is not None else None
        if nm == 'BN_is_zero':
            return ('I', 32, int(self.n == 0))
        if nm in ('operator new[]', 'operator new', 'malloc') or ins.get('mangled') in ('_Znam', '_Znwm'):
            c = num(A[0])
            if c is None:
                return None
            self.nobj += 1
            o = ('new', self.nobj)
            self.size[o] = c
            return ('ptr', o, 0)
        if ins.get('mangled') in ('_ZdaPv', '_ZdlPv', '_ZdlPvm', '_ZdaPvm', 'free'):
            return none
        if nm in ('BN_bn2bin', 'BN_bn2binpad', 'BN_bn2lebinpad'):
            v = self.value(A[0])
            if v is None or A[1] is None or A[1][0] != 'ptr':
                return None
            L = len(v) if nm == 'BN_bn2bin' else num(A[2])
            if L is None:
                return None
            if L < len(v):
                return ('I', 32, 0xffffffff)
            b = list(v) + [ZB] * (L - len(v))
            if nm != 'BN_bn2lebinpad':
                b.reverse()
            sz = self.size.get(A[1][1])
            if sz is not None and A[1][2] + L > sz:
                self.bad.append('writes %d bytes at %d of a buffer of %d' % (L, A[1][2], sz))
            for i, x in enumerate(b):
                mem[(A[1][1], A[1][2] + i)] = x
            return ('I', 32, L)
        if nm in ('BN_bin2bn', 'BN_lebin2bn'):
            L = num(A[1])
            if L is None or A[0] is None or A[0][0] != 'ptr' or A[2] is None or A[2][0] != 'ptr':
                return None
            b = [S.load(mem, ('ptr', A[0][1], A[0][2] + i), 1, 'i8')[1][0] for i in range(L)]
            if nm == 'BN_bin2bn':
                b.reverse()
            self.bn[A[2][1]] = b
            return A[2]
        return aes_intrinsics(S, nm, A, n, ins, mem)


def bytes_text(v):
    return ' '.join(bshow(b, 1) for b in v)[:300]


def conversions(ctx, ob, p):
    f = p.fn('BlockToBN')
    where = '%s:%s (BlockToBN)' % (f['file'], f['line'])
    c = Conv(p, 'BlockToBN', 0, 0)
    c.bn[('a',)] = [atom('old', i) for i in range(8)]
    names = [a['name'] for a in f['args']]
    blk = tuple(atom('in', ('block',), i) for i in A16)
    args = [('ptr', ('a',), 0) if a['ty'] == 'ptr' else ('V', blk) for a in f['args']]
    ret, mem, err = c.S.run(f, args, {})
    ob(err is None and not c.S.unknown and not c.bad, 'BlockToBN:analysed', where, 'the conversion is a fixed sequence of known operations', err or c.S.unknown[:2] or c.bad[:2])
    got = list(c.bn.get(('a',), []))
    while len(got) > 16 and got[-1] == ZB:
        got.pop()
    ob(tuple(got) == blk, 'BlockToBN:value', where, 'byte i of the number is byte i of the block', bytes_text(got))
    f = p.fn('BNToBlock')
    where = '%s:%s (BNToBlock)' % (f['file'], f['line'])
    for n in range(17):
        for bits in sorted({8 * n, max(0, 8 * n - 7)}):
            c = Conv(p, 'BNToBlock', n, bits)
            c.bn[('a',)] = [atom('bn', i) for i in range(n)]
            args = [('ptr', ('a',), 0), ('ptr', ('w',), 0)]
            ret, mem, err = c.S.run(f, args, {})
            ob(err is None and not c.S.unknown and not c.bad, 'BNToBlock:%d:analysed' % bits, where, 'the conversion is a fixed sequence of known operations', err or c.S.unknown[:2] or c.bad[:2])
            got = [mem.get((('w',), i)) or atom('uninit', ('w',), i) for i in A16]
            exp = [atom('bn', i) if i < n else ZB for i in A16]
            ob(got == exp, 'BNToBlock:%d:value' % bits, where, 'a number of %d bits becomes the block with the same bytes, padded with zeros' % bits, bytes_text(got))
    d = Conv(p, '', 0, 0)
    ctx.selftest([atom('bn', 0)] != [atom('bn', 1)], 'bytes are told apart')


# ---------------------------------------------------------------- bitwise helpers
def bit(base, i):
    return ('bit', base, i)


def analyse(p, fn, extra=None):
    f = p.fn(fn)
    cfg = Config(unroll=0)
    cfg.nonneg = lambda k: k[0] in ('nb', 'len', 'bits')
    cfg.nonnull = lambda b: b[0] in ('v', 'w', 'r', 'bignum')
    cfg.calls = {'BN_num_bits': lambda fr, ins, mem, g, a: P_atom(('nb', a[0][1])), 'BN_is_bit_set': lambda fr, ins, mem, g, a: B(batom(('bit', a[0][1], as_P(a[1]))))}
    cfg.readonly = {'SendData', 'BN_bn2bin', 'BN_num_bits', 'BN_is_bit_set', 'BN_bn2binpad', 'BN_bn2lebinpad'}
    cfg.calls.update(extra or {})
    I = Interp(p, cfg)
    args = [Ptr((a['name'],)) if a['ty'] == 'ptr' else P_atom((a['name'],)) for a in f['args']]
    fr = I.run(f, args, {})
    return f, I, fr


def total_bits(f):
    """bit i is 0 above the length of a number, so a length test in front of a bit test adds nothing"""
    r = F0
    for m in f:
        ks = {a: key(a) for a in m}
        keep = set(m)
        for a, k in ks.items():
            if k[0] == 'ge0':
                for b, kb in ks.items():
                    if kb[0] == 'bit' and k[1] == P_sub(P_sub(P_atom(('nb', kb[1])), kb[2]), ONE):
                        keep.discard(a)
        r = r ^ frozenset([frozenset(keep)])
    return r


def loop_of(st):
    ls = [s for s in st if s.kind == 'loop']
    return ls[0] if len(ls) == 1 else None


def bitwise(ctx, ob, p):
    """effect of one turn of the loop on bit i of the result"""
    for fn, res, want in (('BN_xor', 'r', lambda i: batom(('bit', ('v',), i)) ^ batom(('bit', ('w',), i))), ('BN_invert', 'v', lambda i: bnot(batom(('bit', ('v',), i))))):
        f, I, fr = analyse(p, fn)
        where = '%s:%s (%s)' % (f['file'], f['line'], fn)
        sets, clears = F0, F0
        loops, n = set(), 0
        ok_idx = True
        idx = None
        for e, st in walk(fr.events):
            if e.kind not in ('call', 'std'):
                continue
            if e.name in ('BN_set_bit', 'BN_clear_bit'):
                L = loop_of(st)
                n += 1
                i = as_P(e.args[1])
                if L is None or e.args[0] != Ptr((res,)):
                    ob(False, fn + ':place', e.site, 'bit i of the result is written in turn i', show(i))
                    continue
                loops.add(L.name)
                kk = P_atom(('k', L.name))
                L_ = L
                # ascending 0..bits-1 or descending bits-1..0
                asc = i == kk
                desc = L.info.trip is not None and i == P_sub(P_sub(L.info.trip, ONE), kk)
                ob(asc or desc, fn + ':index', e.site, 'each turn of the loop writes its own bit', show(i))
                ob(L.info.trip == P_atom(('bits',)) and not L.info.breaks, fn + ':all', L.site, 'all `bits` bits are written', show(L.info.trip) if L.info.trip else 'unknown')
                idx = i
                g = total_bits(e.guard)
                if e.name == 'BN_set_bit':
                    sets = sets ^ g
                else:
                    clears = clears ^ g
            elif e.name in ('BN_is_bit_set', 'BN_num_bits'):
                pass
            elif str(e.name).startswith('BN_') and e.args and any(a == Ptr((res,)) for a in e.args):
                ob(False, fn + ':other', e.site, 'nothing else changes the result', e.name)
        ctx.anchors(n, 'bit writes in ' + fn)
        if idx is not None:
            w = want(idx)
            ob(sets == w, fn + ':sets', where, 'bit i is set exactly when it should be 1', showb(sets))
            ob(clears == bnot(w), fn + ':clears', where, 'bit i is cleared exactly when it should be 0', showb(clears))
        ob(len(loops) == 1, fn + ':loops', where, 'one loop covers the bits', len(loops))
        ob(fr.ret is not None and const_of(as_P(fr.ret)) not in (None, 0), fn + ':result', where, 'success is reported', show(fr.ret) if fr.ret else '')


def full_one(ctx, ob, p):
    fn = 'BN_full_one'
    f, I, fr = analyse(p, fn)
    where = '%s:%s (%s)' % (f['file'], f['line'], fn)
    bits = P_atom(('bits',))
    state = None            # what is known about v: ('ones', number of low ones, P) / ('zero',) / ('exact',)
    filled = {}
    detail = []
    for e, st in walk(fr.events):
        if e.kind == 'set' and e.args[0][0] == 'Ptr' and e.guard == F1 and not [s for s in st if s.kind == 'loop']:
            c = const_of(as_P(e.args[1]))
            if e.args[0][2] == ZERO and c is not None and c & 255 == 255:
                filled[e.args[0][1]] = as_P(e.args[2])
        if e.kind == 'store' and e.args[0][0] == 'Ptr' and e.args[2] == 1 and e.guard == F1:
            lp = [s for s in st if s.kind == 'loop']
            c = const_of(as_P(e.args[1])) if e.args[1][0] in ('P', 'B') else None
            if len(lp) == 1 and len(st) == 1 and lp[0].guard == F1 and lp[0].info.trip is not None and not lp[0].info.breaks and c is not None and c & 255 == 255 and e.args[0][2] == P_atom(('k', lp[0].name)):
                filled[e.args[0][1]] = lp[0].info.trip
        if e.kind not in ('call', 'std') or not str(e.name).startswith('BN_'):
            continue
        L = loop_of(st)
        detail.append(e.name)
        if e.name == 'BN_bin2bn' and e.args[2] == Ptr(('v',)) and e.guard == F1 and L is None:
            n = as_P(e.args[1])
            cover = filled.get(e.args[0][1]) == n and e.args[0][2] == ZERO
            state = ('ones', P_scale(n, 8)) if cover else None
            ob(cover, fn + ':source', e.site, 'the number is made from bytes that are all ones', show(n))
        elif e.name == 'BN_zero' or e.name == 'BN_zero_ex' and e.args[0] == Ptr(('v',)):
            state = ('zero',)
        elif e.name == 'BN_mask_bits' and e.args[0] == Ptr(('v',)) and L is None and e.guard == F1:
            n = as_P(e.args[1])
            # BN_mask_bits keeps bits below n; it needs the number to reach bit n
            if state and state[0] == 'ones' and n == bits:
                ob(more(I, state[1], bits), fn + ':length', e.site, 'there are more ones than needed before masking', show(state[1]))
                state = ('exact',)
            else:
                state = None
        elif e.name == 'BN_set_bit' and e.args[0] == Ptr(('v',)) and L is not None and state == ('zero',) and e.guard == F1:
            ok = L.info.trip == bits and not L.info.breaks and as_P(e.args[1]) == P_atom(('k', L.name))
            state = ('exact',) if ok else None
        elif e.name == 'BN_set_bit' and e.args[0] == Ptr(('v',)) and L is None and state == ('zero',) and as_P(e.args[1]) == bits:
            state = ('pow',)
        elif e.name == 'BN_sub_word' and state == ('pow',) and const_of(as_P(e.args[1])) == 1:
            state = ('exact',)
        elif any(a == Ptr(('v',)) for a in e.args) and e.name not in ('BN_num_bits', 'BN_is_bit_set'):
            state = None
    ob(state == ('exact',), fn + ':value', where, 'the number is 2^bits - 1', detail)
    ctx.anchors(len(detail), 'big-number operations in BN_full_one', 1)


def more(I, n8, bits):
    """8 * bytes > bits, for every value of bits"""
    # bytes = bits / 8 + c: 8 * (bits / 8) >= bits - 7
    d = n8
    for m, c in n8[1]:
        if len(m) == 1 and key(m[0])[0] == 'div':
            k = key(m[0])
            den = const_of(k[2]) if isinstance(k[2], tuple) else k[2]
            if den and c == den:
                d = P_add(P_sub(d, P_scale(P_atom(k), c)), P_sub(k[1], P_const(den - 1)))
    r = const_of(P_sub(d, bits))
    return r is not None and r >= 1


# ---------------------------------------------------------------- transport
def transport(ctx, ob, p):
    def h_recv(fr, ins, mem, g, a):
        u = fr.uid('RecvData')
        n = const_of(as_P(a[2]))
        if n in (1, 2, 4, 8):
            fr.store(mem, a[1], P_atom(('recv', u)), n, g, ins)
        elif a[1][0] == 'Ptr':
            fr.havoc(mem, a[1][1], ('recv', u))
        e = Event('call', 'RecvData', a, g, fr.site(ins), mem=dict(mem), ins=ins, ret=('recv', u))
        fr.emit(e)
        return ZERO

    def h_send(fr, ins, mem, g, a):
        n = const_of(as_P(a[2]))
        c = None
        if n in (1, 2, 4, 8):
            fr.I._curmem = mem
            c = fr.I.load(a[1][1], a[1][2], 'i%d' % (8 * n), fr.I.ver(mem, a[1][1]))
        fr.emit(Event('call', 'SendData', a, g, fr.site(ins), mem=dict(mem), ins=ins, info=c))
        return ZERO

    def implied(I, g, facts):
        I.facts[:] = facts; I.rb_memo = {}
        r = I.rebuild(B(g), {('nosub',): ZERO})[1] == F1
        I.facts[:] = []; I.rb_memo = {}
        return r
    num = P_atom(('nb', ('bignum',)))
    f, I, fr = analyse(p, 'SendBN', {'SendData': h_send})
    where = '%s:%s (SendBN)' % (f['file'], f['line'])
    ev = [e for e, st in walk(fr.events) if e.kind in ('call', 'std') and (e.name == 'SendData' or str(e.name).startswith('BN_'))]
    inloop = [e for e, st in walk(fr.events) if any(s.kind == 'loop' for s in st)]
    sends = [e for e in ev if e.name == 'SendData']
    ob(len(sends) == 2 and not inloop, 'SendBN:messages', where, 'a length and the bytes are sent', len(sends))
    width = None
    order = None
    ctx.anchors(len(sends), 'sends in SendBN')
    if len(sends) == 2:
        a, b = sends
        width = const_of(as_P(a.args[2]))
        size = as_P(a.info) if a.info is not None and a.info[0] in ('P', 'B') else None
        ob(width in (4, 8) and size is not None, 'SendBN:length', a.site, 'the first message is the length', show(size) if size else width)
        ob(as_P(b.args[2]) == size, 'SendBN:amount', b.site, 'as many bytes are sent as announced', '%s announced, %s sent' % (show(size) if size else '?', show(b.args[2])))
        ob(a.guard == F1 and size is not None and implied(I, b.guard, [P_sub(size, ONE)]), 'SendBN:always', b.site, 'every value is sent', showb(b.guard))
        conv = [e for e in ev if e.name in ('BN_bn2bin', 'BN_bn2binpad', 'BN_bn2lebinpad') and e.args[1] == b.args[1]]
        ob(len(conv) == 1 and conv[0].args[0] == Ptr(('bignum',)) and ev.index(conv[0]) < ev.index(b) and size is not None and implied(I, conv[0].guard, [P_sub(size, ONE)]), 'SendBN:bytes', b.site, 'the bytes sent are those of the number', [e.name for e in conv])
        if len(conv) == 1:
            order = 'le' if 'lebin' in conv[0].name else 'be'
            nbytes = P_atom(('div', P_add(num, P_const(7)), 8))
            same = size is not None and show(size) == show(P_atom(('div', P_add(num, P_const(7)), P_const(8))))
            if conv[0].name == 'BN_bn2bin':
                ob(same, 'SendBN:size', a.site, 'the announced length is the length of the number', show(size) if size else '')
            else:
                ob(as_P(conv[0].args[2]) == size and same, 'SendBN:size', a.site, 'the announced length is the length of the number', show(size) if size else '')
        touched = [e for e, st in walk(fr.events) if e.kind in ('store', 'set', 'copy') and e.args and e.args[0][0] == 'Ptr' and e.args[0][1] == b.args[1][1]]
        ob(not touched, 'SendBN:unmodified', where, 'the bytes are not changed before they are sent', [e.site for e in touched])
    f, I, fr = analyse(p, 'RecvBN', {'RecvData': h_recv})
    where = '%s:%s (RecvBN)' % (f['file'], f['line'])
    ev = [(e, st) for e, st in walk(fr.events) if e.kind in ('call', 'std', 'assert') and (e.kind == 'assert' or e.name == 'RecvData' or str(e.name).startswith('BN_'))]
    recvs = [e for e, st in ev if e.kind != 'assert' and e.name == 'RecvData']
    ob(len(recvs) == 2 and not [1 for e, st in ev if any(s.kind == 'loop' for s in st)], 'RecvBN:messages', where, 'a length and the bytes are received', len(recvs))
    ctx.anchors(len(recvs), 'receives in RecvBN')
    if len(recvs) == 2:
        a, b = recvs
        ob(const_of(as_P(a.args[2])) == width, 'RecvBN:length', a.site, 'the length has the width the sender uses', '%s vs %s' % (width, show(a.args[2])))
        size = P_atom(a.ret)
        got = as_P(b.args[2])
        ob(got == size, 'RecvBN:amount', b.site, 'as many bytes are received as announced', show(got))
        ob(a.guard == F1 and implied(I, b.guard, [P_sub(size, ONE)]), 'RecvBN:always', b.site, 'every value is received', showb(b.guard))
        conv = [e for e, st in ev if e.kind != 'assert' and e.name in ('BN_bin2bn', 'BN_lebin2bn')]
        ok = len(conv) == 1 and conv[0].args[0] == b.args[1] and as_P(conv[0].args[1]) == size and conv[0].args[2] == Ptr(('bignum',))
        ob(ok, 'RecvBN:value', conv[0].site if conv else where, 'the number is made of exactly the received bytes', [show(x)[:60] for x in conv[0].args] if conv else '')
        if conv:
            ob(implied(I, conv[0].guard, [size]), 'RecvBN:zero', conv[0].site, 'the number is set for every length, also 0', showb(conv[0].guard))
            ob(('le' if 'lebin' in conv[0].name else 'be') == order, 'RecvBN:order', conv[0].site, 'both sides use the same byte order', '%s vs %s' % (order, conv[0].name))
            late = [e for e, st in ev if e.kind != 'assert' and str(e.name).startswith('BN_') and e is not conv[0] and any(x == Ptr(('bignum',)) for x in e.args) and e.name not in ('BN_num_bits', 'BN_is_bit_set', 'BN_is_zero')]
            ob(not late, 'RecvBN:kept', where, 'nothing else changes the number', [e.name for e in late])
        for e, st in walk(fr.events):
            if e.kind == 'assert' and e.args and e.args[0][0] == 'B' and show(size) in showb(e.args[0][1]):
                ob(implied(I, e.args[0][1], [size, P_sub(P_const(1 << 20), size)]), 'RecvBN:accepts', e.site, 'no length from 0 to 2^20 is refused', showb(e.args[0][1]))


def run(ctx):
    ctx.level = 'byte-level value numbering, one-turn effect extraction and message comparison'
    p = program(keep=['BN_invert', 'BN_full_one', 'BN_xor', 'SendBN', 'RecvBN', 'BlockToBN', 'BNToBlock', 'SendData', 'RecvData'])
    ob = lambda ok, k, w, rule, det='': ctx.ob(bool(ok), k, w, rule, det, group=k.split(':')[0])
    conversions(ctx, ob, p)
    bitwise(ctx, ob, p)
    full_one(ctx, ob, p)
    transport(ctx, ob, p)
    ctx.functions |= {'BN_invert', 'BN_full_one', 'BN_xor', 'SendBN', 'RecvBN', 'BlockToBN', 'BNToBlock'}
    ctx.explanation = ('Block conversions are value-numbered byte by byte for every length 0..16 bytes of the number; the loop bodies of the bitwise helpers are reduced to the boolean condition under which bit i is set or cleared, for a symbolic i; '
                       'SendBN and RecvBN are compared message by message for a symbolic length, including length 0.')
