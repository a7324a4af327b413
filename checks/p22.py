"""P22  printed output contains each output bit of each executed cycle in its place."""
from dom import *
from absint import Interp, Config, walk
from frontend import program, Broken
import gcmodel, p10, p11
from gcmodel import *
from view import *
from duality import *
from outview import *
from runner import pmap

OUTS, STR = Ptr(('outputs',)), Ptr(('output_str',))
CYCN = P_atom(('n', 'clock_cycles'))
FMT = ('OutputBN2StrHighMem', 'OutputBN2StrLowMem')
MODES = ((0, 'consecutive'), (1, 'separated_clock'), (2, 'last_clock'))
NOISE = {'BN_new', 'BN_free', 'BN_clear_free', 'CRYPTO_free', 'free', 'BN_num_bits', 'BN_init', 'BN_is_zero'}


class Unknown(Exception):
    pass


class Text:
    """replays the events of a formatter: contents of numbers and strings as terms"""

    def __init__(self, p, I):
        self.p, self.I = p, I
        self.bn = {OUTS: ('outputs',)}
        self.hexes = {}
        self.str = {}

    def lit(self, a):
        if isinstance(a, tuple) and a[0] == 'Ptr' and a[1][0] == 'g' and a[2] == ZERO:
            g = self.p.globals.get(a[1][1])
            if g and g.get('str') is not None:
                return g['str'].split('\0')[0]
            if g and (g.get('init') or [''])[0] == 'zero':
                return ''
        return None

    def num(self, a):
        if a not in self.bn:
            raise Unknown('contents of %s are unknown' % show(a)[:80])
        return self.bn[a]

    def pieces(self, a):
        """what a C string or string object argument holds"""
        if a in self.hexes:
            return [('hex', self.hexes[a])]
        s = self.lit(a)
        if s is not None:
            return [('lit', s)] if s else []
        if a in self.str:
            return list(self.str[a])
        c = const_of(as_P(a)) if isinstance(a, tuple) and a[0] == 'P' else None
        if c is not None:
            return [('lit', chr(c & 255))]
        raise Unknown('text of %s is unknown' % show(a)[:80])

    def add(self, s, ps, guard):
        if guard == F0 or not ps:
            return
        if s not in self.str:
            self.str[s] = []
        self.str[s] = self.str[s] + ([('if', guard, ps)] if guard != F1 else ps)

    def run(self, events, top=True):
        for e in events:
            if e.kind == 'loop':
                self.loop(e)
            elif e.kind == 'call':
                self.call(e)
            elif e.kind == 'std':
                self.std(e)
            elif e.kind == 'store':
                raise Unknown('unexpected store at %s' % e.site)

    def call(self, e):
        n, a = e.name, e.args
        g = B(e.guard)[1]
        if n == 'BN_new':
            self.bn[e.ret] = ('zero',)
            return
        if n in NOISE:
            return
        if n in ('BN_bn2hex',):
            self.hexes[e.ret] = self.num(a[0])
            return
        if n == 'BN_dup':
            self.bn[e.ret] = self.num(a[0])
            return
        if g != F1:
            if n in ('BN_rshift', 'BN_mask_bits', 'BN_copy', 'BN_rshift1', 'BN_lshift'):
                raise Unknown('%s happens only sometimes' % n)
        if n == 'BN_rshift':
            self.bn[a[0]] = shr(self.num(a[1]), as_P(a[2]))
        elif n == 'BN_rshift1':
            self.bn[a[0]] = shr(self.num(a[1]), ONE)
        elif n == 'BN_copy':
            self.bn[a[0]] = self.num(a[1])
        elif n == 'BN_mask_bits':
            self.bn[a[0]] = ('mask', self.num(a[0]), as_P(a[1]))
        else:
            raise Unknown('%s is not understood' % n)

    def std(self, e):
        m = e.name.split('::')[-1]
        g = B(e.guard)[1]
        a = e.args
        if m in ('operator+=', 'append', 'push_back'):
            if len(a) > 2 and const_of(as_P(a[1])) == 1:
                self.add(a[0], self.pieces(a[2]), g)
            elif len(a) > 2 and self.lit(a[1]) is not None:
                self.add(a[0], [('lit', self.lit(a[1])[:const_of(as_P(a[2]))])], g)
            else:
                self.add(a[0], self.pieces(a[1]), g)
        elif m == 'clear':
            self.need(g, m)
            self.str[a[0]] = []
        elif m in ('operator=', 'assign', 'swap'):
            self.need(g, m)
            self.str[a[0]] = self.pieces(a[1])
        elif m == 'basic_string':
            self.need(g, m)
            self.str[a[0]] = self.pieces(a[1]) if len(a) > 1 and (a[1] in self.hexes or a[1] in self.str or self.lit(a[1]) is not None) else []
        elif m == 'operator+':
            self.need(g, m)
            self.str[a[0]] = self.pieces(a[1]) + self.pieces(a[2])
        elif 'allocator' in m or m in ('~basic_string', 'reserve', 'allocator', '~allocator', 'length', 'size', '_M_dispose', 'shrink_to_fit', 'c_str', 'data', 'empty'):
            if m in ('c_str', 'data') and e.ret is not None and a[0] in self.str:
                self.str[e.ret] = list(self.str[a[0]])
        else:
            raise Unknown('%s at %s is not understood' % (e.name[-40:], e.site))

    def need(self, g, m):
        if g != F1:
            raise Unknown('%s happens only sometimes' % m)

    def loop(self, e):
        li = e.info
        if li.trip is None or li.breaks:
            raise Unknown('number of turns of %s is unknown' % e.site)
        k = P_atom(('k', e.name))
        b0, s0 = dict(self.bn), dict(self.str)
        for b in b0:
            self.bn[b] = ('prev', b)
        self.str = {s: [] for s in s0}
        self.run(e.body)
        bn1, str1 = self.bn, self.str
        # closed forms of numbers carried from one turn to the next
        carry = {}
        for b in b0:
            v = bn1[b]
            if v == ('prev', b):
                carry[b] = b0[b]
            elif v[0] == 'shr' and v[1] == ('prev', b) and not has(v[2], k):
                carry[b] = shr(b0[b], P_mul(v[2], k))
            else:
                carry[b] = None
        def res(v):
            if v[0] == 'prev':
                if carry[v[1]] is None:
                    raise Unknown('a number carried between turns of %s is not understood' % e.site)
                return carry[v[1]]
            if v[0] == 'shr':
                return shr(res(v[1]), v[2])
            if v[0] == 'mask':
                return ('mask', res(v[1]), v[2])
            return v
        def resp(ps):
            return [('hex', res(x[1])) if x[0] == 'hex' else ('if', x[1], resp(x[2])) if x[0] == 'if' else ('loop', x[1], x[2], resp(x[3])) if x[0] == 'loop' else x for x in ps]
        self.bn = {}
        for b, v in bn1.items():
            if b in b0 and v == ('prev', b):
                self.bn[b] = b0[b]
            # other numbers written in the loop are unknown after it
        self.str = dict(s0)
        for s in str1:
            if s in s0:
                if str1[s]:
                    self.str[s] = s0[s] + [('loop', e.name, li.trip, resp(str1[s]))]


def has(p, k):
    kk = next(iter(k[1]))[0]
    return any(kk[0] in m for m, c in p[1])


def shr(x, n):
    if x[0] == 'shr':
        return ('shr', x[1], P_add(x[2], n))
    if n == ZERO:
        return x
    return ('shr', x, n)


def expect(size, k):
    return ('hex', ('mask', shr(('outputs',), P_mul(k, size)), size))


def per_cycle(ps, size, I):
    """does the text consist of cycle k's bits for k = 0..cycles-1, separated by newlines? -> reason or None"""
    nl = ('lit', '\n')
    body = None
    pre = []
    post = []
    for x in ps:
        if x[0] == 'loop':
            if body is not None:
                return 'more than one loop'
            body = x
        elif body is None:
            pre.append(x)
        else:
            post.append(x)
    if body is None:
        return 'no loop over the cycles'
    _, name, trip, bp = body
    k = P_atom(('k', name))
    one = P_sub(CYCN, ONE)
    def sep(x, cond):
        return x[0] == 'if' and x[2] == [nl] and x[1] == cond
    ge = lambda p: I.b_ge0(p)
    notlast = ge(P_sub(P_sub(CYCN, k), P_const(2)))
    notfirst = ge(P_sub(k, ONE))
    ne0 = bnot(I.b_eq0(k))
    nelast = bnot(I.b_eq0(P_sub(P_sub(CYCN, ONE), k)))
    if trip == CYCN and not pre and not post and len(bp) == 2:
        if bp[0] == expect(size, k) and any(sep(bp[1], c) for c in (notlast, nelast)):
            return None
        if bp[1] == expect(size, k) and any(sep(bp[0], c) for c in (notfirst, ne0)):
            return None
    if trip == one:
        if pre == [expect(size, ZERO)] and not post and bp == [nl, expect(size, P_add(k, ONE))]:
            return None
        if post == [expect(size, one)] and not pre and bp == [expect(size, k), nl]:
            return None
    return 'text is ' + text(ps)


def text(ps):
    out = []
    for x in ps:
        if x[0] == 'lit':
            out.append(repr(x[1]))
        elif x[0] == 'hex':
            out.append('hex(%s)' % bnshow(x[1]))
        elif x[0] == 'if':
            out.append('[%s if %s]' % (text(x[2]), showb(x[1])[:120]))
        else:
            out.append('{%s times %s}' % (show(x[2])[:60], text(x[3])))
    return ' '.join(out)


def bnshow(v):
    if v[0] == 'shr':
        return '%s >> %s' % (bnshow(v[1]), show(v[2])[:100])
    if v[0] == 'mask':
        return '(%s) mod 2^%s' % (bnshow(v[1]), show(v[2])[:60])
    return v[0]


def formatter(ctx, p, fn, low):
    f = p.fn(fn)
    where = '%s:%s (%s)' % (f['file'], f['line'], fn)
    size = P_atom(('size',))
    off = next((x for x in p.structs.items() if x[0].endswith('GarbledCircuit')), None)
    fo = [y for y in off[1] if y[0] == 'output_size'] if off else []
    if not fo:
        raise Broken('field output_size not found')
    fo = fo[0][1]
    for mode, mname in MODES:
        cfg = Config(unroll=0)
        cfg.nonneg = lambda k: k[0] in ('n', 'size')
        cfg.nonnull = lambda b: True
        cfg.facts = [P_sub(CYCN, ONE)]
        cfg.on_load = lambda base, o, sz, *a: P_atom(('size',)) if base == ('garbled_circuit',) and const_of(o) == fo else None
        cfg.readonly = NOISE | {'BN_bn2hex', 'BN_mask_bits', 'BN_rshift', 'BN_copy', 'BN_dup'}
        cfg.assume_success = False
        I = Interp(p, cfg)
        args = [P_const(mode) if 'mode' in a['name'] else Ptr((a['name'],)) if a['ty'] == 'ptr' else P_atom(('n', a['name'],)) for a in f['args']]
        fr = I.run(f, args, {})
        T = Text(p, I)
        key_ = '%s:%s' % (fn, mname)
        try:
            T.run(fr.events)
            got = T.str.get(STR)
            if got is None:
                raise Unknown('nothing is written to the result')
        except Unknown as ex:
            ctx.ob(False, key_ + ':understood', where, 'the printed text is built from known pieces', str(ex), group='formatter')
            continue
        ctx.count('formatter modes')
        got = sub_size(got, I, size, fo)
        if mode == 0 or (mode == 2 and low):
            ok, why = got == [('hex', ('outputs',))], text(got)
        elif mode == 2:
            ok, why = got == [expect(size, P_sub(CYCN, ONE))], text(got)
        else:
            r = per_cycle(got, size, I)
            ok, why = r is None, r
        ctx.ob(ok, key_ + ':text', where, {0: 'consecutive mode prints all bits as one number', 1: 'per-clock mode prints every executed cycle once, in order, one per line', 2: 'last-clock mode prints the last executed cycle'}[mode], why, group='formatter')
        ctx.ob(fr.ret is not None and const_of(as_P(fr.ret)) == 0, key_ + ':status', where, 'formatting reports success', show(fr.ret) if fr.ret else 'none', group='formatter')
        # the selftest: shifted text is told apart
        if mode == 1:
            bad = [x if x[0] != 'loop' else ('loop', x[1], x[2], [('hex', ('mask', shr(('outputs',), size), size))] + x[3][1:]) for x in got]
            ctx.selftest(per_cycle(bad, size, I) is not None, 'a wrong cycle is told apart')


def sub_size(ps, I, size, fo):
    """loads of the circuit's output size -> one symbol"""
    def P_(p):
        sub = {}
        for k in atoms_of(p):
            if k[0] == 'ld' and k[1] == ('garbled_circuit',) and const_of(k[3]) == fo:
                sub[k] = size
        return I.rebuild(p, sub) if sub else p
    def bn(v):
        return ('shr', bn(v[1]), P_(v[2])) if v[0] == 'shr' else ('mask', bn(v[1]), P_(v[2])) if v[0] == 'mask' else v
    def go(ps):
        return [('hex', bn(x[1])) if x[0] == 'hex' else ('if', x[1], go(x[2])) if x[0] == 'if' else ('loop', x[1], P_(x[2]), go(x[3])) if x[0] == 'loop' else x for x in ps]
    return go(ps)


def atoms_of(p):
    return [key(a) for m, c in p[1] for a in m]


# ---------------------------------------------------------------- the runs: what is printed, and where its bits are put
PLACE = ('printed', 'one loop', 'loops', 'all outputs', 'place', 'depends', 'decode', 'constant', 'session')


def session(job):
    low, noot = job
    res, nops, ncase = p10.session(job)
    keep = [r for r in res]
    nm = '%s/%s' % ('low' if low else 'high', 'noOT' if noot else 'OT')
    O_ = Out(p10._P, low, noot)
    for side, who in ((O_.G, 'garbler'), (O_.E, 'evaluator')):
        prn = [(e, st) for e, st in side.v.all if e.kind == 'call' and e.name in FMT]
        prints(lambda ok, k, w, r, d='': keep.append((bool(ok), nm + ':' + who + ':' + k, w, r, d)), prn, 'OutputBN2StrLowMem' if low else 'OutputBN2StrHighMem', side)
    O_ = Out(p11._P, low, noot, True)
    for side, who in ((O_.G, 'garbler'), (O_.E, 'evaluator')):
        counts(lambda ok, k, w, r, d='': keep.append((bool(ok), nm + ':' + who + ':' + k, w, r, d)), side)
    return keep, nops


def prints(ob, prn, want, side):
    ob(len(prn) == 1, 'print', prn[0][0].site if prn else side.v.where, 'the result is formatted once', len(prn))
    for e, st in prn:
        ob(e.name == want, 'formatter', e.site, 'the formatter matches the memory mode the outputs were collected in', e.name)
        g = B(e.guard)[1]
        ob(g == F1 and not st, 'always', e.site, 'a successful run always produces its text', showb(g)[:200])
        ob(as_P(e.args[3]) == P_atom(('output_mode',)), 'mode', e.site, 'the requested output mode is used', show(e.args[3]))
        ob(e.args[4] == Ptr(('strobj', 'output_str')) or 'str' in show(e.args[4]), 'result', e.site, 'the text goes to the caller\'s string', show(e.args[4]))


def counts(ob, side):
    I, cyc = side.I, side.v.cyc
    for e, st in side.v.all:
        if e.kind == 'call' and e.name in FMT:
            for h, want in ((True, CYC), (False, P_add(P_atom(('k', cyc.name)), ONE))):
                v = p11.resolve_count(I, as_P(e.args[2]), cyc, h)
                ob(v == want, 'count:%s' % ('all' if h else 'stopped'), e.site, 'as many cycles are printed as were executed', show(v)[:300])


def plain(_):
    res = []

    def ob(ok, k, where, rule, det=''):
        res.append((bool(ok), 'plain:plaintext:' + k, where, rule, det))
    nops = 0
    for term in (None, True):
        S = Session(_P, 'EvalauatePlaintextStr', extra_facts=(), terminate=term)
        side = Side(S, 'P')
        if term:
            counts(ob, side)
            continue
        O_ = Out.__new__(Out)
        O_.G = side; O_.F = {side: Flow(side)}; O_.recv = {}
        O_.E = side
        I = side.I
        side.outatoms = O_.outatoms(side)
        prn = [(e, st) for e, st in side.v.all if e.kind == 'call' and e.name in FMT]
        prints(ob, prn, 'OutputBN2StrHighMem', side)
        ops = [(e, st) for e, st in side.v.all if e.kind == 'call' and e.name in ('BN_set_bit', 'BN_clear_bit')]
        if not prn or not ops:
            raise Broken('plaintext: output decoding not found')
        nops = len(ops)
        ob(all(e.args[1] == ops[0][0].args[0] for e, _ in prn) and all(o.args[0] == ops[0][0].args[0] for o, _ in ops), 'printed', prn[0][0].site, 'the number that is printed is the one the outputs are collected in', show(prn[0][0].args[1]))
        for e, st in ops:
            ls, sub, names = O_.loops(side, st)
            ob(names == ['cycle', 'j'] and ls[1].info.trip == N['output'] and not ls[1].info.breaks, 'all outputs', e.site, 'every output of every cycle is collected', names)
            if names != ['cycle', 'j']:
                return res, nops
            ix = O_.norm(side, as_P(e.args[1]), st)
            ob(ix == P_add(P_mul(N['output'], CY), J), 'place', e.site, 'output i of cycle c is put at bit c*size+i', show(ix)[:200])
        val = ('val', P_atom(('outwire', P_scale(J, 8))))
        for kind, want in (('wire', None), (S.CZ, 0), (S.CO, 1)):
            cs = O_.case(kind)
            gs = []
            for e, st in ops:
                f = O_.norm(side, B(e.guard), st)
                gs.append(I.rebuild(f, cs)[1] if cs else f[1])
            bad = []
            odd = {show(P_atom(k))[:120] for g in gs for k in side.atoms(B(g), []) if k[0] in ('ld', 'rnd', 'cell')}
            ob(not odd, 'depends:%s' % kind, ops[0][0].site, 'a collected bit depends only on its output', sorted(odd)[:3])
            if odd:
                continue
            for r, asg in assignments(gs + ([I.b_eq0(P_atom(val))] if kind == 'wire' else []), I.rebuild, {val: (0, 1)}):
                v = asg.get(val) if want is None else want
                act = 'none'
                for (e, st), on in zip(ops, r):
                    if on:
                        act = 'set' if e.name == 'BN_set_bit' else 'clear'
                if (act == 'set') != bool(v):
                    bad.append('value %s -> %s' % (v, act))
            ob(not bad, 'value:%s' % kind, ops[0][0].site, 'the collected bit is the value of the output', bad[:4])
        O_.case('wire')
    return res, nops


def job(j):
    return plain(None) if j is None else session(j)


def run(ctx):
    global _P
    _P = p10._P = p11._P = gcmodel.prog()
    for r, n in pmap(job, [(l, n_) for l in (False, True) for n_ in (False, True)] + [None]):
        for ok, k, w, rule, det in r:
            ctx.ob(ok, k, w, rule, det, group=':'.join(k.split(':')[1:3]))
        ctx.count('bit operations', n)
    p = program(keep=list(FMT))
    for fn in FMT:
        formatter(ctx, p, fn, fn.endswith('LowMem'))
    ctx.functions |= {'GarbleStr', 'EvaluateStr', 'EvalauatePlaintextStr'} | set(FMT)
    ctx.assumptions = ['BN_rshift, BN_mask_bits and BN_bn2hex do what OpenSSL documents', 'output numbers are wires of the circuit or one of the two constants (well-formed SCD)']
    ctx.explanation = ('The formatters are interpreted abstractly for each of the three modes with symbolic cycle count and output size; numbers are tracked as shifted and masked terms of the collected outputs and the text as a '
                       'sequence of pieces, which must be the documented one. In the three runs (garbler, evaluator, plaintext) the position and value of every collected bit, the number that is printed, the mode and the executed cycle count are compared with the rule.')
