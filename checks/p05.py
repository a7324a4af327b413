"""P05  only selected labels and masked data leave the garbler."""
import itertools
from dom import *
from gcmodel import *
import gcmodel, gates
from view import *
from duality import *
from outview import *
import p13
from p13 import bsimp
from gates import TYPES, KR, RK
from frontend import program, Broken
from runner import pmap

PUBLIC = ('n', 'k', 'out', 'exit', 'ge0', 'eq0', 'ld', 'arr', 'phi', 'ite', 'b2i', 'idx', 'cycle')


# ------------------------------------------------------------------ what one garbled gate reveals
class Known:
    """linear span of values the evaluator knows, closed under the (public, invertible) block cipher and under lane shifts"""
    def __init__(self):
        self.rows = {}

    def red(self, v):
        v = frozenset(v)
        while v:
            p = max(v)
            r = self.rows.get(p)
            if r is None:
                return v, p
            v = v ^ r
        return v, None

    def add(self, v):
        v, p = self.red(v)
        if p is None:
            return False
        self.rows[p] = v
        return True

    def has(self, v):
        return not self.red(v)[0]

    def within(self, allowed):
        """a nonzero vector of the span that only uses the allowed coordinates, or None (gaussian elimination on the others)"""
        basis = {}
        for r in self.rows.values():
            v = r
            while True:
                o = [x for x in v if x not in allowed]
                if not o:
                    break
                p = max(o)
                if p not in basis:
                    basis[p] = v
                    v = None
                    break
                v = v ^ basis[p]
            if v:
                return v
        return None


def inner(k):
    d = 0
    while k[0] == 'lin' and len(k[3][1]) == 1:
        k = key(k[3][1][0][0]); d += 1
    return k, d


def vec(kv, asg):
    """block -> set of secret coordinates under an assignment of the boolean atoms (tweaks and constants are public)"""
    out = set()
    for a, c in kv[1]:
        for b, x in asg.items():
            c = anf_set(c, b, x)
        if c not in (F0, F1):
            return None
        if c == F1:
            k = inner(key(a))[0]
            if k[0] in ('vl', 'cblk'):
                continue
            out ^= {a}
    return out


def batoms(kv, acc):
    for a, c in kv[1]:
        for m in c:
            acc |= set(m)
        k = key(a)
        if k[0] == 'aes':
            batoms(k[2], acc)
        if k[0] == 'lin':
            batoms(k[3], acc)


def gate(job):
    typ, c0, c1 = job
    G = _G
    S, INV = G.SECRET, G.INV
    res = []
    base = [K_atom(('sym', 'base0')), K_atom(('sym', 'base1'))]
    fl = [1 if c == 'inv' else 0 for c in (c0, c1)]
    gin = []
    for i in (0, 1):
        l = [base[i], K_xor(base[i], KR)]
        if fl[i]:
            l.reverse()
        gin.append((l[0], l[1], INV if fl[i] else S))
    r = G.garble(typ, gin[0], gin[1])
    n = const_of(P_sub(r['ind'], P_atom(('sym', 'ind'))))
    nm = '%s:%s,%s' % (typ, c0, c1)

    def ob(ok, k, where, rule, det=''):
        res.append((bool(ok), '%s:%s' % (k, nm), where, rule, str(det)[:700]))
    ob(not r['outside'], 'row:nothing else', 'GarbleGate', 'nothing but the two rows and the gate number is written to the table that is sent', [show(x) for x in r['outside']])
    if n == 0 or not r['touched']:
        return res, 0
    tk = r['tgid']
    okg = all(key(a) == ('sym', 'gid') for m, c in tk[1] for a in m) if tk[0] == 'P' else False
    ob(okg, 'row:gate number', 'GarbleGate', 'the plain field of a table is the public gate number', show(tk))
    rows = r['rows']
    if any(x[0] != 'K' for x in rows):
        ob(False, 'row:form', 'GarbleGate', 'table rows are blocks', [show(x) for x in rows]); return res, 0
    bs = set()
    for x in rows:
        batoms(x, bs)
    odd = [b for b in bs if key(b)[0] != 'lsb']
    if odd or len(bs) > 6:
        ob(False, 'row:conditions', 'GarbleGate', 'rows depend on label bits only', [show(P_atom(key(b))) for b in odd]); return res, 0
    cases = 0
    bad = None
    hidden = None
    for vals in itertools.product((False, True), repeat=len(bs)):
        asg = dict(zip(sorted(bs), vals))
        for a, b in itertools.product((0, 1), repeat=2):
            if typ == 'NOT' and b:
                continue
            cases += 1
            K_ = Known()
            for v in [gin[0][a], gin[1][b]] + rows:
                K_.add(vec(v, asg))
            # atoms in play
            atoms = set()
            todo = list(rows) + [gin[0][0], gin[0][1], gin[1][0], gin[1][1]]
            while todo:
                v = todo.pop()
                for x, _ in v[1]:
                    if x not in atoms:
                        atoms.add(x)
                        k = key(x)
                        if k[0] == 'aes':
                            todo.append(k[2])
                        if k[0] == 'lin':
                            todo.append(k[3])
            aes = [x for x in atoms if key(x)[0] == 'aes']
            lins = [x for x in atoms if key(x)[0] == 'lin']
            ops = {key(x)[1:3] for x in lins}
            changed = True
            while changed:
                changed = False
                for x in aes:
                    iv = vec(key(x)[2], asg)
                    if iv is None:
                        continue
                    if K_.has(iv) and not K_.has({x}):
                        K_.add({x}); changed = True
                    elif K_.has({x}) and not K_.has(iv):
                        K_.add(iv); changed = True
                for v in list(K_.rows.values()):
                    ks = [key(x) for x in v]
                    if all(k[0] == 'sym' for k in ks):
                        for op in ops:
                            w = {A(('lin',) + op + (K_atom(k),)) for k in ks}
                            changed |= K_.add(w)
                    elif all(k[0] == 'lin' and inner(k)[1] == 1 for k in ks) and len({k[1:3] for k in ks}) == 1:
                        changed |= K_.add({A(inner(k)[0]) for k in ks})
            sec = {x for x in atoms if inner(key(x))[0] == RK} | {A(RK)}
            w = K_.within(sec)
            if w and bad is None:
                bad = 'bits a=%d b=%d, %s: %s is known' % (a, b, ', '.join('%s=%d' % (show(P_atom(key(x))), y) for x, y in asg.items()), ' ^ '.join(sorted(show(K_atom(key(x))) for x in w)))
    ob(bad is None, 'row:offset', 'GarbleGate', 'from one label of each input, the session key and the table the evaluator cannot compute the global offset (linear span, cipher invertible)', bad)
    return res, cases


# ------------------------------------------------------------------ what the sessions send
def session(job):
    low = job
    res = []
    nm = 'low' if low else 'high'

    def ob(ok, k, where, rule, det=''):
        res.append((bool(ok), nm + ':' + k, where, rule, str(det)[:700]))
    p13._P = _P
    used = []
    r13 = p13.session((low, False), used)[0]
    # p13's own failures are repeated here only where they say that something else than the selected label was sent
    for ok, k, w, rule, det in r13:
        part = k.split(':') + ['', '']
        if part[2] in ('fresh', 'always sent', 'label', 'origin', 'unmatched', 'evaluator wire', 'transfer unmatched') or 'message' in k or 'choice' in k:
            ob(ok, 'selected:' + ':'.join(part[1:-2]), w, rule, det)
    matched = {}
    for kind, cls, gs, side in used:
        for g in gs:
            matched.setdefault((g.e.site, g.kind), []).append((cls, g, side))
    O_ = Out(_P, low, False)
    nsend = 0
    for side, who in ((O_.G, 'garbler'), (O_.E, 'evaluator')):
        I = side.I; v = side.v
        labels = [(e, st) for e, st in v.all if e.kind == 'call' and e.name in COMM and COMM[e.name][0] == 'S']
        ob(bool(labels), who + ':anchor', v.where, 'send sites were found', len(labels))
        keyatoms = set()
        for e, st in labels:
            nsend += 1
            l = Leaf(side, e, st)
            where = e.site
            loops = [s for s in st if s.kind == 'loop']
            if l.kind in ('ot', 'otx'):
                if who == 'evaluator':
                    ob(False, who + ':send', where, 'the evaluator never acts as the sender of a transfer', show(P_atom(('site',)))); continue
                ms = matched.get((e.site, l.kind), [])
                ob(bool(ms), who + ':transfer', where, 'every transfer carries the label pairs of evaluator inputs', 'transfer not matched to an input class')
                if ms:
                    want = ZERO
                    for c, g, s in ms:
                        n = N[c]
                        if c.endswith('input') and not low:
                            n = P_mul(n, CYC)
                        want = P_add(want, n)
                    ln = as_P(e.args[1])
                    ob(ln == want, who + ':transfer length', where, 'a transfer carries exactly the labels of the evaluator\'s inputs', 'expected %s got %s' % (show(want), show(ln)))
                    ob(all(c.startswith('e_') for c, g, s in ms), who + ':transfer class', where, 'only evaluator inputs are transferred', sorted({c for c, g, s in ms}))
                continue
            if l.kind != 'data':
                ob(False, who + ':send', where, 'every message is a known kind', l.kind); continue
            n = const_of(l.len)
            c = l.content
            if n == 16 and who == 'garbler':
                if c is not None and c[0] == 'K' and len(c[1]) == 1 and c[1][0][1] == F1 and key(c[1][0][0])[0] == 'rnd':
                    keyatoms.add(c[1][0][0])
                    ob(not loops, who + ':session key', where, 'the session key is sent once', len(loops))
                    continue
                ms = matched.get((e.site, l.kind), [])
                ob(bool(ms), who + ':label', where, 'every 16-byte value is the label of one input bit', 'sends %s, which is no input label' % show(c)[:300])
                if not ms:
                    continue
                ob(all(x.startswith('g_') for x, g, s in ms), who + ':label class', where, 'only the garbler\'s inputs are sent as labels', sorted({x for x, g, s in ms}))
                for x, g, s in ms:
                    tr = [z.info.trip for z in loops]
                    inloop = [z for z in loops if z.name != v.cname]
                    want = [N[x]] if x.endswith('init') else [CYC, N[x]]
                    ob([t for t in tr] == want and not any(z.info.breaks for z in inloop), who + ':label count', where, 'exactly one message per input bit', 'expected %s got %s' % ([show(t) for t in want], [show(t) if t else None for t in tr]))
                continue
            if n == 8 and who == 'garbler':
                k = atom_of(c) if c is not None and c[0] == 'P' else None
                ob(counter(k) is not None, who + ':count', where, 'the 8-byte message is the number of tables', show(c)[:200] if c else None)
                if counter(k) is not None:
                    cnt = counter(k)
                    cp = [x for x, _ in v.all if x.kind == 'copy' and x.args[0][1][0] == 'new' and any(key(a)[:len(cnt)] == cnt for m, _c in x.args[0][2][1] for a in m)]
                    ob(bool(cp), who + ':count', where, 'the number that is sent counts the tables that were kept', show(c)[:200])
                continue
            if n == 2:
                O_.case('wire')
                x = O_.norm(side, c, st); g = O_.norm(side, B(e.guard), st)[1]
                letter = side.letter
                tl = low1_of(I, x, g)
                mask = ('bit', as_P(O('hex', ('cstr', ('str', 'mask')))), J)
                ab = next(iter(next(iter(batom(mask)))))
                if tl == ('lsb', ('lab' + letter, 0, P_atom(('outwire', P_scale(J, 8))))):
                    mine = band(g, batom(mask)) if who == 'garbler' else anf_set(g, ab, False)
                    ob(bsimp(mine) == F0, who + ':colour', where, 'the colour of an output is sent only to the party the mask assigns it to', 'also sent when %s' % showb(bsimp(mine))[:400])
                elif tl == ('lsb', ('lab' + letter, 0, TERM)):
                    per = next(iter(next(iter(batom(('eq0', P_atom(('period',))))))))
                    tid = next(iter(next(iter(batom(('ge0', P_sub(TERM, ONE)))))))
                    none = anf_set(g, tid, False)
                    ob(bsimp(none) == F0, who + ':termination', where, 'the termination colour is sent only when the circuit has a termination wire', showb(bsimp(none))[:300])
                    off = anf_set(g, per, True)
                    ob(bsimp(off) == F0, who + ':termination', where, 'the termination colour is sent only when checking is enabled', showb(bsimp(off))[:300])
                    modk = [a for m in g for a in m if key(a)[0] == 'eq0' and any(key(b)[0] == 'mod' for mm, _ in key(a)[1][1] for b in mm)]
                    ob(bool(modk) and all(bsimp(anf_set(g, a, False)) == F0 for a in set(modk)), who + ':termination', where, 'the termination colour is sent only in cycles that check it', showb(g)[:300])
                else:
                    ob(False, who + ':short', where, 'a short message is the colour of an output or of the termination wire', show(x)[:400])
                continue
            if who == 'garbler' and c is None and l.ptr[0] == 'Ptr' and l.ptr[1][0] == 'new':
                tables(ob, v, e, l, where)
                continue
            ob(False, who + ':other', where, 'every message is a session key, a selected label, a table, or a colour', 'length %s' % show(l.len)[:200])
        if who == 'garbler':
            ob(len(keyatoms) == 1, 'session key', v.where, 'one session key is sent', len(keyatoms))
            gg = [(e, st) for e, st in v.all if e.kind == 'call' and e.name == 'GarbleGate']
            ob(bool(gg), 'anchor:gates', v.where, 'gates are garbled', len(gg))
            R = {k for e, st in gg for k in [e.args[9]]}
            for kx in keyatoms:
                kk = key(kx)
                ob(not any(View.atoms_in(x, lambda z: z == kk) for x in R), 'session key:offset', gg[0][0].site, 'the session key that is sent has nothing to do with the global offset', '')
                bad = [e.site for e, st in v.all if e.kind == 'store' and isinstance(e.args[1], tuple) and e.args[1][0] == 'K' and View.atoms_in(e.args[1], lambda z: z == kk)]
                ob(not bad, 'session key:labels', v.where, 'the session key that is sent is no label', bad[:3])
    # evaluator: transfers are the only use of its inputs on the wire
    return res, nsend


def low1_of(I, x, g):
    """token of the low bit that is sent, under the guard of the send"""
    for _ in range(4):
        k = atom_of(x) if x[0] == 'P' else None
        if x[0] == 'B' and len(x[1]) == 1 and len(next(iter(x[1]))) == 1:
            k = key(next(iter(next(iter(x[1])))))
        if k is None:
            return None
        if k[0] in ('lsb', 'low1'):
            x = B(batom(k))
        if k[0] == 'lsb':
            return k
        # resolve conditions the guard decides
        sub = {}

        acc = []
        deep(x, acc)
        for f in acc:
            for m in f if isinstance(f, frozenset) else ():
                for a in m:
                    if bsimp(anf_set(g, a, False)) == F0:
                        sub[key(a)] = B(F1)
                    elif bsimp(anf_set(g, a, True)) == F0:
                        sub[key(a)] = B(F0)
        if not sub:
            return None
        x = I.rebuild(x, sub)
    return None


def deep(x, acc):
    """all conditions of conditional values inside x"""
    seen = set()

    def go(y):
        if isinstance(y, (str, bool)) or y is None:
            return
        if isinstance(y, int):
            return
        if y in seen:
            return
        seen.add(y)
        if isinstance(y, frozenset):
            for m in y:
                for a in m:
                    if isinstance(a, int):
                        go(key(a))
            return
        if isinstance(y, tuple):
            if y and y[0] == 'P':
                for m, _ in y[1]:
                    for a in m:
                        go(key(a))
                return
            if y and y[0] == 'K':
                for a, c in y[1]:
                    go(key(a)); go(c)
                return
            if len(y) >= 4 and y[0] == 'ite':
                acc.append(y[1])
            if len(y) >= 5 and y[0] == 'O' and y[1] == 'ite':
                acc.append(y[2])
            for z in y:
                go(z)
    go(x)


def counter(k):
    """prefix of the atoms that stand for the running value of the counter whose final value is atom key k"""
    if k is None:
        return None
    if k[0] == 'ld' and k[1][0] == 'alloca':
        return k[:2]
    if k[0] == 'phiout':
        return ('phi',) + tuple(k[1:3])
    return None


def tables(ob, v, e, l, where):
    """the table message: only tables garbled by GarbleGate, in memory that was cleared"""
    def cleared(b):
        al = [x for x, _ in v.all if x.kind == 'alloc' and x.ret == b]
        st = [x for x, s in v.all if x.kind == 'set' and x.name == b and x.guard == F1 and not [y for y in s if y.kind == 'loop'] and x.args[0][2] == ZERO and const_of(as_P(x.args[1])) == 0]
        if any(x.name == 'calloc' for x in al):
            return True
        want = set()
        for x in al:
            want.add(as_P(x.args[0]))
            products(x.args[0], want)
        return bool(al) and any(as_P(x.args[2]) in want for x in st)
    buf = l.ptr[1]
    ob(l.ptr[2] == ZERO, 'tables', where, 'tables are sent from the start of the buffer', show(l.ptr))
    ks = [key(a) for m, _ in l.len[1] for a in m]
    ob(len(l.len[1]) == 1 and l.len[1][0][1] == 48 and len(ks) == 1 and counter(ks[0]) is not None, 'tables', where, 'the message has the counted number of tables', show(l.len)[:200])
    ob(cleared(buf), 'tables:cleared', where, 'the buffer that is sent is cleared before use (unused bytes of a table carry no earlier memory contents)', show(l.ptr))
    gg = {x.args[i][1] for x, _ in v.all if x.kind == 'call' and x.name == 'GarbleGate' for i in (7,) if x.args[i][0] == 'Ptr'}
    nw = 0
    for x, st in v.all:
        if x.kind in ('store', 'copy', 'set', 'call') and x is not e:
            tgt = None
            if x.kind in ('store', 'copy') and x.args[0][0] == 'Ptr':
                tgt = x.args[0][1]
            if x.kind == 'call' and x.name not in ('GarbleGate', 'SendData', 'RemoveGarbledCircuit'):
                for a in x.args:
                    if isinstance(a, tuple) and a[0] == 'Ptr' and (a[1] == buf or a[1] in gg):
                        ob(False, 'tables:writer', x.site, 'only garbling writes tables', x.name)
            if tgt == buf or tgt in gg:
                nw += 1
                if tgt == buf and x.kind == 'copy':
                    src = x.args[1]
                    ob(src[0] == 'Ptr' and src[1] in gg and const_of(as_P(x.args[2])) == 48, 'tables:writer', x.site, 'the buffer that is sent holds copies of garbled tables', show(src)[:200])
                    ob(src[0] == 'Ptr' and cleared(src[1]), 'tables:cleared', x.site, 'tables are garbled into cleared memory', show(src)[:200])
                    odd = set()
                    secret(B(x.guard), v, odd)
                    ob(not odd, 'tables:kept', x.site, 'which tables are kept does not depend on labels or private inputs', sorted(odd)[:3])
                else:
                    ob(False, 'tables:writer', x.site, 'only garbling writes tables', x.kind)
    if buf not in gg:
        ob(nw > 0, 'tables:writer', where, 'the copies into the sent buffer were found', nw)


def products(x, want):
    """the size products (with overflow check) an allocation size is made of"""
    if isinstance(x, tuple) and x:
        if x[0] == 'P':
            for m, _ in x[1]:
                for a in m:
                    products(key(a), want)
            return
        if x[0] == 'O' and x[1] == 'llvm.umul.with.overflow.i64':
            want.add(P_mul(as_P(x[2]), as_P(x[3])))
        for y in x:
            products(y, want)


def secret(x, v, odd):
    def f(k):
        if k[0] == 'ld' and k[1] == v.W:
            odd.add('label array')
        if k[0] in ('rnd', 'bit', 'lsb', 'aes', 'gout'):
            odd.add(k[0])
        return False
    View.atoms_in(x, f)


def job(x):
    return ('gate',) + gate(x[1:]) if x[0] == 'gate' else ('session',) + session(x[1])


def run(ctx):
    global _P, _G
    _P = gcmodel.prog()
    p = program(keep=gates.KEEP)
    _G = gates.Gate(p)
    jobs = [('session', False), ('session', True)] + [('gate', t, a, b) for t in TYPES for a in ('sec', 'inv') for b in ('sec', 'inv')]
    for kind, r, n in pmap(job, jobs):
        for ok, k, w, rule, det in r:
            if w == 'GarbleGate':
                f = p.fn(w)
                w = '%s:%s (%s)' % (f.get('file'), f.get('line'), w)
            ctx.ob(ok, k, w, rule, det, group=':'.join(k.split(':')[:3]) if kind == 'session' else ':'.join(k.split(':')[:2]))
        ctx.count('send sites' if kind == 'session' else 'gate/bit cases', n)
    ctx.functions |= {'GarbleStr', 'EvaluateStr', 'GarbleGate'}
    ctx.assumptions = ['the session key is public and the block cipher is invertible under it; otherwise the cipher is an arbitrary function', 'gates of one run use different tweaks (P18)', 'transfer messages hide the message that was not chosen (P06)']
    ctx.explanation = ('Every send site of both sessions is enumerated in the abstract run (transfer on, both memory modes) and its payload classified by its normal form: session key, the label an input bit selects (paired with the evaluator\'s wire, exclusive alternatives, trip count equal to the number of input bits), label pairs inside transfers, '
                       'table count, tables (buffer cleared, written only by copies of tables produced by the gate routine), colours (guard excludes the mask bit of the sender). Anything else is a violation. '
                       'For every gate type and inversion class, the linear span of the labels, table rows and cipher outputs an evaluator can compute is closed and must not contain the global offset.')
