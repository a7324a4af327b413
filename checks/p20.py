"""P20  every heap object is released exactly once on the success path, by the deallocator of its allocator, and not used afterwards."""
from dom import *
from frontend import program, Broken
from runner import pmap
import own
from own import Own, analyse
from absint import walk

LEAF = ['OTSendBN', 'OTRecvBN', 'OTSend', 'OTRecv', 'OTExtSend', 'OTExtRecv', 'OTExtSendBN', 'OTExtRecvBN', 'SendBN', 'RecvBN', 'HashBN', 'BN_xor', 'BN_full_one', 'BN_invert', 'BlockToBN', 'BNToBlock']
KEEP = LEAF + ['SendData', 'RecvData', 'LogStream', 'DummyLogStream', 'RandomBlock', 'GarbleGate', 'EvalGate', 'GarbleEvalGateKnownValue', 'ReduceFanout', 'GateOperator', 'ReadSCD', 'RemoveGarbledCircuit',
               'AESSetEncryptKey', 'NumOfNonXor']
ROOTS = ['GarbleStr', 'EvaluateStr', 'EvalauatePlaintextStr'] + LEAF
EXEMPT_FILES = {'crypto/OT_main.cpp': 'demonstration program', 'util/log.cpp': 'log streams live as long as the process'}
_P = None


def sites(p):
    """every allocation and release instruction of the product: site -> function"""
    out = {}
    for fn, f in p.functions.items():
        for b in f['blocks']:
            for i in b:
                if i['op'] not in ('call', 'invoke') or not i.get('dbg'):
                    continue
                d = i['dbg'][0]
                if not d[0].startswith(('crypto', 'garbled_circuit', 'scd', 'tcpip', 'util')) or d[0].endswith('_test.cpp') or d[0] in EXEMPT_FILES:
                    continue
                nm, m = i.get('callee'), i.get('mangled')
                a = m in own.NEWS or nm in own.ALLOCS or nm in ('posix_memalign', 'malloc', 'calloc')
                r = m in own.DELS or nm in own.FREES or nm == 'free'
                if a or r:
                    out.setdefault(('%s:%d' % (d[0], d[1]), 'alloc' if a else 'release'), set()).update([fn] if len(i['dbg']) == 1 else [])
    return out


GH = ('circuit-of',)


def handlers(hold):
    """ReadSCD creates the circuit's arrays and RemoveGarbledCircuit releases them: together one object of a family of its own"""
    def read(fr, ins, mem, g, a):
        O = hold[0]
        fr.havoc(mem, a[1][1], fr.uid('scd'))
        q = O.alloc(fr, ins, mem, g, 'circuit')
        O.circ[a[1][1]] = q
        return ZERO

    def remove(fr, ins, mem, g, a):
        O = hold[0]
        q = O.circ.get(a[0][1]) if a[0][0] == 'Ptr' else None
        if q is not None:
            O.free(fr, ins, mem, g, q, 'circuit')
        return None
    return {'ReadSCD': read, 'RemoveGarbledCircuit': remove}


class Session(Own):
    def __init__(self, prog, root):
        self.circ = {}
        super().__init__(prog, root, readonly=set(LEAF), extra=handlers([self]))

    def touch(self, fr, p, ins, mem, g):
        b = p[1]
        if b[0] == 'ld' and b[1] in self.circ and ins.get('callee') != 'RemoveGarbledCircuit':
            p = self.circ[b[1]]                 # an array of the circuit
        super().touch(fr, p, ins, mem, g)


def _root(root):
    out = []

    def ob(ok, k, w, r, d=''):
        out.append((bool(ok), k, w, r, d))
    O = Session(_P, root)
    seen, cnt = analyse(O, ob, root + ':')
    if root in LEAF:
        callee(O, ob, root)
    hit = {}
    for e, st in walk(O.fr.events):
        if e.kind in ('alloc', 'free'):
            hit.setdefault(e.site.split(' ')[0], e.kind)
    return root, out, cnt, hit


def callee(O, ob, root):
    """a function called with arrays of the caller's objects leaves the arrays themselves alone"""
    bad = []
    n = 0
    for e, st in walk(O.fr.events):
        if e.kind == 'store' and e.name[0] == 'arg' or e.kind == 'store' and e.name[0] == 'ld':
            n += 1
            if e.args[1][0] == 'Ptr':
                bad.append(e.site)
    ob(not bad, root + ':arrays', bad[0] if bad else root, 'the objects the caller passed stay in place: no pointer of the caller is overwritten', bad)


# ---------------------------------------------------------------- the circuit's arrays
def leaves(I, v, g=F1):
    if v[0] == 'Ptr' and v[1][0] == 'pite':
        _, c, x, y = v[1]
        return leaves(I, x, band(g, c)) + leaves(I, y, band(g, bnot(c)))
    return [(v, g)]


def circuit(ob, p):
    fields = [(m[0], m[1]) for m in p.structs['GarbledCircuit'] if m[3] == 'ptr' or str(m[3]).endswith('*')]
    R = Own(p, 'ReadSCD'); D = Own(p, 'RemoveGarbledCircuit')
    a = R.args[1][1]; d = D.args[0][1]
    ok = R.I.b_eq0(as_P(R.fr.ret)) if R.fr.ret is not None and R.fr.ret[0] != 'Ptr' else F1
    frees = {}
    for e, st in walk(D.fr.events):
        if e.kind == 'free':
            b = e.args[0][1]
            off = const_of(b[3]) if b[0] == 'ld' and b[1] == d else None
            frees.setdefault(off, []).append((e, own.under(e, st, F1), bool([x for x in st if x.kind == 'loop'])))
    for n, off in fields:
        v = R.I.load(a, P_const(off), 'ptr', R.I.ver(R.mem, a))
        w = 'ReadSCD / RemoveGarbledCircuit: ' + n
        fam = set(); undef = []
        for x, g in leaves(R.I, v):
            g = band(g, ok)
            if g == F0 or x == NULL:
                continue
            if x[0] == 'Ptr' and x[1] in R.kind:
                fam.add(R.kind[x[1]])
                ob(x[2] == R.aoff[x[1]], 'circuit:%s:start' % n, w, 'the field holds the start of the array')
            else:
                undef.append(show(x))
        ob(not undef, 'circuit:%s:set' % n, w, 'after a successful read the field is a null pointer or an array of its own', undef)
        fr = frees.get(off, [])
        ob(len(fr) == 1 and not fr[0][2], 'circuit:%s:once' % n, w, 'the array is released exactly once', [e.site for e, _, _ in fr])
        for e, g, lp in fr:
            nul = {k: B(F0) for m in g for k in map(key, m) if k[0] == 'isnull' and k[1] == e.args[0]}
            g = D.I.rebuild(B(g), nul)[1] if nul else g
            ob(g == F1, 'circuit:%s:always' % n, e.site, 'the array is released whenever it exists', showb(g))
            ob(fam <= {e.name}, 'circuit:%s:match' % n, e.site, 'the array is released by the deallocator of its allocator', 'allocated by %s, released by %s' % (sorted(fam), e.name))
    esc = own.escapes(R)
    for e, st in walk(R.fr.events):
        if e.kind == 'alloc':
            hits = [1 for n, off in fields if any(x[0] == 'Ptr' and x[1] == e.ret[1] for x, g in leaves(R.I, R.I.load(a, P_const(off), 'ptr', R.I.ver(R.mem, a))))]
            ob(len(hits) == 1, 'circuit:kept:%s' % own.short(e.site), e.site, 'every array read is reachable through exactly one field of the circuit', len(hits))
    out = {}
    for O in (R, D):
        for e, st in walk(O.fr.events):
            if e.kind in ('alloc', 'free'):
                out[e.site.split(' ')[0]] = e.kind
    return out, len(fields)


def run(ctx):
    global _P
    p = _P = program(keep=KEEP)

    def ob(ok, key_, where, rule, detail='', group=None):
        return ctx.ob(bool(ok), key_, where, rule, detail, group=group)
    all_ = sites(p)
    hit, nf = circuit(ob, p)
    ctx.anchors(nf, 'arrays of a circuit')
    roots = [r for r in ROOTS]
    tot = {'allocations': 0, 'releases': 0, 'accesses': 0}

    def take(rs):
        for root, obs, cnt, h in pmap(_root, rs):
            ctx.functions.add(root)
            hit.update(h)
            for k in cnt:
                tot[k] += cnt[k]
            for o in obs:
                ob(*o)
    take(roots)
    # whatever the roots above do not reach is analysed on its own
    rest = sorted({f for (s, k), fs in all_.items() if s not in hit for f in fs})
    ctx.functions |= set(rest)
    if rest:
        take(rest)
    ctx.not_analysed = sorted(s for (s, k) in all_ if s not in hit)
    for n in ('allocations', 'releases', 'accesses'):
        ctx.anchors(tot[n], n + ' analysed (per calling context)')
    ctx.anchors(len(all_) - len(ctx.not_analysed), 'allocation and release sites in the source')
    ctx.assumptions += ['library calls succeed (the property is about the success path) and a CHECKed call that fails ends the operation',
                        'standard containers and streams release what they own', 'exempt: ' + '; '.join('%s (%s)' % x for x in sorted(EXEMPT_FILES.items()))]
    ctx.explanation = ('Every operation is interpreted over symbolic sizes; each allocation site is an arena with one life cell per object, releases and accesses are obligations on that cell, '
                       'and at the end of the scope that created an object its cell must be 0 unless the object is handed to the caller. Allocator and deallocator families must agree, and the arrays '
                       'of a circuit are matched field by field between ReadSCD and RemoveGarbledCircuit.')
