"""P18  every garbled gate uses tweaks no other gate of the run uses, the same at both parties, under the one session key."""
from dom import *
from gcmodel import *
import gcmodel
from view import *
from outview import *
from gateview import *
from frontend import program, Broken
from runner import pmap
import gates
from gates import TYPES, KR

CID, GID = ('sym', 'cid'), ('sym', 'gid')
LABS = {'a', 'b'}


def wide(v):
    """narrowing of an expression over the cycle or gate counter must not be taken as the identity"""
    return any(key(a)[0] in ('sym', 'k') for m, c in v[1] for a in m)


def split(I, k):
    """hashed block -> (set of label atoms, tweak lanes as ANF-free affine pair) or None"""
    labs = set(); tw = []
    for a, c in k[1]:
        if c != F1:
            return None
        kk = key(a)
        while kk[0] == 'lin' and len(kk[3][1]) == 1:
            kk = key(kk[3][1][0][0])        # a shifted label is still a function of that one label
        if kk[0] == 'sym':
            labs.add(kk[1])
        else:
            tw.append((a, c))
    tw = ('K', tuple(tw))
    lanes = [I.lane_of(tw, i) for i in (0, 1)]
    return None if None in lanes else (labs, tuple(lanes))


def affine(p):
    """{atom: coefficient}, constant   (None when not affine in the two counters)"""
    d = {}; c0 = 0
    for m, c in p[1]:
        if not m:
            c0 = c
        elif len(m) == 1 and key(m[0]) in (CID, GID):
            d[key(m[0])] = c
        else:
            return None
    return d, c0


def tweak(lanes):
    """-> (shape, operand constant) where shape is an injective map of (cycle, gate) leaving `stride` free values, or None"""
    f = [affine(x) for x in lanes]
    if None in f:
        return None
    for one, other, x, y in ((0, 1, CID, GID), (1, 0, CID, GID), (0, 1, GID, CID), (1, 0, GID, CID)):
        d, c0 = f[one]
        e, b = f[other]
        if d == {x: 1} and y in e and 1 <= e[y] <= 1 << 16:
            return (one, x[1], c0, tuple(sorted((k[1], v) for k, v in e.items()))), b, e[y]
    return None


def gate_part(_):
    p = program(keep=gates.KEEP)
    G = gates.Gate(p, exact=wide)
    res = []

    def ob(ok, k, where, rule, det=''):
        res.append((bool(ok), k, where, rule, str(det)[:400]))
    S, INV = G.SECRET, G.INV
    lab = lambda n: K_atom(('sym', n))
    gin = {'plain': ((lab('a'), K_xor(lab('a'), KR), S), (lab('b'), K_xor(lab('b'), KR), S)),
           'inverted first': ((K_xor(lab('a'), KR), lab('a'), INV), (lab('b'), K_xor(lab('b'), KR), S)),
           'inverted second': ((lab('a'), K_xor(lab('a'), KR), S), (K_xor(lab('b'), KR), lab('b'), INV)),
           'both inverted': ((K_xor(lab('a'), KR), lab('a'), INV), (K_xor(lab('b'), KR), lab('b'), INV))}
    shapes = {}; consts = {'a': {}, 'b': {}}; strides = set(); nhash = 0
    keys = {}
    for t in TYPES:
        for cn, (i0, i1) in gin.items():
            sides = {}
            for side in 'GE':
                if side == 'G':
                    try:
                        r = G.garble(t, i0, i1)
                    except Broken:
                        raise
                else:
                    tab = ((lab('t0'), lab('t1')), P_atom(GID)) if sides['G'] else None
                    r = G.eval(t, (lab('a'), i0[2]), (lab('b'), i1[2]), tab)
                hs = {}
                for kid, v, site in r['hashes']:
                    nhash += 1
                    s = split(r['I'], v)
                    w = '%s' % site
                    if s is None or len(s[0] - {'R'}) != 1 or not s[0] - {'R'} <= LABS:
                        ob(False, 'hash:%s:%s' % (t, side), w, 'each hash input is one operand label combined with one public tweak', show(v)); continue
                    op = next(iter(s[0] - {'R'}))
                    tw = tweak(s[1])
                    ob(tw is not None, 'tweak:%s:%s:%s' % (t, side, op), w, 'the tweak is an injective function of cycle and gate number (full width)', '%s, %s' % tuple(show(x) for x in s[1]))
                    keys.setdefault(kid, w)
                    if tw is None:
                        continue
                    shapes.setdefault(tw[0], w); consts[op].setdefault(tw[1], w); strides.add(tw[2])
                    hs.setdefault(op, set()).add((frozenset(s[0]), s[1]))
                sides[side] = hs
            if sides['G'] or sides['E']:
                g, e = sides['G'], sides['E']
                ob({k: {x[1] for x in v} for k, v in g.items()} == {k: {x[1] for x in v} for k, v in e.items()}, 'agree:%s:%s' % (t, cn),
                   'GarbleGate <-> EvalGate', 'both parties hash each operand under the same tweak', '%s / %s' % (sorted(g), sorted(e)))
                ob(all(len({x[0] for x in v}) == 2 for v in g.values()) and set(g) == LABS, 'halves:%s:%s' % (t, cn), 'GarbleGate', 'the garbler hashes both labels of both operands', {k: len(v) for k, v in g.items()})
    ob(nhash >= 8, 'anchors', 'GarbleGate', 'hash calls were found', nhash)
    ob(len(shapes) == 1, 'one-map', ' / '.join(shapes.values())[:300], 'all gate types and both parties use the same tweak map', sorted(map(str, shapes)))
    ob(len(keys) == 1, 'key', ' / '.join(keys.values())[:300], 'every hash uses the key schedule passed to the gate', sorted(map(str, keys)))
    for op in LABS:
        ob(len(consts[op]) == 1, 'constant:' + op, ' / '.join(consts[op].values())[:300], 'an operand position has one tweak constant', sorted(consts[op]))
    if len(consts['a']) == 1 == len(consts['b']) and len(strides) == 1:
        a, b, s = next(iter(consts['a'])), next(iter(consts['b'])), next(iter(strides))
        ob((a - b) % s != 0, 'operands-differ', next(iter(consts['a'].values())), 'the two operand positions never share a tweak, also across gates', 'constants %d and %d, stride %d' % (a, b, s))
    return res


def session_part(low):
    res = []
    nm = 'low' if low else 'high'

    def ob(ok, k, where, rule, det=''):
        res.append((bool(ok), nm + ':' + k, where, rule, str(det)[:600]))
    O_ = Out(_P, low, False, exact=wide)
    ob(O_.dual, 'session', 'GarbleStr <-> EvaluateStr', 'the two sessions exchange matching messages', O_.err)
    keyblk = {}
    for s, prim in ((O_.G, 'GarbleGate'), (O_.E, 'EvalGate')):
        v = s.v
        sets = [(e, st) for e, st in v.all if e.kind == 'call' and e.name == 'AESSetEncryptKey']
        ob(len(sets) == 1 and not [x for x in sets[0][1] if x.kind == 'loop'] and sets[0][0].guard == F1, s.letter + ':one-key', v.cyc.site, 'the key schedule is set up once per session', [e.site for e, st in sets])
        calls = [c for c in gate_calls(v) if c.e.name == prim]
        ob(len(calls) >= 1, s.letter + ':anchors', v.cyc.site, 'garbled gate calls were found', len(calls))
        for c in calls:
            w = c.e.site
            ob(as_P(c.a['cid']) == P_atom(('k', v.cname)), prim + ':cid', w, 'the tweak cycle is the cycle counter', show(as_P(c.a['cid'])))
            ob(as_P(c.a['gid']) == c.k, prim + ':gid', w, 'the tweak gate number is the gate counter', show(as_P(c.a['gid'])))
            gl = c.loop
            ob(gl.info.trip == N['gate'], prim + ':range', w, 'the gate counter runs over the gates', show(gl.info.trip) if gl.info.trip else None)
            for l in (v.cyc, gl):
                wd = [ty for i, ty in l.info.phity.items() if l.info.phis[i][1] == ('aff', ONE)]
                ob(wd and all(t == 'i64' for t in wd[:1]) or not wd, prim + ':width', l.site, 'the counter does not wrap below its range', wd)
            k = c.content(c.a['key'], '<2 x i64>')
            kk = key(k[1][0][0]) if k[0] == 'K' and len(k[1]) == 1 and k[1][0][1] == F1 else ('?',)
            ob(kk[0] == 'keysched' and const_of(kk[2]) == 128, prim + ':key', w, 'gates use the unmodified key schedule of the session key', show(k))
            if kk[0] == 'keysched':
                keyblk.setdefault(prim, set()).add(O_.norm(s, kk[1], ()) if O_.dual else kk[1])
    if O_.dual:
        g, e = keyblk.get('GarbleGate', set()), keyblk.get('EvalGate', set())
        ob(g == e and len(g) == 1, 'same-key', 'GarbleStr <-> EvaluateStr', 'both parties use the same key', '%s / %s' % ([show(x) for x in g], [show(x) for x in e]))
        for x in g:
            a = key(x[1][0][0]) if x[0] == 'K' and len(x[1]) == 1 and x[1][0][1] == F1 else ('?',)
            ob(a[0] == 'rnd' and len(a) > 2 and a[2] == (), 'random-key', 'GarbleStr', 'the key is one fresh random block per session', show(x))
    return res


def run(ctx):
    global _P
    _P = gcmodel.prog()
    for fn, jobs in ((gate_part, (0,)), (session_part, (False, True))):
        for r in pmap(fn, jobs):
            for ok, k, w, rule, det in r:
                ctx.ob(ok, k, w, rule, det, group=k.split(':')[1] if k.split(':')[0] in ('low', 'high') else k.split(':')[0])
    ctx.functions |= {'GarbleGate', 'EvalGate', 'GarbleStr', 'EvaluateStr', 'AESSetEncryptKey'}
    ctx.explanation = ('Every hash call of one generic gate (all types, all combinations of plain and inverted secret operands) is extracted from both parties in normal form; its input must be one operand label xor one tweak whose two lanes are an injective affine map of cycle and gate number '
                       'with distinct residues per operand position; the session analysis then shows which counters and which key schedule each call receives.')
