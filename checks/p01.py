"""P01  garbled-gate correctness: for every gate type, every public/secret class of the two inputs, every
relation between the two input wires and every actual input bit, the evaluator's result is the garbler's
label of the gate function (or both parties hold the same public value)."""
import itertools
from dom import *
import gates
from gates import TYPES, KR, RK
from frontend import program, Broken
from runner import pmap

BA, BB = ('sym', 'base0'), ('sym', 'base1')


def lab(base, n):
    k = K_atom(base)
    return K_xor(k, KR) if n else k


def strip(v):
    """split K into (coefficient-of-R, rest)"""
    return dict(v[1]).get(A(RK), F0), K({a: c for a, c in v[1] if a != A(RK)})


def case(job):
    typ, c0, c1, rel = job
    G = _G
    f = TYPES[typ]
    res = []
    SEC, INV = G.SECRET, G.INV
    gid = '%s/%s/%s/%s' % (typ, c0, c1, rel)

    def ob(ok, what, where, rule, detail=''):
        res.append((ok, '%s:%s:%s' % (where.split(' ')[0], what, gid), where, rule, detail))

    base = [BA, BA if rel == 'same' else BB]
    cls = [c0, c1]
    flag = [1 if c == 'inv' else 0 for c in cls]
    sec = [c in ('sec', 'inv') for c in cls]
    gin = []
    for i in (0, 1):
        if sec[i]:
            gin.append((lab(base[i], flag[i]), lab(base[i], 1 - flag[i]), SEC))
        else:
            gin.append((K_atom(('sym', 'junk%d' % i)), K_atom(('sym', 'junk%d_' % i)), int(cls[i])))
    g = G.garble(typ, gin[0], gin[1])
    gv = const_of(as_P(g['val']))
    ob(gv is not None, 'value', 'GarbleGate', 'the garbler classifies the output as public 0/1 or secret', show(g['val']))
    if gv is None:
        return res
    # the reachable actual bits
    dom = []
    for a, b in itertools.product((0, 1), (0, 1)):
        if not sec[0] and a != int(cls[0]):
            continue
        if not sec[1] and b != int(cls[1]):
            continue
        if rel == 'same' and (a ^ flag[0]) != (b ^ flag[1]):
            continue
        dom.append((a, b))
    outs = {f(a, b) for a, b in dom}
    gsec = gv in (SEC, INV)
    if gsec:
        ob(K_xor(g['lab'][0], g['lab'][1]) == KR, 'offset', 'GarbleGate', 'the two output labels differ by the global offset',
           show(K_xor(g['lab'][0], g['lab'][1])))
        ob(any(key(a)[0] in ('sym', 'aes') and key(a) != RK for a, _ in g['lab'][0][1]), 'nonzero', 'GarbleGate', 'a secret output has a non-trivial label', show(g['lab'][0]))
    else:
        ob(gv in (0, 1) and outs == {gv}, 'public', 'GarbleGate', 'a public output equals the gate function for all reachable inputs',
           'public %s, gate function %s' % (gv, sorted(outs)))
    wrote = g['touched']
    indg = P_sub(g['ind'], P_atom(('sym', 'ind')))
    n = const_of(indg)
    ob(n in (0, 1) and wrote == (n == 1) and g['chain_ok'] and not g['outside'], 'table', 'GarbleGate',
       'a table row is written exactly when the table counter advances by one, at the slot of the counter',
       'counter +%s written=%s outside=%s' % (show(indg), wrote, [show(x) for x in g['outside']]))
    if n == 1:
        ob(g['tgid'] == P_atom(('sym', 'gid')), 'gid', 'GarbleGate', 'the table carries the gate id the evaluator looks for', show(g['tgid']))
    if not (sec[0] and sec[1]):
        ob(n == 0, 'free', 'GarbleGate', 'a gate with a public input costs no table', show(indg))
    tbl = (g['rows'], P_atom(('sym', 'gid'))) if n == 1 else None
    for a, b in dom:
        ein = []
        for i, x in ((0, a), (1, b)):
            if sec[i]:
                ein.append((gin[i][x], (INV if flag[i] else SEC)))
            else:
                ein.append((K_atom(('sym', 'ejunk%d' % i)), int(cls[i])))
        e = G.eval(typ, ein[0], ein[1], tbl)
        w = 'EvalGate'
        ev = const_of(as_P(e['val']))
        k = 'bits%d%d' % (a, b)
        en = const_of(P_sub(e['ind'], P_atom(('sym', 'ind'))))
        ob(en == n, 'consume:' + k, w, 'the evaluator consumes a table exactly when the garbler produces one', 'garbler +%s evaluator +%s' % (n, en))
        if not gsec:
            ob(ev == gv, 'value:' + k, w, 'both parties hold the same public output', 'garbler %s evaluator %s' % (gv, show(e['val'])))
            continue
        ob(ev in (SEC, INV), 'class:' + k, w, 'the evaluator classifies the output as secret when the garbler does', show(e['val']))
        want = g['lab'][f(a, b)]
        ob(e['lab'][0] == want, 'label:' + k, w, 'the evaluated label is the garbler\'s label of the gate function value',
           'expected %s\n got %s' % (show(want), show(e['lab'][0])))
        # the relative-inversion flag keeps the evaluator's "same wire / inverted wire" test in step with the garbler's
        ef = 1 if ev == INV else 0
        canon = K_xor(g['lab'][0], KR) if ef else g['lab'][0]
        if n == 0:
            r, rest = strip(canon)
            ob(r == F0, 'flag:' + k, w, 'the inversion flag equals the inversion of the label relative to its base wires', show(canon))
    return res


def run(ctx):
    global _G
    p = program(keep=gates.KEEP)
    _G = gates.Gate(p)
    jobs = []
    for typ in TYPES:
        for c0 in ('0', '1', 'sec', 'inv'):
            for c1 in ('0', '1', 'sec', 'inv'):
                for rel in ('generic', 'same'):
                    if rel == 'same' and not (c0 in ('sec', 'inv') and c1 in ('sec', 'inv')):
                        continue
                    jobs.append((typ, c0, c1, rel))
    for r in pmap(case, jobs):
        for ok, key_, where, rule, det in r:
            f = p.fn(where)
            ctx.ob(ok, key_, '%s:%s (%s)' % (f.get('file'), f.get('line'), where), rule, det, group=key_.split(':')[0] + ':' + key_.split(':')[1])
    ctx.functions |= {'GarbleGate', 'EvalGate'}
    ctx.count('gate types', len(TYPES)); ctx.count('input partitions', len(jobs))
    ctx.explanation = ('Abstract interpretation of the garbler and evaluator gate routines over an exact XOR-algebra of labels '
                       '(uninterpreted AES, boolean coefficients in algebraic normal form), for every gate type x public/secret class x '
                       'wire relation x actual bits; equality of normal forms decides each obligation for all label values at once.')
    ctx.assumptions = ['labels of unrelated wires do not collide (2^-64)', 'AES under one key is a function']
