"""P02  every evaluator applies the gate's truth table to the operands the circuit names."""
import itertools
from dom import *
import gates
from gates import TYPES
from gcmodel import *
import gcmodel
from view import *
from gateview import *
from absint import Interp, Config
from frontend import program, Broken
from runner import pmap


def where(f):
    return '%s:%s (%s)' % (f.get('file'), f.get('line'), f['dem'].split('(')[0])


def runf(p, f, args, out=None):
    I = Interp(p, Config(unroll=16))
    mem = {}
    if out is not None:
        mem[out] = I.v0(out)
    fr = I.run(f, args, mem)
    if fr.mem_at_ret is None:
        raise Broken('no return state in ' + f['dem'])
    if out is None:
        return fr.ret
    return I.load(out, ZERO, 'i16', I.ver(fr.mem_at_ret, out))


def bit_of(v):
    if v is None:
        return None
    if v[0] == 'B':
        return 1 if v == TRUE else 0 if v == FALSE else None
    return const_of(as_P(v))


def unit(ctx):
    p = program(keep=['GarbleEvalGateKnownValue', 'GateOperator'])
    ty = {t: p.const(t + 'GATE') for t in TYPES}
    SEC, INV = p.const('SECRET'), p.const('SECRET_INV')
    f = p.fn('GateOperator')
    for t, fn in TYPES.items():
        for a, b in itertools.product((0, 1), (0, 1)):
            r = bit_of(runf(p, f, [P_const(ty[t]), B(TRUE[1]) if a else FALSE, TRUE if b else FALSE]))
            ctx.ob(r == fn(a, b), 'GateOperator:%s/%d%d' % (t, a, b), where(f), 'the public gate operator is the gate\'s truth table', 'expected %s got %s' % (fn(a, b), r), group='truth table')
    p2 = program(keep=['GarbleEvalGateKnownValue'])
    f = p2.fn('GarbleEvalGateKnownValue')
    for t, fn in TYPES.items():
        for c0, c1 in itertools.product((0, 1, SEC, INV), repeat=2):
            r = runf(p2, f, [P_const(c0), P_const(c1), P_const(ty[t]), Ptr(('cell', 'ov'))], ('cell', 'ov'))
            r = const_of(as_P(r))
            dom = {fn(a, b) for a in ((c0,) if c0 in (0, 1) else (0, 1)) for b in ((c1,) if c1 in (0, 1) else (0, 1))}
            if t == 'NOT' and c0 in (SEC, INV):
                dom = {0, 1}
            want = 'public %d' % next(iter(dom)) if len(dom) == 1 else 'secret'
            got = 'secret' if r in (SEC, INV) else 'public %s' % r
            # a NOT gate has no second operand: the engine marks it -1, i.e. secret, which must not matter
            if t == 'NOT' and c1 in (0, 1):
                if c0 in (0, 1):
                    ctx.ob(got == want, 'known:%s/%s/%s' % (t, c0, c1), where(f), 'a gate output is public exactly when it is determined', '%s, expected %s' % (got, want), group='public/secret class')
                continue
            ctx.ob(got == want, 'known:%s/%s/%s' % (t, c0, c1), where(f), 'a gate output is called public exactly when the public operands determine it, with the value of the gate function',
                   '%s, expected %s' % (got, want), group='public/secret class')


def operands(s):
    S = Session(_P, s[0], s[1], s[2], extra_facts=())
    v = View(S)
    res = []
    nm = sname(s)
    w = v.where
    calls = gate_calls(v)
    CZ, CO = P_const(S.CZ), P_const(S.CO)
    NOTT = S.p.const('NOTGATE')

    def ob(ok, key_, rule, det=''):
        res.append((ok, nm + ':' + key_, w, rule, det))

    for i, c in enumerate(calls):
        cn = '%s#%d' % (c.e.name, i)
        v.with_facts(WF)
        names = [n_ for n_ in ('in0', 'in1') if n_ in c.a]
        def vals(x):
            return as_P(x) if x[0] != 'B' else x
        for which, other, wi in (('in0', 'in1', W0), ('in1', 'in0', W1)):
            for typ, tn in ((None, 'binary'), (P_const(NOTT), 'not')):
                if tn == 'not' and which == 'in1':
                    continue
                if tn == 'binary':
                    tsub = P_const(S.p.const('ANDGATE'))
                else:
                    tsub = typ
                for case, x, want in (('const0', CZ, 0), ('const1', CO, 1), ('wire', wi, None)):
                    sub = c.sub(typ=tsub, **{which: x, other: idx('w9')})
                    got = v.sub(c.a[which], sub)
                    e_guard = v.sub(B(c.e.guard), sub)
                    if e_guard == FALSE:
                        continue
                    if want is not None:
                        ob(bit_of(got) == want, '%s:%s:%s:%s' % (cn, which, tn, case), 'a constant operand is the public bit it stands for', show(got))
                    else:
                        v.I._curmem = c.mem
                        exp = v.I.load(v.V, P_scale(wi, v.vs), 'i8' if v.vs == 1 else 'i16', v.I.ver(c.mem, v.V))
                        if got[0] == 'B':
                            exp = B(v.S.fr.bool(exp))
                        ob(got == exp, '%s:%s:%s:%s' % (cn, which, tn, case), 'the operand\'s value is read from the wire the circuit names', 'expected %s\n got %s' % (show(exp), show(got)))
                        if 'lab0' in c.a:
                            lw = 'lab0' if which == 'in0' else 'lab1'
                            for h in v.halves():
                                got = v.sub(c.label(lw, h), sub)
                                exp = v.I.load(v.W, P_add(P_scale(wi, v.ls), P_const(16 * h)), '<2 x i64>', v.I.ver(c.mem, v.W))
                                ob(got == exp, '%s:%s:%s:label%d' % (cn, which, tn, h), 'the operand\'s label is read from the wire the circuit names', 'expected %s\n got %s' % (show(exp), show(got)))
        ob(c.a['type'] == c.f['type'] or as_P(c.a['type']) == as_P(c.f['type']), cn + ':type', 'the gate type is the circuit\'s', show(c.a['type'])) if c.e.name != 'GateOperator' else None
        if c.e.name == 'GateOperator':
            for t in (NOTT, S.p.const('ANDGATE')):
                sub = c.sub(typ=P_const(t))
                if v.sub(B(c.e.guard), sub) == FALSE:
                    continue
                ob(const_of(as_P(v.sub(c.a['type'], sub))) == t, cn + ':type:%d' % t, 'the gate type is the circuit\'s', show(c.a['type']))
    # destinations: every store of a gate loop into a wire array goes to the gate's own output wire
    n = 0
    for g in v.gate_loops:
        for e, st in walk(g.body):
            if e.kind != 'store' or e.name not in (v.V, v.W):
                continue
            inner = [s_ for s_ in st if s_.kind == 'loop']
            k = P_atom(('k', inner[-1].name if inner else g.name))
            out = v.I.load(('arr', 'gates'), P_add(P_scale(k, 32), P_const(S.gg['output'])), 'i64', v.I.ver({}, ('arr', 'gates')))
            off = e.args[0][2]
            if e.name == v.V:
                okk = off == P_scale(out, v.vs)
            else:
                okk = off in [P_add(P_scale(out, v.ls), P_const(16 * h)) for h in v.halves()]
            n += 1
            ob(okk, 'dest#%d' % n, 'a gate writes its own output wire and no other', show(off))
            val = e.args[1]
            res_ok = any(is_gout(val, x) for x in ('lab', 'gval', 'kv', 'gateop'))
            ob(res_ok, 'result#%d' % n, 'what a gate writes to its output wire is the result of the gate routine', show(val)[:300])
    ob(n > 0 and len(calls) > 0, 'sites', 'the gate loops evaluate gates', '%d calls, %d stores' % (len(calls), n))
    return res, len(calls), n


def run(ctx):
    global _P
    unit(ctx)
    _P = gcmodel.prog()
    for s, (r, nc, ns) in zip(sessions(), pmap(operands, list(sessions()))):
        for ok, k, w, rule, det in r:
            ctx.ob(ok, k, w, rule, det, group='operands and results')
        ctx.count('gate routine call sites', nc); ctx.count('wire stores', ns)
        ctx.functions.add(s[0])
    ctx.functions |= {'GateOperator', 'GarbleEvalGateKnownValue'}
    ctx.explanation = ('The public gate operator and the known-value classifier are evaluated abstractly for every gate type and every operand class and compared with reference truth tables; '
                       'in every session (garbler, evaluator, plaintext; memory modes; transfer on/off) each gate-routine call site of a generic gate iteration is partitioned by operand kind '
                       '(constant 0, constant 1, wire w) and its operands, label operands, type and destination are compared with the ones the circuit names.')
    ctx.assumptions = ['operand indices are in range (-2, -3, or a wire), as the circuit reader must guarantee']
