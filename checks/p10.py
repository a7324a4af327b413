"""P10  each output bit reaches exactly the party the mask assigns."""
from dom import *
from gcmodel import *
import gcmodel
from view import *
from duality import *
from outview import *
from flow import DUMMY
from runner import pmap
from frontend import Broken


def session(job):
    low, noot = job
    O_ = Out(_P, low, noot)
    res = []
    nm = '%s/%s' % ('low' if low else 'high', 'noOT' if noot else 'OT')

    def ob(ok, k, where, rule, det=''):
        res.append((bool(ok), nm + ':' + k, where, rule, det))

    S = O_.G.S
    ob(O_.dual, 'session', 'GarbleStr <-> EvaluateStr', 'the colours one party sends are the ones the other receives (sessions are dual)', O_.err)
    out = ('outwire', P_scale(J, 8))
    val = ('val', P_atom(out))
    mask = as_P(O('hex', ('cstr', ('str', 'mask'))))
    abit = ('bit', mask, J)
    lsb = {s: ('lsb', ('lab' + l, 0, P_atom(out))) for s, l in ((O_.G, 'G'), (O_.E, 'E'))}
    nops = ncase = 0
    for side, who in ((O_.G, 'garbler'), (O_.E, 'evaluator')):
        I = side.I
        ops = [(e, st) for e, st in side.v.all if e.kind == 'call' and e.name in ('BN_set_bit', 'BN_clear_bit')]
        prn = [e for e, st in side.v.all if e.kind == 'call' and e.name in ('OutputBN2StrHighMem', 'OutputBN2StrLowMem')]
        if not prn or not ops:
            raise Broken('%s: output decoding not found' % who)
        ob(all(e.args[1] == ops[0][0].args[0] for e in prn) and all(o.args[0] == ops[0][0].args[0] for o, _ in ops), who + ':printed', prn[0].site,
           'the number that is printed is the one the outputs are decoded into', show(prn[0].args[1]))
        stacks = {tuple(x.name for x in st if x.kind == 'loop') for e, st in ops}
        ob(len(stacks) == 1, who + ':one loop', ops[0][0].site, 'outputs are decoded in one loop over cycles and output indices', sorted(stacks))
        if len(stacks) != 1:
            continue
        ls, sub, names = O_.loops(side, ops[0][1])
        ob(names == ['cycle', 'j'], who + ':loops', ops[0][0].site, 'outputs are decoded per cycle and output index', names)
        if names != ['cycle', 'j']:
            continue
        gk = {k[0] for k in side.atoms(B(ls[1].guard), []) if k[0] not in ('n', 'k', 'out', 'exit', 'ge0')}
        ob(ls[1].info.trip == N['output'] and not ls[1].info.breaks and not gk, who + ':all outputs', ls[1].site, 'every output is decoded', show(ls[1].info.trip) if ls[1].info.trip else 'no bound')
        O_.case('wire')
        conds = [O_.norm(side, B(e.guard), st)[1] for e, st in ops]
        idxs = [O_.norm(side, as_P(e.args[1]), st) for e, st in ops]
        nops += len(ops)
        for mode in ((0, 1, 2) if low else (None,)):
            msub = {('output_mode',): P_const(mode)} if mode is not None else {}
            fs = [I.rebuild(B(f), msub)[1] for f in conds]
            want_idx = P_add(ZERO if mode == 2 else P_mul(N['output'], CY), J)
            for (e, st), ix, f in zip(ops, idxs, fs):
                if f == F0:
                    continue
                ix = I.rebuild(ix, msub)
                ob(ix == want_idx, who + ':place', e.site, 'output i of cycle c is decoded to its own bit', 'expected %s got %s (mode %s)' % (show(want_idx), show(ix)[:200], mode))
            know = {val: (0, 1, S.SECRET, S.INV)}
            force = [B(batom(abit))[1], B(batom(lsb[O_.G]))[1], B(batom(lsb[O_.E]))[1], I.b_eq0(P_atom(val))]
            allowed = {abit, lsb[O_.G], lsb[O_.E], val}
            odd = set()
            for f in fs:
                for k in side.atoms(B(f), []):
                    if k[0] in ('ld', 'recv', 'rnd', 'cell'):
                        odd.add(k[0] + ' ' + show(P_atom(k))[:150])
            ob(not odd, who + ':depends', ops[0][0].site, 'decoding depends only on the mask, the output\'s value and the two parties\' colours of its label', sorted(odd)[:3])
            if odd:
                continue
            bad = []
            for r, asg in assignments(fs + force, I.rebuild, know):
                ncase += 1
                v = asg[val]
                lg, le, mb = asg.get(lsb[O_.G]), asg.get(lsb[O_.E]), asg.get(abit)
                value = v if v in (0, 1) else lg ^ le
                mine = mb if who == 'garbler' else not mb
                act = 'none'
                for (e, st), on in zip(ops, r):
                    if on:
                        act = 'set' if e.name == 'BN_set_bit' else 'clear'
                if mine and value:
                    ok = act == 'set'
                elif mine:
                    ok = act == 'clear' or (act == 'none' and mode != 2)
                else:
                    ok = act != 'set'
                if not ok:
                    bad.append('value=%s lsbG=%s lsbE=%s maskbit=%s -> %s' % (v, lg, le, mb, act))
            ob(not bad, who + ':decode%s' % ('' if mode is None else ':mode%d' % mode), ops[0][0].site,
               'the party the mask assigns gets the value of the output (public value, or xor of the two colours), the other nothing', bad[:6])
            for cname, code, cv in (('zero', S.CZ, 0), ('one', S.CO, 1)):
                cs = O_.case(code)
                gs = [I.rebuild(I.rebuild(O_.norm(side, B(e.guard), st), msub or DUMMY), cs)[1] for e, st in ops]
                O_.case('wire')
                odd = {k[0] + ' ' + show(P_atom(k))[:150] for g in gs for k in side.atoms(B(g), []) if k[0] in ('ld', 'recv', 'rnd', 'cell')}
                ob(not odd, who + ':constant', ops[0][0].site, 'a constant output is decoded from the mask alone', sorted(odd)[:3])
                if odd:
                    continue
                bad = []
                for r, asg in assignments(gs + [B(batom(abit))[1]], I.rebuild, know):
                    ncase += 1
                    mb = asg.get(abit)
                    mine = mb if who == 'garbler' else not mb
                    act = 'none'
                    for (e, st), on in zip(ops, r):
                        if on:
                            act = 'set' if e.name == 'BN_set_bit' else 'clear'
                    ok = (act == 'set') if mine and cv else (act == 'clear' or (act == 'none' and mode != 2)) if mine else act != 'set'
                    if not ok:
                        bad.append('constant %s maskbit=%s -> %s' % (cname, mb, act))
                ob(not bad, who + ':constant%s' % ('' if mode is None else ':mode%d' % mode), ops[0][0].site, 'a constant output reaches the party the mask assigns', bad[:6])
        # exactly the colours are exchanged
    return res, nops, ncase


def run(ctx):
    global _P
    _P = gcmodel.prog()
    for r, a, b in pmap(session, [(l, n_) for l in (False, True) for n_ in (False, True)]):
        for ok, k, w, rule, det in r:
            ctx.ob(ok, k, w, rule, det, group=':'.join(k.split(':')[1:3]))
        ctx.count('bit operations', a); ctx.count('cases', b)
    ctx.functions |= {'GarbleStr', 'EvaluateStr'}
    ctx.assumptions = ['output numbers are wires of the circuit or one of the two constants (well-formed SCD)']
    ctx.explanation = ('All operations on the output number of each party are enumerated; their conditions are rewritten in terms of the mask, the output wire\'s value and the colours of the two parties\' labels at the end of the cycle '
                       '(array cells traced to their writers, received values replaced by what the peer sent), and all consistent assignments (value in {0,1,secret,inverted secret} x colours x mask bit x position against the top of the mask) are compared with the documented rule.')
