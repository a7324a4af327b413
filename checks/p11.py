"""P11  early termination happens exactly when the terminate signal is 1."""
from dom import *
from gcmodel import *
import gcmodel
from view import *
from duality import *
from outview import *
from runner import pmap
from frontend import Broken

CASES = [('no period', {'period': False}), ('no terminate wire', {'period': True, 'term': False}), ('period and wire', {'period': True, 'term': True})]


def deep(x, f):
    """first subterm key satisfying f"""
    out = []
    View.atoms_in(x, lambda k: (out.append(k), True)[1] if f(k) else False)
    return out[0] if out else None


def all_atoms(x, f):
    out = []
    View.atoms_in(x, lambda k: (out.append(k), False)[1] if f(k) else False)
    return list(dict.fromkeys(out))


def resolve_count(I, v, cyc, hdr):
    """the count after the loop, in the case it was left at the header (hdr) or by the break"""
    li = cyc.info
    h = (li.hdr_exit[0], li.hdr_exit[1]) if getattr(li, 'hdr_exit', None) else None
    for _ in range(6):
        sub = {}
        for k in all_atoms(v, lambda k: k[0] in ('exit', 'out') and k[1] == cyc.name):
            if k[0] == 'exit':
                if k[2] >= len(getattr(li, 'exitkeys', [])):
                    return None
                sub[k] = B(F1 if (li.exitkeys[k[2]] == h) == hdr else F0)
            else:
                sub[k] = li.outs.get(k[2], P_atom(k))
        if not sub:
            return v
        w = I.rebuild(v, sub)
        if w == v:
            return v
        v = w
    return v


def parties(job):
    low, noot = job
    O_ = Out(_P, low, noot, True)
    S = O_.G.S
    nm = '%s/%s' % ('low' if low else 'high', 'noOT' if noot else 'OT')
    res = []

    def ob(ok, k, where, rule, det=''):
        res.append((bool(ok), nm + ':' + k, where, rule, det))
    ob(O_.dual, 'session', 'GarbleStr <-> EvaluateStr', 'the parties reveal the terminate wire at the same cycles and leave the loop together (sessions are dual)', O_.err)
    n = 0
    for side, who in ((O_.G, 'garbler'), (O_.E, 'evaluator')):
        n += one(ob, side, who, lambda x, st: O_.norm(side, x, st), {('val', TERM): (0, 1, S.SECRET, S.INV)}, low)
    return res, n


def plain(_):
    S = Session(_P, 'EvalauatePlaintextStr', extra_facts=(), terminate=True)
    side = Side(S, 'P')
    res = []

    def ob(ok, k, where, rule, det=''):
        res.append((bool(ok), 'plain:' + k, where, rule, det))
    O_ = Out.__new__(Out)
    O_.G = side; O_.F = {side: Flow(side)}; O_.recv = {}
    n = one(ob, side, 'plaintext', lambda x, st: O_.norm(side, x, st), {('val', TERM): (0, 1)}, None)
    return res, n


def one(ob, side, who, norm, vals, low):
    I = side.I
    cyc = side.v.cyc
    li = cyc.info
    stack = [cyc]
    where = cyc.site
    ob(li.trip == CYC, who + ':bound', where, 'without termination all requested cycles run', show(li.trip) if li.trip else 'no bound')
    hdr = li.hdr_exit[0] if getattr(li, 'hdr_exit', None) else None
    f = F0
    for s, d, c in li.cond:
        if s != hdr:
            f = bor(f, c)
    x = norm(B(f), stack)
    ncase = 0
    per = batom(('eq0', PERIOD))
    term = I.b_ge0(P_sub(TERM, ONE))
    pa, ta = key(next(iter(next(iter(per))))), key(next(iter(next(iter(term)))))
    alt = {ta: None}
    val, lg, le = ('val', TERM), ('lsb', ('labG', 0, TERM)), ('lsb', ('labE', 0, TERM))
    at = I.b_eq0(P_atom(('mod', CY, PERIOD)))
    for cname, c in CASES:
        sub = {pa: B(F0 if c['period'] else F1)}
        if 'term' in c:
            sub[ta] = B(F1 if c['term'] else F0)
            sub[key(next(iter(next(iter(I.b_eq0(TERM))))))] = B(F0 if c['term'] else F1)
        y = I.rebuild(x, sub)[1]
        bad = []
        odd = [show(P_atom(k))[:120] for k in side.atoms(B(y), []) if k[0] in ('ld', 'recv', 'rnd', 'cell', 'phi', 'xel')]
        ob(not odd, who + ':depends:' + cname, where, 'leaving the loop depends only on the period, the cycle and the value of the terminate wire', odd[:3])
        if odd:
            continue
        for r, asg in assignments([y, I.b_eq0(P_atom(val)), at] + ([] if who == 'plaintext' else [batom(lg), batom(le)]), I.rebuild, vals):
            ncase += 1
            v = asg[val]
            value = v if v in (0, 1) else asg[lg] ^ asg[le]
            want = cname == 'period and wire' and r[2] and bool(value)
            if r[0] != want:
                bad.append('value=%s colours=%s/%s cycle%%period==0:%s -> %s' % (v, asg.get(lg), asg.get(le), r[2], 'stops' if r[0] else 'goes on'))
        ob(not bad, who + ':stop:' + cname, where, 'the party stops after a cycle exactly when the period divides the cycle and the terminate wire is 1', bad[:6])
    # the number of executed cycles
    prn = [(e, st) for e, st in side.v.all if e.kind == 'call' and e.name in ('OutputBN2StrHighMem', 'OutputBN2StrLowMem')]
    if not prn:
        raise Broken(who + ': output printing not found')
    for e, st in prn:
        for h, want in ((True, CYC), (False, P_add(P_atom(('k', cyc.name)), ONE))):
            v = resolve_count(I, as_P(e.args[2]), cyc, h)
            ob(v == want, who + ':count:%s' % ('all' if h else 'stopped'), e.site, 'the number of cycles reported is the number executed', show(v)[:300])
    # loops over executed cycles after the run
    for e, st in side.v.all:
        if e.kind != 'loop' or st or e is cyc:
            continue
        if side.v.all.index((e, st)) < side.v.all.index((cyc, [] if isinstance(st, list) else ())):
            continue
        if not any(x.kind == 'call' and x.name in ('BN_set_bit', 'BN_clear_bit') for x, _ in walk(e.body)):
            continue
        go = F1
        for s, d, c in e.info.cond:
            go = band(go, bnot(c))
        k = P_atom(('k', e.name))
        for h, want in ((True, CYC), (False, P_add(P_atom(('k', cyc.name)), ONE))):
            if e.info.trip is not None:
                v = resolve_count(I, e.info.trip, cyc, h)
                ok = v == want
            else:
                v = resolve_count(I, B(go), cyc, h)
                ok = v == B(I.b_ge0(P_sub(P_sub(want, ONE), k)))
            ob(ok, who + ':decoded:%s' % ('all' if h else 'stopped'), e.site, 'exactly the executed cycles are decoded', show(v)[:300])
    return ncase


def run(ctx):
    global _P
    _P = gcmodel.prog()
    jobs = [(l, n_) for l in (False, True) for n_ in (False, True)] + ['plain']
    for r, c in pmap(lambda_job, jobs):
        for ok, k, w, rule, det in r:
            ctx.ob(ok, k, w, rule, det, group=':'.join(k.split(':')[1:3]))
        ctx.count('cases', c)
    ctx.functions |= {'GarbleStr', 'EvaluateStr', 'EvalauatePlaintextStr'}
    ctx.explanation = ('The condition under which each party leaves its cycle loop early is rewritten in terms of period, cycle number, value of the terminate wire at the end of the cycle and the colours of the parties\' labels (received bits replaced by what the peer sent), '
                       'and compared under every assignment with the documented rule; the cycle count handed to the output printer and the bound of the decoding loops are resolved for both ways of leaving the loop.')


def lambda_job(j):
    return plain(j) if j == 'plain' else parties(j)
