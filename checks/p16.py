"""P16  state elements latch simultaneously and start from their declared initial value."""
from dom import *
from gcmodel import *
import gcmodel
from view import *
from gateview import sessions, sname
from runner import pmap


def bitv(v, x):
    """0/1 when x is that public bit, else None"""
    if x[0] == 'B':
        return 1 if x == TRUE else 0 if x == FALSE else None
    return const_of(as_P(x))


def session(s):
    S = Session(_P, s[0], s[1], s[2], extra_facts=())
    v = View(S)
    nm = sname(s); w_ = v.where
    res = []

    def ob(ok, k, rule, det=''):
        res.append((ok, nm + ':' + k, w_, rule, det))

    d, j, c, wi = idx('d'), idx('j'), idx('c'), idx('wd')
    w = P_add(lo('dff'), d)
    fd = [P_sub(P_sub(N['dff'], ONE), d)]
    v.with_facts(fd)
    Ia, Da = atom_of(v.arrload('I', d)), atom_of(v.arrload('D', d))
    K = ('k', v.cname)
    same = lambda a, b: a == b or B(S.fr.bool(a)) == B(S.fr.bool(b))
    for cyc, kv, at, tag in (('first', ZERO, Ia, 'initial value'), ('later', P_add(ONE, c), Da, 'data input')):
        for cn, cv, bit in (('0', P_const(S.CZ), 0), ('1', P_const(S.CO), 1)):
            got = v.sub(v.val(w), {K: kv, at: cv})
            ob(bitv(v, got) == bit, '%s cycle:constant %s' % (cyc, cn), 'a state element whose %s is a constant takes that public bit' % tag, show(got)[:600])
    for r in ('p_init', 'g_init', 'e_init'):
        v.with_facts(fd + [P_sub(P_sub(N[r], ONE), j)])
        sub = {K: ZERO, Ia: P_add(lo(r), j)}
        got = v.sub(v.val(w), sub)
        if r == 'p_init' or v.plain:
            want = B(batom(('bit', as_P(O('hex', ('cstr', ('str', r)))), j)))
            ob(got == want or same(got, want), 'first cycle:%s' % r, 'a state element starts from its bit of the initial value', 'expected %s\n got %s' % (show(want), show(got)[:600]))
        else:
            ob(const_of(as_P(got)) == S.SECRET, 'first cycle:%s' % r, 'a state element with a private initial value starts secret', show(got)[:600])
            for h in v.halves():
                got = v.sub(v.lab(w, h), sub)
                f1 = lambda k: k[0] in ('rnd', 'recv', 'ld') and k != K
                ob(got[0] == 'K' and bool(got[1]) and not View.atoms_in(got, lambda k: k == ('ld',)) and not View.atoms_in(got, lambda k: k[0] == 'ld' and k[1] == v.W),
                   'first cycle:%s:label%d' % (r, h), 'the state element\'s first label is the transferred initial label, not an earlier wire label', show(got)[:600])
                other = v.sub(got, {('idx', 'd'): idx('d2')})
                ob(other == got, 'first cycle:%s:label%d:index' % (r, h), 'the initial label is chosen by the declared initial wire, not by the position of the state element', show(got)[:600])
                moved = v.sub(got, {('idx', 'j'): P_add(j, ONE)})
                ob(moved != got, 'first cycle:%s:label%d:distinct' % (r, h), 'different initial wires give different labels', show(got)[:600])
    v.with_facts(fd + [P_sub(P_sub(WIRES, ONE), wi)])
    sub = {K: P_add(ONE, c), Da: wi}
    got = v.sub(v.val(w), sub)
    ob(same(got, v.prev_val(wi)), 'later cycle:value', 'a state element takes the value its data wire had at the end of the previous cycle', 'expected %s\n got %s' % (show(v.prev_val(wi)), show(got)[:600]))
    if not v.plain:
        for h in v.halves():
            got = v.sub(v.lab(w, h), sub)
            ob(got == v.prev_lab(wi, h), 'later cycle:label%d' % h, 'a state element takes the label its data wire had at the end of the previous cycle', 'expected %s\n got %s' % (show(v.prev_lab(wi, h)), show(got)[:600]))
    # the prologue rewrites only state elements and inputs: wires computed by gates survive until the gates run
    v.with_facts([P_sub(P_sub(N['gate'], ONE), d)])
    gw = P_add(lo('gate'), d)
    got = v.sub(v.val(gw), {K: P_add(ONE, c)})
    ob(same(got, v.prev_val(gw)), 'later cycle:gates untouched', 'latching does not disturb other wires', show(got)[:600])
    return res


def run(ctx):
    global _P
    _P = gcmodel.prog()
    for s, r in zip(sessions(), pmap(session, list(sessions()))):
        for ok, k, w, rule, det in r:
            ctx.ob(ok, k, w, rule, det, group=k.split(':')[1])
        ctx.functions.add(s[0])
    ctx.count('sessions', 9)
    ctx.explanation = ('Every session is interpreted abstractly with a generic state element d, a generic cycle and generic circuit sizes; the value and label of wire dff+d on entry to the gate loop are read '
                       'for the first cycle (cycle index 0) under each class of initial value and for later cycles under each class of data wire, and compared with the previous cycle\'s end state '
                       '(the memory version at the cycle loop head).')
    ctx.assumptions = ['every circuit size is at least one (partition)', 'initial-value and data indices are in range']
