"""P13  each input bit reaches its own wire in its own cycle."""
from dom import *
from gcmodel import *
import gcmodel
from view import *
from duality import *
from flow import Flow, DUMMY
from runner import pmap
from frontend import Broken


def implied(m, b):
    return any(not consistent({a: True, b: False}) for a in m if a != b)


def bsimp(f):
    """drop monomials that can never hold and factors that follow from another factor (pairwise theory)"""
    out = F0
    for m in f:
        if not consistent({a: True for a in m}):
            continue
        for b in sorted(m):
            if implied(m, b):
                m = m - {b}
        out = out ^ frozenset([m])
    return out


def ksimp(v):
    return ('K', tuple((a, c) for a, c in ((a, bsimp(c)) for a, c in v[1]) if c != F0))


def session(job, used=None):
    """used: collects the communication leaves that carry input labels, with the class of input they carry"""
    low, noot = job
    res = []
    nm = '%s/%s' % ('low' if low else 'high', 'noOT' if noot else 'OT')

    def ob(ok, k, where, rule, det=''):
        res.append((bool(ok), nm + ':' + k, where, rule, det))

    sd = [Side(Session(_P, r, low, noot, extra_facts=()), r) for r in ('GarbleStr', 'EvaluateStr')]
    G, E = sd
    D = Duality(G, E, values=(0, 1, G.S.SECRET, G.S.INV))
    dual = D.run()
    ob(dual, 'session', 'GarbleStr <-> EvaluateStr', 'labels one party sends are the ones the other receives (sessions are dual)', '; '.join('%s: %s <-> %s' % (w, g.site if g else '-', e.site if e else '-') for w, g, e, d in D.err[:3]))
    FG, FE = Flow(G), Flow(E)
    j = idx('j')
    cG, cE = P_atom(('k', G.v.cname)), P_atom(('k', E.v.cname))
    ctxG, ctxE = {('k', G.v.cname): cG}, {('k', E.v.cname): cE}
    pairs = list(D.pairs.values())
    # data a party received as a whole number = the peer's number
    bnalias = {}
    for g, e, _ in pairs:
        if g.kind == 'bn' and g.dir == 'R':
            bnalias[g.content] = e.content
    c2name = {}
    for (gl, el), c in D.loops.items():
        c2name[gl] = el

    def facts(side, r, extra=()):
        cyc = P_atom(('k', side.v.cname))
        side.v.with_facts([P_sub(P_sub(N[r], ONE), j), P_sub(P_sub(CYC, ONE), cyc), cyc] + list(extra))

    def e2g(v):
        return E.I.rebuild(v, {('k', E.v.cname): cG})

    classes = [('g_init', True, 'init'), ('e_init', True, 'init'), ('g_input', False, 'input'), ('e_input', False, 'input')]
    for r, init, strn in classes:
        facts(G, r); facts(E, r)
        # ------------- labels on the wire
        if init:
            d = idx('d')
            def wire(side, h):
                v = side.v
                v.with_facts([P_sub(P_sub(N[r], ONE), j), P_sub(P_sub(N['dff'], ONE), d)])
                Ia = atom_of(v.arrload('I', d))
                x = v.sub(v.lab(P_add(lo('dff'), d), h), {('k', v.cname): ZERO, Ia: P_add(lo(r), j)})
                facts(side, r)
                return x
        else:
            def wire(side, h):
                return side.v.lab(P_add(lo(r), j), h)
            for side, F, who in ((G, FG, 'garbler'), (E, FE, 'evaluator')):
                ok, det = secret_class(side, F, P_add(lo(r), j))
                ob(ok, r + ':class:' + who, side.v.where, 'a private input wire is secret in every cycle', det)
        gl = [FG.norm(wire(G, h), ctxG) for h in (0, 1)]
        ew = FE.norm(wire(E, 0), ctxE)
        if ew[0] != 'K' or not ew[1]:
            ob(False, r + ':evaluator wire', E.v.where, 'the evaluator\'s label of a private input wire is what it received', show(ew)[:400])
            continue
        bitidx = j if init else P_add(P_mul(N[r], cG), j)
        src = as_P(O('hex', ('cstr', ('str', strn))))
        bit = batom(('bit', src, bitidx))
        if used is not None:
            ok, det = own_label(G, gl[0], cG, j, N[r], init)
            ob(ok, r + ':fresh', G.v.where, 'every input bit of every cycle has a label of its own (a label pair used for two bits shows the evaluator both labels)', det)
        delta = K_xor(gl[0], gl[1])
        want = K_xor(gl[0], K_scale(bit, delta))
        ob(gl[0][0] == 'K' and bool(gl[0][1]) and gl[0] != gl[1], r + ':pair', G.v.where, 'the garbler has two labels for the wire', show(gl[0])[:300])
        total = F0
        for a, coef in ew[1]:
            k = key(a)
            total = total ^ coef
            if k[0] == 'recv':
                es = {id(e): (g, e) for g, e, _ in pairs if e.dir == 'R' and e.e.ret[1] == k[1]}
                gs = {id(g): g for g, e, _ in pairs if e.dir == 'R' and e.e.ret[1] == k[1]}
                if not gs:
                    ob(False, r + ':unmatched', E.v.where, 'the label was sent by the garbler', show(ew)[:300])
                    continue
                e = next(iter(es.values()))[1]
                # bind the evaluator's loop counters, carry them to the garbler's loops
                eloops = [l for l in e.stack]
                bind = {}
                for gen, act in zip(e.e.ret[2], k[2]):
                    kk = atom_of(gen)
                    if kk:
                        bind[kk] = act
                sent = KZERO
                cover = F0
                for g in gs.values():
                    gsub = {}
                    for l in g.stack:
                        el = c2name.get(l.name)
                        if el is not None and ('k', el) in bind:
                            gsub[('k', l.name)] = e2g(bind[('k', el)])
                    ct = dict(ctxG)
                    ct.update(gsub)
                    # canonical private data
                    content = G.I.rebuild(g.content, gsub)
                    gd = G.I.rebuild(B(g.guard), gsub)[1]
                    content = FG.norm(content, ctxG)
                    sent = K_xor(sent, K_scale(gd, content))
                    cover = cover ^ gd
                if used is not None:
                    used.append(('data', r, list(gs.values()), G))
                sent = unalias(G, sent, bnalias)
                sent = ksimp(sent)
                cover = bsimp(unalias(G, B(cover), bnalias)[1])
                w2 = ksimp(want)
                ob(cover == F1, r + ':always sent', gs and next(iter(gs.values())).site, 'exactly one label is sent for the wire', showb(cover)[:300])
                ob(sent == w2, r + ':label', '%s <-> %s' % (next(iter(gs.values())).site, e.site),
                   'the label on the wire is the one the input bit selects for this wire and cycle', 'expected %s\n got %s' % (show(w2)[:900], show(sent)[:900]))
            elif k[0] == 'ot':
                gs = [(g, e) for g, e, _ in pairs if e.kind in ('ot', 'otx') and e.e.ret[1] == k[1]]
                if len(gs) != 1:
                    ob(False, r + ':transfer unmatched', E.v.where, 'the label was sent by the garbler', show(ew)[:300])
                    continue
                g, e = gs[0]
                if used is not None:
                    used.append((g.kind, r, [g], G))
                t = k[3]
                tg = e2g(t)
                ob(E.canon(coef) == E.canon(E.I.rebuild(B(e.guard), DUMMY)[1]), r + ':%s:used' % e.kind, e.site, 'the transfer that ran supplies the label', showb(coef))
                # sender's messages
                for h in (0, 1):
                    p = g.e.args[0]
                    rr = FG.pointer(p, P_scale(tg, 8), g.e.mem, ctxG)
                    got = None
                    if rr and rr[0][0] == 'Ptr':
                        q, c2 = rr
                        cell = FG.cell(q[1], P_add(q[2], P_const(16 * h)), 16, c2)
                        if not cell:
                            cell = FG.row(p[1], P_add(p[2], P_scale(tg, 8)), P_const(16 * h), 32, ctxG)
                        if cell is not None and len(cell) == 1:
                            ev, ks = cell[0]
                            got = FG.norm(G.I.rebuild(ev.args[1], ks), ctxG)
                    elif rr:
                        got = rr[0]
                    ob(got == gl[h], r + ':%s:message%d' % (e.kind, h), g.site, 'the transferred pair is the wire\'s label pair', 'expected %s\n got %s' % (show(gl[h])[:500], show(got)[:500] if got else rr))
                s = e.e.args[0]
                E.I._curmem = e.e.mem
                sel = E.I.load(s[1], P_add(s[2], t), 'i8', E.I.ver(e.e.mem, s[1]))
                sel = FE.norm(sel, ctxE)
                if sel[0] == 'P':
                    ak = atom_of(sel)
                    if ak and ak[0] == 'b2i':
                        sel = B(ak[1])
                sb = E.S.fr.bool(sel)
                ebit = batom(('bit', src, j if init else P_add(P_mul(N[r], cE), j)))
                sb = bsimp(sb)
                ob(sb == ebit, r + ':%s:choice' % e.kind, e.site, 'the choice bit is the evaluator\'s input bit of this wire and cycle', 'expected %s\n got %s' % (showb(ebit), showb(sb)[:500]))
            else:
                ob(False, r + ':origin', E.v.where, 'the evaluator\'s label comes from a message', show(K_atom(k))[:300])
        ob(bsimp(total) == F1, r + ':origin complete', E.v.where, 'the evaluator\'s label comes from exactly one message', show(ew)[:300])
    # public inputs
    for side, who in ((G, 'garbler'), (E, 'evaluator')):
        facts(side, 'p_input')
        c = P_atom(('k', side.v.cname))
        got = side.v.val(P_add(lo('p_input'), j))
        want = B(batom(('bit', as_P(O('hex', ('cstr', ('str', 'p_input')))), P_add(P_mul(N['p_input'], c), j))))
        ob(B(bsimp(side.S.fr.bool(got))) == want, 'p_input:' + who, side.v.where, 'a public input wire has its bit of this cycle', 'expected %s\n got %s' % (show(want), show(got)[:300]))
    return res, FG.cells_resolved + FE.cells_resolved, FG.cells_symbolic + FE.cells_symbolic


def own_label(side, v, cyc, j, n, init):
    """the label is drawn for this wire and cycle: its origin is indexed injectively by (cycle, j)"""
    k = key(v[1][0][0]) if v[0] == 'K' and len(v[1]) == 1 and v[1][0][1] == F1 else None
    if k is None or k[0] not in ('rnd', 'cell', 'ld'):
        return False, 'origin of the label: %s' % show(v)[:300]
    comps = []

    def polys(x):
        if isinstance(x, tuple):
            if x and x[0] == 'P':
                comps.append(x)
            else:
                for y in x:
                    polys(y)
    if k[0] == 'rnd':
        polys(k[2:])
    else:
        comps.append(k[3] if k[0] == 'ld' else next((y for y in k[1:] if isinstance(y, tuple) and y and y[0] == 'P'), ZERO))
    ca, ja = A(atom_of(cyc)), A(atom_of(j))

    def lin(p, a):
        """coefficient polynomial of a, rest; None when not linear"""
        c, r = {}, {}
        for m, x in p[1]:
            if a not in m:
                r[m] = x
            elif m.count(a) == 1:
                q = tuple(y for y in m if y != a)
                c[q] = x
            else:
                return None
        return ('P', tuple(sorted(c.items()))), ('P', tuple(sorted(r.items())))

    def free(p, a):
        return all(a not in m for m, _ in p[1])
    one_j = one_c = False
    for p in comps:
        lj, lc = lin(p, ja), lin(p, ca)
        if lj and const_of(lj[0]) not in (None, 0):
            one_j = True
        if lc and const_of(lc[0]) not in (None, 0) and free(p, ja):
            one_c = True
        if lj and lc and const_of(lj[0]) not in (None, 0) and lc[0][1] and free(lc[0], ja) and free(lj[0], ca):
            s = abs(const_of(lj[0]))
            base = lj[1] and lin(lj[1], ca)[1]
            room = P_sub(lc[0], P_add(base, P_scale(n, s)))
            if side.I.ge0(room):
                return True, ''
    if one_j and (init or one_c):
        return True, ''
    return False, 'the label of input %s in cycle %s is %s' % (show(j), show(cyc), show(v)[:300])


def secret_class(side, F, w):
    """every store that can reach the wire's value stores SECRET, and there is one"""
    v = side.v
    out = set()
    for e, st in v.all:
        if e.kind == 'store' and e.name == v.V:
            k = atom_of(P_scale(e.args[0][2], 1)) if False else None
    def gate_out(e):
        val = e.args[1] if e.kind == 'store' else None
        return val is not None and any(is_gout(val, x) for x in ('gval', 'kv'))
    ws = F.cell(v.V, P_scale(w, v.vs), 2, {('k', v.cname): P_atom(('k', v.cname))}, skip=gate_out)
    if ws is None:
        return False, 'the stores that reach the wire value could not be bounded'
    vals = [e.args[1] for e, _ in ws]
    ok = bool(vals) and all(const_of(as_P(x)) == side.S.SECRET for x in vals)
    return ok, ', '.join(show(x)[:120] for x in vals)


def unalias(side, v, bnalias):
    sub = {}
    for k in side.atoms(v, []):
        o = k if k[0] == 'O' else None
        if k in bnalias:
            sub[k] = bnalias[k]
        for rk, val in bnalias.items():
            if k == rk or (o and o == rk):
                sub[k] = as_P(val)
    return side.I.rebuild(v, sub) if sub else v


def plain():
    S = Session(_P, 'EvalauatePlaintextStr', extra_facts=())
    v = View(S)
    res = []
    j = idx('j')
    c = P_atom(('k', v.cname))
    for r in ('p_input', 'g_input', 'e_input'):
        v.with_facts([P_sub(P_sub(N[r], ONE), j)])
        got = v.val(P_add(lo(r), j))
        want = batom(('bit', as_P(O('hex', ('cstr', ('str', r)))), P_add(P_mul(N[r], c), j)))
        res.append((bsimp(S.fr.bool(got)) == want, 'plaintext:' + r, v.where, 'an input wire has its bit of this cycle', 'expected %s\n got %s' % (showb(want), show(got)[:300])))
    return res


def job(x):
    return (plain(), 0, 0) if x is None else session(x)


def run(ctx):
    global _P
    _P = gcmodel.prog()
    for r, a, b in pmap(job, [(l, n_) for l in (False, True) for n_ in (False, True)] + [None]):
        for ok, k, w, rule, det in r:
            ctx.ob(ok, k, w, rule, det, group=k.split(':')[1])
        ctx.count('array cells resolved to their writer', a); ctx.count('array cells kept symbolic', b)
    ctx.functions |= {'GarbleStr', 'EvaluateStr', 'EvalauatePlaintextStr'}
    ctx.explanation = ('Both sessions are interpreted abstractly (generic cycle, generic input index) in each memory mode with transfer on and off; the evaluator\'s label of a generic input wire is traced through array cells to the message it was received in, through the message pairing to the value the garbler sent, and compared in normal form with the label the input bit selects; choice bits, public inputs and the plaintext evaluator are compared with the bit index cycle*size+i.')
