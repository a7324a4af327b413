"""P15  gates are scheduled after their operands; cycles are rejected."""
import re, itertools
from dom import *
from absint import Interp, Config, walk, Event
from frontend import program, Broken

CIRC = ('circ',)
ELEM = {'long': 8, 'unsigned long': 8, 'Mark': 4}


class Vec:
    """std::vector operations as operations on an array object and a sequence"""

    def __init__(self, p, I, havoc=()):
        self.p, self.I = p, I
        self.len = {}
        I.on_std = self.std

    def esize(self, t):
        t = t.strip()
        if t in ELEM:
            return ELEM[t]
        if t in ('int', 'unsigned int', 'float'):
            return 4
        if t in ('short', 'unsigned short'):
            return 2
        if t in ('bool', 'char', 'unsigned char', 'signed char'):
            return 1
        if t in self.p.structs:
            return (max(o + s for n, o, s, ty in self.p.structs[t]) + 7) // 8 * 8
        return 4 if '*' not in t else 8

    def std(self, fr, name, args, ty):
        m = re.match(r'std::vector<(.*), std::allocator<\1 ?>>::(\S+)$', name)
        if not m or not args or args[0][0] != 'Ptr':
            return None
        t, op = m.group(1), m.group(2)
        mem, guard, ins = self.I.std_at
        k = ('vec', args[0][1], args[0][2])
        es = self.esize(t)
        info = {'vec': k, 'op': op}

        def ev(*a, **kw):
            fr.emit(Event('std', 'vector::' + op, (args[0],) + a, guard, fr.site(ins), mem=dict(mem), ins=ins, info=dict(info, **kw)))
        if op in ('operator[]', 'at'):
            return Ptr(k, P_scale(as_P(args[1]), es))
        if op in ('front', 'data'):
            return Ptr(k, ZERO)
        if op == 'size':
            return self.len.get(k) or P_atom(('size', k, self.I.ver(mem, ('seq', k))))
        if op == 'push_back' or op == 'emplace_back':
            v = args[1]
            if v[0] == 'Ptr':
                v = self.I.load(v[1], v[2], 'i%d' % (8 * es), self.I.ver(mem, v[1]))
            ev(v)
            self.len.pop(k, None)
            fr.havoc(mem, ('seq', k), fr.uid('push')); fr.havoc(mem, k, fr.uid('push'))
            return ZERO
        if op == 'vector':
            n = as_P(args[1]) if len(args) > 2 and args[1][0] != 'Ptr' else ZERO
            v = None
            if len(args) > 3 and args[2][0] == 'Ptr':
                v = self.I.load(args[2][1], args[2][2], 'i%d' % (8 * es), self.I.ver(mem, args[2][1]))
            ev(n, v if v is not None else ZERO)
            self.len[k] = n
            fr.havoc(mem, k, ('init', v if v is not None else ZERO))
            return ZERO
        if op in ('clear', 'resize', 'assign', 'reserve'):
            v = args[2] if len(args) > 2 else None
            ev(*([as_P(args[1])] if len(args) > 1 and args[1][0] != 'Ptr' else []))
            if op == 'clear':
                self.len[k] = ZERO
            elif op == 'resize' and args[1][0] != 'Ptr':
                self.len[k] = as_P(args[1])
            if op != 'reserve':
                fr.havoc(mem, k, fr.uid(op)); fr.havoc(mem, ('seq', k), fr.uid(op))
            return ZERO
        if op.startswith('~'):
            return ZERO
        return None


SIZES = ('p_init_size', 'g_init_size', 'e_init_size', 'p_input_size', 'g_input_size', 'e_input_size', 'dff_size')
VISIT, SORT, NET = 'TopologicalSortVisit', 'TopologicalSort', 'SortNetlist'


def lab(i):
    d = (i or {}).get('dbg') or []
    return '%s:%s (%s)' % tuple(d[0][:3]) if d else '?'


class Run:
    """one abstract run of a function of the scheduler"""

    def __init__(self, p, fn, args, callee, facts=(), extra=()):
        self.p = p
        self.off = {n: (o, s, t) for n, o, s, t in p.structs['ReadCircuit']}
        self.goff = {n: (o, s, t) for n, o, s, t in p.structs['ReadGate']}
        self.calls = []
        f = p.fn(fn)

        def rec(fr, ins, mem, guard, a):
            u = fr.uid('rec')
            e = Event('call', callee, a, guard, fr.site(ins), mem=dict(mem), ins=ins, info=u)
            for x in a:
                if x[0] == 'Ptr':
                    for q in (('vec', x[1], x[2]), ('seq', ('vec', x[1], x[2]))):
                        fr.havoc(mem, q, u)
                    self.V.len.pop(('vec', x[1], x[2]), None)
            fr.emit(e)
            e.ret = P_atom(('rec', u))
            return e.ret
        cfg = Config(calls={callee: rec}, unroll=4, unroll_breaks=True, fail_edges=False, facts=list(facts))
        names = {o: n for n, (o, s, t) in self.off.items()}
        cfg.nonneg = lambda k: k[0] in ('nn', 'size', 'k')
        cfg.on_load = lambda I_, base, ver, off, ty: P_atom(('nn', names[const_of(off)])) if base == CIRC and const_of(off) in names and names[const_of(off)] in SIZES + ('gate_size', 'output_size', 'terminate_id') else None
        self.I = I = Interp(p, cfg)
        self.V = Vec(p, I)
        self.fr = I.run(f, args, {})
        self.events = [(e, st) for e, st in walk(self.fr.events)]
        self.calls = [(e, e.ret) for e, st in self.events if e.kind == 'call' and e.name == callee]
        self.where = '%s:%s (%s)' % (f['file'], f['line'], fn)

    def ev(self, x, sub):
        return self.I.rebuild(x, sub)

    def stores(self, base):
        return [(e, st) for e, st in self.events if e.kind == 'store' and e.args[0][0] == 'Ptr' and e.args[0][1] == base]

    def vec(self, name):
        return ('vec', CIRC, P_const(self.off[name][0]))

    def exits(self, loop):
        """exit edges of a loop in the order their choice atoms are numbered: (atom or None for the last, condition)"""
        ks = []
        cs = {}
        for s_, d_, c_ in loop.info.cond:
            if (s_, d_) not in cs:
                ks.append((s_, d_))
            cs[(s_, d_)] = c_ if (s_, d_) not in cs else bor(cs[(s_, d_)], c_)
        return [(('exit', loop.name, i) if i < len(ks) - 1 else None, cs[k]) for i, k in enumerate(ks)]


def truth(f, fixed=None):
    """all assignments of the boolean atoms of an ANF: yields the value"""
    if f in (F0, F1):
        return {f == F1}
    atoms = sorted(banf_atoms(f))
    if len(atoms) > 10:
        return {True, False}
    out = set()
    for v in itertools.product((F0, F1), repeat=len(atoms)):
        out.add(banf_subst(f, dict(zip(atoms, v))) == F1)
    return out


def pload(x, base):
    """key of a plain load of the given object, or None"""
    k = atom_of(x) if x[0] == 'P' else None
    return k if k and k[0] == 'ld' and k[1] == base else None


def visit(ctx, p):
    cur = P_atom(('nn', 'cur'))
    r = Run(p, VISIT, [Ptr(CIRC), Ptr(('marks',)), P_atom(('cur',)), Ptr(('sorted',)), Ptr(('loop',))], VISIT)
    I = r.I
    M, S = ('vec', ('marks',), ZERO), ('sorted',)
    w = r.where
    stores = r.stores(M)
    pushes = [e for e, st in r.events if e.kind == 'std' and str(e.name) == 'vector::push_back' and e.args[0] == Ptr(S)]
    other = [e for e, st in r.events if e.kind == 'std' and e.args and e.args[0] in (Ptr(S), Ptr(('marks',))) and e not in pushes]
    order = {id(e): n for n, (e, st) in enumerate(r.events)}
    for e, st in stores:
        ctx.ob(as_P(e.args[0][2]) == P_scale(P_atom(('cur',)), 4) and const_of(as_P(e.args[1])) is not None and not st, 'visit:mark', lab(e.ins), 'only the mark of the visited gate is changed, to a constant', show(e.args[0])[:120])
    ctx.ob(not other, 'visit:other', w, 'the marks and the sorted list are changed in no other way', [str(e.name) for e in other])
    for e in pushes:
        ctx.ob(e.args[1] == P_atom(('cur',)), 'visit:pushed', lab(e.ins), 'the visited gate itself is appended', show(e.args[1])[:120])
    for e, x in r.calls:
        ctx.ob(e.args[:2] == (Ptr(CIRC), Ptr(('marks',))) or list(e.args[:2]) == [Ptr(CIRC), Ptr(('marks',))], 'visit:args', lab(e.ins), 'the recursive visit works on the same circuit and marks', '')
        ctx.ob(e.args[3] == Ptr(S), 'visit:list', lab(e.ins), 'the recursive visit appends to the same list', show(e.args[3]))
    nin = ZERO
    for n in SIZES:
        nin = P_add(nin, P_atom(('nn', n)))
    G = r.vec('gate_list')
    es = r.V.esize('ReadGate')
    # operands visited by the recursive calls
    opk = {}
    for k in (0, 1):
        want = P_add(P_scale(P_sub(P_atom(('cur',)), nin), es), P_const(r.goff['input'][0] + 8 * k))
        for e, x in r.calls:
            kk = pload(as_P(e.args[2]), G)
            if kk and as_P(kk[3]) == want:
                opk.setdefault(k, []).append((e, x, kk))
    known = {id(e) for v in opk.values() for e, x, kk in v}
    for e, x in r.calls:
        ctx.ob(id(e) in known, 'visit:operand', lab(e.ins), 'a recursive visit goes to an operand of the visited gate', show(e.args[2])[:160])
    for k in (0, 1):
        ctx.ob(k in opk, 'visit:operand%d' % k, w, 'operand %d of the visited gate is visited' % k, '')
    if len(opk) < 2 or not stores:
        return None
    # marks: initial value comes from the caller (checked there); T is the first one stored, P the last
    vals = [const_of(as_P(e.args[1])) for e, st in stores]
    marks = sort_init(p)
    if marks is None:
        raise Broken('the initial mark was not found in ' + SORT)
    U, Pm = marks
    T = [v for v in vals if v not in (U, Pm)]
    ctx.ob(len(set(T)) == 1, 'visit:temp', w, 'one temporary mark, different from the initial and the permanent mark, is used', vals)
    if len(set(T)) != 1:
        return None
    T = T[0]
    # every load of a mark: of the visited gate on entry, or of an operand
    cases = {'gate': P_add(nin, P_atom(('nn', 'g'))), 'input': P_atom(('nn', 'i')), 'constant': P_sub(P_const(-1), P_atom(('nn', 'c')))}
    exprs = [e.guard for e, st in stores] + [e.guard for e in pushes] + [e.guard for e, x in r.calls]
    everything = [B(g) for g in exprs] + [r.fr.ret]
    mk = set()
    ck = set()

    acc = []
    for v in everything:
        collect(v, acc)
    for v in acc:
        if v[0] == 'ld' and v[1] == M:
            (ck if as_P(v[3]) == P_scale(P_atom(('cur',)), 4) else mk).add(v)
    opatom = {k: {kk for e, x, kk in v} for k, v in opk.items()}
    mk_of = {k: {m for m in mk if any(as_P(m[3]) == P_scale(P_atom(o), 4) for o in opatom[k])} for k in (0, 1)}
    stray = mk - mk_of[0] - mk_of[1]
    if stray or len({m[2] for m in ck}) > 1:
        raise Broken('%s consults marks in a way this analysis does not follow' % VISIT)
    n = 0
    rk = {id(e): atom_of(x) for e, x in r.calls}

    # 1. constants
    sub = {('cur',): cases['constant']}
    done = all(r.ev(B(e.guard), sub)[1] == F0 for e in [e for e, st in stores] + pushes)
    ctx.ob(done and const_of(as_P(r.ev(r.fr.ret, sub))) == 0, 'visit:const', w, 'a constant operand (negative index) is accepted without being scheduled', show(r.ev(r.fr.ret, sub))[:120])
    base = {('cur',): cur}
    for m in (U, T, Pm):
        for c0, c1 in itertools.product(cases, repeat=2) if m == U else [('gate', 'gate')]:
            for marks in itertools.product((U, T, Pm), repeat=2) if m == U and (mk_of[0] or mk_of[1]) else [(None, None)]:
                for res in itertools.product((0, -1), repeat=len(r.calls)) if m == U else [(0,) * len(r.calls)]:
                    sub = dict(base)
                    for q in ck:
                        sub[q] = P_const(m)
                    for k, c in ((0, c0), (1, c1)):
                        if c == 'input' and marks[k] is not None and marks[k] != Pm:
                            break
                        for o in opatom[k]:
                            sub[o] = P_atom(('nn', 'g%d' % k)) if c == 'input' else P_add(nin, P_atom(('nn', 'g%d' % k))) if c == 'gate' else P_sub(P_const(-1), P_atom(('nn', 'g%d' % k)))
                        for q in mk_of[k]:
                            sub[q] = P_const(marks[k])
                    else:
                        for (e, x), v in zip(r.calls, res):
                            sub[rk[id(e)]] = P_const(v)
                        n += 1
                        dec(ctx, r, sub, m, (U, T, Pm), (c0, c1), marks, opk, stores, pushes, order, res, w)
    ctx.count('cases of the visit', n)
    return (U, T, Pm)


def dec(ctx, r, sub, m, marks3, cls, marks, opk, stores, pushes, order, res, w):
    U, T, Pm = marks3
    g = lambda e: truth(r.ev(B(e.guard), sub)[1])
    ret = as_P(r.ev(r.fr.ret, sub))
    rv = const_of(ret)
    name = {U: 'an unvisited gate', T: 'a gate being visited', Pm: 'a finished gate'}[m]
    if m == T:
        ctx.ob(rv == -1, 'visit:cycle', w, 'meeting a gate that is being visited is reported as a failure', show(ret)[:120])
        ctx.ob(all(g(e) == {False} for e in pushes), 'visit:cycle2', w, 'a gate being visited is not scheduled', '')
        return
    if m == Pm:
        ctx.ob(rv == 0, 'visit:done', w, 'a finished gate is accepted', show(ret)[:120])
        ctx.ob(all(g(e) == {False} for e in pushes) and all(g(e) == {False} or const_of(as_P(e.args[1])) == Pm for e, st in stores), 'visit:done2', w, 'a finished gate is not scheduled again and stays finished', '')
        return
    fail = False
    okops = True
    run = [(e, x, v) for (e, x), v in zip(r.calls, res) if g(e) != {False}]
    for e, x, v in run:
        if g(e) == {True} and v != 0:
            fail = True
    maybe = any(g(e) == {True, False} for e, x, v in run)
    for k in (0, 1):
        called = any(g(e) == {True} for e, x, kk in opk[k])
        skip = cls[k] != 'gate' or marks[k] == Pm
        if marks[k] == T:
            if not called:
                fail = True
            continue
        if not called and not skip:
            okops = False
    site = w
    if fail:
        ctx.ob(rv == -1, 'visit:propagate', site, 'a failed visit of an operand makes the visit fail', show(ret)[:160])
        ctx.ob(all(g(e) == {False} for e in pushes), 'visit:propagate2', site, 'a gate whose operand could not be scheduled is not scheduled', '')
        return
    if any(v != 0 for e, x, v in run) and maybe:
        return
    ctx.ob(okops, 'visit:operands', site, 'each operand that is a gate is visited before the gate is scheduled', 'operands: %s' % (cls,))
    if not okops:
        return
    live = [e for e in pushes if g(e) == {True}]
    ctx.ob(len(live) == 1 and all(g(e) == {False} for e in pushes if e not in live), 'visit:once', site, 'the gate is scheduled exactly once after its operands', 'operands: %s, appended %d times' % (cls, len(live)))
    calls = [order[id(e)] for e, x in r.calls if g(e) != {False}]
    ctx.ob(all(order[id(e)] > c for e in live for c in calls), 'visit:after', site, 'the gate is scheduled after its operands were visited', '')
    st = [(e, const_of(as_P(e.args[1]))) for e, _ in stores if g(e) != {False}]
    before = [v for e, v in st if calls and order[id(e)] < min(calls)]
    between = [v for e, v in st if calls and min(calls) < order[id(e)] < max(calls)]
    ctx.ob((not calls or before and before[-1] == T and all(g(e) == {True} for e, v in st)) and all(v == T for v in between), 'visit:temporary', site, 'while its operands are visited the gate carries the temporary mark', '%s %s' % (before, between))
    ctx.ob(bool(st) and st[-1][1] == Pm and g(st[-1][0]) == {True}, 'visit:permanent', site, 'after its operands were visited the gate is marked finished', [v for e, v in st])
    ctx.ob(rv == 0, 'visit:success', site, 'the visit succeeds', show(ret)[:160])


_sort = {}


def sorter(p):
    if 'r' not in _sort:
        _sort['r'] = Run(p, SORT, [Ptr(CIRC), Ptr(('sorted',)), Ptr(('rcs',))], VISIT)
    return _sort['r']


def sort_init(p):
    """initial mark and the mark of inputs"""
    r = sorter(p)
    if not r.calls:
        return None
    mv = r.calls[0][0].args[1]
    c = [e for e, st in r.events if e.kind == 'std' and str(e.name) == 'vector::vector' and e.args[0] == mv and len(e.args) > 2]
    st = r.stores(('vec', mv[1], mv[2]))
    if len(c) != 1 or not st:
        return None
    u = const_of(as_P(c[0].args[2])); q = const_of(as_P(st[0][0].args[1]))
    return None if u is None or q is None else (u, q)


def sizes():
    nin = ZERO
    for n in SIZES:
        nin = P_add(nin, P_atom(('nn', n)))
    return nin, P_atom(('nn', 'gate_size'))


def sort(ctx, p, marks):
    r = sorter(p)
    I = r.I
    U, T, Pm = marks
    w = r.where
    S = Ptr(('sorted',))
    nin, ng = sizes()
    mv = r.calls[0][0].args[1]
    M = ('vec', mv[1], mv[2])
    order = {id(e): n for n, (e, st) in enumerate(r.events)}
    ctor = [e for e, st in r.events if e.kind == 'std' and str(e.name) == 'vector::vector' and e.args[0] == mv and len(e.args) > 2]
    ctx.ob(as_P(ctor[0].args[1]) == P_add(nin, ng), 'sort:marks', lab(ctor[0].ins), 'there is a mark for every input, state element and gate', show(ctor[0].args[1])[:200])
    on = [(e, st) for e, st in r.events if e.kind == 'std' and e.args and e.args[0] == S]
    clr = [e for e, st in on if str(e.name) == 'vector::clear']
    pushes = [(e, st) for e, st in on if str(e.name) == 'vector::push_back']
    ctx.ob(len(clr) >= 1 and clr[0].guard == F1 and all(order[id(clr[0])] < order[id(e)] for e, st in pushes) and len(clr) + len(pushes) == len(on), 'sort:clear', w, 'the list starts empty', '')
    ctx.ob(len(pushes) == 1 and len(r.stores(M)) == 1, 'sort:inputs', w, 'the sorter itself schedules and marks the inputs and nothing else', '%d %d' % (len(pushes), len(r.stores(M))))
    for (e, st), what in [(x, 'append') for x in pushes] + [(x, 'mark') for x in r.stores(M)]:
        ok = len(st) == 1 and st[0].info.trip == nin and not st[0].info.breaks and e.guard == F1 and st[0].guard == F1
        kk = P_atom(('k', st[0].name)) if st else None
        if what == 'append':
            ok = ok and as_P(e.args[1]) == kk
        else:
            ok = ok and as_P(e.args[0][2]) == P_scale(kk, 4) and const_of(as_P(e.args[1])) == Pm
        ctx.ob(ok, 'sort:inputs:' + what, lab(e.ins), 'every input and state element, in order, is scheduled first and marked finished', show(st[0].info.trip)[:200] if st and st[0].info.trip else '')
        ctx.ob(all(order[id(e)] < order[id(c)] for c, x in r.calls), 'sort:first:' + what, lab(e.ins), 'inputs are scheduled before gates', '')
    # visits
    for c, x in r.calls:
        ctx.ob(c.args[0] == Ptr(CIRC) and c.args[1] == mv and c.args[3] == S, 'sort:visit', lab(c.ins), 'gates are visited with the circuit, the marks and the list', '')
    # success only when everything was scheduled
    ret = r.fr.ret
    allc = I.b_eq0(P_sub(P_add(nin, ng), ZERO))
    sz = set()
    succ = []

    def leaves(v, g):
        v2 = v
        if v2[0] == 'P':
            k = atom_of(v2)
            if k is not None and k[0] == 'ite':
                leaves(k[2], band(g, k[1])); leaves(k[3], band(g, bnot(k[1])))
                return
        if v2[0] == 'O' and v2[1] == 'ite':
            leaves(v2[3], band(g, v2[2])); leaves(v2[4], band(g, bnot(v2[2])))
            return
        if const_of(as_P(v2)) != -1:
            succ.append(g)
    leaves(ret, F1)
    tops = [e for e in r.fr.events if e.kind == 'loop' and any(q.kind == 'call' and q.name == VISIT for q, st in walk(e.body))]
    ctx.ob(len(tops) == 1, 'sort:loop', w, 'one loop visits the gates', len(tops))
    if len(tops) != 1:
        return
    top = tops[0]
    full = P_add(nin, ng)

    def complete(g):
        """the condition implies that the list holds every wire"""
        return any(band(g, bnot(frozenset([frozenset([a])]))) == F0 for a in full_atoms(g))

    def full_atoms(g):
        r_ = []
        for a in banf_atoms(g):
            k = key(a)
            if k[0] == 'eq0':
                t = as_P(k[1])
                for sgn in (1, -1):
                    d = P_sub(P_scale(t, sgn), full)
                    aa = atom_of(P_scale(d, -1))
                    if aa is not None and aa[0] == 'size' and aa[1] == ('vec', ('sorted',), ZERO):
                        r_.append(a)
        return r_
    # every gate is considered
    found = None
    for e, st in r.events:
        if e.kind == 'loop' and e.info.trip == ng:
            k = P_atom(('k', e.name))
            want = P_scale(P_add(nin, k), 4)
            ats = set()
            for s_, d_, c_ in e.info.cond:
                ats |= set(banf_atoms(c_))
            for q, _ in walk(e.body):
                if q.guard not in (F0, F1):
                    ats |= set(banf_atoms(q.guard))
            for a in ats:
                kk = key(a)
                if kk[0] == 'eq0':
                    t = as_P(kk[1])
                    for m in t[1]:
                        for q in m[0]:
                            y = key(q)
                            if y[0] == 'ld' and y[1] == M and as_P(y[3]) == want and {abs(const_of(P_sub(t, P_scale(P_atom(y), sg)))) for sg in (1, -1) if const_of(P_sub(t, P_scale(P_atom(y), sg))) is not None} == {U}:
                                found = e
    ctx.ob(found is not None, 'sort:scan', w, 'every gate is examined for being unscheduled', 'loops: %s' % [show(e.info.trip)[:80] for e, st in r.events if e.kind == 'loop' and e.info.trip])

    def outs():
        """loop variables of the scan at the unscheduled gate it stopped at"""
        return {('phiout', found.name, i): P_add(st0, P_mul(as_P(kd[1]), P_atom(('k', found.name)))) for i, (st0, kd) in found.info.phis.items() if kd[0] == 'aff' and st0[0] == 'P'}

    def exhausted(i, cond):
        """the exit is taken only when no unscheduled gate is left, and a failed visit always leaves the loop with a failure"""
        if found is None:
            return False
        for c, x in r.calls:
            out = F0
            for j, (b, cj) in enumerate(ex):
                if not (cj == F1 and top.info.at_hdr):
                    out = bor(out, r.ev(B(cj), {atom_of(x): P_const(-1)})[1])
            if band(r.ev(B(c.guard), {atom_of(x): P_const(-1)})[1], bnot(out)) != F0:
                return False
        if found is top:
            return cond == F1 and top.info.at_hdr
        fe = r.exits(found)
        hdr = [b for b, cj in fe if cj == F1 and found.info.at_hdr]
        if not hdr:
            return False
        cond = banf_subst(cond, {a: F0 for a in full_atoms(cond)})
        sub = {hdr[0]: B(F0)} if hdr[0] is not None else {}
        sub.update(outs())
        return hdr[0] is not None and r.ev(B(cond), sub)[1] == F0
    ex = r.exits(top)
    for i, (a, cond) in enumerate(ex):
        sub = {}
        for j, (b, _) in enumerate(ex):
            if b is not None:
                sub[b] = B(F1 if j == i else F0)
        g = F0
        for s in succ:
            g = bor(g, r.ev(B(s), sub)[1])
        if g == F0:
            continue
        ctx.ob(complete(g) or complete(cond) or exhausted(i, cond), 'sort:complete', w, 'sorting succeeds only when every gate has been scheduled', 'exit %d' % i)
        for c, x in r.calls:
            if cond == F1 and top.info.at_hdr:
                continue
            bad = r.ev(B(band(cond, c.guard)), {atom_of(x): P_const(-1)})[1]
            ctx.ob(bad == F0, 'sort:fail', lab(c.ins), 'a failed visit makes the sort fail', showb(bad)[:200])
    # the gate visited is one found unscheduled
    for c, x in r.calls:
        v = as_P(c.args[2])
        txt = show(v)
        ctx.ob(found is not None, 'sort:target', lab(c.ins), 'the visited index is one found unscheduled', txt[:200])
        if found is not None:
            sub = {}
            kk = P_atom(('k', found.name))
            if found is not top and found in [q for q, st in walk(top.body) if q.kind == 'loop']:
                fe = r.exits(found)
                for i, (b, cond) in enumerate(fe):
                    sub[('exit', found.name, i)] = B(F0)
                sub.update(outs())
                v1 = as_P(r.ev(v, sub))
                hdr = [i for i, (b, cond) in enumerate(fe) if cond == F1 and found.info.at_hdr]
                if hdr and fe[hdr[0]][0] is not None:
                    v2 = as_P(r.ev(v, {fe[hdr[0]][0]: B(F1)}))
                    none = r.ev(B(c.guard), {fe[hdr[0]][0]: B(F1)})[1]
                else:
                    v2, none = ZERO, F0
                ctx.ob(v1 == P_add(nin, kk), 'sort:target1', lab(c.ins), 'the visited index is the one found unscheduled', show(v1)[:200])
                ctx.ob(none == F0, 'sort:target2', lab(c.ins), 'nothing is visited when no unscheduled gate is left', show(v2)[:200])
                ok = r.ev(B(c.guard), sub)[1]
            else:
                ctx.ob(v == P_add(nin, kk), 'sort:target1', lab(c.ins), 'the visited index is the one found unscheduled', show(v)[:200])


def net(ctx, p):
    r = Run(p, NET, [Ptr(CIRC), Ptr(('rcs',))], SORT)
    I = r.I
    w = r.where
    nin, ng = sizes()
    ctx.ob(len(r.calls) == 1 and r.calls[0][0].guard == F1 and r.calls[0][0].args[0] == Ptr(CIRC), 'net:sort', w, 'the circuit is sorted once', len(r.calls))
    if len(r.calls) != 1:
        return
    call, res = r.calls[0]
    order = {id(e): n for n, (e, st) in enumerate(r.events)}
    ret = as_P(r.ev(r.fr.ret, {atom_of(res): P_const(-1)}))
    ctx.ob(const_of(ret) == -1, 'net:fail', lab(call.ins), 'a failed sort is reported', show(ret)[:120])
    ok0 = {atom_of(res): P_const(0)}
    sv = call.args[1]
    L = ('vec', sv[1], sv[2])
    es = r.V.esize('ReadGate')
    # inverse permutation
    inv = None
    for e, st in r.events:
        if e.kind == 'store' and e.args[0][0] == 'Ptr' and e.args[0][1][0] == 'vec' and len(st) == 1:
            k = P_atom(('k', st[0].name))
            o = as_P(e.args[0][2])
            t = None
            for m, c in o[1]:
                for a in m:
                    y = key(a)
                    if y[0] == 'ld' and y[1] == L and as_P(y[3]) == P_scale(k, 8) and o == P_scale(P_atom(y), 8):
                        t = y
            if t and as_P(e.args[1]) == k:
                inv = (e, st[0])
    ctx.ob(inv is not None, 'net:inverse', w, 'the inverse of the order is computed: inverse[order[i]] = i', '')
    if inv is None:
        return
    e, lp = inv
    INV = e.args[0][1]
    tr = lp.info.trip
    isz = lambda t: t is not None and atom_of(t) is not None and atom_of(t)[0] == 'size' and atom_of(t)[1] == L
    ctx.ob((isz(tr) or tr == P_add(nin, ng)) and not lp.info.breaks and e.guard == F1, 'net:inverse:all', lab(e.ins), 'the inverse covers every position', show(tr)[:120] if tr else '')
    ctx.ob(len(r.stores(INV)) == 1, 'net:inverse:only', lab(e.ins), 'the inverse is written nowhere else', '')
    ctor = [q for q, st in r.events if q.kind == 'std' and str(q.name) == 'vector::vector' and ('vec', q.args[0][1], q.args[0][2]) == INV]
    ctx.ob(len(ctor) == 1 and (isz(as_P(ctor[0].args[1])) or as_P(ctor[0].args[1]) == P_add(nin, ng)) or any(str(q.name) in ('vector::resize', 'vector::assign') and ('vec', q.args[0][1], q.args[0][2]) == INV for q, st in r.events if q.kind == 'std'), 'net:inverse:size', w, 'the inverse has a place for every position', '')
    tinv = order[id(e)]
    ctx.ob(not [q for q, st in r.stores(L)], 'net:list', w, 'the order itself is not changed', '')

    def isinv(v, x):
        """v = inverse[x], read after the inverse was filled"""
        k = pload(as_P(v), INV)
        return bool(k) and as_P(k[3]) == P_scale(x, 8)
    # schedule
    sched = r.stores(r.vec('task_schedule'))
    ctx.ob(len(sched) == 1, 'net:schedule', w, 'the schedule is written in one place', len(sched))
    for e, st in sched:
        ok = len(st) == 1 and e.guard == F1 and not st[0].info.breaks
        det = ''
        if ok:
            k = P_atom(('k', st[0].name))
            tr = st[0].info.trip
            o = as_P(e.args[0][2])
            v = as_P(e.args[1])
            y = [key(a) for m, c in v[1] for a in m if key(a)[0] == 'ld']
            want_tr = isz(P_add(tr, nin)) or tr == ng
            ok = o == P_scale(k, 8) and len(y) == 1 and y[0][1] == L and as_P(y[0][3]) == P_scale(P_add(nin, k), 8) and v == P_sub(P_atom(y[0]), nin) and want_tr
            det = '[%s] = %s for %s' % (show(o)[:60], show(v)[:200], show(tr)[:100])
        ctx.ob(ok, 'net:schedule:value', lab(e.ins), 'position k of the schedule names the k-th gate of the order, for every gate', det)
    # references
    want = [('gate_list', 'gate_size', 0, r.goff['input'][0], 'input 0 of each gate', True), ('gate_list', 'gate_size', 0, r.goff['input'][0] + 8, 'input 1 of each gate', True),
            ('gate_list', 'gate_size', 0, r.goff['output'][0], 'the output of each gate', 'index'),
            ('dff_list', 'dff_size', 0, r.goff['input'][0], 'the data input of each state element', True), ('dff_list', 'dff_size', 0, r.goff['input'][0] + 8, 'the initial value of each state element', True),
            ('output_list', 'output_size', 0, 0, 'each output', True)]
    for vn, cnt, _, fo, what, mode in want:
        V = r.vec(vn)
        sz = 8 if vn == 'output_list' else es
        hits = []
        for e, st in r.stores(V):
            if st:
                k = P_atom(('k', st[-1].name))
                if as_P(e.args[0][2]) == P_add(P_scale(k, sz), P_const(fo)):
                    hits.append((e, st, k))
        ctx.ob(len(hits) == 1, 'net:ref:' + what, w, '%s is renumbered exactly once' % what, len(hits))
        for e, st, k in hits:
            lp = st[-1]
            ctx.ob(len(st) == 1 and lp.info.trip == P_atom(('nn', cnt)) and guard_ok(r, lp, ok0), 'net:all:' + what, lab(e.ins), '%s is renumbered for all of them' % what, show(lp.info.trip)[:120] if lp.info.trip else '')
            ctx.ob(order[id(e)] > tinv, 'net:order:' + what, lab(e.ins), 'renumbering uses the finished inverse', '')
            v = e.args[1]
            if mode == 'index':
                ctx.ob(isinv(v, P_add(nin, k)) and e.guard == F1, 'net:value:' + what, lab(e.ins), '%s becomes the position of the gate in the order' % what, show(v)[:200])
                continue
            # the value before: a load of the same place
            old = set()
            acc = []
            collect(v, acc); collect(B(e.guard), acc)
            for y in acc:
                if y[0] == 'ld' and y[1] == V and as_P(y[3]) == as_P(e.args[0][2]):
                    old.add(y)
            pos = {y: P_atom(('nn', 'x')) for y in old}; neg = {y: P_sub(P_const(-1), P_atom(('nn', 'x'))) for y in old}
            gp = r.ev(B(e.guard), pos)[1]
            vp = r.ev(v, pos)
            ok = bool(old) and isinv(vp, P_atom(('nn', 'x')))
            # a check that fails before this store leaves the loop with a failure
            ctx.ob(ok, 'net:value:' + what, lab(e.ins), '%s becomes the position of what it refers to' % what, show(v)[:200])
            ctx.ob(gp == F1 or (bool(gp) and lp.info.breaks and other_fail(r, lp, gp, INV)), 'net:cond:' + what, lab(e.ins), '%s is renumbered whenever it refers to a wire (index 0 included)' % what, showb(gp)[:200])
            gn = r.ev(B(e.guard), neg)[1]
            vn_ = r.ev(v, neg)
            ctx.ob(gn == F0 or as_P(vn_) == P_sub(P_const(-1), P_atom(('nn', 'x'))), 'net:const:' + what, lab(e.ins), 'a constant stays as it is', '%s %s' % (showb(gn)[:80], show(vn_)[:80]))
    extra = [(e, st) for vn in ('gate_list', 'dff_list', 'output_list') for e, st in r.stores(r.vec(vn))]
    for e, st in extra:
        V = e.args[0][1]
        sz = 8 if V == r.vec('output_list') else es
        k = P_atom(('k', st[-1].name)) if st else ZERO
        d = const_of(P_sub(as_P(e.args[0][2]), P_scale(k, sz)))
        ctx.ob(d is not None and (V == r.vec('output_list') and d == 0 or d in (r.goff['input'][0], r.goff['input'][0] + 8, r.goff['output'][0])), 'net:extra', lab(e.ins), 'nothing else of the circuit is changed', show(e.args[0])[:160])
    # terminate
    tid = [(e, st) for e, st in r.stores(CIRC)]
    hits = [e for e, st in tid if const_of(as_P(e.args[0][2])) == r.off['terminate_id'][0] and not st]
    ctx.ob(len(hits) == 1 and len(tid) == 1, 'net:terminate', w, 'the terminate wire is renumbered exactly once and no size is changed', len(tid))
    for e in hits:
        t = P_atom(('nn', 'terminate_id'))
        ctx.ob(isinv(r.ev(e.args[1], {('nn', 'terminate_id'): P_add(ONE, P_atom(('nn', 'x')))}), P_add(ONE, P_atom(('nn', 'x')))), 'net:terminate:value', lab(e.ins), 'the terminate wire becomes its position in the order', show(e.args[1])[:200])
        g = success(r, r.ev(B(e.guard), {**ok0, ('nn', 'terminate_id'): P_add(ONE, P_atom(('nn', 'x')))})[1], ok0)
        ctx.ob(g, 'net:terminate:when', lab(e.ins), 'it is renumbered whenever there is one', showb(e.guard)[:200])
    # success is reported when nothing failed
    rr = as_P(r.ev(r.fr.ret, ok0))
    sub = {}
    for e in r.fr.events:
        if e.kind == 'loop' and e.info.breaks:
            for i, (a, c) in enumerate(r.exits(e)):
                if a is not None:
                    sub[a] = B(F1 if c == F1 and e.info.at_hdr else F0)
    ctx.ob(const_of(as_P(r.ev(rr, sub))) == 0, 'net:success', w, 'a sorted circuit is accepted', show(rr)[:200])
    # a run-time check may only reject a gate whose operand does not precede it
    for e in r.fr.events:
        if e.kind == 'loop' and e.info.breaks:
            k = P_atom(('k', e.name))
            for i, (a, c) in enumerate(r.exits(e)):
                if c == F1 and e.info.at_hdr:
                    continue
                acc = []
                collect(B(c), acc)
                iv = {y: None for y in acc if y[0] == 'ld' and y[1] == INV}
                own = [y for y in iv if as_P(y[3]) == P_scale(P_add(nin, k), 8)]
                rest = [y for y in iv if y not in own]
                sub = {y: P_atom(('nn', 'p%d' % n)) for n, y in enumerate(rest)}
                tot = P_add(ONE, P_atom(('nn', 'd')))
                for n in range(len(rest)):
                    tot = P_add(tot, P_atom(('nn', 'p%d' % n)))
                for y in own:
                    sub[y] = tot
                ctx.ob(r.ev(B(c), sub)[1] == F0, 'net:check', lab((e.ins or {})) if e.ins else w, 'a gate whose operands precede it is not rejected', showb(r.ev(B(c), sub)[1])[:200])


def success(r, g, ok0):
    """the guard holds on the path where every run-time check passes"""
    sub = {}
    for e in r.fr.events:
        if e.kind == 'loop' and e.info.breaks:
            for i, (a, c) in enumerate(r.exits(e)):
                if a is not None:
                    sub[a] = B(F1 if c == F1 and e.info.at_hdr else F0)
    return r.ev(B(g), {**sub, **ok0})[1] == F1


def guard_ok(r, lp, ok0):
    return len([1 for e in r.fr.events if e is lp]) == 1 and success(r, lp.guard, ok0)


def other_fail(r, lp, g, INV):
    """what keeps the store from happening is a failed check of another operand of the same gate (which leaves the loop with a failure)"""
    nin, ng = sizes()
    acc = []
    collect(B(g), acc)
    k = P_atom(('k', lp.name))
    sub = {}
    tot = ONE
    n = 0
    for y in acc:
        if y[0] == 'ld' and y[1] == INV and as_P(y[3]) != P_scale(P_add(nin, k), 8):
            sub[y] = P_atom(('nn', 'q%d' % n)); tot = P_add(tot, sub[y]); n += 1
    for y in acc:
        if y[0] == 'ld' and y[1] == INV and as_P(y[3]) == P_scale(P_add(nin, k), 8):
            sub[y] = P_add(tot, P_atom(('nn', 'd')))
    return r.ev(B(g), sub)[1] == F1


def collect(v, out, seen=None):
    """keys of all atoms inside a value"""
    seen = set() if seen is None else seen
    if isinstance(v, tuple):
        if v and v[0] == 'P':
            for m, c in v[1]:
                for a in m:
                    if a not in seen:
                        seen.add(a); out.append(key(a)); collect(key(a), out, seen)
            return
        if v and v[0] == 'B':
            return collect(v[1], out, seen)
        for x in v:
            collect(x, out, seen)
    elif isinstance(v, frozenset):
        for m in v:
            for a in m:
                if isinstance(a, int) and a not in seen:
                    seen.add(a); out.append(key(a)); collect(key(a), out, seen)


def run(ctx):
    p = program(keep=[VISIT, SORT, NET, 'LogStream'], bycopy=True)
    _sort.clear()
    marks = visit(ctx, p)
    if marks:
        sort(ctx, p, marks)
    net(ctx, p)
    ctx.functions.update([VISIT, SORT, NET])
    ctx.assumptions = ['the wire indices assigned by the parser are below the number of inputs, state elements and gates (reads of a vector through [] are not bounded here)',
                       'by induction over the depth-first search: a gate is appended after both operands have been, so every operand that is a gate precedes its user, and a gate met while being visited lies on a combinational loop']
    ctx.explanation = ('The recursive visit is checked as one inductive step over every class of mark, operand (gate, input, constant) and recursive result; the sorter for completeness, initial marks and propagation of failure; the renumbering for covering every reference and for using the inverse of the computed order.')
