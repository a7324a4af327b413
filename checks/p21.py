"""P21  SendData / RecvData move exactly the requested bytes or report failure (inductive invariant of the transfer loop)."""
import itertools
from dom import *
from absint import Interp, Config, walk
from calls import Calls
from frontend import program, Broken

IO = {'SendData': ('write', 'send'), 'RecvData': ('read', 'recv')}
RAW = {'write', 'send', 'read', 'recv', 'sendto', 'recvfrom', 'sendmsg', 'recvmsg', 'writev', 'readv', 'pread', 'pwrite', '__read_chk', '__recv_chk'}
OKFLAGS = 0x4000 | 0x100          # MSG_NOSIGNAL, MSG_WAITALL
T, R, LEN, SOCK = ('t',), ('r',), ('len',), ('sock',)
PT, PR, PL = P_atom(T), P_atom(R), P_atom(LEN)
SUCCESS, FAILURE = 0, -1
NOSUB = {('nosub',): ZERO}


def io_result(v):
    k = atom_of(v)
    return bool(k) and k[0] == 'ret' and k[1] in RAW


def transfer(ctx, fn):
    p = program(keep=['SendData', 'RecvData'])
    f = p.fn(fn)
    where = '%s:%s (%s)' % (f['file'], f['line'], fn)
    ob = lambda ok, k, w, rule, det='': ctx.ob(ok, fn + ':' + k, w, rule, det, group=fn)
    cfg = Config(unroll=0)
    cfg.walking = True
    cfg.fail_edges = False
    cfg.exact_trunc = lambda v: not io_result(v)       # one call moves less than 2 GB on Linux, so its result fits an int
    cfg.nonneg = lambda k: False
    I = Interp(p, cfg)
    if len(f['args']) != 3:
        raise Broken('anchor signature changed: ' + fn)
    bits_ = f['args'][2]['ty']
    ob(bits_ in ('i64',), 'width', where, 'the length parameter holds every length a caller can ask for', bits_)
    fr = I.run(f, [P_atom(SOCK), Ptr(('buf',)), PL], {})
    calls = [(e, [s for s in st if s.kind == 'loop']) for e, st in walk(fr.events) if e.kind == 'call' and e.name in RAW]
    ob(len(calls) == 1 and calls[0][0].name in IO[fn], 'one-call', where, 'the data go through exactly one system call site', [(e.name, e.site) for e, _ in calls])
    if len(calls) != 1:
        return
    e, lps = calls[0]
    if not ob(len(lps) == 1, 'loop', e.site, 'partial transfers are continued in a loop', len(lps)):
        return
    L = lps[0]; li = L.info
    a = e.args
    ret = atom_of(as_P(e.ret))
    # phi -> start + c * t
    sub = {}
    step = {}

    def facts(fs):
        I.facts[:] = list(fs)
        I.rb_memo = {}
    lat = {}; ptrs = {}; walk_ = {}
    for i, (st, kd) in li.phis.items():
        lat[i] = kd[1] if kd[0] == 'opq' else (None if kd[0] == 'aff' else 'inv')
    # offsets: use the pointer passed to the call; it must be buf + (affine in loop-carried values)
    ptr = a[1]
    ok = ptr[0] == 'Ptr' and as_P(a[0]) == P_atom(SOCK)

    def cont_value(v, r, more):
        """value under the case r (integer P) and extra facts"""
        facts(more)
        return I.rebuild(v, {ret: r})
    for i, (st, kd) in li.phis.items():
        pk = ('phi', L.name, i)
        v = lat[i]
        if st == UNDEF or v == 'inv' or v is None:
            continue
        if v[0] == 'Ptr' and st[0] == 'Ptr':
            if cont_value(v, PR, [P_sub(PR, ONE)]) == Ptr(pk, PR):
                ptrs[i] = st; step[i] = 1
            elif cont_value(v, PR, [P_sub(PR, ONE)]) == Ptr(st[1], P_add(P_atom(pk), PR)):
                sub[pk] = P_add(st[2], PT); step[i] = 1; walk_[i] = st[1]
            continue
        if v[0] not in ('P', 'B'):
            continue
        x = as_P(cont_value(v, PR, [P_sub(PR, ONE)]))
        d = P_sub(x, P_atom(pk))
        for c in (1, -1):
            if d == P_scale(PR, c):
                sub[pk] = P_add(as_P(st), P_scale(PT, c)); step[i] = c
    def pos(i, x):
        x = ptr_norm(x, L, ptrs)
        return x[2] if x[0] == 'Ptr' and i in walk_ and x[1] == walk_[i] else x
    S = lambda v, r=PR: I.rebuild(v, {**sub, ret: r})
    ob(bool(step), 'progress', L.site, 'the loop carries the number of bytes moved so far', len(li.phis))
    pp = S(ptr)
    pp = ptr_norm(pp, L, ptrs)
    ob(ok and pp == Ptr(('buf',), PT), 'position', e.site, 'each call continues where the previous one stopped', show(pp) if pp else '')
    facts([PT, P_sub(P_sub(PL, PT), ONE)])
    am = as_P(S(as_P(a[2])))
    ob(bounded(I, am, P_sub(PL, PT), facts, [PT, P_sub(P_sub(PL, PT), ONE)]), 'amount', e.site, 'each call asks for at least one and at most the missing bytes', show(am))
    if len(a) > 3:
        fl = const_of(as_P(a[3]))
        ob(fl is not None and not fl & ~OKFLAGS, 'flags', e.site, 'the call blocks and consumes what it returns', fl)
    # behaviour of one iteration, case by case
    rem = P_sub(PL, PT)
    base = [PT, P_sub(rem, ONE)]

    def iteration(t, r, fs):
        """-> list of (free valuation, 'exit', return value) | ('cont', {phi: next}) in this case"""
        facts(fs)
        m = dict(sub)
        for k in list(m):
            m[k] = I.rebuild(m[k], {T: t})
        m[ret] = r
        conds = [(s, d, I.rebuild(B(c), m)) for s, d, c in li.cond]
        io = I.rebuild(B(e.guard), m)
        free = set()
        for _, _, c in conds:
            for mm in c[1]:
                free |= set(mm)
        rv = fr.ret
        res = []
        free = sorted(free, key=repr)
        for vals in itertools.product((0, 1), repeat=len(free)):
            asg = {key(x): B(F1 if y else F0) for x, y in zip(free, vals)}
            taken = None
            for n_, (s, d, c) in enumerate(conds):
                cc = I.rebuild(c, asg)
                if cc[1] == F1:
                    taken = n_
                    break
                if cc[1] != F0:
                    taken = '?'
            nm = [show(P_atom(key(x)))[:80] + '=%d' % y for x, y in zip(free, vals)]
            gio = I.rebuild(io, asg)[1]
            if taken is None:
                nxt = {i: I.rebuild(I.rebuild(lat[i], m), asg) for i in step if lat[i] not in (None, 'inv')}
                res.append((nm, free, 'cont', nxt, gio))
            else:
                q = dict(m); q.update(asg)
                for n_ in range(len(conds)):
                    q[('exit', L.name, n_)] = B(F1 if n_ == taken else F0)
                v = rv
                for _ in range(3):
                    outs = {('out', L.name, i): x for i, x in li.outs.items() if x is not None and x[0] in ('P', 'B')}
                    v = I.rebuild(v, outs)
                v = I.rebuild(v, q)
                res.append((nm, free, 'exit', v, gio))
        return res
    err = lambda x: 'errno' in repr([key(y) for y in x]) or '__errno_location' in ' '.join(show(P_atom(key(y))) for y in x)

    def returns(v, want):
        c = const_of(as_P(v)) if v[0] in ('P', 'B') else None
        return c == want
    # negative result
    for nm, free, kind, v, gio in iteration(PT, P_const(-1), base):
        if kind == 'exit':
            ob(returns(v, FAILURE), 'error', e.site, 'a failing system call makes the transfer fail', '%s %s' % (nm, show(v)[:200]))
        else:
            same = all(pos(i, x) == S0(I, li, sub, i) for i, x in v.items())
            ob(bool(free) and err(free) and same, 'error', e.site, 'a failing system call makes the transfer fail (or is retried from the same position for a specific errno)', '%s' % nm)
    # end of stream
    for nm, free, kind, v, gio in iteration(PT, ZERO, base):
        ob(kind == 'exit' and returns(v, FAILURE), 'closed', e.site, 'a closed connection makes the transfer fail', '%s %s' % (nm, show(v)[:200] if kind == 'exit' else 'continues'))
    # partial transfer
    for nm, free, kind, v, gio in iteration(PT, PR, base + [P_sub(PR, ONE), P_sub(P_sub(rem, PR), ONE)]):
        ob(kind == 'cont', 'partial', e.site, 'a partial transfer is continued', '%s %s' % (nm, show(v)[:200] if kind == 'exit' else ''))
        if kind == 'cont':
            for i, x in v.items():
                w = S0(I, li, sub, i, P_add(PT, PR))
                x = pos(i, x)
                ob(x == w, 'partial:advance', e.site, 'the position advances by the bytes moved', '%s expected %s' % (show(x), show(w)))
    # complete transfer
    for nm, free, kind, v, gio in iteration(PT, rem, base):
        if kind == 'exit':
            ob(returns(v, SUCCESS), 'complete', e.site, 'the transfer succeeds once every byte has been moved', '%s %s' % (nm, show(v)[:200]))
        else:
            for nm2, _, k2, v2, g2 in iteration(PL, PR, [P_sub(PL, ONE)]):
                ob(k2 == 'exit' and g2 == F0 and returns(v2, SUCCESS), 'complete', e.site, 'the transfer succeeds once every byte has been moved, without another call', '%s %s' % (nm2, show(v2)[:200] if k2 == 'exit' else k2))
    # entry
    facts([P_sub(PL, ONE)])
    g = I.rebuild(B(L.guard), NOSUB)[1]
    ob(g == F1, 'entry', L.site, 'a positive length enters the loop', showb(g))
    facts([P_scale(PL, -1)])
    g = I.rebuild(B(L.guard), NOSUB)[1]
    if g == F0:
        v = I.rebuild(fr.ret, NOSUB)
        ob(returns(v, SUCCESS), 'empty', where, 'an empty transfer succeeds without a system call', show(v)[:200])
    else:
        for nm2, _, k2, v2, g2 in iteration(ZERO, PR, [P_scale(PL, -1)]):
            ob(k2 == 'exit' and g2 == F0 and returns(v2, SUCCESS), 'empty', where, 'an empty transfer succeeds without a system call', k2)


def bounded(I, am, rem, facts, base):
    """1 <= am <= rem, arm by arm for a conditional amount"""
    if am == rem:
        return True
    k = atom_of(am)
    if k and k[0] == 'ite' and len(k[1]) and all(len(m) <= 1 for m in k[1]):
        gs = {a for m in k[1] for a in m}
        if len(gs) == 1 and key(next(iter(gs)))[0] == 'ge0':
            p = key(next(iter(gs)))[1]
            pos = k[1] == frozenset([frozenset(gs)])
            yes, no = (p, P_sub(P_scale(p, -1), ONE)) if pos else (P_sub(P_scale(p, -1), ONE), p)
            r = True
            for arm, f in ((k[2], yes), (k[3], no)):
                r = r and bounded(I, as_P(arm), rem, facts, base + [f])
            facts(base)
            return r
    facts(base)
    return I.b_ge0(P_sub(am, ONE)) == F1 and I.b_ge0(P_sub(rem, am)) == F1


def ptr_norm(pp, L, ptrs):
    """resolve a loop-carried pointer to buffer + offset"""
    if pp[0] == 'Ptr' and isinstance(pp[1], tuple) and pp[1][:2] == ('phi', L.name) and pp[1][2] in ptrs:
        st = ptrs[pp[1][2]]
        return Ptr(st[1], P_add(P_add(st[2], PT), pp[2]))
    return pp


def S0(I, li, sub, i, t=PT):
    st, kd = li.phis[i]
    for k, v in sub.items():
        if k[2] == i:
            return I.rebuild(v, {T: t})
    v = kd[1]
    return Ptr(st[1], P_add(st[2], t)) if st[0] == 'Ptr' else None


def run(ctx):
    for fn in IO:
        transfer(ctx, fn)
    # raw socket calls nowhere else; lengths reach the transfer unnarrowed
    C = Calls()
    n = 0
    dem = {f['mangled']: f['dem'] for f in C.by_m.values()}
    allowed = set(IO)
    for m, sites in C.sites.items():
        f = C.by_m[m]
        defs = {}
        for b in f['blocks']:
            for i in b:
                if 'id' in i:
                    defs[i['id']] = i
        for bi, ii, i in sites:
            nm = i.get('callee') or ''
            if nm in RAW and not f['file'].endswith('_test.cpp'):
                inside = f['dem'].split('(')[0] in allowed or only_called_from(C, m, allowed)
                ctx.ob(inside, 'raw:%s:%s' % (f['dem'].split('(')[0], nm), C.site(i), 'every byte on the connection goes through SendData / RecvData', nm, group='raw calls')
            if nm in IO:
                n += 1
                a = i['args'][2]
                tr = narrowed(a, defs)
                ctx.ob(tr is None, 'length:%s' % f['dem'].split('(')[0], C.site(i), 'the requested length reaches the transfer without being narrowed', tr or '', group='call sites')
    ctx.anchors(n, 'calls of SendData / RecvData', 20)
    ctx.functions |= set(IO)
    ctx.explanation = ('The transfer loops are abstracted to one generic iteration with t bytes moved (every loop-carried value must be start plus or minus t) and decided for the four cases of the system call result (error, end of stream, partial, complete); '
                       'all raw socket calls and all lengths at call sites are enumerated.')


def narrowed(a, defs, depth=0):
    if not (isinstance(a, list) and a and a[0] in ('i', 'v', 'r', '%')) or depth > 6:
        return None
    d = defs.get(a[1])
    if d is None:
        return None
    if d['op'] == 'trunc':
        return 'truncated to %s' % d['ty']
    if d['op'] in ('sext', 'zext'):
        return narrowed(d['args'][0], defs, depth + 1)
    return None


def only_called_from(C, m, names, seen=None):
    """a helper whose every caller is one of `names`"""
    seen = seen or set()
    callers = [x for x, o in C.out.items() if m in o]
    if not callers or m in seen:
        return False
    return all(C.by_m[x]['dem'].split('(')[0] in names or only_called_from(C, x, names, seen | {m}) for x in callers)
