"""P17  garbler and evaluator skip exactly the same gates; tables are sent exactly for the gates still needed."""
from dom import *
from gcmodel import *
import gcmodel
from view import *
from duality import *
from gateview import *
from absint import walk, Interp, Config
from runner import pmap
from frontend import Broken, program
import gates
from gates import TYPES

CY = P_atom(('cycle',))
BAD = ('recv', 'rnd', 'bit', 'lsb', 'low', 'kbit', 'gout', 'ot', 'BN_is_bit_set', 'low1', 'lane', 'eqblk')


class Norm:
    """role names instead of party-specific ones for counters, arrays, versions and results inside the gate loops"""
    def __init__(self, side):
        self.s = side; self.I = side.I; v = self.v = side.v
        self.F = None
        for e, st in v.all:
            if e.kind == 'call' and e.name == 'ReduceFanout' and e.args[1][0] == 'Ptr':
                self.F = v._one(self.F, e.args[1][1], 'fanout array')
        if self.F is None:
            raise Broken('fanout array not found in ' + v.S.root)
        self.base = {v.V: 'V', self.F: 'F'}
        self.loop = {g.name: 'gates%d' % i for i, g in enumerate(v.gate_loops)}
        self.uids = {}
        self.memo = {}
        n_ = 0
        for g in v.gate_loops:
            for e, st in walk(g.body):
                if e.kind == 'call' and e.name in ('GarbleGate', 'EvalGate'):
                    for s in [g] + list(st):
                        pass
        for e, st in v.all:
            if e.kind == 'store' and e.name == v.V:
                k = atom_of(e.args[1]) if e.args[1][0] == 'P' else None
                if k and k[0] == 'gval':
                    self.uids.setdefault(k[1], 'gate%d' % len(self.uids))

    def ver(self, a):
        if not isinstance(a, int):
            return a
        r = self.memo.get(('v', a))
        if r is not None:
            return r
        k = key(a)
        if k[0] == 'loop':
            r = ('start', self.loop.get(k[1], 'loop?'), self.base.get(k[2], '?'))
        elif k[0] == 'end':
            r = ('end', self.loop.get(k[1], 'loop?'), self.base.get(k[2], '?'))
        elif k[0] == 'havoc':
            r = ('havoc', self.base.get(k[1], '?'), k[2][0])
        elif k[0] == 'st':
            r = ('st', self.ver(k[1]), self.c(k[2]), k[3], self.c(k[4]))
        elif k[0] == 'ite':
            r = ('ite', self.c(B(k[1])), self.ver(k[2]), self.ver(k[3]))
        else:
            r = ('opaque', k[0])
        self.memo[('v', a)] = r
        return r

    def c(self, v, depth=0):
        if not isinstance(v, tuple):
            return v
        m = (v, 'c')
        if m in self.memo:
            return self.memo[m]
        sub = {}
        for k in self.s.atoms(v, []):
            if k[0] == 'k' and k[1] in self.loop:
                sub[k] = P_atom(('gate',))
            elif k[0] == 'k' and k[1] == self.v.cname:
                sub[k] = CY
            elif k[0] == 'ld' and k[1] in self.base:
                sub[k] = P_atom((self.base[k[1]], self.ver(k[2]), self.c(k[3], depth + 1)))
            elif k[0] == 'gval':
                sub[k] = P_atom(('gval', self.uids.get(k[1], '?'), P_atom(('gate',))))
        r = self.I.rebuild(v, sub) if sub else v
        self.memo[m] = r
        return r

    def effects(self, gl):
        out = []
        for e, st in walk(gl.body):
            if e.kind == 'loop':
                out.append(('loop', self.c(e.info.trip) if e.info.trip else None, None, e))
            elif e.kind == 'call' and e.name == 'GarbleEvalGateKnownValue':
                out.append(('known value', tuple(self.c(as_P(x)) for x in e.args[:3]) + (self.c(e.args[3][2]), self.base.get(e.args[3][1])), self.c(B(e.guard)), e))
            elif e.kind == 'call' and e.name in ('GarbleGate', 'EvalGate'):
                a = dict(zip(PRIM[e.name], e.args))
                out.append(('gate', tuple(self.c(as_P(a[x])) for x in ('in0', 'in1', 'type', 'gid')) + (self.c(a['out'][2]), self.base.get(a['out'][1])), self.c(B(e.guard)), e))
            elif e.kind == 'call' and e.name == 'ReduceFanout':
                out.append(('reduce', (self.base.get(e.args[1][1]), self.c(e.args[1][2]), self.c(as_P(e.args[2])), self.c(as_P(e.args[3]))), self.c(B(e.guard)), e))
            elif e.kind in ('store', 'copy', 'set') and e.name in self.base:
                if e.kind == 'store' and e.args[1][0] in ('P', 'B'):
                    k = atom_of(e.args[1]) if e.args[1][0] == 'P' else None
                    if k and k[0] in ('gval', 'kv'):
                        continue
                    out.append(('store ' + self.base[e.name], (self.c(e.args[0][2]), self.c(as_P(e.args[1]))), self.c(B(e.guard)), e))
                else:
                    out.append((e.kind + ' ' + self.base[e.name], (self.c(e.args[0][2]),), self.c(B(e.guard)), e))
        return out


def counter(I, loop, c):
    """loop-carried counter -> (value at entry, value after the iteration) or None"""
    li = loop.info
    k = atom_of(c)
    if k and k[0] == 'ld' and key(k[2])[0] == 'loop' and key(k[2])[1] == loop.name:
        ty = 'i%d' % (8 * k[4])
        I._curmem = loop.mem
        s = I.load(k[1], k[3], ty, I.ver(loop.mem, k[1]))
        I._curmem = li.final
        return s, I.load(k[1], k[3], ty, I.ver(li.final, k[1]))
    if k and k[0] == 'phi' and k[1] == loop.name and k[2] in li.phis:
        st, kd = li.phis[k[2]]
        if kd[0] == 'opq' and kd[1] is not None:
            return st, kd[1]
    return None


def siblings(low):
    G = Side(Session(_P, 'GarbleStr', low, False, extra_facts=()), 'G')
    E = Side(Session(_P, 'EvaluateStr', low, False, extra_facts=()), 'E')
    res = []
    nm = 'low' if low else 'high'

    def ob(ok, k, where, rule, det=''):
        res.append((bool(ok), nm + ':' + k, where, rule, det))
    NG, NE = Norm(G), Norm(E)
    gl, el = G.v.gate_loops, E.v.gate_loops
    ob(len(gl) == len(el), 'passes', gl[0].site + ' <-> ' + el[0].site, 'both parties make the same passes over the gates', '%d / %d' % (len(gl), len(el)))
    nall = 0
    for i, (a, b) in enumerate(zip(gl, el)):
        ob(a.info.trip == N['gate'] == b.info.trip and not a.info.breaks and not b.info.breaks, 'pass%d:all' % i, a.site + ' <-> ' + b.site, 'each pass visits every gate once, in order', '')
        x, y = NG.effects(a), NE.effects(b)
        nall += len(x)
        w = a.site + ' <-> ' + b.site
        ob(len(x) == len(y) and [p[0] for p in x] == [q[0] for q in y], 'pass%d:decisions' % i, w, 'both parties take the same decisions in the same order for each gate',
           '%s / %s' % ([p[0] for p in x], [q[0] for q in y]))
        for p, q in zip(x, y):
            w = '%s <-> %s' % (p[3].site, q[3].site)
            kk = 'pass%d:%s' % (i, p[0])
            ob(p[0] == q[0] and p[1] == q[1], kk + ':operands', w, 'both parties apply the decision to the same operands', '' if p[1] == q[1] else '%s / %s' % ([show(t)[:120] for t in p[1] if isinstance(t, tuple)], [show(t)[:120] for t in q[1] if isinstance(t, tuple)]))
            ob(p[2] == q[2], kk + ':condition', w, 'both parties decide on the same condition', '' if p[2] == q[2] else '%s / %s' % (show(p[2])[:300], show(q[2])[:300]))
            for side, N_, t in ((G, NG, p), (E, NE, q)):
                odd = set()
                for val in (t[1] or ()) + ((t[2],) if t[2] is not None else ()):
                    if isinstance(val, tuple):
                        for k in side.atoms(val, []):
                            if k[0] in BAD or (k[0] == 'ld' and isinstance(k[1], tuple) and k[1][0] not in ('arr',)):
                                odd.add(show(P_atom(k))[:120])
                ob(not odd, kk + ':public', t[3].site, 'the decision depends on public data only (circuit, wire values, fan-out)', sorted(odd)[:3])
    ob(nall >= 4, 'anchors', gl[0].site, 'gate decisions were found', nall)
    # ---- which tables are sent
    v = G.v; I = G.I
    gg = [c for c in gate_calls(v) if c.e.name == 'GarbleGate']
    tt = {c.a['tables'][1] for c in gg}
    ob(len(tt) == 1, 'tables:array', gg[0].e.site, 'the garbler fills one table array', sorted(map(str, tt)))
    TT = next(iter(tt))
    gt = {m[0]: m[1] for m in _P.structs['GarbledTable']}
    gsz = 48
    ind = gg[0].a['ind']
    body = v.cyc.body
    pos = body.index(v.gate_loops[-1])
    sent = [e for e in body if e.kind == 'call' and e.name == 'SendData' and body.index(e) > pos]
    sel = [e for e in body[pos + 1:] if e.kind == 'loop' and any(x.kind in ('copy', 'store') and x.name not in (TT, v.V, v.W) and reads(G, x, TT) for x, _ in walk(e.body))]
    ob(len(sel) == 1, 'select:loop', v.gate_loops[-1].site, 'the tables to be sent are selected after all gates are garbled', len(sel))
    if len(sel) == 1:
        sl = sel[0]
        w = sl.site
        I._curmem = sl.mem
        total = I.load(ind[1], ind[2], 'i64', I.ver(sl.mem, ind[1]))
        ob(sl.info.trip == total and not sl.info.breaks, 'select:all', w, 'every produced table is considered', '%s / %s' % (show(sl.info.trip) if sl.info.trip else None, show(total)))
        k = P_atom(('k', sl.name))
        ws = [(x, st) for x, st in walk(sl.body) if x.kind in ('copy', 'store') and isinstance(x.name, tuple) and x.name != TT and reads(G, x, TT)]
        I._curmem = sl.mem
        gidv = I.load(TT, P_add(P_scale(k, gsz), P_const(gt['gid'])), 'i32', loopver(sl, TT, I))
        need = I.b_ge0(P_sub(I.load(NG.F, P_scale(gidv, 4), 'i32', loopver(sl, NG.F, I)), ONE))
        dst = None
        cover = 0
        for x, st in ws:
            ob(x.guard == need, 'select:needed', x.site, 'a table is sent exactly when the fan-out of its gate is still positive', 'expected %s got %s' % (showb(need)[:300], showb(x.guard)[:300]))
            o = x.args[0][2]
            if x.kind == 'copy':
                s = x.args[1]
                ob(s[1] == TT and s[2] == P_scale(k, gsz) and const_of(as_P(x.args[2])) == gsz, 'select:copy', x.site, 'the whole table is copied', show(s))
                cover += gsz
                rel = 0
            else:
                c0 = sum(c for m, c in o[1] if not m) % gsz
                rel = c0
                want = I.load(TT, P_add(P_scale(k, gsz), P_const(c0)), {16: '<2 x i64>', 4: 'i32', 8: 'i64'}.get(x.args[2] if isinstance(x.args[2], int) else 16, '<2 x i64>'), loopver(sl, TT, I))
                cover += 16
            q = P_sub(o, P_const(rel))
            q = ('P', tuple((m, c // gsz) for m, c in q[1])) if all(c % gsz == 0 for m, c in q[1]) else None
            ob(q is not None and (dst is None or dst[1] == q), 'select:slot', x.site, 'selected tables are stored one after the other', show(o))
            dst = (x.args[0][1], q)
        ob(cover >= gsz or cover >= 36, 'select:whole', w, 'whole tables are selected', cover)
        cn = counter(I, sl, dst[1]) if dst and dst[1] is not None else None
        ob(cn is not None, 'select:counter', w, 'selected tables are stored one after the other', show(dst[1]) if dst and dst[1] else '')
        if cn:
            ob(const_of(as_P(cn[0])) == 0, 'select:start', w, 'selection starts at slot 0', show(cn[0]))
            nxt = I.ite(need, P_add(dst[1], ONE), dst[1])
            ob(as_P(cn[1]) == as_P(nxt), 'select:advance', w, 'the slot advances exactly when a table is selected', show(cn[1])[:300])
            data = [e for e in sent if e.args[1][0] == 'Ptr' and e.args[1][1] == dst[0]]
            ob(len(data) == 1 and data[0].guard == F1 and data[0].args[1][2] == ZERO, 'send:tables', w, 'the selected tables are sent once per cycle from the first', len(data))
            if len(data) == 1:
                ln = as_P(data[0].args[2])
                q = ('P', tuple((m, c // gsz) for m, c in ln[1])) if all(c % gsz == 0 for m, c in ln[1]) else None
                okc = q is not None and final_counter(I, sl, dst[1], q, data[0])
                ob(okc, 'send:length', data[0].site, 'exactly the selected tables are sent', show(ln))
    # ---- the evaluator's table slots that hold no received table never match a gate
    v = E.v; I = E.I
    eg = [c for c in gate_calls(v) if c.e.name == 'EvalGate']
    ET = eg[0].a['tables'][1]
    goff = gt['gid']
    clr = []
    for e, st in v.all:
        if e.kind == 'store' and e.name == ET and st and st[-1].kind == 'loop' and const_of(as_P(e.args[1])) in (-1, 0xffffffff):
            kk = P_atom(('k', st[-1].name))
            if e.args[0][2] == P_add(P_scale(kk, gsz), P_const(goff)) and e.guard == F1 and not st[-1].info.breaks:
                clr.append((e, st[-1], v.cyc in st))
    rcv = [e for e in v.cyc.body if e.kind == 'call' and e.name == 'RecvData' and e.args[1][0] == 'Ptr' and e.args[1][1] == ET]
    ob(len(rcv) == 1, 'evaluator:receive', v.cyc.site, 'the tables of a cycle are received once', len(rcv))
    cap = n('nonxor')
    first = [c for c in clr if c[1].info.trip == cap and (not c[2] or v.cyc.body.index(c[1]) < v.cyc.body.index(rcv[0]))]
    ob(first, 'evaluator:fresh', eg[0].e.site, 'before tables arrive every slot is marked as holding no table', '')
    if first and rcv and not any(c[2] for c in first):
        ln = as_P(rcv[0].args[2])
        cnt = ('P', tuple((m, c // gsz) for m, c in ln[1]))
        ind = eg[0].a['ind']
        ok = False
        for e, l, incyc in clr:
            if incyc and v.cyc.body.index(l) > v.cyc.body.index(v.gate_loops[-1]):
                I._curmem = l.mem
                used = I.load(ind[1], ind[2], 'i64', I.ver(l.mem, ind[1]))
                if l.info.trip in (cap, cnt, used):
                    ok = True
        ob(ok, 'evaluator:clear', v.cyc.site, 'the tables of a cycle are marked as used before the next cycle', '')
    return res


def loopver(loop, base, I):
    return A(('loop', loop.name, base)) if base in loop.info.W else I.ver(loop.mem, base)


def reads(side, x, base):
    if x.kind == 'copy':
        return x.args[1][0] == 'Ptr' and x.args[1][1] == base
    return any(k[0] == 'ld' and k[1] == base for k in side.atoms(x.args[1], [])) if isinstance(x.args[1], tuple) else False


def final_counter(I, sl, c, q, ev):
    k = atom_of(c)
    if k[0] == 'ld':
        I._curmem = ev.mem
        want = I.load(k[1], k[3], 'i%d' % (8 * k[4]), I.ver(ev.mem, k[1]))
        return as_P(want) == q
    qk = atom_of(q)
    return bool(qk and qk[0] in ('phiout', 'out') and qk[1] == sl.name)


# ---------------------------------------------------------------- fan-out bookkeeping and capacity
def bookkeeping(_):
    res = []

    def ob(ok, k, where, rule, det=''):
        res.append((bool(ok), k, where, rule, det))
    S = Session(_P, 'GarbleStr', False, False, extra_facts=())
    gg = S.gg
    GB = hi('dff')

    def interp(fn, calls, args):
        cfg = Config(unroll=0)
        cfg.nonneg = lambda k: k[0] in ('n', 'idx')
        cfg.facts = []
        cfg.nonnull = lambda b: True
        I = Interp(_P, cfg)
        f = _P.fn(fn)
        mem = {}
        S.I = I
        b = ('strobj', 'gc')
        S.fill_gc(mem, b)
        cfg.calls.update(calls)
        fr = I.run(f, [Ptr(b)] + args, mem)
        return I, f, fr

    calls = []

    def rec(fr, ins, mem, guard, a):
        S.emit(fr, ins, mem, guard, a)
        if a[1][0] == 'Ptr':
            fr.havoc(mem, a[1][1], ('reduce', len(calls)))
        calls.append(1)
        return None
    FB = ('fan',)
    WID = idx('wid')
    I, f, fr = interp('ReduceFanout', {'ReduceFanout': rec}, [Ptr(FB), P_atom(('wid',)), GB])
    w = '%s:%s (ReduceFanout)' % (f['file'], f['line'])
    gid = P_sub(P_atom(('wid',)), GB)
    old = I.load(FB, P_scale(gid, 4), 'i32', I.v0(FB))
    act = band(band(I.b_ge0(gid), I.b_ge0(P_sub(P_sub(N['gate'], ONE), gid))), I.b_ge0(P_sub(old, ONE)))
    sts = [e for e, st in walk(fr.events) if e.kind == 'store' and e.name == FB]
    ob(len(sts) == 1 and sts[0].args[0][2] == P_scale(gid, 4) and as_P(sts[0].args[1]) == P_sub(old, ONE) and I.equiv(I.rebuild(B(sts[0].guard), {})[1], act), 'reduce:decrement', w,
       'releasing a wire decrements the fan-out of the gate that drives it, once, and only while it is positive', [(show(e.args[0]), show(e.args[1]), showb(e.guard)[:200]) for e in sts][:2])
    dead = band(act, I.b_eq0(P_sub(old, ONE)))
    # the cascade (a recursive call or a loop in its place)
    cs = [e for e, st in walk(fr.events) if e.kind == 'call' and e.name == 'ReduceFanout']
    ins = []
    ok = len(cs) == 2
    for e in cs:
        a = as_P(e.args[2])
        ok = ok and e.args[1] == Ptr(FB) and as_P(e.args[3]) == GB and I.equiv(e.guard, dead)
        k = atom_of(a)
        ins.append(k[3] if k and k[0] == 'ld' and k[1] == ('arr', 'gates') else None)
    base = P_scale(gid, 32)
    ob(ok and set(ins) == {P_add(base, P_const(gg['input0'])), P_add(base, P_const(gg['input1']))}, 'reduce:cascade', w,
       'a gate whose fan-out drops to zero releases both of its inputs, and no other gate does', [(show(as_P(e.args[2]))[:100], showb(e.guard)[:200]) for e in cs])
    # FillFanout
    I, f, fr = interp('FillFanout', {}, [])
    w = '%s:%s (FillFanout)' % (f['file'], f['line'])
    want = {'gates/input0', 'gates/input1', 'D', 'outputs', 'terminate'}
    got = []
    AR = ('arr', 'gates')
    fo = gg['fanout']
    zero = False
    for e, st in walk(fr.events):
        if e.kind != 'store' or e.name != AR:
            continue
        o = e.args[0][2]
        x = P_sub(o, P_const(fo))
        if any(c % 32 for m, c in x[1]):
            ob(False, 'fill:field', e.site, 'only fan-outs are written', show(o)); continue
        g = ('P', tuple((m, c // 32) for m, c in x[1]))
        loops = [s for s in st if s.kind == 'loop']
        kk = P_atom(('k', loops[-1].name)) if loops else None
        if kk is not None and g == kk and const_of(as_P(e.args[1])) == 0 and loops[-1].info.trip == N['gate'] and e.guard == F1:
            zero = True
            continue
        src = P_add(g, GB)
        k = atom_of(src)
        what = None
        if k and k[0] == 'ld' and isinstance(k[1], tuple) and k[1][0] == 'arr':
            if k[1] == AR and kk is not None:
                for fn_ in ('input0', 'input1'):
                    if k[3] == P_add(P_scale(kk, 32), P_const(gg[fn_])) and loops[-1].info.trip == N['gate']:
                        what = 'gates/' + fn_
            elif kk is not None and k[3] == P_scale(kk, 8):
                if (k[1][1], loops[-1].info.trip) in (('D', N['dff']), ('outputs', N['output'])):
                    what = k[1][1]
        elif src == TERM and not loops:
            what = 'terminate'
        d = as_P(e.args[1])
        prev = I.load(AR, o, 'i32', prevver(e, I, AR))
        inc = P_sub(d, prev)
        cond = I.b_ge0(g) if what != 'terminate' else band(I.b_ge0(g), I.b_ge0(P_sub(TERM, ONE)))
        ok = what is not None and const_of(inc) == 1 and (e.guard == cond or what == 'terminate' and I.rebuild(B(e.guard), {}) in (B(cond), B(I.b_ge0(g))))
        ob(ok, 'fill:' + (what or 'other'), e.site, 'each reference to a gate\'s output counts once', '%s += %s when %s' % (show(g)[:120], show(inc)[:80], showb(e.guard)[:200]))
        if what:
            got.append(what)
    ob(zero, 'fill:zero', w, 'fan-outs start at zero', '')
    ob(sorted(got) == sorted(want), 'fill:all', w, 'every kind of reference (gate operands, state data, outputs, terminate) counts once', sorted(got))
    return res


def prevver(e, I, AR):
    """memory version before the store event"""
    return I.ver(e.mem, AR) if e.mem else I.v0(AR)


def capacity(_):
    """NumOfNonXor counts every gate type that can produce a table"""
    p = program(keep=gates.KEEP)
    G = gates.Gate(p)
    res = []
    f = _P.fn('NumOfNonXor')
    w = '%s:%s (NumOfNonXor)' % (f['file'], f['line'])
    S = Session(_P, 'GarbleStr', False, False, extra_facts=())
    for t in TYPES:
        g = G.garble(t, (K_atom(('sym', 'base0')), K_xor(K_atom(('sym', 'base0')), gates.KR), G.SECRET), (K_atom(('sym', 'base1')), K_xor(K_atom(('sym', 'base1')), gates.KR), G.SECRET))
        rows = const_of(P_sub(g['ind'], P_atom(('sym', 'ind'))))
        cfg = Config(unroll=0)
        cfg.nonneg = lambda k: k[0] in ('n', 'idx')
        cfg.facts = []
        tc = P_const(G.type[t])
        cfg.on_load = lambda I_, base, ver, off, ty: tc if base == ('arr', 'gates') and sum(c for m, c in off[1] if not m) % 32 == S.gg['type'] else None
        I = Interp(_P, cfg)
        mem = {}
        S.I = I
        S.fill_gc(mem, ('strobj', 'gc'))
        fr = I.run(f, [Ptr(('strobj', 'gc'))], mem)
        lps = [e for e, st in walk(fr.events) if e.kind == 'loop']
        cnt = None
        if len(lps) == 1 and lps[0].info.trip == N['gate']:
            r = fr.ret if hasattr(fr, 'ret') else None
            if r is not None:
                r = as_P(r)
                cnt = 1 if r == N['gate'] else (0 if const_of(r) == 0 else None)
        res.append((rows == 0 or (cnt is not None and cnt >= rows), 'capacity:' + t, w, 'the table arrays have a slot for every gate that can produce a table', 'rows %s counted %s' % (rows, cnt)))
    return res


def run(ctx):
    global _P
    _P = gcmodel.prog()
    for fn, jobs in ((siblings, (False, True)), (bookkeeping, (0,)), (capacity, (0,))):
        for r in pmap(fn, jobs):
            for ok, k, w, rule, det in r:
                ctx.ob(ok, k, w, rule, det, group=k.split(':')[1] if k.split(':')[0] in ('low', 'high') else k.split(':')[0])
    ctx.functions |= {'GarbleStr', 'EvaluateStr', 'ReduceFanout', 'FillFanout', 'NumOfNonXor', 'GarbleGate'}
    ctx.explanation = ('Sibling analysis: the gate passes of both parties are reduced to the decisions of one generic gate (known-value evaluation, skip condition, garbled evaluation, fan-out updates) with operands and conditions in normal form over role names, and must be equal and public; '
                       'the selection of the transmitted tables, the release of fan-outs, their initial count and the table capacity are compared with the documented rules.')
