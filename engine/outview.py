"""Values of wires at the end of a cycle as party-neutral tokens, received values as what the peer sent."""
from dom import *
from gcmodel import *
from view import *
from duality import *
from flow import Flow
from frontend import Broken

CY = P_atom(('cycle',))
J = idx('j')


class Out:
    """both sides of one session pair in common terms"""
    def __init__(self, prog, low, noot, terminate=None, values=True, exact=None):
        self.G = Side(Session(prog, 'GarbleStr', low, noot, extra_facts=(), terminate=terminate, exact=exact), 'G')
        self.E = Side(Session(prog, 'EvaluateStr', low, noot, extra_facts=(), terminate=terminate, exact=exact), 'E')
        S = self.G.S
        self.D = Duality(self.G, self.E, values=(0, 1, S.SECRET, S.INV))
        self.dual = self.D.run()
        self.err = '; '.join('%s: %s <-> %s' % (w, g.site if g else '-', e.site if e else '-') for w, g, e, d in self.D.err[:3])
        self.F = {self.G: Flow(self.G), self.E: Flow(self.E)}
        self.pairs = list(self.D.pairs.values())
        for s in (self.G, self.E):
            s.outatoms = self.outatoms(s)
        self.case('wire')
        self.recv = {}
        for g, e, _ in self.pairs:
            snd, rcv, ss, rs = (g, e, self.G, self.E) if g.dir == 'S' else (e, g, self.E, self.G)
            if snd.kind == 'data' and rcv.e.ret is not None and snd.content is not None:
                self.recv.setdefault((rs, rcv.e.ret[1]), []).append((snd, ss, rcv))

    def case(self, kind):
        """outputs[j] is a wire, or one of the two constants; -> substitution to apply to normalised values"""
        sub = {}
        for s in (self.G, self.E):
            s.v.with_facts((s.outatoms if kind == 'wire' else []) + [P_sub(P_sub(N['output'], ONE), J), P_sub(P_sub(CYC, ONE), P_atom(('k', s.v.cname))), P_atom(('k', s.v.cname))])
            if kind != 'wire':
                sub.update({key(list(p[1])[0][0][0]): P_const(kind) for p in s.outatoms})
        return sub

    def outatoms(self, side):
        """facts: outputs[j] is a wire (not one of the two constants)"""
        vers = set()
        for e, st in side.v.all:
            for x in [B(e.guard)] + [a for a in (e.args or []) if isinstance(a, tuple)]:
                for k in side.atoms(x, []):
                    if k[0] == 'ld' and k[1] == ('arr', 'outputs'):
                        vers.add((k[2], k[4]))
        return [P_atom(('ld', ('arr', 'outputs'), v, P_scale(J, 8), sz)) for v, sz in vers]

    def loops(self, side, stack):
        """loop counters -> cycle / output-index tokens"""
        ls = [s for s in stack if s.kind == 'loop']
        sub = {}; names = []
        for l in ls:
            k = ('k', l.name)
            if l.name == side.v.cname:
                names.append('cycle')
            elif l is ls[0] and len(ls) == 2:
                sub[k] = P_atom(('k', side.v.cname)); names.append('cycle')
            elif l is ls[-1]:
                sub[k] = J; names.append('j')
            else:
                names.append('?')
        return ls, sub, names

    def norm(self, side, v, stack, depth=0):
        """value at an event under `stack` in tokens"""
        ls, sub, names = self.loops(side, stack)
        I = side.I
        if sub:
            v = I.rebuild(v, sub)
        F = self.F[side]
        v = F.norm(v, {('k', side.v.cname): P_atom(('k', side.v.cname))})
        return self.tokens(side, v, depth)

    def wire(self, side, k):
        """('ld', V/W, ver, off, size) at the end of the gate loops -> token"""
        _, base, ver, off, size = k
        v = side.v
        kv = key(ver)
        while kv[0] == 'st':
            return None
        if not (kv[0] == 'end' and kv[1] == v.gate_loops[-1].name):
            return None
        st = v.vs if base == v.V else v.ls
        h = 0
        if base == v.W:
            c0 = sum(c for m, c in off[1] if not m) % v.ls
            h = c0 // 16
            if c0 % 16:
                return None
            off = P_sub(off, P_const(c0))
        if any(c % st for m, c in off[1]):
            return None
        w = ('P', tuple((m, c // st) for m, c in off[1]))
        wk = atom_of(w)
        if wk and wk[0] == 'ld' and wk[1] == ('arr', 'outputs'):
            w = P_atom(('outwire', side.I.rebuild(wk[3], {})))
        elif w != TERM:
            return None
        if base == v.V:
            return P_atom(('val', w))
        t = K_atom(('lab' + side.letter, h, w))
        if size == 16:
            return t
        return P_atom(('low', size * 8, t))

    def tokens(self, side, v, depth=0):
        I = side.I
        sub = {}
        for k in side.atoms(v, []):
            if k[0] == 'ld' and k[1] in (side.v.V, side.v.W):
                t = self.wire(side, k)
                if t is not None:
                    sub[k] = t
            elif k[0] == 'recv' and depth < 4:
                ss = self.recv.get((side, k[1]))
                if ss:
                    vals = set()
                    for snd, s2, rcv in ss:
                        vals.add(self.norm(s2, snd.content, snd.stack, depth + 1))
                    if len(vals) == 1:
                        x = next(iter(vals))
                        sub[k] = x
        sub[('k', side.v.cname)] = CY
        return I.rebuild(v, sub)


def assignments(fs, rebuild, vals, asg=None, desc=()):
    """all consistent total assignments of the atoms of the given conditions; yields (list of constants, {atom key: bool or int})"""
    asg = asg or {}
    a = None
    for f in fs:
        if f not in (F0, F1):
            a = sorted(next(iter(f - {frozenset()})))[0]
            break
    if a is None:
        yield [f == F1 for f in fs], {key(x) if isinstance(x, int) else x: v for x, v in asg.items()}
        return
    k = key(a)
    tok = None
    if k[0] in ('eq0', 'ge0'):
        ts = {key(x) for m, c in k[1][1] for x in m}
        if len(ts) == 1 and next(iter(ts)) in vals:
            tok = next(iter(ts))
    if tok:
        for x in vals[tok]:
            fs2 = [f if f in (F0, F1) else rebuild(B(f), {tok: P_const(x)})[1] for f in fs]
            a2 = dict(asg); a2[tok] = x
            yield from assignments(fs2, rebuild, vals, a2)
        return
    for v in (True, False):
        a2 = dict(asg); a2[a] = v
        if not consistent({x: y for x, y in a2.items() if isinstance(x, int)}):
            continue
        yield from assignments([f if f in (F0, F1) else anf_set(f, a, v) for f in fs], rebuild, vals, a2)
