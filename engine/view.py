"""Role-neutral view of one session (gcmodel.Session): cycle loop, gate loops, wire arrays, symbolic reads at a program point."""
from dom import *
from gcmodel import *
from absint import walk
from frontend import Broken

GATES = ('GarbleEvalGateKnownValue', 'GarbleGate', 'EvalGate', 'GateOperator')


def idx(nm):
    return P_atom(('idx', nm))


def contains(e, names):
    return any(x.kind == 'call' and x.name in names for x, _ in walk([e]))


def is_gout(v, what):
    if v[0] == 'K' and len(v[1]) == 1 and v[1][0][1] == F1:
        k = key(v[1][0][0])
        return k[0] == 'gout' and what == 'lab'
    k = atom_of(v) if v[0] == 'P' else None
    if k:
        return (k[0] == 'gval' and what == 'gval') or (k[0] == 'kv' and what == 'kv')
    if v[0] == 'B' and len(v[1]) == 1:
        m = next(iter(v[1]))
        if len(m) == 1:
            return key(next(iter(m)))[0] == 'gateop' and what == 'gateop'
    return False


class View:
    def __init__(self, S):
        self.S = S; self.I = S.I
        self.all = list(walk(S.ev))
        self.where = '%s:%s (%s)' % (S.f.get('file'), S.f.get('line'), S.root)
        cyc = [e for e, st in self.all if e.kind == 'loop' and not st and contains(e, GATES)]
        if len(cyc) != 1:
            raise Broken('cycle loop not found in %s (%d candidates)' % (S.root, len(cyc)))
        self.cyc = cyc[0]
        self.cname = self.cyc.name
        self.cid = P_atom(('k', self.cname))
        self.gate_loops = [e for e in self.cyc.body if e.kind == 'loop' and contains(e, GATES)]
        if not self.gate_loops:
            raise Broken('gate loop not found in ' + S.root)
        self.entry = self.gate_loops[0]
        self.plain = contains(self.entry, ('GateOperator',)) and not contains(self.entry, ('GarbleEvalGateKnownValue',))
        self.garbler = any(e.name == 'GarbleGate' for e, _ in self.all)
        self.W = self.V = None
        for e, st in self.all:
            if e.kind == 'store' and isinstance(e.name, tuple):
                v = e.args[1]
                if is_gout(v, 'lab'):
                    self.W = self._one(self.W, e.name, 'wire label array')
                if is_gout(v, 'gval') or is_gout(v, 'kv') or is_gout(v, 'gateop'):
                    self.V = self._one(self.V, e.name, 'wire value array')
        if self.V is None or (self.W is None and not self.plain):
            raise Broken('wire arrays not found in ' + S.root)
        self.vs = 1 if self.plain else 2
        self.ls = 32 if self.garbler else 16
        self.facts0 = list(self.I.facts)

    def _one(self, old, new, what):
        if old is not None and old != new:
            raise Broken('%s is not unique in %s' % (what, self.S.root))
        return new

    # ---- reads at a snapshot (default: entry of the first gate loop of a generic cycle)
    def val(self, w, mem=None):
        mem = self.entry.mem if mem is None else mem
        self.I._curmem = mem
        return self.I.load(self.V, P_scale(w, self.vs), 'i8' if self.vs == 1 else 'i16', self.I.ver(mem, self.V))

    def lab(self, w, half=0, mem=None):
        mem = self.entry.mem if mem is None else mem
        self.I._curmem = mem
        return self.I.load(self.W, P_add(P_scale(w, self.ls), P_const(16 * half)), '<2 x i64>', self.I.ver(mem, self.W))

    def halves(self):
        return (0, 1) if self.garbler else (0,)

    def loopver(self, base):
        return A(('loop', self.cname, base))

    def prev_val(self, w):
        return self.I.load(self.V, P_scale(w, self.vs), 'i8' if self.vs == 1 else 'i16', self.loopver(self.V))

    def prev_lab(self, w, half=0):
        return self.I.load(self.W, P_add(P_scale(w, self.ls), P_const(16 * half)), '<2 x i64>', self.loopver(self.W))

    def arrload(self, nm, i, size=8):
        b = ('arr', nm)
        return self.I.load(b, P_scale(i, 8), 'i64', self.I.ver({}, b))

    def with_facts(self, extra):
        self.I.facts[:] = self.facts0 + list(extra)
        self.I.rb_memo = {}

    def sub(self, v, sub):
        return self.I.rebuild(v, sub)

    @staticmethod
    def atoms_in(v, pred):
        """does any atom satisfying pred(key) occur anywhere in v (deep)?"""
        seen = set()

        def go(x):
            if isinstance(x, int):
                return False
            if isinstance(x, str):
                return False
            if x in seen:
                return False
            seen.add(x)
            if isinstance(x, frozenset):
                return any(ga(a) for m in x for a in m)
            if isinstance(x, tuple):
                if not x:
                    return False
                t = x[0]
                if t == 'P':
                    return any(ga(a) for m, _ in x[1] for a in m)
                if t == 'K':
                    return any(ga(a) or go(c) for a, c in x[1])
                return any(go(y) for y in x)
            return False

        def ga(a):
            k = key(a)
            if pred(k):
                return True
            if k in seen:
                return False
            seen.add(k)
            return any(go(y) for y in k if not isinstance(y, int)) or (k[0] == 'ld' and False)
        return go(v)


def positive():
    """facts: every size of the circuit is at least one"""
    return [P_sub(N[x], ONE) for x in SIZES if x != 'dff'] + []
