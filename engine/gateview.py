"""Gate-loop view: the primitive calls of each gate loop with their operands, evaluated case by case."""
from dom import *
from gcmodel import *
from view import *
from absint import walk

PRIM = {'GarbleEvalGateKnownValue': ('in0', 'in1', 'type', 'out'),
        'GarbleGate': ('lab0', 'in0', 'lab1', 'in1', 'type', 'cid', 'gid', 'tables', 'ind', 'R', 'key', 'olab', 'out'),
        'EvalGate': ('lab0', 'in0', 'lab1', 'in1', 'type', 'cid', 'gid', 'tables', 'ind', 'key', 'olab', 'out'),
        'GateOperator': ('type', 'in0', 'in1')}
W0, W1, WO = idx('w0'), idx('w1'), idx('wo')
WF = [P_sub(P_sub(WIRES, ONE), x) for x in (W0, W1, WO)]


class GateCall:
    def __init__(self, v, loop, e, st):
        self.v = v; self.loop = loop; self.e = e; self.st = st
        self.a = dict(zip(PRIM[e.name], e.args))
        inner = [s for s in st if s.kind == 'loop']
        self.k = P_atom(('k', inner[-1].name if inner else loop.name))
        self.lname = inner[-1].name if inner else loop.name
        self.mem = e.mem
        I = v.I
        gg = v.S.gg
        b = ('arr', 'gates')
        def fld(nm, ty):
            return I.load(b, P_add(P_scale(self.k, v.S.p.size('GarbledGate') if hasattr(v.S.p, 'size') else 32), P_const(gg[nm])), ty, I.ver({}, b))
        self.f = {'in0': fld('input0', 'i64'), 'in1': fld('input1', 'i64'), 'out': fld('output', 'i64'), 'type': fld('type', 'i32')}

    def sub(self, in0=None, in1=None, typ=None, out=None):
        r = {}
        for f, x in (('in0', in0), ('in1', in1), ('type', typ), ('out', out)):
            if x is not None:
                r[atom_of(self.f[f])] = x
        return r

    def content(self, p, size, off=0):
        I = self.v.I
        I._curmem = self.mem
        return I.load(p[1], P_add(p[2], P_const(off)), size, I.ver(self.mem, p[1]))

    def label(self, which, half):
        x = self.a[which]
        if x[0] == 'Ptr':
            return self.content(x, '<2 x i64>', 16 * half)
        return x


def gate_calls(v):
    out = []
    for g in v.gate_loops:
        for e, st in walk(g.body):
            if e.kind == 'call' and e.name in PRIM:
                out.append(GateCall(v, g, e, [g] + list(st)))
    return out


def sessions():
    for root in ('GarbleStr', 'EvaluateStr'):
        for low in (False, True):
            for noot in (False, True):
                yield root, low, noot
    yield 'EvalauatePlaintextStr', False, False


def sname(s):
    return '%s/%s/%s' % (s[0], 'low' if s[1] else 'high', 'noOT' if s[2] else 'OT')
