"""Model of the two protocol sessions (GarbleStr / EvaluateStr) and of the plaintext evaluator: runs the abstract
interpreter on the whole session (everything inlined except the primitives of KEEP) for one trace partition
(memory mode, oblivious transfer on/off) and exposes the event tree in role-neutral names."""
from dom import *
from absint import Interp, Config, Event, walk
from frontend import Broken, program

KEEP = ['SendData', 'RecvData', 'SendBN', 'RecvBN', 'OTSend', 'OTRecv', 'OTExtSend', 'OTExtRecv', 'RandomBlock', 'AESSetEncryptKey',
        'AESEcbEncryptBlks', 'AESEncrypt', 'GarbleGate', 'EvalGate', 'GarbleEvalGateKnownValue', 'ReduceFanout', 'NumOfNonXor', 'ReadSCD', 'FillFanout',
        'GateOperator', 'OutputBN2StrHighMem', 'OutputBN2StrLowMem', 'RemoveGarbledCircuit']
SIZES = ['p_init', 'g_init', 'e_init', 'p_input', 'g_input', 'e_input', 'dff', 'output', 'gate']


def n(x):
    return P_atom(('n', x))


N = {x: n(x) for x in SIZES}
TERM = P_atom(('term_id',))
CYC = n('cycles')
PERIOD = P_atom(('period',))
LAY = ['p_init', 'g_init', 'e_init', 'p_input', 'g_input', 'e_input', 'dff', 'gate']


def lo(x):
    r = ZERO
    for y in LAY:
        if y == x:
            return r
        r = P_add(r, N[y])
    raise KeyError(x)


def hi(x):
    return P_add(lo(x), N[x])


WIRES = hi('gate')
STR_ARGS = {'scd_file_address': 'scd', 'p_init_str': 'p_init', 'p_input_str': 'p_input', 'init_str': 'init', 'input_str': 'input',
            'g_init_str': 'g_init', 'e_init_str': 'e_init', 'g_input_str': 'g_input', 'e_input_str': 'e_input', 'output_mask': 'mask'}


def loops_of(fr):
    parts = fr.prefix.split('/')
    out = []
    for i in range(1, len(parts) + 1):
        nm = '/'.join(parts[:i])
        if nm in fr.I.loopinfo:
            out.append(nm)
    return out


def ks_of(fr):
    return tuple(P_atom(('k', l)) for l in loops_of(fr))


class Session:
    def __init__(self, prog, root, low=False, noot=False, extra_facts=(), on_load=None, terminate=None, zero=(), exact=None):
        self.zero = set(zero)
        self.p = prog
        self.root = root
        self.f = prog.fn(root)
        st = prog.structs.get('GarbledCircuit')
        if not st:
            raise Broken('anchor structure vanished: GarbledCircuit')
        self.off = {m[0]: m[1] for m in st}
        self.gg = {m[0]: m[1] for m in prog.structs['GarbledGate']}
        self.CZ, self.CO = prog.const('CONST_ZERO'), prog.const('CONST_ONE')
        self.SECRET, self.INV = prog.const('SECRET'), prog.const('SECRET_INV')
        cfg = Config(unroll=4)
        cfg.nonneg = lambda k: k[0] in ('n', 'idx')
        cfg.opaque_inst = True
        cfg.facts = [P_sub(CYC, P_const(2 if low else 1))] + list(extra_facts)
        cfg.nonnull = lambda b: b[0] in ('str', 'arr', 'bn', 'cstr', 'strobj')
        cfg.on_load = on_load
        cfg.exact_trunc = exact
        cfg.readonly |= {'BN_bn2hex', 'BN_bn2bin', 'BN_cmp', 'BN_is_zero', 'atoi', 'strlen'}
        h = cfg.calls
        h['RandomBlock'] = self.h_rand
        h['SendData'] = self.h_send
        h['RecvData'] = self.h_recv
        h['SendBN'] = self.h_sendbn
        h['RecvBN'] = self.h_recvbn
        h['OTRecv'] = h['OTExtRecv'] = self.h_otrecv
        h['OTSend'] = h['OTExtSend'] = self.h_otsend
        h['BN_new'] = self.h_bnnew
        h['BN_hex2bn'] = self.h_hex2bn
        h['BN_bin2bn'] = self.h_bin2bn
        h['BN_is_bit_set'] = self.h_bit
        h['BN_num_bits'] = self.h_numbits
        h['BN_set_bit'] = h['BN_clear_bit'] = self.h_setbit
        h['BN_free'] = h['BN_clear_free'] = self.h_free
        h['AESSetEncryptKey'] = self.h_setkey
        h['NumOfNonXor'] = lambda fr, ins, mem, g, a: n('nonxor')
        h['ReadSCD'] = self.h_readscd
        h['FillFanout'] = self.h_event0
        h['RemoveGarbledCircuit'] = self.h_event0
        h['OutputBN2StrHighMem'] = h['OutputBN2StrLowMem'] = self.h_event0
        h['GarbleEvalGateKnownValue'] = self.h_kv
        h['GarbleGate'] = self.h_ggate
        h['EvalGate'] = self.h_egate
        h['ReduceFanout'] = self.h_reduce
        h['GateOperator'] = self.h_gateop
        for s in ('strrchr',):
            h[s] = lambda fr, ins, mem, g, a: fr.I.typed(('noeff', 'strrchr'), ins['ty'])
        self.I = Interp(prog, cfg)
        self.I.on_std = self.on_std
        args = []
        mem = {}
        names = [a['name'] for a in self.f['args']]
        for i, a in enumerate(self.f['args']):
            nm = a['name']
            v = None
            if nm in STR_ARGS:
                v = Ptr(('str', STR_ARGS[nm]))
            elif nm in ('p_init', 'g_init', 'e_init', 'p_input', 'g_input', 'e_input'):
                b = ('bn', 'arg', nm)
                mem[b] = A(('st', A(('v0', b)), ZERO, 8, O('hex', ('cstr', ('str', nm)))))
                v = Ptr(b)
            elif nm == 'clock_cycles':
                if a['ty'] == 'ptr':
                    b = ('strobj', 'cycles')
                    mem[b] = A(('st', A(('v0', b)), ZERO, 8, CYC))
                    v = Ptr(b)
                else:
                    v = CYC
            elif nm == 'terminate_period':
                v = PERIOD if terminate is None or terminate else ZERO
            elif nm == 'disable_OT':
                v = TRUE if noot else FALSE
            elif nm == 'low_mem_foot':
                v = TRUE if low else FALSE
            elif nm == 'output_mode':
                v = P_atom(('output_mode',))
            elif nm == 'garbled_circuit':
                b = ('strobj', 'gc')
                self.fill_gc(mem, b)
                v = Ptr(b)
            elif nm == 'connfd':
                v = P_atom(('connfd',))
            elif nm == 'output_str' or nm == 'outputs' or nm == 'outputs_str':
                v = Ptr(('strobj', nm))
            else:
                raise Broken('anchor signature changed: %s parameter %s' % (root, nm))
            args.append(v)
        self.uidc = {}
        self.fr = self.I.run(self.f, args, mem)
        self.ev = self.fr.events
        if self.fr.mem_at_ret is None:
            raise Broken('no return state in ' + root)

    # ------------------------------------------------------------------ handlers
    def emit(self, fr, ins, mem, guard, args, kind='call', name=None, info=None, ret=None):
        e = Event(kind, name or ins.get('callee'), args, guard, fr.site(ins), mem=dict(mem), ins=ins, info=info, ret=ret)
        fr.emit(e)
        return e

    def fill_gc(self, mem, b):
        v = A(('v0', b))
        for s in SIZES:
            v = A(('st', v, P_const(self.off[s + '_size']), 8, ZERO if s in self.zero else N[s]))
        v = A(('st', v, P_const(self.off['terminate_id']), 8, TERM))
        for fld, nm in (('garbledGates', 'gates'), ('outputs', 'outputs'), ('D', 'D'), ('I', 'I')):
            v = A(('st', v, P_const(self.off[fld]), 8, Ptr(('arr', nm))))
        mem[b] = v

    def h_readscd(self, fr, ins, mem, guard, a):
        self.fill_gc(mem, a[1][1])
        fr.written.add(a[1][1])
        self.emit(fr, ins, mem, guard, a)
        return ZERO

    def h_event0(self, fr, ins, mem, guard, a):
        self.emit(fr, ins, mem, guard, a)
        return ZERO if ins['ty'] != 'void' else None

    def h_rand(self, fr, ins, mem, guard, a):
        v = K_atom(('rnd', fr.uid('RandomBlock'), ks_of(fr)))
        self.emit(fr, ins, mem, guard, a, ret=v)
        return v

    def h_send(self, fr, ins, mem, guard, a):
        self.emit(fr, ins, mem, guard, a, info=ks_of(fr))
        return ZERO

    def h_recv(self, fr, ins, mem, guard, a):
        u = fr.uid('RecvData'); ks = ks_of(fr)
        c = const_of(as_P(a[2]))
        p = a[1]
        at = ('recv', u, ks)
        if c in (1, 2, 4, 8):
            fr.store(mem, p, P_atom(at), c, guard, ins)
        elif c == 16:
            fr.store(mem, p, K_atom(at), c, guard, ins)
        elif p[0] == 'Ptr':
            fr.havoc(mem, p[1], at)
        e = self.emit(fr, ins, mem, guard, a, info=ks, ret=at)
        return ZERO

    def h_otsend(self, fr, ins, mem, guard, a):
        self.emit(fr, ins, mem, guard, a, info=ks_of(fr))
        return ZERO

    def h_otrecv(self, fr, ins, mem, guard, a):
        # (select, message_len, connfd, message)
        u = fr.uid('OTRecv'); ks = ks_of(fr)
        self.emit(fr, ins, mem, guard, a, info=ks, ret=('otmsg', u, ks))
        if a[3][0] == 'Ptr':
            fr.written.add(a[3][1])
            mem[a[3][1]] = A(('otmsg', a[3][1], u, ks))
        return ZERO

    def h_sendbn(self, fr, ins, mem, guard, a):
        self.emit(fr, ins, mem, guard, a, info=ks_of(fr), ret=self.content(fr, mem, a[1]))
        return ZERO

    def content(self, fr, mem, p):
        if p[0] != 'Ptr':
            return p
        I = fr.I
        I._curmem = mem
        return I.load(p[1], P_add(p[2], ZERO), 'i64', I.ver(mem, p[1]))

    def setc(self, fr, mem, p, v, guard, ins):
        if p[0] != 'Ptr':
            return
        fr.written.add(p[1])
        mem[p[1]] = A(('st', fr.I.ver(mem, p[1]), p[2], 8, v))

    def h_recvbn(self, fr, ins, mem, guard, a):
        u = fr.uid('RecvBN'); ks = ks_of(fr)
        self.setc(fr, mem, a[1], O('recvbn', u, ks), guard, ins)
        self.emit(fr, ins, mem, guard, a, info=ks, ret=O('recvbn', u, ks))
        return ZERO

    def h_bnnew(self, fr, ins, mem, guard, a):
        b = ('bn', fr.uid('BN_new'), ks_of(fr))
        mem[b] = A(('st', A(('v0', b)), ZERO, 8, O('bnzero')))
        fr.written.add(b)
        self.emit(fr, ins, mem, guard, a, ret=Ptr(b))
        return Ptr(b)

    def h_hex2bn(self, fr, ins, mem, guard, a):
        I = fr.I
        p = I.load(a[0][1], a[0][2], 'ptr', I.ver(mem, a[0][1]))
        src = a[1][1] if a[1][0] == 'Ptr' else a[1]
        self.setc(fr, mem, p, O('hex', src), guard, ins)
        self.emit(fr, ins, mem, guard, a)
        return ONE

    def h_bin2bn(self, fr, ins, mem, guard, a):
        self.setc(fr, mem, a[2], O('bin', a[0], as_P(a[1])), guard, ins)
        self.emit(fr, ins, mem, guard, a)
        return a[2]

    def h_bit(self, fr, ins, mem, guard, a):
        c = self.content(fr, mem, a[0])
        return B(batom(('bit', c, as_P(a[1]))))

    def h_numbits(self, fr, ins, mem, guard, a):
        return P_atom(('BN_num_bits', self.content(fr, mem, a[0])))

    def h_setbit(self, fr, ins, mem, guard, a):
        self.emit(fr, ins, mem, guard, a, info=ks_of(fr))
        self.setc(fr, mem, a[0], O('bnw', fr.uid('bnw'), ks_of(fr)), guard, ins)
        return ONE

    def h_free(self, fr, ins, mem, guard, a):
        self.emit(fr, ins, mem, guard, a)
        return None

    def h_setkey(self, fr, ins, mem, guard, a):
        I = fr.I
        k = I.load(a[0][1], a[0][2], '<2 x i64>', I.ver(mem, a[0][1]))
        fr.store(mem, a[2], K_atom(('keysched', k, as_P(a[1]))), 16, guard, ins)
        self.emit(fr, ins, mem, guard, a, ret=k)
        return ZERO if ins['ty'] != 'void' else None

    def h_kv(self, fr, ins, mem, guard, a):
        v = P_atom(('kv', as_P(a[0]), as_P(a[1]), as_P(a[2])))
        self.emit(fr, ins, mem, guard, a, info=loops_of(fr))
        fr.store(mem, a[3], v, 2, guard, ins)
        return None

    def h_gateop(self, fr, ins, mem, guard, a):
        self.emit(fr, ins, mem, guard, a, info=loops_of(fr))
        return B(batom(('gateop', as_P(a[0]), self.I_bool(fr, a[1]), self.I_bool(fr, a[2]))))

    def I_bool(self, fr, v):
        return B(fr.bool(v))

    def h_ggate(self, fr, ins, mem, guard, a):
        return self.gate(fr, ins, mem, guard, a, True)

    def h_egate(self, fr, ins, mem, guard, a):
        return self.gate(fr, ins, mem, guard, a, False)

    def gate(self, fr, ins, mem, guard, a, garbler):
        self.emit(fr, ins, mem, guard, a, info=loops_of(fr))
        u = fr.uid('gate'); ks = ks_of(fr)
        tab, ind = a[7], a[8]
        ol, ov = (a[11], a[12]) if garbler else (a[10], a[11])
        if tab[0] == 'Ptr' and garbler:
            fr.havoc(mem, tab[1], ('gate', u))
        fr.store(mem, ind, P_atom(('gind', u, ks)), 8, guard, ins)
        if garbler:
            fr.store(mem, ol, K_atom(('gout', 0, u, ks)), 16, guard, ins)
            fr.store(mem, Ptr(ol[1], P_add(ol[2], P_const(16))), K_atom(('gout', 1, u, ks)), 16, guard, ins)
        else:
            fr.store(mem, ol, K_atom(('gout', 0, u, ks)), 16, guard, ins)
        fr.store(mem, ov, P_atom(('gval', u, ks)), 2, guard, ins)
        return None

    def h_reduce(self, fr, ins, mem, guard, a):
        self.emit(fr, ins, mem, guard, a, info=loops_of(fr))
        if a[1][0] == 'Ptr':
            fr.havoc(mem, a[1][1], ('reduce', fr.uid('red')))
        return None

    @staticmethod
    def on_std(fr, name, args, ty):
        if 'c_str' in name or name.endswith('::data() const') or '::data(' in name:
            if args and args[0][0] == 'Ptr':
                return Ptr(('cstr', args[0][1]))
        return None


def prog():
    return program(keep=KEEP)
