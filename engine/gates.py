"""Model of one garbled gate, extracted by abstract interpretation of the garbler's and the evaluator's
gate routines.  AES is an uninterpreted keyed function; labels are XOR-combinations of symbolic blocks."""
from dom import *
from absint import Interp, Config
from frontend import Broken, program

TYPES = {  # reference semantics (independent of the code under analysis)
    'AND': lambda a, b: a & b, 'ANDN': lambda a, b: a & (1 - b), 'NAND': lambda a, b: 1 - (a & b),
    'NANDN': lambda a, b: 1 - (a & (1 - b)), 'OR': lambda a, b: a | b, 'ORN': lambda a, b: a | (1 - b),
    'NOR': lambda a, b: 1 - (a | b), 'NORN': lambda a, b: 1 - (a | (1 - b)),
    'XOR': lambda a, b: a ^ b, 'XNOR': lambda a, b: 1 - (a ^ b), 'NOT': lambda a, b: 1 - a,
}
KEEP = ['SendData', 'RecvData', 'RandomBlock', 'AESEcbEncryptBlks', 'AESEncrypt', 'GarbleGate', 'EvalGate']
RK = ('sym', 'R')
KR = K_atom(RK)


def aes_key_id(mem, I, p):
    return (p[1], I.ver(mem, p[1]), p[2])


class Gate:
    def __init__(self, prog, exact=None):
        self.p = prog; self.exact = exact
        self.g = prog.fn('GarbleGate'); self.e = prog.fn('EvalGate')
        self.type = {t: prog.const(t + 'GATE') for t in TYPES}
        self.SECRET = prog.const('SECRET'); self.INV = prog.const('SECRET_INV')
        st = prog.structs
        try:
            self.bp = {m[0]: m[1] for m in st['BlockPair']}
            self.gt = {m[0]: (m[1], m[2]) for m in st['GarbledTable']}
            self.l0, self.l1 = self.bp['label0'], self.bp['label1']
            self.row, self.gid = self.gt['row'][0], self.gt['gid'][0]
        except KeyError as x:
            raise Broken('anchor structure vanished: %s' % x)
        self.gtsz = 48
        self.stats = {'runs': 0, 'blocks': 0, 'instructions': 0}
        self.roles(self.g, True); self.roles(self.e, False)

    def roles(self, f, garbler):
        names = [a['name'] for a in f['args']]
        want = ['input0_labels', 'input0_value', 'input1_labels', 'input1_value', 'type', 'cid', 'gid',
                'garbled_tables', 'garbled_table_ind'] + (['R'] if garbler else []) + ['AES_Key', 'output_labels', 'output_value']
        if len(names) != len(want):
            raise Broken('anchor signature changed: %s' % f['dem'])
        # positional binding (names are only a cross-check against reordering)
        if set(names) == set(want):
            idx = {n: names.index(n) for n in want}
        else:
            idx = {n: i for i, n in enumerate(want)}
        setattr(self, 'gi' if garbler else 'ei', idx)

    def cfg(self, hashes):
        def aes_blks(fr, ins, mem, guard, args):
            I = fr.I
            n = const_of(as_P(args[1]))
            p = args[0]
            if n is None:
                return NotImplemented
            kid = ('aeskey',) + aes_key_id(mem, I, args[2])[:1]
            vals = [I.load(p[1], P_add(p[2], P_const(16 * i)), '<2 x i64>', I.ver(mem, p[1])) for i in range(n)]
            for i, v in enumerate(vals):
                hashes.append((kid, v, fr.site(ins)))
                fr.store(mem, Ptr(p[1], P_add(p[2], P_const(16 * i))), K_atom(('aes', kid, v)), 16, guard, ins)
            return None

        def aes1(fr, ins, mem, guard, args):
            I = fr.I
            kid = ('aeskey',) + aes_key_id(mem, I, args[2])[:1]
            v = I.load(args[0][1], args[0][2], '<2 x i64>', I.ver(mem, args[0][1]))
            hashes.append((kid, v, fr.site(ins)))
            fr.store(mem, args[1], K_atom(('aes', kid, v)), 16, guard, ins)
            return None

        c = Config(unroll=16)
        c.exact_trunc = self.exact
        c.calls = {'AESEcbEncryptBlks': aes_blks, 'AESEncrypt': aes1}
        c.lsb1 = {RK}
        c.eqblk = lambda d: F0        # formally different combinations of independent blocks
        c.nonneg = lambda k: k[0] == 'sym'
        return c

    def _run(self, f, idx, vals, mems):
        hashes = []
        I = Interp(self.p, self.cfg(hashes))
        args = [None] * len(f['args'])
        for n, v in vals.items():
            i = idx[n]
            a = f['args'][i]
            if a['ty'] == 'ptr' and v[0] != 'Ptr':
                base = ('byref', n)
                mems.setdefault(base, []).append((0, 16 if v[0] == 'K' else 8, v))
                v = Ptr(base)
            elif a['ty'] == 'ptr' and v[1] not in mems and a.get('byval') is None:
                pass
            args[i] = v
        mem = {}
        for base, cells in mems.items():
            ver = I.v0(base)
            for off, sz, v in cells:
                ver = A(('st', ver, off if isinstance(off, tuple) else P_const(off), sz, v))
            mem[base] = ver
        fr = I.run(f, args, mem)
        if fr.mem_at_ret is None:
            raise Broken('no return state in ' + f['dem'])
        self.stats['runs'] += 1
        self.stats['blocks'] += I.stats['blocks']; self.stats['instructions'] += I.stats['instructions']
        return I, fr, hashes

    def outcome(self, I, fr, nlab, tables, ind):
        m = fr.mem_at_ret
        ld = lambda b, o, ty: I.load(b, P_const(o), ty, I.ver(m, b))
        r = {'val': ld(('cell', 'ov'), 0, 'i16'), 'ind': ld(('cell', 'ind'), 0, 'i64'),
             'lab': [ld(('cell', 'ol'), o, '<2 x i64>') for o in nlab], 'events': fr.events, 'I': I, 'mem': m}
        return r

    def garble(self, typ, in0, in1, cid=('sym', 'cid'), gid=('sym', 'gid')):
        """in = (label0, label1, value)"""
        ind = P_atom(('sym', 'ind'))
        mems = {('cell', 'l0'): [(self.l0, 16, in0[0]), (self.l1, 16, in0[1])],
                ('cell', 'l1'): [(self.l0, 16, in1[0]), (self.l1, 16, in1[1])],
                ('cell', 'ind'): [(0, 8, ind)], ('cell', 'ov'): [], ('cell', 'ol'): [], ('tables',): [], ('aeskey', 'g'): []}
        vals = {'input0_labels': Ptr(('cell', 'l0')), 'input1_labels': Ptr(('cell', 'l1')),
                'input0_value': P_const(in0[2]), 'input1_value': P_const(in1[2]), 'type': P_const(self.type[typ]),
                'cid': P_atom(cid), 'gid': P_atom(gid), 'garbled_tables': Ptr(('tables',)),
                'garbled_table_ind': Ptr(('cell', 'ind')), 'R': KR, 'AES_Key': Ptr(('AESKEY',)),
                'output_labels': Ptr(('cell', 'ol')), 'output_value': Ptr(('cell', 'ov'))}
        I, fr, h = self._run(self.g, self.gi, vals, mems)
        r = self.outcome(I, fr, (self.l0, self.l1), ('tables',), ind)
        r['hashes'] = h
        tv = I.ver(r['mem'], ('tables',))
        o = lambda k: P_add(P_scale(ind, self.gtsz), P_const(k))
        r['touched'] = tv != I.v0(('tables',))
        r['rows'] = [I.load(('tables',), o(self.row + 16 * i), '<2 x i64>', tv) for i in (0, 1)]
        r['tgid'] = I.load(('tables',), o(self.gid), 'i32', tv)
        offs = set()
        v = tv
        while key(v)[0] == 'st':
            offs.add(key(v)[2]); v = key(v)[1]
        r['outside'] = [x for x in offs if not any(x == o(k) for k in (self.row, self.row + 16, self.gid))]
        r['chain_ok'] = v == I.v0(('tables',))
        return r

    def eval(self, typ, in0, in1, table, cid=('sym', 'cid'), gid=('sym', 'gid')):
        """in = (label, value);  table = (rows, gid) or None"""
        ind = P_atom(('sym', 'ind'))
        o = lambda k: P_add(P_scale(ind, self.gtsz), P_const(k))
        cells = []
        if table is not None:
            cells = [(o(self.row), 16, table[0][0]), (o(self.row + 16), 16, table[0][1]), (o(self.gid), 4, table[1])]
        mems = {('tables',): cells, ('cell', 'ind'): [(0, 8, ind)], ('cell', 'ov'): [], ('cell', 'ol'): []}
        vals = {'input0_labels': in0[0], 'input1_labels': in1[0],
                'input0_value': P_const(in0[1]), 'input1_value': P_const(in1[1]), 'type': P_const(self.type[typ]),
                'cid': P_atom(cid), 'gid': P_atom(gid), 'garbled_tables': Ptr(('tables',)),
                'garbled_table_ind': Ptr(('cell', 'ind')), 'AES_Key': Ptr(('AESKEY',)),
                'output_labels': Ptr(('cell', 'ol')), 'output_value': Ptr(('cell', 'ov'))}
        I, fr, h = self._run(self.e, self.ei, vals, mems)
        r = self.outcome(I, fr, (0,), ('tables',), ind)
        r['hashes'] = h
        return r
