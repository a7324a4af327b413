"""Value numbering at byte granularity for straight-line kernels (vector intrinsics): control flow must fold to constants, data stay symbolic
(each byte is the xor of a constant and a set of interned expressions).  Nothing is executed; unknown operations give fresh opaque expressions."""
import re
from frontend import Broken

_ids = {}
_keys = []
ZB = (0, frozenset())


def atom(*k):
    i = _ids.get(k)
    if i is None:
        i = _ids[k] = len(_keys)
        _keys.append(k)
    return (0, frozenset([i]))


def bxor(a, b):
    return (a[0] ^ b[0], a[1] ^ b[1])


def vxor(a, b):
    return tuple(bxor(x, y) for x, y in zip(a, b))


def bshow(b, d=3):
    s = ['0x%02x' % b[0]] if b[0] or not b[1] else []
    for i in sorted(b[1]):
        k = _keys[i]
        if d == 0:
            s.append('..')
        else:
            s.append('%s(%s)' % (k[0], ','.join(bshow(x, d - 1) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], frozenset) else '..' if isinstance(x, tuple) and len(str(x)) > 30 else str(x) for x in k[1:])))
    return '^'.join(s)


def const_bytes(n, size):
    n &= (1 << 8 * size) - 1
    return tuple(((n >> 8 * i) & 255, frozenset()) for i in range(size))


def size_of(ty):
    m = re.match(r'<(\d+) x (\w+)>', ty)
    if m:
        return int(m.group(1)) * size_of(m.group(2))
    if ty == 'ptr' or ty == 'double':
        return 8
    if ty == 'float':
        return 4
    m = re.match(r'i(\d+)$', ty)
    return max(1, int(m.group(1)) // 8) if m else 0


class ByteSim:
    def __init__(self, prog, intrin, limit=200000):
        self.p = prog; self.intrin = intrin; self.limit = limit; self.fresh = 0; self.unknown = []

    def input_byte(self, obj, off):
        return atom('in', obj, off)

    def load(self, mem, p, size, ty):
        if p is None or p[0] != 'ptr':
            return self.opaque('load', size)
        if size == 8 and (p[1], p[2], 'p') in mem:
            return mem[(p[1], p[2], 'p')]
        g = None
        if p[1][0] == 'g':
            g = self.p.globals.get(p[1][1], {}).get('init')
        return ('V', tuple(mem[(p[1], p[2] + i)] if (p[1], p[2] + i) in mem else self.input_byte(p[1], p[2] + i) for i in range(size)))

    def opaque(self, what, size):
        self.fresh += 1
        return ('V', tuple(atom('opaque', what, self.fresh, i) for i in range(size)))

    def bytes(self, v, size):
        if v is None:
            return self.opaque('undefined', size)[1]
        if v[0] == 'I':
            return const_bytes(v[2], size)
        if v[0] == 'V':
            return v[1] if len(v[1]) == size else self.opaque('width', size)[1]
        return tuple(atom('ptrbyte', v, i) for i in range(size))

    def fold(self, v, width):
        """bytes back to a constant when possible"""
        if v[0] == 'V' and all(not b[1] for b in v[1]):
            return ('I', width, sum(b[0] << 8 * i for i, b in enumerate(v[1])) & ((1 << width) - 1))
        return v

    def operand(self, o, env):
        t = o[0]
        if t == 'v':
            return env.get(o[1])
        if t == 'i':
            return ('I', o[2], int(o[1]) & ((1 << o[2]) - 1))
        if t == 'zero':
            return ('V', (ZB,) * size_of(o[1]))
        if t == 'null':
            return ('ptr', ('null',), 0)
        if t == 'g':
            return ('ptr', ('g', o[1]), o[2])
        if t == 'f':
            return ('ptr', ('fn', o[1]), 0)
        if t == 'undef':
            return ('V', self.opaque('undef', size_of(o[2]))[1]) if size_of(o[2]) else None
        if t == 'agg':
            out = ()
            for e in o[2]:
                if e[0] == 'i':
                    out += const_bytes(int(e[1]), e[2] // 8)
                else:
                    v = self.operand(e, env)
                    if v is None or v[0] != 'V':
                        return self.opaque('agg', size_of(o[1]))
                    out += v[1]
            return ('V', out)
        return None

    def run(self, f, args, mem):
        env = dict(zip([a['id'] for a in f['args']], args))
        b, prev = 0, None
        steps = 0
        while True:
            blk = f['blocks'][b]
            ins_ = blk if isinstance(blk, list) else blk['ins']
            phis = {}
            for ins in ins_:
                if ins['op'] == 'phi':
                    phis[ins['id']] = next((self.operand(o, env) for s, o in ins['in'] if s == prev), None)
            env.update(phis)
            nxt = None
            for ins in ins_:
                steps += 1
                if steps > self.limit:
                    raise Broken('constant control flow does not end in %s' % f['dem'])
                op = ins['op']
                if op == 'phi':
                    continue
                if op == 'br':
                    if len(ins['succ']) == 1:
                        nxt = ins['succ'][0]
                    else:
                        c = self.operand(ins['args'][0], env)
                        if c is None or c[0] != 'I':
                            return None, mem, 'branch on data at %s' % (ins.get('dbg') or [['?', 0]])[0][:2]
                        nxt = ins['succ'][0] if c[2] & 1 else ins['succ'][1]
                elif op == 'switch':
                    c = self.operand(ins['args'][0], env)
                    if c is None or c[0] != 'I':
                        return None, mem, 'branch on data'
                    w = c[2] - (1 << c[1]) if c[2] >> (c[1] - 1) else c[2]
                    nxt = next((d for k, d in ins['cases'] if k == w or k == c[2]), ins['default'])
                elif op == 'ret':
                    return (self.operand(ins['args'][0], env) if ins['args'] else None), mem, None
                elif op == 'unreachable':
                    return None, mem, 'does not return'
                else:
                    v = self.step(ins, env, mem)
                    if v is not None:
                        env[ins['id']] = v
                    if ins.get('normal') is not None and op == 'invoke':
                        nxt = ins['normal']
            prev, b = b, nxt

    def step(self, ins, env, mem):
        op = ins['op']
        A = [self.operand(o, env) for o in ins.get('args', [])] if op != 'getelementptr' else []
        ty = ins.get('ty', 'void')
        if op == 'alloca':
            return ('ptr', ('alloca', ins['id']), 0)
        if op == 'load':
            v = self.load(mem, A[0], ins['sz'], ty)
            m = re.match(r'i(\d+)$', ty)
            return self.fold(v, int(m.group(1))) if m else v
        if op == 'store':
            p = A[1]
            if p is None or p[0] != 'ptr':
                self.unknown.append('store through an unknown pointer')
                return
            for i, b in enumerate(self.bytes(A[0], ins['sz'])):
                mem[(p[1], p[2] + i)] = b
            mem.pop((p[1], p[2], 'p'), None)
            if A[0] is not None and A[0][0] == 'ptr':
                mem[(p[1], p[2], 'p')] = A[0]
            return
        if op == 'getelementptr':
            b = self.operand(ins['base'], env)
            off = ins['off']
            for o, s in ins['var']:
                x = self.operand(o, env)
                if x is None or x[0] != 'I':
                    return None
                w = x[2] - (1 << x[1]) if x[2] >> (x[1] - 1) else x[2]
                off += w * s
            return ('ptr', b[1], b[2] + off) if b is not None and b[0] == 'ptr' else None
        if op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            v = A[0]
            if op == 'bitcast' and v is not None and v[0] == 'I' and ty[0] == '<':
                return ('V', const_bytes(v[2], size_of(ty)))
            if op == 'bitcast' and v is not None and v[0] == 'V' and re.match(r'i\d+$', ty):
                return self.fold(v, int(ty[1:]))
            return v
        if op in ('zext', 'sext', 'trunc'):
            v = A[0]; w = int(ty[1:]) if re.match(r'i\d+$', ty) else None
            if w is None or v is None:
                return self.opaque(op, size_of(ty))
            if v[0] == 'I':
                n = v[2]
                if op == 'sext' and n >> (v[1] - 1):
                    n -= 1 << v[1]
                return ('I', w, n & ((1 << w) - 1))
            if v[0] == 'V' and w >= 8:
                if op == 'trunc':
                    return ('V', v[1][:w // 8])
                if op == 'zext':
                    return ('V', v[1] + (ZB,) * (w // 8 - len(v[1])))
            return self.opaque(op, size_of(ty))
        if op == 'icmp':
            if A[0] is not None and A[1] is not None and A[0][0] == A[1][0] == 'I':
                w = A[0][1]; a, b = A[0][2], A[1][2]
                sg = lambda x: x - (1 << w) if x >> (w - 1) else x
                p = ins['pred']
                if p[0] == 's':
                    a, b = sg(a), sg(b)
                r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p if p in ('eq', 'ne') else p[1:]]
                return ('I', 1, int(r))
            if A[0] is not None and A[1] is not None and A[0][0] == A[1][0] == 'ptr' and A[0][1] == A[1][1]:
                a, b = A[0][2], A[1][2]
                p = ins['pred']
                return ('I', 1, int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p if p in ('eq', 'ne') else p[1:]]))
            if A[0] is not None and A[1] is not None and A[0][0] == A[1][0] == 'ptr' and ins['pred'] in ('eq', 'ne'):
                return ('I', 1, int(ins['pred'] == 'ne'))            # distinct live objects
            return ('V', self.opaque('icmp', 1)[1])
        if op == 'select':
            if A[0] is not None and A[0][0] == 'I':
                return A[1] if A[0][2] & 1 else A[2]
            return self.opaque('select', size_of(ty))
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem') and all(a is not None and a[0] == 'I' for a in A):
            w = A[0][1]; a, b = A[0][2], A[1][2]; M = (1 << w) - 1
            sg = lambda x: x - (1 << w) if x >> (w - 1) else x
            if op in ('udiv', 'sdiv', 'urem', 'srem') and b == 0:
                return self.opaque(op, w // 8)
            r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: a >> b,
                 'ashr': lambda: sg(a) >> b, 'udiv': lambda: a // b, 'urem': lambda: a % b, 'sdiv': lambda: int(sg(a) / sg(b)), 'srem': lambda: sg(a) - sg(b) * int(sg(a) / sg(b))}[op]()
            return ('I', w, r & M)
        n = size_of(ty)
        if op == 'xor':
            return ('V', vxor(self.bytes(A[0], n), self.bytes(A[1], n)))
        if op in ('and', 'or'):
            x, y = self.bytes(A[0], n), self.bytes(A[1], n)
            out = []
            for a, b in zip(x, y):
                if a[1] and not b[1]:
                    a, b = b, a
                if not a[1] and a[0] in (0, 255):
                    z = (ZB if a[0] == 0 else b) if op == 'and' else (b if a[0] == 0 else (255, frozenset()))
                elif op == 'or' and (a == ZB or b == ZB):
                    z = a if b == ZB else b
                elif a == b:
                    z = a
                elif not a[1] and not b[1]:
                    z = (a[0] & b[0] if op == 'and' else a[0] | b[0], frozenset())
                else:
                    z = atom(op, a, b)
                out.append(z)
            return ('V', tuple(out))
        if op in ('shl', 'lshr') and A[0] is not None:
            m = re.match(r'<(\d+) x i(\d+)>', ty)
            lw = int(m.group(2)) // 8 if m else n
            sh = self.bytes(A[1], n)
            src = self.bytes(A[0], n)
            out = []
            ok = True
            for l in range(n // lw):
                s = sh[l * lw:(l + 1) * lw]
                if any(b[1] for b in s):
                    ok = False
                    break
                c = sum(b[0] << 8 * i for i, b in enumerate(s))
                if c % 8:
                    ok = False
                    break
                c //= 8
                lane = src[l * lw:(l + 1) * lw]
                out += [lane[i - c] if 0 <= i - c < lw else ZB for i in range(lw)] if op == 'shl' else [lane[i + c] if i + c < lw else ZB for i in range(lw)]
            return ('V', tuple(out)) if ok else ('V', tuple(atom(op, src, sh, i) for i in range(n)))
        if op == 'shufflevector':
            m = re.match(r'<(\d+) x (\w+)>', ty)
            es = size_of(m.group(2))
            sty = ins.get('sty')
            a = A[0]; b = A[1]
            la = len(a[1]) if a is not None and a[0] == 'V' else (len(b[1]) if b is not None and b[0] == 'V' else n)
            ab = self.bytes(a, la); bb = self.bytes(b, la)
            k = la // es
            out = []
            for j in ins['mask']:
                if j < 0:
                    out += list(self.opaque('undef', es)[1])
                else:
                    s = ab if j < k else bb
                    j %= k
                    out += s[j * es:(j + 1) * es]
            return ('V', tuple(out))
        if op == 'insertelement':
            es = size_of(re.match(r'<\d+ x (\w+)>', ty).group(1))
            v = list(self.bytes(A[0], n))
            if A[2] is None or A[2][0] != 'I':
                return self.opaque(op, n)
            v[A[2][2] * es:(A[2][2] + 1) * es] = self.bytes(A[1], es)
            return ('V', tuple(v))
        if op == 'extractelement':
            if A[1] is None or A[1][0] != 'I' or A[0] is None or A[0][0] != 'V':
                return self.opaque(op, n)
            v = ('V', A[0][1][A[1][2] * n:(A[1][2] + 1) * n])
            return self.fold(v, 8 * n) if ty[0] == 'i' else v
        if op in ('call', 'invoke'):
            nm = str(ins.get('callee') or '')
            if nm.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume')):
                return None
            if nm.startswith(('llvm.memcpy', 'llvm.memmove')) and A[0] and A[1] and A[0][0] == A[1][0] == 'ptr' and A[2] and A[2][0] == 'I':
                v = [self.load(mem, ('ptr', A[1][1], A[1][2] + i), 1, 'i8')[1][0] for i in range(A[2][2])]
                for i, b in enumerate(v):
                    mem[(A[0][1], A[0][2] + i)] = b
                return None
            if nm.startswith('llvm.memset') and A[0] and A[0][0] == 'ptr' and A[2] and A[2][0] == 'I':
                b = self.bytes(A[1], 1)[0]
                for i in range(A[2][2]):
                    mem[(A[0][1], A[0][2] + i)] = b
                return None
            h = self.intrin(self, nm, A, n, ins, mem)
            if h is not None:
                return h
            self.unknown.append('call of %s' % nm)
            for a in A:
                if a is not None and a[0] == 'ptr':
                    for k in [k for k in mem if k[0] == a[1]]:
                        if len(k) == 2:
                            mem[k] = self.opaque('clobbered', 1)[1][0]
                        else:
                            del mem[k]
            return self.opaque(nm, n) if n else None
        self.unknown.append(op)
        return self.opaque(op, n) if n else None


def aes_intrinsics(S, nm, A, n, ins, mem):
    """AES-NI and byte shuffles, by the definitions in the instruction-set manual"""
    if nm == 'llvm.x86.aesni.aeskeygenassist' and A[1] and A[1][0] == 'I':
        v = S.bytes(A[0], 16)
        sub = lambda b: atom('S', b)
        rc = (A[1][2] & 255, frozenset())
        out = []
        for w in (1, 3):
            q = [sub(x) for x in v[4 * w:4 * w + 4]]
            out += q
            r = q[1:] + q[:1]
            out += [bxor(r[0], rc)] + r[1:]
        return ('V', tuple(out))
    for k in ('aesenc', 'aesenclast', 'aesdec', 'aesdeclast'):
        if nm == 'llvm.x86.aesni.' + k:
            s = S.bytes(A[0], 16)
            return ('V', vxor(tuple(atom(k, s, i) for i in range(16)), S.bytes(A[1], 16)))
    if nm == 'llvm.x86.ssse3.pshuf.b.128':
        v, m = S.bytes(A[0], 16), S.bytes(A[1], 16)
        if all(not x[1] for x in m):
            return ('V', tuple(ZB if x[0] & 128 else v[x[0] & 15] for x in m))
    return None
