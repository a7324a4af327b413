"""Duality of two parties' communication trees.

Each party's session is a tree of guarded loops over send/receive leaves.  Both trees are renamed into common terms (loop counters,
wire values, received data = the peer's sent data) and compared body by body.  Guards are decided by splitting on their atoms
(a finite abstract case split with pairwise linear-arithmetic pruning); in every case the two sequences must be dual."""
from dom import *
from gcmodel import *
from view import *
from absint import walk

COMM = {'SendData': ('S', 'data'), 'RecvData': ('R', 'data'), 'SendBN': ('S', 'bn'), 'RecvBN': ('R', 'bn'),
        'OTSend': ('S', 'ot'), 'OTRecv': ('R', 'ot'), 'OTExtSend': ('S', 'otx'), 'OTExtRecv': ('R', 'otx')}


class Leaf:
    def __init__(self, side, e, stack):
        self.e = e; self.stack = stack; self.loop = None
        self.dir, self.kind = COMM[e.name]
        a = e.args
        I = side.I
        self.content = None
        if self.kind == 'data':
            self.len = as_P(a[2]); self.ptr = a[1]
            c = const_of(self.len)
            if self.dir == 'S' and c in (1, 2, 4, 8, 16) and self.ptr[0] == 'Ptr':
                I._curmem = e.mem
                self.content = I.load(self.ptr[1], self.ptr[2], '<2 x i64>' if c == 16 else 'i%d' % (8 * c), I.ver(e.mem, self.ptr[1]))
            if self.dir == 'R':
                at = e.ret
                self.content = K_atom(at) if c == 16 else P_atom(at)
        elif self.kind == 'bn':
            self.len = ZERO
            self.content = e.ret
        else:
            self.len = as_P(a[1])
        self.guard = e.guard
        self.site = e.site


class Loop:
    def __init__(self, side, e, stack):
        self.e = e; self.guard = e.guard; self.loop = e.name; self.li = e.info
        self.site = e.site
        self.nodes = side.tree(e.body, stack + (e,))


class Side:
    def __init__(self, S, letter, values=True):
        self.S = S; self.I = S.I; self.letter = letter
        self.loops = {}; self.alias = {}
        self.V = self.O = None
        if values:
            self.v = View(S)
            self.V = self.v.V
            self.outarrs = set()
            for e, st in self.v.all:
                if e.kind == 'store' and isinstance(e.name, tuple) and e.name not in (self.v.V, self.v.W):
                    k = atom_of(e.args[1]) if e.args[1][0] == 'P' else None
                    if k and key_is_ld(k) and k[1] == self.v.V:
                        self.outarrs.add(e.name)
        self.nodes = self.tree(S.ev, ())

    def tree(self, evs, stack):
        out = []
        for e in evs:
            if e.kind == 'loop':
                if contains(e, COMM):
                    out.append(Loop(self, e, stack))
            elif e.kind == 'call' and e.name in COMM:
                out.append(Leaf(self, e, stack))
        return out

    # ------------------------------------------------------------- canonical names
    def atoms(self, v, acc):
        seen = set()

        def go(x):
            if isinstance(x, (int, str)) or x is None or isinstance(x, bool):
                return
            if x in seen:
                return
            seen.add(x)
            if isinstance(x, frozenset):
                for m in x:
                    for a in m:
                        ga(a)
                return
            if isinstance(x, tuple) and x:
                t = x[0]
                if t == 'P':
                    for m, _ in x[1]:
                        for a in m:
                            ga(a)
                elif t == 'K':
                    for a, c in x[1]:
                        ga(a); go(c)
                elif t in ('ld', 'recv', 'rnd', 'cell', 'gout') and len(x) > 1:
                    gk(x)
                else:
                    for y in x:
                        go(y)

        def ga(a):
            gk(key(a))

        def gk(k):
            if k in acc:
                return
            acc.append(k)
            if k[0] == 'ld':
                go(k[3])
                return
            for y in k[1:]:
                go(y)
        go(v)
        return acc

    def canon(self, v, depth=0):
        if v is None or depth > 12:
            return v
        if isinstance(v, frozenset):
            r = self.canon(B(v), depth)
            return r[1]
        ks = self.atoms(v, [])
        sub = {}
        base = {('k', l): P_atom(('k', c)) for l, c in self.loops.items()}
        for k in ks:
            if k in self.alias:
                sub[k] = self.alias[k]
            elif k[0] == 'k' and k[1] in self.loops:
                sub[k] = base[k]
            elif k[0] == 'ld':
                b = k[1]
                if b == self.V and self.V is not None:
                    sub[k] = P_atom(('V', self.canon(k[3], depth + 1)))
                elif self.V is not None and b in self.outarrs:
                    ov = ('oval', self.canon(k[3], depth + 1))
                    sub[k] = K_atom(ov) if k[4] == 16 else P_atom(ov)
                elif isinstance(b, tuple) and b and b[0] == 'arr':
                    sub[k] = P_atom(('arr', b[1], self.canon(k[3], depth + 1)))
            elif k[0] == 'exit' and k[1] in self.loops:
                li = self.I.loopinfo[k[1]]
                ks_ = getattr(li, 'exitkeys', [])
                if len(ks_) == 2:
                    hdr = (li.hdr_exit[0], li.hdr_exit[1]) if getattr(li, 'hdr_exit', None) else ks_[0]
                    f = batom(('exit', self.loops[k[1]]))
                    sub[k] = B(f if ks_[k[2]] == hdr else bnot(f))
            elif k[0] == 'out' and k[1] in self.loops:
                li = self.I.loopinfo[k[1]]
                d = li.outs.get(k[2])
                if d is not None:
                    sub[k] = P_atom(('out', self.loops[k[1]], self.canon(d, depth + 1)))
            elif k[0] == 'phi' and k[1] in self.loops:
                st = self.I.loopinfo[k[1]].phis.get(k[2])
                if st is not None:
                    sub[k] = P_atom(('phi', self.loops[k[1]], self.canon(st[0], depth + 1)))
        return self.I.rebuild(v, sub) if sub else v


def key_is_ld(k):
    return k[0] == 'ld'


def anf_set(f, a, val):
    out = F0
    for m in f:
        if a in m:
            if val:
                out = out ^ frozenset([m - {a}])
        else:
            out = out ^ frozenset([m])
    return out


def lin(p):
    """p -> (nonconstant part, constant)"""
    return tuple((m, c) for m, c in p[1] if m), sum(c for m, c in p[1] if not m)


def neg(nc):
    return tuple((m, -c) for m, c in nc)


def consistent(asg):
    """pairwise theory check of {atom id: bool}"""
    items = [(key(a), v) for a, v in asg.items()]
    for k, v in items:
        if k[0] == 'bit' and v:
            for k2, v2 in items:
                if k2[0] == 'ge0' and v2:
                    # i - num_bits(c) >= 0  contradicts bit(c, i)
                    p = P_sub(k[2], P_atom(('BN_num_bits', k[1])))
                    nc, c = lin(P_sub(k2[1], p))
                    if not nc and c <= 0:
                        return False
                if k2[0] == 'ge0' and not v2:
                    p = P_sub(P_sub(P_atom(('BN_num_bits', k[1])), k[2]), ONE)
                    nc, c = lin(P_sub(k2[1], p))
                    if not nc and c >= 0:
                        return False
    ar = [(k[0], k[1], v) for k, v in items if k[0] in ('eq0', 'ge0')]
    for i in range(len(ar)):
        t1, p1, v1 = ar[i]
        n1, c1 = lin(p1)
        for j in range(len(ar)):
            if i == j:
                continue
            t2, p2, v2 = ar[j]
            n2, c2 = lin(p2)
            for s in (1, -1):
                if (n2 if s == 1 else neg(n2)) != n1:
                    continue
                d = c1 - s * c2          # p1 = s*p2 + d
                if t1 == 'eq0' and v1:
                    x2 = -s * d          # value of p2 when p1 == 0
                    if t2 == 'eq0' and v2 != (x2 == 0):
                        return False
                    if t2 == 'ge0' and v2 != (x2 >= 0):
                        return False
                if t1 == 'ge0' and t2 == 'ge0':
                    if s == 1:
                        # p1 = p2 + d : p2>=0 & d>=0 -> p1>=0
                        if v2 and d >= 0 and not v1:
                            return False
                        if not v2 and d <= 0 and v1:
                            return False
                    else:
                        # p1 + p2 = d
                        if v1 and v2 and d < 0:
                            return False
                        if not v1 and not v2 and d >= -1:
                            return False
    return True


class Duality:
    def __init__(self, G, E, values=(0, 1, -1)):
        self.G = G; self.E = E
        self.values = values
        self.err = []; self.pairs = {}; self.loops = {}
        self.ncases = 0; self.nleaf = 0
        self.maxcases = 20000

    def run(self):
        for it in range(12):
            self.err = []; self.pairs = {}; self.ncases = 0; self.nleaf = 0; self.learned = False
            self.done = {}
            self.body(self.G.nodes, self.E.nodes, None, None, 'session')
            if not self.learned:
                break
        return not self.err

    def fail(self, what, g, e, case=''):
        self.err.append((what, g, e, case))

    # --------------------------------------------------------------
    def body(self, gn, en, gl, el, path):
        G, E = self.G, self.E
        guards = {}
        for n in gn:
            guards[id(n)] = G.canon(n.guard)
        for n in en:
            guards[id(n)] = E.canon(n.guard)
        exits = []
        if gl is not None:
            exits = [self.exitcond(G, gl), self.exitcond(E, el)]
        allf = [guards[id(n)] for n in gn + en] + exits
        ng, ne = len(gn), len(en)

        def leafcase(fs, desc):
            self.ncases += 1
            a = [n for n, f in zip(gn, fs[:ng]) if f == F1]
            b = [n for n, f in zip(en, fs[ng:ng + ne]) if f == F1]
            self.stream(a, b, path, desc)
            if exits and fs[-1] != fs[-2]:
                self.fail('the parties disagree on leaving the loop', gl, el, desc)
        self.split(allf, {}, leafcase, [])

    def exitcond(self, side, l):
        li = l.li
        hdr = li.hdr_exit[0] if (li.trip is not None and getattr(li, 'hdr_exit', None)) else None
        f = F0
        for s, d, c in li.cond:
            if s == hdr:
                continue
            f = bor(f, c)
        return side.canon(f)

    def split(self, fs, asg, leaf, desc):
        if self.ncases > self.maxcases:
            raise Broken('too many cases in the duality check')
        a = None
        for f in fs:
            if f not in (F0, F1):
                a = self.pick(f)
                break
        if a is None:
            leaf(fs, desc)
            return
        k = key(a)
        vt = self.valterm(k)
        if vt is not None:
            for x in self.values:
                sub = {vt: P_const(x)}
                fs2 = [self.G.I.rebuild(B(f), sub)[1] if f not in (F0, F1) else f for f in fs]
                self.split(fs2, asg, leaf, desc + ['%s=%d' % (show(P_atom(vt)), x)])
            return
        for v in (True, False):
            asg2 = dict(asg); asg2[a] = v
            if not consistent(asg2):
                continue
            fs2 = [anf_set(f, a, v) if f not in (F0, F1) else f for f in fs]
            self.split(fs2, asg2, leaf, desc + [('' if v else '!') + showb(frozenset([frozenset([a])]))])

    def pick(self, f):
        """prefer wire values, then the most frequent atom"""
        cnt = {}
        for m in f:
            for a in m:
                cnt[a] = cnt.get(a, 0) + 1
        for a in cnt:
            if self.valterm(key(a)) is not None:
                return a
        return max(sorted(cnt), key=lambda a: cnt[a])

    def valterm(self, k):
        if k[0] in ('eq0', 'ge0'):
            ts = [key(a) for m, c in k[1][1] for a in m]
            vs = [t for t in ts if t[0] in ('V', 'oval')]
            if vs and len(set(vs)) == 1 and len(ts) == len(vs):
                return vs[0]
        return None

    def stream(self, a, b, path, desc):
        i = j = 0
        G, E = self.G, self.E
        while i < len(a) and j < len(b):
            g, e = a[i], b[j]
            if g.loop and e.loop:
                self.looppair(g, e, path, desc)
                i += 1; j += 1
                continue
            if bool(g.loop) != bool(e.loop):
                self.fail('one party repeats a message where the other expects a single one', g, e, desc)
                return
            if g.dir == e.dir:
                self.fail('both parties %s' % ('send' if g.dir == 'S' else 'wait to receive'), g, e, desc)
                return
            if g.kind != e.kind:
                self.fail('the parties use different transfer primitives (%s, %s)' % (g.e.name, e.e.name), g, e, desc)
                return
            lg, le = G.canon(g.len), E.canon(e.len)
            if lg == le:
                self.pair(g, e, desc)
                i += 1; j += 1
                continue
            cg, ce = const_of(lg), const_of(le)
            # merge adjacent pieces of one transfer
            if cg is not None and ce is not None and g.kind == 'data':
                x, y = cg, ce
                i0, j0 = i, j
                while x != y:
                    if x < y:
                        i += 1
                        if i >= len(a) or a[i].loop or a[i].dir != g.dir or a[i].kind != 'data' or const_of(G.canon(a[i].len)) is None:
                            break
                        x += const_of(a[i].len)
                    else:
                        j += 1
                        if j >= len(b) or b[j].loop or b[j].dir != e.dir or b[j].kind != 'data' or const_of(E.canon(b[j].len)) is None:
                            break
                        y += const_of(b[j].len)
                if x == y:
                    i += 1; j += 1
                    continue
            self.fail('message lengths differ: %s and %s' % (show(lg)[:200], show(le)[:200]), g, e, desc)
            return
        if i < len(a) or j < len(b):
            g = a[i] if i < len(a) else None
            e = b[j] if j < len(b) else None
            self.fail('a message without a counterpart', g, e, desc)

    def looppair(self, g, e, path, desc):
        G, E = self.G, self.E
        kk = (g.loop, e.loop)
        c = self.loops.get(kk)
        if c is None:
            c = self.loops[kk] = 'C%d' % len(self.loops)
            G.loops[g.loop] = c; E.loops[e.loop] = c
            self.learned = True
        tg, te = g.li.trip, e.li.trip
        if (tg is None) != (te is None):
            self.fail('loops repeat differently', g, e, desc)
            return
        if tg is not None and G.canon(tg) != E.canon(te):
            self.fail('loops repeat differently: %s and %s' % (show(G.canon(tg))[:200], show(E.canon(te))[:200]), g, e, desc)
            return
        if kk in self.done:
            return
        self.done[kk] = True
        self.body(g.nodes, e.nodes, g, e, path + '/' + c)

    def pair(self, g, e, desc):
        kk = (id(g), id(e))
        first = kk not in self.pairs
        self.pairs.setdefault(kk, (g, e, []))[2].append(desc)
        if not first:
            return
        self.nleaf += 1
        s, r, S_, R_ = (g, e, self.G, self.E) if g.dir == 'S' else (e, g, self.E, self.G)
        if r.content is not None and s.content is not None:
            k = None
            if r.content[0] == 'P':
                k = atom_of(r.content)
            elif r.content[0] == 'K':
                k = key(r.content[1][0][0])
            elif r.content[0] == 'O':
                k = r.content
            if k is not None:
                val = S_.canon(s.content)
                if k[0] == 'recv' and const_of(s.len) == 16:
                    return
                if isinstance(k, tuple) and k and k[0] == 'O':
                    return
                if R_.alias.get(k) != val:
                    # a value can come from several sends in different cases only when private; keep the first
                    if k not in R_.alias:
                        R_.alias[k] = val
                        self.learned = True
                    elif View.atoms_in(val, lambda q: q[0] == 'recv'):
                        pass
                    elif it_changed(R_.alias[k], val):
                        R_.alias[k] = val
                        self.learned = True


def it_changed(a, b):
    return a != b
