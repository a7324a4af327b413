"""Ownership of heap objects: life cells on top of the abstract interpreter.

Every allocation is an arena (one object per iteration of the loops around it) with a life cell per object that is a memory cell of its own:
1 while the object is alive, 0 before and after.  Frees, accesses and the ends of loop bodies and functions become obligations on that cell."""
from dom import *
from absint import Interp, Config, Event, walk
from bnsim import STRIDE, BIG, loops_of, arena

PAIR = {'BN_new': 'bn', 'BN_dup': 'bn', 'BN_secure_new': 'bn', 'BN_free': 'bn', 'BN_clear_free': 'bn', 'BN_CTX_new': 'ctx', 'BN_CTX_secure_new': 'ctx', 'BN_CTX_free': 'ctx',
        'RSA_new': 'rsa', 'RSA_free': 'rsa', 'EVP_MD_CTX_new': 'md', 'EVP_MD_CTX_free': 'md', 'EVP_MD_CTX_create': 'md', 'EVP_MD_CTX_destroy': 'md',
        'BN_bn2hex': 'ossl', 'BN_bn2dec': 'ossl', 'CRYPTO_free': 'ossl', 'CRYPTO_malloc': 'ossl', 'strdup': 'malloc', '__strdup': 'malloc', 'realloc': 'malloc', 'aligned_alloc': 'malloc'}
ALLOCS = {'BN_new', 'BN_dup', 'BN_secure_new', 'BN_CTX_new', 'BN_CTX_secure_new', 'RSA_new', 'EVP_MD_CTX_new', 'EVP_MD_CTX_create', 'BN_bn2hex', 'BN_bn2dec', 'CRYPTO_malloc', 'strdup', '__strdup', 'aligned_alloc'}
FREES = {'BN_free', 'BN_clear_free', 'BN_CTX_free', 'RSA_free', 'EVP_MD_CTX_free', 'EVP_MD_CTX_destroy', 'CRYPTO_free'}
NEWS = {'_Znam': 'new[]', '_Znwm': 'new', '_ZnamSt11align_val_t': 'new[]', '_ZnwmSt11align_val_t': 'new', 'malloc': 'malloc', 'calloc': 'malloc', '_ZnamRKSt9nothrow_t': 'new[]', '_ZnwmRKSt9nothrow_t': 'new'}
DELS = {'_ZdaPv': 'new[]', '_ZdaPvm': 'new[]', '_ZdlPv': 'new', '_ZdlPvm': 'new', 'free': 'malloc', '_ZdaPvSt11align_val_t': 'new[]', '_ZdlPvSt11align_val_t': 'new', '_ZdlPvmSt11align_val_t': 'new'}


def objoff(alloc_off, off):
    """the part of an offset that selects the object of the arena"""
    if alloc_off == ZERO:
        return ZERO
    return P_sub(off, ('P', tuple((m, c if m else c % STRIDE) for m, c in off[1] if c % STRIDE)))


def digits(off):
    """the counters of an arena offset, one polynomial per nesting level"""
    d = {}
    for m, c in off[1]:
        c //= STRIDE
        i = 0
        while c and c % BIG == 0:
            c //= BIG; i += 1
        d[i] = P_add(d.get(i, ZERO), P_scale(('P', ((m, 1),)), c))
    return d


def all_stores(ver, stop):
    """offsets of all stores between two versions, those of inner loops included"""
    out = []; seen = set(); work = [ver]
    while work:
        v = work.pop()
        if v == stop or v in seen:
            continue
        seen.add(v)
        k = key(v)
        if k[0] == 'st':
            out.append(k[2]); work.append(k[1])
        elif k[0] == 'ite':
            work += [k[2], k[3]]
        elif k[0] == 'end':
            work += [k[3], k[4]]
        elif k[0] == 'loop':
            continue                            # head of an inner loop: its entry is followed at its end
        else:
            return None
    return out


class Own:
    def __init__(self, prog, root, readonly=(), args=None, extra=None, mem=None, facts=()):
        self.prog = prog; self.root = root
        self.f = prog.functions[root] if root in prog.functions else prog.fn(root)
        self.kind = {}             # base -> deallocator family
        self.aoff = {}             # base -> offset of the object at its allocation
        self.allocs = {}; self.frees = {}; self.touches = {}
        self.foreign = {}
        sizes = {m[1] for n in ('GarbledCircuit', 'ReadCircuit') for m in prog.structs.get(n, []) if m[0].endswith('_size')}
        cfg = Config(unroll=8)
        cfg.facts = list(facts)
        cfg.nonneg = lambda k: k[0] in ('n', 'q') or k[0] == 'ld' and (k[4] == 4 or k[4] == 8 and k[1][0] in ('alloca', 'arg') and const_of(k[3]) in sizes)
        cfg.nonnull = lambda b: b[0] in ('new', 'arg')
        cfg.on_load = self.on_load
        cfg.touch = self.touch
        cfg.readonly = set(readonly) | {'BN_bn2bin', 'BN_cmp', 'BN_is_zero', 'BN_is_bit_set', 'BN_num_bits', 'atoi', 'strlen', 'BN_set_bit', 'BN_clear_bit', 'BN_copy', 'BN_set_word', 'BN_rand', 'BN_add',
                                        'BN_sub', 'BN_nnmod', 'BN_mod_exp', 'BN_bin2bn', 'BN_lebin2bn', 'BN_ucmp', 'BN_mask_bits', 'BN_rshift', 'BN_lshift', 'EVP_DigestInit_ex', 'EVP_DigestUpdate'}
        for nm in ALLOCS:
            cfg.calls[nm] = self.h_alloc
        for nm in FREES:
            cfg.calls[nm] = self.h_free
        for nm in ('operator new[]', 'operator new', 'malloc', 'calloc', 'operator new[](unsigned long)', 'operator new(unsigned long)'):
            cfg.calls[nm] = self.h_alloc
        for nm in ('operator delete[]', 'operator delete', 'free', 'operator delete[](void*)', 'operator delete(void*)', 'operator delete(void*, unsigned long)', 'operator delete[](void*, unsigned long)'):
            cfg.calls[nm] = self.h_free
        cfg.calls['posix_memalign'] = self.h_memalign
        cfg.calls['BN_hex2bn'] = self.h_hex2bn
        cfg.calls.update(extra or {})
        self.tune(cfg)
        self.cfg = cfg
        self.I = Interp(prog, cfg)
        self.hyp = {}
        m = dict(mem or {})
        if args is None:
            args = []
            for a in self.f['args']:
                if a['ty'] == 'ptr':
                    args.append(Ptr(('arg', a['name'])))
                elif a['ty'] == 'i1' or a['ty'] == 'i8':
                    args.append(B(batom(('flag', a['name']))))
                else:
                    args.append(P_atom(('n', a['name'])))
        self.args = args
        self.fr = self.I.run(self.f, args, m)
        self.mem = getattr(self.fr, 'mem_at_ret', None)

    def tune(self, cfg):
        pass

    # ------------------------------------------------------------ events
    def key(self, fr, ins):
        return fr.site(ins)

    def alloc(self, fr, ins, mem, g, fam):
        p = arena(fr, 'h')
        b = p[1]
        self.kind[b] = fam; self.aoff[b] = p[2]
        if b not in mem:
            mem[b] = A(('undef', b))
        fr.written.add(b)
        fr.store(mem, Ptr(('life', b), p[2]), ONE, 8, g, ins)
        e = Event('alloc', fam, [], g, fr.site(ins), mem=dict(mem), ret=p, ins=ins)
        fr.emit(e)
        return p

    def h_alloc(self, fr, ins, mem, g, a):
        fam = NEWS.get(ins.get('mangled')) or PAIR.get(ins.get('callee'))
        if fam is None:
            return NotImplemented
        if ins.get('mangled') in ('_Znam', '_Znwm') and self.std_internal(ins):
            return NotImplemented
        return self.alloc(fr, ins, mem, g, fam)

    @staticmethod
    def std_internal(ins):
        d = ins.get('dbg')
        return bool(d) and not d[0][0].startswith(('crypto', 'garbled_circuit', 'scd', 'tcpip', 'util'))

    def h_memalign(self, fr, ins, mem, g, a):
        p = self.alloc(fr, ins, mem, g, 'malloc')
        fr.store(mem, a[0], p, 8, g, ins)
        return ZERO

    def h_hex2bn(self, fr, ins, mem, g, a):
        # the caller's number is used when there is one
        return self.I.typed(('ret', 'BN_hex2bn', fr.uid('hex')), ins['ty'])

    def h_free(self, fr, ins, mem, g, a):
        fam = DELS.get(ins.get('mangled')) or PAIR.get(ins.get('callee'))
        if fam is None or (ins.get('mangled') in DELS and self.std_internal(ins)):
            return NotImplemented
        self.free(fr, ins, mem, g, a[0], fam)
        return None

    def free(self, fr, ins, mem, g, p, fam):
        if p[0] != 'Ptr' or p == NULL or g == F0:
            return
        if p[1][0] == 'pite':
            _, c, x, y = p[1]
            self.free(fr, ins, mem, band(g, c), Ptr(x[1], P_add(x[2], p[2])), fam)
            self.free(fr, ins, mem, band(g, bnot(c)), Ptr(y[1], P_add(y[2], p[2])), fam)
            return
        b = p[1]
        e = Event('free', fam, [p], g, fr.site(ins), mem=dict(mem), ins=ins)
        e.info = self.I.ver(mem, ('life', b)) if b in self.kind else None
        fr.emit(e)
        if b in self.kind:
            oo = objoff(self.aoff[b], p[2])
            cell = Ptr(('life', b), oo)
            if g == F1:
                fr.store(mem, cell, ZERO, 8, g, ins)
            else:
                # a conditional release inside one path
                old = self.I.load(cell[1], oo, 'i64', self.I.ver(mem, cell[1]))
                fr.store(mem, cell, ZERO, 8, g, ins)

    def touch(self, fr, p, ins, mem, g):
        b = p[1]
        if b[0] == 'pite':
            for x, c in ((b[2], b[1]), (b[3], bnot(b[1]))):
                self.touch(fr, Ptr(x[1], P_add(x[2], p[2])), ins, mem, band(g, c))
            return
        if b not in self.kind or ('life', b) not in mem or g == F0:
            return
        if ins.get('callee') in FREES or ins.get('mangled') in DELS:
            return
        oo = objoff(self.aoff[b], p[2])
        ver = mem[('life', b)]
        self.touches.setdefault((b, oo, ver), {})[fr.site(ins)] = (g, tuple(loops_of(fr.prefix)))

    # ------------------------------------------------------------ reading life cells
    def on_load(self, I, base, ver, off, ty):
        if base[0] != 'life':
            return None
        k = key(ver)
        if k[0] == 'v0':
            return ZERO
        if k[0] in ('loop', 'end') and getattr(self, 'post', False):
            lname = k[1]
            li = I.loopinfo.get(lname)
            if li is None or not hasattr(li, 'final'):
                return None
            hk = (ver, off)
            if hk in self.hyp:
                return self.hyp[hk]
            entry = I.ver(li.entry, base)
            head = A(('loop', lname, base))
            fin = I.ver(li.final, base)
            sts = all_stores(fin, head)
            if sts is None:
                return None
            kid = A(('k', lname))
            od = digits(off)
            same = True
            for so in sts:
                sd = digits(so)
                if k[0] == 'loop' and any(sd.get(i) == od.get(i) and dict(sd[i][1]).get((kid,)) for i in sd):
                    continue                    # this iteration's own object: earlier iterations wrote other objects
                if not I.disjoint(off, 8, so, 8):
                    same = False
            if same:
                return I.load(base, off, ty, entry)
            ve = I.load(base, off, ty, entry)
            self.hyp[(head, off)] = ve
            try:
                vf = I.load(base, off, ty, fin)
            finally:
                self.hyp.pop((head, off), None)
            if vf == ve:
                return ve
            return P_atom(('life?', lname, base, off))
        return None

    def alive(self, b, off, ver, facts=()):
        I = self.I
        n = len(I.facts)
        I.facts.extend(facts)
        self.post = True
        try:
            v = I.load(('life', b), off, 'i64', ver)
        finally:
            del I.facts[n:]
        if v[0] == 'B':
            return v[1]
        c = const_of(as_P(v)) if v[0] == 'P' else None
        if c is not None:
            return F1 if c else F0
        k = atom_of(v) if v[0] == 'P' else None
        if k and k[0] == 'b2i':
            return k[1]
        if k and k[0] == 'ite':
            return self.flat(v)
        r = bnot(I.b_eq0(as_P(v)))
        return r

    def flat(self, v):
        c = const_of(as_P(v))
        if c is not None:
            return F1 if c else F0
        k = atom_of(v)
        if k and k[0] == 'ite':
            return band(k[1], self.flat(k[2])) ^ band(bnot(k[1]), self.flat(k[3]))
        return bnot(self.I.b_eq0(as_P(v)))


def rowfacts(stack):
    """row-major indices: the slack of an outer counter times the length of an inner loop is not negative"""
    out = []
    for i, a in enumerate(stack):
        if a.info.trip is None:
            continue
        sl = P_sub(P_sub(a.info.trip, ONE), P_atom(('k', a.name)))
        for b in stack[i + 1:]:
            t = b.info.trip
            if t is not None and not any(c < 0 for m, c in t[1]):
                out.append(P_mul(sl, t))
    return out


def loopfacts(stack, sub=None):
    return [P_sub(P_sub(e.info.trip, ONE), P_atom(('k', e.name))) for e in stack if e.info.trip is not None]


def analyse(O, ob, pre=''):
    """obligations of one root; returns the allocation sites seen"""
    I = O.I
    seen = {}
    cnt = {'allocations': 0, 'releases': 0, 'accesses': 0}
    ret = O.fr.ret
    esc = escapes(O)
    for e, st in walk(O.fr.events):
        if e.kind == 'free' and e.args[0][1] not in O.kind:
            O.foreign[e.site] = (e, st)
    for e, st in walk(O.fr.events):
        if e.kind == 'free':
            cnt['releases'] += 1
            p = e.args[0]; b = p[1]
            nm = pre + 'free:' + short(e.site)
            if b not in O.kind:
                continue
            ob(O.kind[b] == e.name, nm + ':match', e.site, 'memory is released by the deallocator of its allocator', 'allocated by %s, released by %s' % (O.kind[b], e.name))
            oo = objoff(O.aoff[b], p[2])
            ob(P_sub(p[2], oo) == ZERO, nm + ':start', e.site, 'the pointer to the start of the object is released', show(p))
            al = O.alive(b, oo, e.info, loopfacts(st))
            dead = under(e, st, bnot(al))
            ob(dead == F0, nm + ':once', e.site, 'an object is released only while it is alive (no double release)', 'not alive when: ' + showb(dead)[:300])
        elif e.kind == 'alloc':
            if e.ret is None or e.ret[0] != 'Ptr':
                continue
            cnt['allocations'] += 1
            b, off = e.ret[1], e.ret[2]
            seen[e.site] = seen.get(e.site, 0) + 1
            nm = pre + 'alloc:' + short(e.site)
            if b in esc:
                ob(True, nm + ':handed', e.site, 'the object is handed to the caller', '')
                continue
            why = leak(O, e, st)
            ob(why is None, nm + ':leak', e.site, 'the object is released on every successful path', why or '')
    for (b, oo, ver), sites in O.touches.items():
        for s, (g, loops) in sites.items():
            cnt['accesses'] += 1
            al = O.alive(b, oo, ver, [P_sub(P_sub(I.loopinfo[l].trip, ONE), P_atom(('k', l))) for l in loops if I.loopinfo[l].trip is not None])
            dead = band(g, bnot(al))
            ob(dead == F0, pre + 'use:' + short(s), s, 'an object is accessed only while it is alive', 'not alive when: ' + showb(dead)[:300])
    return seen, cnt


def short(site):
    import re
    m = re.match(r'(.*?):\d+ (\(.*\))', site)
    return m.group(1) + m.group(2) if m else site


def under(e, st, f):
    f = band(f, e.guard)
    for x in st:
        f = band(f, x.guard)
    return f


def leak(O, e, st):
    I = O.I
    b, off = e.ret[1], e.ret[2]
    facts = []
    for lvl in range(len(st), -1, -1):
        if lvl:
            L = st[lvl - 1]
            mem = L.info.final
        else:
            mem = O.mem
        if mem is None:
            return None
        inner = st[lvl:]
        sub = {}
        facts = []
        for x in st:
            if x in inner:
                q = P_atom(('q', x.name))
                sub[('k', x.name)] = q
                if x.info.trip is not None:
                    t = I.rebuild(x.info.trip, {('k', y.name): P_atom(('q', y.name)) for y in inner})
                    facts.append(P_sub(P_sub(t, ONE), q))
            elif x.info.trip is not None:
                facts.append(P_sub(P_sub(x.info.trip, ONE), P_atom(('k', x.name))))
        o = I.rebuild(off, sub) if sub else off
        g = under(e, inner, F1)
        g = I.rebuild(B(g), sub)[1] if sub else g
        al = O.alive(b, o, I.ver(mem, ('life', b)), facts)
        r = band(g, al)
        if r == F0:
            return None
    if released_through_array(O, e, st):
        return None
    return 'still alive at the end when: ' + showb(r)[:300]


def released_through_array(O, e, st):
    """the object's address is put into an array of pointers all of whose elements are released by a later loop"""
    I = O.I
    stores = {}
    for s, sst in walk(O.fr.events):
        if s.kind == 'store' and s.name in O.kind and s.args[1][0] == 'Ptr':
            stores.setdefault(s.name, []).append((s, sst))
    for B_, lst in stores.items():
        mine = [(s, sst) for s, sst in lst if s.args[1] == e.ret and len(sst) == len(st) and all(x is y for x, y in zip(sst, st)) and s.guard == e.guard]
        if not mine:
            continue
        frees = []
        for fe, fst in O.foreign.values():
            p = fe.args[0]
            b = p[1]
            if b[0] == 'ld' and b[1] == B_ and p[2] == ZERO and fst:
                frees.append((fe, fst))
        for fe, fst in frees:
            if len([1 for x in frees if x[0] is not fe and x[0].site != fe.site]):
                continue                        # released by more than one loop: not a single owner
            F = fst[-1]
            if F.info.trip is None or F.info.breaks or O.kind[e.ret[1]] != fe.name:
                continue
            off = fe.args[0][1][3]
            kF = P_atom(('k', F.name))
            a0 = P_sub(off, P_scale(kF, 8))
            if any(A(('k', F.name)) in m for m, c in a0[1]):
                continue
            # released whenever it was created
            fg = under(fe, [x for x in fst if x not in st], F1)
            null = {}
            for m in fg:
                for a in m:
                    k = key(a)
                    if k[0] == 'isnull' and k[1] == fe.args[0]:
                        null[k] = B(F0)
            if null:
                fg = I.rebuild(B(fg), null)[1]
            if band(under(e, [x for x in st if x not in fst], F1), bnot(fg)) != F0:
                continue
            ok = True
            for s, sst in mine:
                d = P_sub(s.args[0][2], a0)
                if any(c % 8 for m, c in d[1]):
                    ok = False; break
                idx = ('P', tuple((m, c // 8) for m, c in d[1]))
                n = len(I.facts)
                I.facts.extend(loopfacts(sst)); I.facts.extend(rowfacts(sst))
                if not (I.ge0(idx) is True and I.ge0(P_sub(P_sub(F.info.trip, ONE), idx)) is True):
                    ok = False
                # other elements occupy other slots
                for s2, sst2 in lst:
                    if s2 is s or s2.args[0] == s.args[0]:
                        continue
                    I.facts.extend(loopfacts(sst2)); I.facts.extend(rowfacts(sst2))
                    d2 = P_sub(s2.args[0][2], s.args[0][2])
                    if not (I.ge0(P_sub(d2, P_const(8))) is True or I.ge0(P_sub(P_scale(d2, -1), P_const(8))) is True):
                        ok = False
                del I.facts[n:]
            if ok:
                return True
    return False


def escapes(O):
    """arena objects reachable from the result or from what the caller's arguments point to"""
    I = O.I
    out = set()
    if O.mem is None:
        return out
    seen = set()
    work = []

    def scan(x):
        stack = [x]
        local = set()
        while stack:
            x = stack.pop()
            if isinstance(x, tuple):
                if x in local:
                    continue
                local.add(x)
                if len(x) == 3 and x[0] == 'Ptr' and isinstance(x[1], tuple):
                    if x[1] in O.kind and x[1] not in out:
                        out.add(x[1]); work.append(x[1])
                if x and x[0] == 'P' and len(x) == 2:
                    for m, c in x[1]:
                        for a in m:
                            stack.append(key(a))
                else:
                    stack.extend(y for y in x if isinstance(y, (tuple,)))

    def versions(b):
        ver = I.ver(O.mem, b)
        todo = [ver]; done = set()
        while todo:
            v = todo.pop()
            if v in done:
                continue
            done.add(v)
            k = key(v)
            if k[0] == 'st':
                scan(k[4])
                todo.append(k[1])
            elif k[0] == 'ite':
                todo += [k[2], k[3]]
            elif k[0] == 'end':
                todo += [k[3], k[4]]
    if O.fr.ret is not None:
        scan(O.fr.ret)
    for b in list(O.mem):
        if b[0] in ('arg', 'g'):
            versions(b)
    while work:
        versions(work.pop())
    return out
