"""Flow-insensitive points-to and taint over one (inlined) function of the IR.

Objects are allocation sites (alloca, allocator calls, results of opaque calls), globals and what arguments point to; they are
field-insensitive.  Taint is explicit flow, plus selects and two-way merges of constants decided by a tainted condition."""
from frontend import Broken

ALLOC = {'_Znam', '_Znwm', 'malloc', 'calloc', '_ZnamSt11align_val_t', '_ZnwmSt11align_val_t'}
NOP = ('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.stack', '__cxa_', '__clang_call_terminate', 'llvm.eh', 'boost::', 'operator delete', 'free', 'BN_free', 'BN_clear_free', 'BN_CTX_free', 'CRYPTO_free', 'CRYPTO_clear_free', 'llvm.experimental')
SETTERS = ('BN_set_bit', 'BN_clear_bit', 'BN_set_word', 'BN_one', 'BN_zero', 'BN_zero_ex')
STATUS = ('BN_set_bit', 'BN_clear_bit', 'BN_hex2bn', 'BN_mask_bits', 'BN_add', 'BN_sub', 'BN_mod_exp', 'BN_div', 'BN_mod_add', 'BN_mod_sub', 'EVP_DigestUpdate', 'EVP_DigestFinal_ex')
TERM_OPS = ('br', 'switch', 'ret', 'unreachable', 'resume')


class Taint:
    def __init__(self, f, model=None, args=None, tainted_objs=(), implicit=()):
        self.f = f
        self.implicit = set(implicit)
        self.model = model or (lambda t, i, name: None)
        self.pts = {}; self.content = {}; self.tv = {}; self.to = {}
        self.ins = {}; self.blk = {}
        for bi, b in enumerate(f['blocks']):
            for i in b:
                if 'id' in i:
                    self.ins[i['id']] = i; self.blk[i['id']] = bi
        self.preds = {}
        for bi, b in enumerate(f['blocks']):
            for s in self.succs(b[-1]):
                self.preds.setdefault(s, []).append(bi)
        for n, a in enumerate(f['args']):
            o = ('arg', n)
            if a['ty'] == 'ptr':
                self.pts[('a', n)] = {o}
            why = (args or {}).get(n)
            if why:
                if a['ty'] == 'ptr':
                    self.to[o] = why
                else:
                    self.tv[('a', n)] = why
        for o, why in tainted_objs:
            self.to[o] = why
        self.changed = True
        self.rounds = 0
        self.argid = {}
        for n, a in enumerate(f['args']):
            if 'id' in a:
                self.argid[a['id']] = n
        while self.changed:
            self.changed = False
            self.rounds += 1
            if self.rounds > 60:
                raise Broken('taint analysis does not converge in ' + f['dem'])
            for b in f['blocks']:
                for i in b:
                    self.step(i)
            if self.implicit:
                self.control()

    # ---- implicit flows: values and stores that depend on which way a branch decided by an implicit source went
    def sides(self, bi):
        """per successor of a branch: the blocks only that side reaches (before the branch runs again), and where sides meet"""
        ss = sorted(self.succs(self.f['blocks'][bi][-1]))
        R = []
        for s in ss:
            reg, w = set(), [s]
            while w:
                x = w.pop()
                if x == bi or x in reg:
                    continue
                reg.add(x); w += self.succs(self.f['blocks'][x][-1])
            R.append(reg)
        al = set().union(*R)
        common = {x for x in al if sum(x in r for r in R) > 1}
        only = al - common
        meet = {x for x in common if any(q in only or q == bi for q in self.preds.get(x, []))}
        if any(bi in self.succs(self.f['blocks'][x][-1]) for x in only) or bi in ss:
            meet.add(bi)
        return only, meet

    def control(self):
        if not hasattr(self, '_reg'):
            self._reg = {}
        for bi, b in enumerate(self.f['blocks']):
            t = b[-1] if b else None
            if not t or t['op'] not in ('br', 'switch') or not t.get('args') or len(self.succs(t)) < 2:
                continue
            why = self.T(t['args'][0])
            if why not in self.implicit:
                continue
            if bi not in self._reg:
                self._reg[bi] = self.sides(bi)
            only, meet = self._reg[bi]
            for x in only | meet:            # (merges inside one side do not depend on which side ran)
                for i in self.f['blocks'][x]:
                    if i['op'] == 'phi' and x in meet and i.get('ty') != 'ptr':
                        vs = {str(v) for p, v in i['in'] if p in only or p == bi}
                        if len(vs) > 1:
                            self.set_t(('v', i['id']), why)
                    elif i['op'] == 'store' and x in only:
                        for o in self.P(i['args'][1]):
                            self.set_to(o, why)

    def succs(self, t):
        s = t.get('succ')
        if s is None:
            s = [x for x in (t.get('normal'), t.get('unwind')) if x is not None]
        s = list(s)
        for c in t.get('cases', []):
            s.append(c[1] if isinstance(c, list) else c)
        if t.get('default') is not None:
            s.append(t['default'])
        if t.get('normal') is not None:
            s.append(t['normal'])
        return {x for x in s if isinstance(x, int)}

    def node(self, o):
        if o[0] == 'v':
            return ('a', self.argid[o[1]]) if o[1] in self.argid else ('v', o[1])
        return None

    def P(self, o):
        if o[0] in ('v', 'a'):
            return self.pts.get(self.node(o) if o[0] == 'v' else ('a', o[1]), set())
        if o[0] == 'g':
            return {('g', o[1])}
        return set()

    def T(self, o):
        if o[0] == 'v':
            return self.tv.get(self.node(o))
        if o[0] == 'agg':
            for x in o[1:]:
                for y in x if isinstance(x, list) and x and isinstance(x[0], list) else [x]:
                    if isinstance(y, list) and self.T(y):
                        return self.T(y)
        return None

    def TO(self, o):
        """taint of what the operand points to (one more level for strings held in objects)"""
        for x in self.P(o):
            if x in self.to:
                return self.to[x]
        return None

    def set_t(self, n, why):
        if why and n is not None and n not in self.tv:
            self.tv[n] = why; self.changed = True

    def set_to(self, o, why):
        if why and o not in self.to:
            self.to[o] = why; self.changed = True

    def add_p(self, n, s):
        if n is None or not s:
            return
        c = self.pts.setdefault(n, set())
        if not s <= c:
            c |= s; self.changed = True

    def add_c(self, o, s):
        if not s:
            return
        c = self.content.setdefault(o, set())
        if not s <= c:
            c |= s; self.changed = True

    def ops(self, i):
        r = list(i.get('args', []))
        if 'base' in i:
            r.append(i['base'])
        for x in i.get('var', []) or []:
            r += [y for y in (x if isinstance(x, list) else [x]) if isinstance(y, list)]
        return r

    def step(self, i):
        op = i['op']
        n = ('v', i['id']) if 'id' in i else None
        if op == 'alloca':
            self.add_p(n, {('alloca', i['id'])})
        elif op == 'load':
            for o in self.P(i['args'][0]):
                self.set_t(n, self.to.get(o))
                self.add_p(n, self.content.get(o, set()))
                if i.get('ty') == 'ptr' and o[0] in ('arg', 'g', 'deref') and len(o) < 12:
                    d = ('deref', o)
                    if o[0] != 'deref':
                        self.add_p(n, {d})
                        if o in self.to:
                            self.set_to(d, self.to[o])
                    else:
                        self.add_p(n, {o})
        elif op == 'store':
            v, p = i['args'][0], i['args'][1]
            for o in self.P(p):
                self.set_to(o, self.T(v))
                self.add_c(o, self.P(v))
        elif op == 'getelementptr':
            self.add_p(n, self.P(i['base']))
        elif op == 'phi':
            ins = i['in']
            vs = [v for p, v in ins]
            for v in vs:
                self.set_t(n, self.T(v)); self.add_p(n, self.P(v))
            if len({str(v) for v in vs}) > 1 and all(v[0] in ('i', 'g', 'null') for v in vs) and i.get('ty') in ('ptr', 'i1', 'i8', 'i16'):
                self.set_t(n, self.decided(i, ins))
        elif op == 'select':
            a = i['args']
            for v in a[1:]:
                self.set_t(n, self.T(v)); self.add_p(n, self.P(v))
            if i.get('ty') in ('ptr', 'i1', 'i8', 'i16', 'i32', 'i64'):
                self.set_t(n, self.T(a[0]))
        elif op in ('call', 'invoke'):
            self.call(i, n)
        elif op in TERM_OPS:
            pass
        else:
            for v in self.ops(i):
                self.set_t(n, self.T(v))
                if op in ('bitcast', 'freeze', 'insertvalue', 'extractvalue', 'inttoptr', 'ptrtoint', 'addrspacecast', 'insertelement', 'extractelement'):
                    self.add_p(n, self.P(v))

    def decided(self, i, ins):
        """taint of the branch that decides between the constants merged by a two-way phi"""
        conds = []
        for p, _ in ins:
            bs = [p] + self.preds.get(p, [])
            for q in bs:
                t = self.f['blocks'][q][-1]
                if t['op'] == 'br' and t.get('args'):
                    s = self.succs(t)
                    if q == p or s & {x for x, _ in ins}:
                        conds.append(t['args'][0])
        for c in conds:
            if self.T(c):
                return self.T(c)
        return None

    def branch(self, i):
        """taint of the branch that alone decides whether this instruction's block runs"""
        ps = set(self.preds.get(self.where(i), []))
        if len(ps) == 1:
            t = self.f['blocks'][ps.pop()][-1]
            if t['op'] in ('br', 'switch') and t.get('args'):
                return self.T(t['args'][0])
        return None

    def where(self, i):
        if not hasattr(self, 'at'):
            self.at = {id(x): bi for bi, b in enumerate(self.f['blocks']) for x in b}
        return self.at[id(i)]

    def call(self, i, n):
        name = i.get('callee') or ''
        a = i.get('args', [])
        if name in SETTERS and a:
            why = self.branch(i)
            if why:
                for o in self.P(a[0]):
                    self.set_to(o, why)
        r = self.model(self, i, name)
        if r is not None:
            return
        if any(name.startswith(x) for x in NOP):
            return
        if i.get('mangled') in ALLOC or name in ('BN_new', 'BN_CTX_new', 'EVP_MD_CTX_new', 'RSA_new', 'malloc', 'calloc'):
            self.add_p(n, {('new', i['id'])})
            return
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
            for d in self.P(a[0]):
                for s in self.P(a[1]):
                    self.set_to(d, self.to.get(s)); self.add_c(d, self.content.get(s, set()))
            return
        if name.startswith('llvm.memset'):
            for d in self.P(a[0]):
                self.set_to(d, self.T(a[1]))
            return
        if name == 'posix_memalign':
            for d in self.P(a[0]):
                self.add_c(d, {('new', i['id'])})
            return
        why = None
        for x in a:
            why = why or self.T(x) or self.TO(x)
            if why:
                break
        if self.implicit and name in STATUS and n is not None:
            n = None                    # the result only tells whether the call succeeded
        if n is not None and i.get('ty') == 'ptr':
            self.add_p(n, {('ret', i['id'])})
            for x in a:
                self.add_p(n, self.P(x))
        if why:
            for x in a:
                for o in self.P(x):
                    if o[0] != 'g':
                        self.set_to(o, why)
            if n is not None:
                if i.get('ty') == 'ptr':
                    self.set_to(('ret', i['id']), why)
                else:
                    self.set_t(n, why)
