"""P08  no failure is swallowed: interprocedural status propagation by path-sensitive constant propagation from every fallible call."""
import re
from calls import Calls
from frontend import program, Broken

SUCCESS, FAILURE = 0, -1
COPY = ('zext', 'sext', 'trunc', 'freeze', 'bitcast')
# exempt operations, with the reason (see DESIGN.md):
#   OpenSSL results that can only report memory exhaustion (the process cannot go on in any case)
#   fork/popen of the benchmark helper eval_garbled_circuit (exec() throws on a null pipe)
ERRINFO = (r'^Invalid ',                   # an unconnected pin of a well-formed circuit reads as 0, by design
           r'Not enough clock cycles',     # the result of the cycles that were asked for is still delivered
           r'^Can not find wire')          # every later use of the wire is rejected
NEG = {'socket', 'bind', 'listen', 'accept', 'connect', 'write', 'read', 'send', 'recv'}
NUL = {'gethostbyname', 'fopen', 'malloc', 'calloc', 'BN_CTX_new', 'EVP_MD_CTX_new', 'BN_rand', 'BN_add', 'BN_sub', 'BN_mul', 'BN_mod_exp', 'BN_nnmod', 'BN_mod_add', 'BN_mod_sub',
       'BN_hex2bn', 'BN_div', 'RSA_generate_key_ex', 'RSA_check_key', 'EVP_DigestUpdate', 'EVP_DigestInit_ex', 'EVP_DigestFinal_ex'}
NONZ = {'posix_memalign'}


class Fn:
    """one function: blocks, definitions, status walk"""

    def __init__(self, C, m):
        self.f = C.by_m[m]
        self.m = m
        self.name = self.f['dem'].split('(')[0]
        self.blocks = self.f['blocks']
        self.slots = {i['id'] for b in self.blocks for i in b if i['op'] == 'alloca'}
        self.ins = {i['id']: i for b in self.blocks for i in b if 'id' in i}
        self.stores = {}; self.web = None
        for b in self.blocks:
            for i in b:
                if i['op'] == 'store' and self.slot(i['args'][1]) is not None:
                    self.stores.setdefault(self.slot(i['args'][1]), []).append(i)

    def slot(self, o):
        if o[0] == 'v' and o[1] in self.slots:
            return o[1]
        if o[0] == 'g':
            return ('g', o[1], o[2])
        return None

    def relevant(self, call):
        """status variables: values copied into the return value, and values computed from the call's result"""
        ins = self.ins
        r = set()
        todo = [i['args'][0] for b in self.blocks for i in b if i['op'] == 'ret' and i.get('args')]
        while todo:
            o = todo.pop()
            if o[0] != 'v' or o[1] in r:
                continue
            r.add(o[1])
            i = ins.get(o[1])
            if i is None:
                continue
            if i['op'] == 'phi':
                todo += [v for p, v in i['in']]
            elif i['op'] in COPY or i['op'] == 'select':
                todo += i['args'][-2:]
            elif i['op'] == 'load' and self.slot(i['args'][0]) is not None:
                sl = self.slot(i['args'][0])
                r.add(sl)
                todo += [x['args'][0] for x in self.stores.get(sl, ())]
        d = {call['id']} if 'id' in call else set()

        def decided(i):
            """a constant that arrives here because of a decision on the result (the value of a chain of && / ||)"""
            if i['ty'] not in ('i1', 'i8'):
                return False
            for p, v in i['in']:
                t = self.blocks[p][-1]
                if v[0] == 'i' and t['op'] == 'br' and len(t['succ']) == 2 and any(o[0] == 'v' and o[1] in d for o in t['args']):
                    return True
            return False
        chg = True
        while chg:
            chg = False
            for k, i in ins.items():
                if k in d:
                    continue
                if i['op'] == 'phi':
                    us = [v for p, v in i['in']]
                elif i['op'] in COPY or i['op'] in ('select', 'icmp', 'and', 'or', 'xor', 'add', 'sub', 'mul'):
                    us = i['args']
                elif i['op'] == 'load' and self.slot(i['args'][0]) is not None:
                    us = [x['args'][0] for x in self.stores.get(self.slot(i['args'][0]), ())]
                else:
                    continue
                if any(o[0] == 'v' and o[1] in d for o in us) or i['op'] == 'phi' and decided(i):
                    d.add(k); chg = True
                    if i['op'] == 'load':
                        d.add(self.slot(i['args'][0]))
        return r | d | self.constweb()

    def constweb(self):
        """phis and slots that only ever hold constants (cleanup selectors, flags)"""
        if self.web is None:
            w = {k for k, i in self.ins.items() if i['op'] == 'phi'} | {k for k in self.stores if k in self.ins}
            chg = True
            while chg:
                chg = False
                for k in list(w):
                    i = self.ins[k]
                    us = [v for p, v in i['in']] if i['op'] == 'phi' else [x['args'][0] for x in self.stores[k]]
                    if not all(o[0] in ('i', 'null', 'undef') or (o[0] == 'v' and (o[1] in w or self.ins.get(o[1], {}).get('op') == 'load' and self.ins[o[1]]['args'][0][1:2] and self.ins[o[1]]['args'][0][1] in w)) for o in us):
                        w.discard(k); chg = True
            w |= {k for k, i in self.ins.items() if i['op'] == 'load' and i['args'][0][0] == 'v' and i['args'][0][1] in w}
            chg = True
            while chg:
                chg = False
                for k, i in self.ins.items():
                    if k not in w and (i['op'] in COPY or i['op'] in ('icmp', 'select', 'xor', 'and', 'or')) and all(o[0] in ('i', 'null') or (o[0] == 'v' and o[1] in w) for o in i['args']):
                        w.add(k); chg = True
            self.web = w
        return self.web

    def walk(self, bi, ii, env, visit, limit=100000, forced={}):
        """explore every path from the instruction after (bi, ii); visit(ret instruction, value) at returns"""
        self.wide = {}; self.forced = forced
        self.rel = self.relevant(self.blocks[bi][ii]) | set(forced)
        for k in forced:
            self.rel |= self.relevant(self.ins[k])
        i0 = self.blocks[bi][ii]
        seen = set(); todo = [(bi, ii + 1, None, dict(env)) if i0['op'] != 'invoke' else (i0['normal'], 0, bi, dict(env))]
        n = 0
        while todo:
            b, i, prev, env = todo.pop()
            n += 1
            if n > limit:
                raise Broken('path limit in ' + self.name)
            if i == 0:
                k = (b, prev, frozenset((x, y) for x, y in env.items() if y is not None))
                if k in seen:
                    continue
                seen.add(k)
            self.block(b, i, prev, env, visit, todo)

    def val(self, o, env):
        if o[0] == 'i':
            return int(o[1])
        if o[0] == 'null':
            return 0
        if o[0] == 'v':
            return env.get(o[1])
        return None

    def block(self, b, start, prev, env, visit, todo):
        newphi = {}
        for ins in self.blocks[b][start:]:
            op = ins['op']
            if 'id' in ins and op not in ('phi', 'call', 'invoke', 'br', 'switch', 'ret', 'store') and ins['id'] not in self.rel:
                continue
            if op == 'phi':
                inc = dict((p, v) for p, v in ins['in'])
                x = self.val(inc[prev], env) if prev in inc else None
                w = self.wide.setdefault(ins['id'], set())
                if x is not None:
                    w.add(x)
                newphi[ins['id']] = x if len(w) <= 3 and ins['id'] in self.rel else None        # counters are widened, statuses stay
                continue
            if newphi:
                env.update(newphi); newphi = {}
            g = lambda k: self.val(ins['args'][k], env)
            if op == 'icmp':
                x, y = g(0), g(1)
                env[ins['id']] = cmp(ins['pred'], x, y, ins.get('aty'))
            elif op == 'select':
                c = g(0)
                env[ins['id']] = None if c in (None, PART) else (g(1) if c & 1 else g(2))
            elif op in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'):
                x = g(0)
                if x not in (None, PART) and op == 'zext' and ins.get('src') == 'i1':
                    x = x & 1
                if x not in (None, PART) and op == 'trunc' and ins['ty'] == 'i1':
                    x = x & 1
                env[ins['id']] = x
            elif op in ('xor', 'and', 'or', 'add', 'sub', 'mul'):
                x, y = (None if z == PART else z for z in (g(0), g(1)))
                r = None
                if x is not None and y is not None:
                    r = {'xor': x ^ y, 'and': x & y, 'or': x | y, 'add': x + y, 'sub': x - y, 'mul': x * y}[op]
                    if ins['ty'] == 'i1':
                        r &= 1
                elif op == 'and' and 0 in (x, y):
                    r = 0
                elif op == 'or' and ins['ty'] == 'i1' and any(z is not None and z & 1 for z in (x, y)):
                    r = 1
                elif op == 'or' and -1 in (x, y):
                    r = -1
                env[ins['id']] = r
            elif op == 'store':
                p = self.slot(ins['args'][1])
                if p is not None and p in self.rel:
                    env[('m', p)] = g(0)
            elif op == 'load':
                p = self.slot(ins['args'][0])
                env[ins['id']] = env.get(('m', p)) if p is not None else None
            elif op == 'ret':
                visit(ins, self.val(ins['args'][0], env) if ins.get('args') else None)
                return
            elif op in ('call', 'invoke'):
                for a in ins.get('args', []):
                    if a[0] == 'v' and a[1] in self.slots:
                        env.pop(('m', a[1]), None)
                if ins.get('repo'):
                    for k in [k for k in env if isinstance(k, tuple) and isinstance(k[1], tuple)]:
                        env.pop(k)
                if 'id' in ins:
                    env[ins['id']] = self.forced.get(ins['id'])
                nm = ins.get('callee') or ''
                if nm in ('exit', '_exit', 'abort'):
                    if nm != 'abort':
                        visit(ins, self.val(ins['args'][0], env))
                    return
                if op == 'invoke':
                    todo.append((ins['normal'], 0, b, env))
                    return
            elif op == 'br':
                c = g(0) if len(ins['succ']) == 2 and ins.get('args') else None
                s = ins['succ'] if c is None else [ins['succ'][0 if c & 1 else 1]]
                for x in s:
                    todo.append((x, 0, b, dict(env)))
                return
            elif op == 'switch':
                c = g(0)
                c = None if c == PART else c
                dst = [ins['default']] + [d for v, d in ins['cases']]
                if c is not None:
                    dst = [next((d for v, d in ins['cases'] if int(v) == c), ins['default'])]
                for x in dict.fromkeys(dst):
                    todo.append((x, 0, b, dict(env)))
                return
            elif op in ('unreachable', 'resume'):
                return
            elif 'id' in ins:
                env[ins['id']] = None


PART = 'part'        # a positive count that is smaller than the expected one


def cmp(pred, x, y, ty):
    if x == PART or y == PART:
        o = y if x == PART else x
        if o is None or o == 0 or o == PART:
            if pred in ('eq', 'ne'):
                return int(pred == 'ne')
            less = (x == PART) == (o is None)       # PART < expected, PART > 0
            return int({'lt': less, 'le': less, 'gt': not less, 'ge': not less}[pred[1:]])
        return None
    if x is None or y is None:
        return None
    n = int(ty[1:]) if ty and ty[0] == 'i' else 64
    if pred[0] == 'u':
        x &= (1 << n) - 1; y &= (1 << n) - 1
    return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred if pred in ('eq', 'ne') else pred[1:]])


STREAM = 'std::basic_%sstream<char, std::char_traits<char>>::basic_%sstream'
STATE = {'fail': 1, 'bad': 1, 'operator!': 1, 'good': 0, 'operator bool': 0}


def root(fn, o, depth=0):
    """the local object a stream pointer belongs to"""
    while o[0] == 'v' and o[1] in fn.ins and depth < 40:
        depth += 1
        i = fn.ins[o[1]]
        if i['op'] == 'alloca':
            return o[1]
        if i['op'] == 'getelementptr':
            o = i['base']
        elif i['op'] in ('bitcast', 'call', 'invoke') and i.get('args'):
            o = i['args'][0]
        else:
            return None
    return None


def retset(fn, C):
    """constants and callees a function can return"""
    vs = set(); seen = set()
    todo = [tuple(i['args'][0]) for b in fn.blocks for i in b if i['op'] == 'ret' and i.get('args')]
    while todo:
        o = todo.pop()
        if o in seen:
            continue
        seen.add(o)
        if o[0] == 'i':
            vs.add(int(o[1]))
        elif o[0] == 'v' and o[1] in fn.ins:
            i = fn.ins[o[1]]
            if i['op'] == 'phi':
                todo += [tuple(v) for p, v in i['in']]
            elif i['op'] == 'select':
                todo += [tuple(x) for x in i['args'][1:]]
            elif i['op'] == 'load' and fn.slot(i['args'][0]) is not None:
                todo += [tuple(x['args'][0]) for x in fn.stores.get(fn.slot(i['args'][0]), ())]
            elif i['op'] in ('call', 'invoke'):
                vs.add(i.get('mangled'))
    return vs


class Model:
    def __init__(self, log):
        self.C = C = Calls(program(inline_none=True, log=log))
        self.F = {m: Fn(C, m) for m in C.by_m}
        mains = [m for m, f in C.by_m.items() if f['dem'].split('(')[0].startswith('main_') and 'test' not in f['dem'].lower() and 'eval_' not in f['dem']]
        if len(mains) < 4:
            raise Broken('main programs not found')
        self.reach = set(mains); todo = list(mains)
        while todo:
            for y in C.out[todo.pop()]:
                if y in C.by_m and y not in self.reach:
                    self.reach.add(y); todo.append(y)
        self.mains = set(mains)
        rs = {m: retset(fn, C) for m, fn in self.F.items() if fn.f['ret'] in ('i32', 'i64')}
        # SECRET / SECRET_INV are values of wires, not statuses: a status function fails with -1 and succeeds with 0
        self.status = {m for m, v in rs.items() if 0 in v and -1 in v and -2 not in v and self.F[m].f['ret'] == 'i32' and not self.F[m].name.endswith('Secret') and not self.value(m)}
        chg = True
        while chg:                           # forwarders of a status
            chg = False
            for m, v in rs.items():
                if m not in self.status and self.F[m].f['ret'] == 'i32' and v & self.status and all(x in (0, -1) or x in self.status for x in v):
                    self.status.add(m); chg = True
        # results that are a count or a descriptor, and -1 on failure
        self.neg = {m for m, v in rs.items() if -1 in v and m not in self.status and not self.value(m) and any(isinstance(x, str) or x is None or x > 0 for x in v)} | \
                   {m for m in rs if self.F[m].name in ('ClientInit', 'ServerInit', 'ServerWaitForClient', 'ServerOpenSocket')}

    def value(self, m):
        return 'short' in self.F[m].f['dem'] and 'Secret' in self.F[m].name

    def failing(self, i):
        if i.get('mangled') in self.F:
            return -1 if i['mangled'] in self.status or i['mangled'] in self.neg else None
        nm = i.get('callee') or ''
        if nm == 'BN_hex2bn':
            return PART
        return -1 if nm in NEG else 0 if nm in NUL else 1 if nm in NONZ else None

    def reports(self, fn, v):
        """does this return value report failure?"""
        if fn.m in self.mains:
            return v is not None and v != 0
        if fn.f['ret'] == 'ptr':
            return v == 0
        if fn.f['ret'] in ('i32', 'i64') and (fn.m in self.status or fn.m in self.neg):
            return v == -1
        return False

    def message(self, fn, i):
        """string constants of the << chain that starts at this log call"""
        out = []
        users = {}
        for b in fn.blocks:
            for c in b:
                if c['op'] in ('call', 'invoke') and c.get('args') and c['args'][0][0] == 'v':
                    users.setdefault(c['args'][0][1], []).append(c)
        todo = [i]
        while todo:
            for c in users.get(todo.pop().get('id'), ()):
                for a in c['args'][1:]:
                    if a[0] == 'g' and a[1] in self.C.p.j['globals']:
                        out.append((self.C.p.j['globals'][a[1]].get('str') or '').rstrip('\0'))
                if 'id' in c:
                    todo.append(c)
        return [x for x in out if len(x) > 2]


def analyse(log):
    M = Model(log); C = M.C; res = []; cnt = {'call sites of fallible operations': 0, 'error messages': 0, 'file streams': 0, 'functions': 0}
    tag = 'log' if log else 'nolog'
    for m in sorted(M.reach):
        fn = M.F[m]
        if 'test' in fn.f['file']:
            continue
        cnt['functions'] += 1
        for bi, ii, i in C.sites[m]:
            v = M.failing(i)
            nm = (i.get('callee') or '').split('(')[0]
            if v is not None:
                cnt['call sites of fallible operations'] += 1
                out = []
                fn.walk(bi, ii, {i['id']: v} if 'id' in i else {}, lambda ins, val: out.append((val, C.site(ins))))
                bad = [x for x in out if not M.reports(fn, x[0])]
                res.append((not bad, '%s:%s:%s' % (tag, fn.name, nm), C.site(i), 'when %s fails, %s reports failure on every path' % (nm, fn.name), 'still returns %s at %s' % bad[0] if bad else '%d returns' % len(out)))
            elif nm == 'LogStream' and log and i['args'] and i['args'][0][0] == 'i' and int(i['args'][0][1]) == 0 and (m in M.status or m in M.neg or m in M.mains):
                msg = M.message(fn, i)
                if any(re.search(r, x) for r in ERRINFO for x in msg):
                    continue
                cnt['error messages'] += 1
                out = []
                fn.walk(bi, ii, {}, lambda ins, val: out.append((val, C.site(ins))))
                bad = [x for x in out if not M.reports(fn, x[0])]
                res.append((not bad, '%s:%s:error:%s' % (tag, fn.name, '|'.join(msg)[:60]), C.site(i), 'an error that is logged is also reported to the caller', 'still returns %s at %s' % bad[0] if bad else '%d returns' % len(out)))
        # files
        for kind, data in (('of', ('operator<<',)), ('if', ('operator>>',))):
            for bi, ii, i in C.sites[m]:
                if (i.get('callee') or '') != STREAM % (kind, kind) or not (m in M.status or m in M.mains):
                    continue
                obj = root(fn, i['args'][0])
                same = [(b2, j) for b2, i2, j in C.sites[m] if j is not i and j.get('args') and j['args'][0][0] == 'v' and root(fn, j['args'][0]) == obj]
                if not any(d in (j.get('callee') or '') for b2, j in same for d in data):
                    continue
                cnt['file streams'] += 1
                forced = {}
                for b2, j in same:
                    nm = (j.get('callee') or '').split('::')[-1]
                    if nm.startswith('is_open'):
                        forced[j['id']] = 1
                    for s, val in STATE.items():
                        if nm == s and 'basic_ios' in j['callee']:
                            forced[j['id']] = val
                out = []
                fn.walk(bi, ii, {}, lambda ins, val: out.append((val, C.site(ins))), forced=forced)
                bad = [x for x in out if not M.reports(fn, x[0])]
                res.append((not bad, '%s:%s:%sstream' % (tag, fn.name, kind), C.site(i), 'a file that cannot be %s completely is reported' % ('written' if kind == 'of' else 'read'), 'still returns %s at %s' % bad[0] if bad else '%d returns' % len(out)))
    return res, cnt, sorted(M.F[m].name for m in M.reach), len(M.status), len(M.neg)


def run(ctx):
    for log in (True, False):
        res, cnt, names, ns, nn = analyse(log)
        for ok, k, w, r, d in res:
            ctx.ob(ok, k, w, r, d, group=k.split(':')[0] + ':' + k.split(':')[1])
        for k, n in cnt.items():
            ctx.count(k + (' (logging)' if log else ' (no logging)'), n)
        ctx.anchors(ns, 'status functions' + (' (logging)' if log else ' (no logging)'), 30)
        ctx.anchors(cnt['call sites of fallible operations'], 'fallible call sites' + (' (logging)' if log else ' (no logging)'), 100)
        ctx.functions |= set(names)
    ctx.assumptions = ['memory exhaustion inside OpenSSL number routines (BN_new, BN_set_bit, BN_copy, ...) is out of scope', 'test programs and the benchmark helper eval_garbled_circuit are out of scope']
    ctx.explanation = ('Every call of a fallible operation (system calls, OpenSSL operations, allocations, and every repository function that can return FAILURE) reachable from the programs is enumerated, its result is set to the failing value, and conditional constant '
                       'propagation from that point enumerates the values the enclosing function can return: all must report failure. Errors that are logged, and file streams in a failed state, are treated the same way. Both build configurations (ENABLE_LOG on and off) are analysed.')
