"""P28  every documented command-line option reaches the parameter it documents, invalid combinations are rejected."""
import itertools
from dom import *
from absint import Interp, Config, walk
from frontend import program, Broken

STRT = 'std::__cxx11::basic_string<'
CONN = ('ServerInit', 'ClientInit')
# option -> position in the protocol call (documented meaning of the parameters)
GARBLE = ['scd_file', ('file', 'p_init'), ('file', 'p_input'), ('file', 'init'), ('file', 'input'), 'clock_cycles', 'output_mask', 'terminate_period', 'output_mode', ('flag', 'disable_OT'), ('flag', 'low_mem_foot'), None, 'conn']
PLAIN = ['scd_file', ('file', 'p_init'), ('file', 'g_init'), ('file', 'e_init'), ('file', 'p_input'), ('file', 'g_input'), ('file', 'e_input'), 'clock_cycles', 'terminate_period', 'output_mode', None]
MODEVAL = {'absent': 0, '0': 0, 'consecutive': 0, '1': 1, 'separated_clock': 1, '2': 2, 'last_clock': 2, 'other': None}


def atomB(k):
    return B(batom(k))


class Opt:
    """one main program, interpreted with symbolic option values"""

    def __init__(self, p, fn, unset_ok=()):
        self.p = p
        self.opts = {}            # option name -> pointer of its variable or None (flag)
        self.default = {}         # semantic object -> True
        self.var = {}             # semantic object -> variable pointer, type
        self.short = {}
        self.order = []
        self.notified = []
        self.parsed = []
        cfg = Config(unroll=0)
        cfg.assume_success = False
        cfg.fail_edges = False
        self.I = I = Interp(p, cfg)
        I.on_std = self.std
        self.n = 0
        self.args = []
        cfg.calls = {'ReadFileOrPassHex': self.readfile}
        for c in CONN:
            cfg.calls[c] = self.conn(c)
        self.protocol = []
        for c in ('GarbleStr', 'EvaluateStr', 'EvalauatePlaintextStr', 'Verilog2SCD', 'Bris2SCD'):
            cfg.calls[c] = self.proto(c)
        self.f = f = p.fn(fn)
        self.fr = I.run(f, [Ptr((a['name'],)) if a['ty'] == 'ptr' else P_atom((a['name'],)) for a in f['args']], {})

    # -- strings: the content is a value held in the first 8 bytes of the object
    def lit(self, a):
        if a[0] == 'Ptr' and a[1][0] == 'g' and a[2] == ZERO:
            g = self.p.globals.get(a[1][1], {})
            if g.get('str') is not None:
                return g['str'].split('\0')[0]
            if (g.get('init') or [''])[0] == 'zero':
                return ''
        return None

    def text(self, a, mem):
        """content of a C string literal or string object"""
        if a[0] != 'Ptr':
            return P_atom(('text?', a))
        s = self.lit(a)
        if s is not None:
            return P_atom(('str', s))
        if a[1][0] in ('optstr', 'cstr'):
            return P_atom(a[1][1]) if isinstance(a[1][1], tuple) and a[1][0] == 'optstr' else a[1][1]
        if a[1][0] == 'pite':
            _, c, x, y = a[1]
            return self.I.ite(c, self.text(x, mem), self.text(y, mem))
        return as_P(self.I.load(a[1], a[2], 'i64', self.I.ver(mem, a[1])))

    def put(self, fr, mem, guard, ins, ptr, v):
        fr.store(mem, ptr, v, 8, guard, ins)

    def std(self, fr, name, args, ty):
        mem, guard, ins = self.I.std_at
        m = name.split('(')[0]
        last = m.rsplit('::', 1)[-1]
        done = P_const(0)
        if name.startswith(STRT) or (STRT in name and last in ('operator=', 'c_str', 'empty', 'basic_string', '~basic_string', 'append', 'operator+=', 'assign', 'clear', 'compare')and not 'boost' in name and not name.startswith('std::map') and not name.startswith('bool')):
            if last == 'basic_string' or last == 'assign':
                if len(args) > 1 and args[1][0] == 'Ptr':
                    self.put(fr, mem, guard, ins, args[0], self.text(args[1], mem))
                else:
                    self.put(fr, mem, guard, ins, args[0], P_atom(('str', '')))
                return args[0]
            if last == 'operator=':
                self.put(fr, mem, guard, ins, args[0], self.text(args[1], mem))
                return args[0]
            if last == '~basic_string':
                return done
            if last in ('operator+=', 'append'):
                self.put(fr, mem, guard, ins, args[0], P_atom(('cat', self.text(args[0], mem), self.text(args[1], mem))))
                return args[0]
            if last == 'insert' and len(args) == 3 and as_P(args[1]) == ZERO:
                self.put(fr, mem, guard, ins, args[0], P_atom(('cat', self.text(args[2], mem), self.text(args[0], mem))))
                return args[0]
            if last in ('c_str', 'data'):
                return Ptr(('cstr', self.text(args[0], mem)))
            if last == 'empty':
                return atomB(('empty', self.text(args[0], mem)))
            if last in ('length', 'size'):
                return P_atom(('length', self.text(args[0], mem)))
            if last == 'compare':
                return self.ifB(bnot(self.streq(self.text(args[0], mem), self.text(args[1], mem))))
        if 'std::operator+<char' in name:
            self.put(fr, mem, guard, ins, args[0], P_atom(('cat', self.text(args[1], mem), self.text(args[2], mem))))
            return args[0]
        if 'std::operator==<char' in name and len(args) == 2:
            return B(self.streq(self.text(args[0], mem), self.text(args[1], mem)))
        if 'std::operator!=<char' in name and len(args) == 2:
            return B(bnot(self.streq(self.text(args[0], mem), self.text(args[1], mem))))
        if 'std::operator<<' in name:
            return args[0]
        if 'boost::program_options' not in name:
            return None
        if 'boost::program_options::value<' in name:
            self.n += 1
            s = Ptr(('sem', self.n))
            self.var[s[1]] = args[0] if args else None
            return s
        if 'typed_value<' in name and last in ('default_value', 'implicit_value', 'required', 'multitoken', 'composing', 'zero_tokens', 'value_name'):
            if last == 'default_value':
                self.default[args[0][1]] = True
            return args[0]
        if 'options_description_easy_init::operator()' in name:
            nm = self.lit(args[1])
            if nm is None:
                raise Broken('option name at %s is not a literal' % fr.site(ins))
            long, _, short = nm.partition(',')
            sem = args[2] if len(args) > 3 or (len(args) == 3 and args[2][0] == 'Ptr' and args[2][1][0] == 'sem') else None
            var = self.var.get(sem[1]) if sem is not None and sem[0] == 'Ptr' else None
            if sem is not None and sem[0] == 'Ptr' and sem[1][0] == 'g':
                var = None
            self.opts.setdefault(long, []).append((var, sem is not None and sem[0] == 'Ptr' and self.default.get(sem[1], False), sem is not None and sem[1][0] == 'sem', fr.site(ins)))
            if short:
                self.short.setdefault(short, []).append(long)
            return args[0]
        if 'operator<<' in name:
            return args[0]
        if 'std::map<' in name and last == 'count':
            s = self.text(args[1], mem)
            return self.count(s)
        if last == 'operator[]' and 'variables_map' in name:
            return Ptr(('vv', self.text(args[1], mem)))
        if 'variable_value::as<' in name:
            a = args[0]
            if a[0] == 'Ptr' and a[1][0] == 'vv':
                k = atom_of(a[1][1])
                if k and k[0] == 'str':
                    return Ptr(('optstr', ('opt', k[1])))
            return None
        if last == 'notify':
            self.notified.append(guard)
            for o, defs in self.opts.items():
                for var, dflt, takes, site in defs:
                    if var is not None:
                        v = P_atom(('opt', o))
                        if not dflt:
                            old = self.I.load(var[1], var[2], 'i64', self.I.ver(mem, var[1]))
                            v = self.I.ite(batom(('given', o)), v, as_P(old))
                        self.put(fr, mem, guard, ins, var, v)
            return done
        if last in ('run', 'store', 'options', 'allow_unregistered'):
            if last == 'run':
                self.parsed.append(fr.site(ins))
            return None
        return None

    def ifB(self, f):
        return self.I.ite(f, ONE, ZERO)

    def count(self, s):
        k = atom_of(s)
        if k and k[0] == 'str':
            o = k[1]
            if any(d[1] for d in self.opts.get(o, [])):
                return ONE
            return self.ifB(batom(('given', o)))
        return P_atom(('count?', s))

    def streq(self, a, b):
        for x, y in ((a, b), (b, a)):
            k = atom_of(x)
            if k and k[0] == 'str':
                ky = atom_of(y)
                if ky and ky[0] == 'str':
                    return F1 if k[1] == ky[1] else F0
                if k[1] == '':
                    return batom(('empty', y))
                return batom(('is', y, k[1]))
        return batom(('same', a, b))

    # -- calls of the program
    def readfile(self, fr, ins, mem, guard, args):
        v = self.text(args[1], mem)
        self.put(fr, mem, guard, ins, args[0], P_atom(('file', v)))
        return None

    def conn(self, c):
        def h(fr, ins, mem, guard, args):
            vals = [self.text(a, mem) if a[0] == 'Ptr' else a for a in args]
            self.protocol.append((c, vals, guard, fr.site(ins)))
            return P_atom(('conn', c))
        return h

    def proto(self, c):
        def h(fr, ins, mem, guard, args):
            vals = []
            for a in args:
                if a[0] == 'Ptr':
                    vals.append(self.text(a, mem))
                else:
                    vals.append(a)
            self.protocol.append((c, vals, guard, fr.site(ins), args))
            return P_atom(('status', c))
        return h


def scenario(o, given, mode, modeopt='output_mode', extra=None):
    """substitution fixing which options are given"""
    sub = {}
    for k in ('help', 'alice', 'bob', 'disable_OT', 'low_mem_foot', modeopt):
        sub[('given', k)] = B(F1 if k in given else F0)
    for lit in MODEVAL:
        sub[('is', P_atom(('opt', modeopt)), lit)] = B(F1 if mode == lit else F0)
    sub.update(extra or {})
    return sub


class Case:
    def __init__(self, o, sub):
        self.o, self.sub = o, sub

    def b(self, f):
        return self.v(B(f))[1]

    def v(self, x):
        for _ in range(4):
            y = self.o.I.rebuild(x, self.sub)
            if y == x:
                break
            x = y
        return x


def want(I, spec, mode, given, who):
    if spec is None:
        return None
    if spec == 'conn':
        return P_atom(('conn', 'ServerInit' if who == 'alice' else 'ClientInit'))
    if spec == 'output_mode':
        return P_const(MODEVAL[mode])
    if isinstance(spec, tuple) and spec[0] == 'file':
        return P_atom(('file', P_atom(('opt', spec[1]))))
    if isinstance(spec, tuple):
        return P_const(int(spec[1] in given))
    return P_atom(('opt', spec))


def norm(x):
    if x is None:
        return None
    if x[0] == 'B':
        return P_const(1) if x == TRUE else P_const(0) if x == FALSE else x
    x = as_P(x) if x[0] == 'P' else x
    k = atom_of(x) if x[0] == 'P' else None
    if k and k[0] == 'low':
        q = atom_of(k[2]) if isinstance(k[2], tuple) and k[2] and k[2][0] == 'P' else None
        if q and q[0] in ('opt', 'file') or (isinstance(k[2], tuple) and k[2] and k[2][0] == 'P' and const_of(k[2]) is not None):
            return norm(k[2])
    return x


def party(ctx, o, who, fn, spec):
    I = o.I
    where = '%s (main)' % o.f['file']
    other = 'EvaluateStr' if fn == 'GarbleStr' else 'GarbleStr'
    ncase = 0
    bad = {}

    def note(k, site, rule, det):
        bad.setdefault((k, site, rule), []).append(det)
    keys = set()
    for r in range(4):
        for flags in itertools.combinations(('disable_OT', 'low_mem_foot'), r):
            for mode in MODEVAL:
                given = {who, *flags} | ({'output_mode'} if mode != 'absent' else set())
                c = Case(o, scenario(o, given, mode, extra=CONNOK(o)))
                ncase += 1
                calls = [x for x in o.protocol if x[0] in ('GarbleStr', 'EvaluateStr') and c.b(x[2]) != F0]
                desc = ' '.join(sorted('--' + g for g in given)) + (' (=%s)' % mode if mode != 'absent' else '')
                if MODEVAL[mode] is None:
                    if calls:
                        note('reject', calls[0][3], 'an unknown output mode is rejected', desc)
                    ret = norm(c.v(o.fr.ret))
                    if ret is None or const_of(ret) in (None, 0):
                        note('reject status', where, 'an unknown output mode ends with a failing status', '%s -> %s' % (desc, show(ret)[:200]))
                    continue
                if [x[0] for x in calls] != [fn]:
                    note('role', where, '--%s runs %s' % (who, fn), '%s -> %s' % (desc, [x[0] for x in calls]))
                    continue
                call = calls[0]
                if c.b(call[2]) != F1:
                    note('runs', call[3], 'with valid options the protocol runs', '%s only if %s' % (desc, showb(c.b(call[2]))[:300]))
                for i, s in enumerate(spec):
                    w = want(I, s, mode, given, who)
                    if w is None:
                        continue
                    got = norm(c.v(call[1][i]))
                    keys.add(i)
                    if got != norm(w):
                        note('argument %d' % i, call[3], 'option %s is passed as argument %d of %s' % (s if isinstance(s, str) else s[1], i, fn), '%s: expected %s got %s' % (desc, show(w), show(got)[:200]))
                conns = [x for x in o.protocol if x[0] in CONN and c.b(x[2]) != F0]
                exp = [('ServerInit', [P_atom(('opt', 'port'))])] if who == 'alice' else [('ClientInit', [P_atom(('opt', 'server_ip')), P_atom(('opt', 'port'))])]
                gotc = [(x[0], [norm(c.v(y)) for y in x[1]]) for x in conns]
                if gotc != exp:
                    note('connection', conns[0][3] if conns else where, 'the party connects as documented, with the given port and address', '%s: %s' % (desc, [(n, [show(y)[:80] for y in a]) for n, a in gotc]))
                ret = norm(c.v(o.fr.ret))
                for st, ok in ((0, True), (-1, False)):
                    rr = norm(I.rebuild(ret, {('status', fn): P_const(st)})) if ret is not None else None
                    cc = const_of(rr) if rr is not None and rr[0] == 'P' else None
                    if cc is None or (cc == 0) != ok:
                        note('exit', where, 'the exit status reports whether the protocol succeeded', '%s, %s returns %d -> %s' % (desc, fn, st, show(rr)[:200]))
    for k, site, rule in bad:
        ctx.ob(False, '%s:%s' % (who, k), site, rule, bad[(k, site, rule)][:4], group=who)
    for k in ['role', 'runs', 'reject', 'reject status', 'connection', 'exit'] + ['argument %d' % i for i in sorted(keys)]:
        if not any(b[0] == k for b in bad):
            ctx.ob(True, '%s:%s' % (who, k), where, 'option %s' % k, group=who)
    ctx.count('option combinations', ncase)


def CONNOK(o, fail=None):
    """the connection is made (or fails)"""
    sub = {}
    for c in CONN:
        sub[('eq0', P_add(P_atom(('conn', c)), ONE))] = B(F1 if c == fail else F0)
    # canonical key of conn + 1 == 0
    for c in CONN:
        f = o.I.b_eq0(P_add(P_atom(('conn', c)), ONE))
        a = next(iter(next(iter(f))), None) if f not in (F0, F1) else None
        if a is not None:
            sub[key(a)] = B(F1 if c == fail else F0)
        # a connection is a descriptor (not negative) or -1
        for x, neg in ((P_atom(('conn', c)), False), (P_sub(P_const(-1), P_atom(('conn', c))), True)):
            f = o.I.b_ge0(x)
            a = next(iter(next(iter(f))), None) if len(f) == 1 and f not in (F0, F1) else None
            if a is not None:
                sub[key(a)] = B(F1 if (c == fail) == neg else F0)
    sub[('status', 'HashInit')] = ZERO
    for k in o.hashkeys:
        sub[k] = ZERO
    return sub


def prep(o):
    """status of setup calls that are not under study"""
    o.hashkeys = set()
    for e, st in walk(o.fr.events):
        if e.kind == 'call' and e.ret is not None and e.name in ('HashInit', 'LogInitial'):
            k = atom_of(as_P(e.ret)) if e.ret[0] == 'P' else None
            if k:
                o.hashkeys.add(k)


def rejected(ctx, o, who, given, fns, what, extra=None, status=True):
    c = Case(o, scenario(o, given, 'absent', extra={**CONNOK(o), **(extra or {})}))
    calls = [x for x in o.protocol if x[0] in fns and c.b(x[2]) != F0]
    where = '%s (main)' % o.f['file']
    ctx.ob(not calls, '%s:%s:no run' % (who, what), calls[0][3] if calls else where, 'nothing runs with %s' % what, '', group=who)
    ret = norm(c.v(o.fr.ret)) if o.fr.ret is not None else None
    cc = const_of(ret) if ret is not None and ret[0] == 'P' else None
    ctx.ob(cc is not None and (cc != 0) == status, '%s:%s:status' % (who, what), where, ('%s ends with a failing status' if status else '%s ends successfully') % what, show(ret)[:300] if ret else 'none', group=who)


def handlers(ctx, p, o, who, fns):
    """what happens when the parser throws: nothing runs, failing status"""
    f = o.f
    starts = [(bi, ii) for bi, b in enumerate(f['blocks']) for ii, ins in enumerate(b) if ins.get('callee') == '__cxa_begin_catch']
    where = '%s (main)' % f['file']
    ctx.ob(bool(starts), who + ':parser errors:handled', where, 'an option error is caught', '', group=who)
    for bi, ii in starts:
        seen, todo = set(), [bi]
        bad = None
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            for ins in f['blocks'][b][ii if b == bi else 0:]:
                if ins['op'] in ('call', 'invoke') and str(ins.get('callee')).split('(')[0] in fns:
                    bad = ins
            t = f['blocks'][b][-1]
            for s in succs(t):
                todo.append(s)
        site = '%s:%s (main)' % (f['file'], f['blocks'][bi][ii].get('dbg') or '')
        ctx.ob(bad is None, who + ':parser errors:no run', where, 'nothing runs after an option error', bad and bad.get('callee'), group=who)
        vals = returned(f, seen)
        ctx.ob(vals is not None and 0 not in vals and vals, who + ':parser errors:status', where, 'an option error ends with a failing status', sorted(map(str, vals or [])), group=who)


def succs(t):
    out = list(t.get('succ') or [])
    if 'normal' in t:
        out.append(t['normal'])
    for c in t.get('cases') or []:
        out.append(c[-1] if isinstance(c, (list, tuple)) else c)
    if isinstance(t.get('default'), int):
        out.append(t['default'])
    return [s for s in out if isinstance(s, int)]


def returned(f, seen):
    """constants that can be returned when control stays in the given blocks (phis followed)"""
    D = {ins['id']: (bi, ins) for bi, b in enumerate(f['blocks']) for ins in b if ins.get('id') is not None}
    out = set()

    def val(op, depth, visited):
        if op[0] == 'i':
            v = int(op[1])
            out.add(v)
        elif op[0] == 'v' and op[1] in D:
            bi, ins = D[op[1]]
            if op[1] in visited:
                return
            if ins['op'] == 'phi':
                for q in ins['in']:
                    src, v = pick(q)
                    if src in seen:
                        val(v, depth + 1, visited | {op[1]})
            elif ins['op'] == 'load':
                # the return slot: stores in the blocks passed
                slot = ins['args'][0]
                n = 0
                for b in seen:
                    for s in f['blocks'][b]:
                        if s['op'] == 'store' and s['args'][1] == slot:
                            val(s['args'][0], depth + 1, visited | {op[1]}); n += 1
                if not n:
                    out.add('?')
            else:
                out.add('?')
        else:
            out.add('?')
    for b in seen:
        t = f['blocks'][b][-1]
        if t['op'] == 'ret' and t.get('args'):
            val(t['args'][0], 0, frozenset())
    return out


def pick(q):
    a, b = q[0], q[1]
    return (a, b) if isinstance(a, int) else (b, a)


def run(ctx):
    keep = ['GarbleStr', 'EvaluateStr', 'ServerInit', 'ClientInit', 'ReadFileOrPassHex', 'LogInitial', 'HashInit', 'EvalauatePlaintextStr', 'Verilog2SCD', 'Bris2SCD', 'LogFinish', 'HashFinish', 'ServerClose', 'ClientClose', 'SrandSSE']
    mains = ['main_garbled_circuit_main', 'main_scd_evaluator_main', 'main_v_2_scd_main']
    p = program(keep=keep + mains)
    o = Opt(p, mains[0]); prep(o)
    options(ctx, o, 'two-party', ['help', 'alice', 'bob', 'scd_file', 'port', 'server_ip', 'p_init', 'p_input', 'init', 'input', 'clock_cycles', 'disable_OT', 'low_mem_foot', 'output_mask', 'terminate_period', 'output_mode'],
            {'h': 'help', 'a': 'alice', 'b': 'bob', 'i': 'scd_file', 'p': 'port', 's': 'server_ip', 'c': 'clock_cycles', 't': 'terminate_period'}, {'alice', 'bob', 'disable_OT', 'low_mem_foot', 'help'})
    party(ctx, o, 'alice', 'GarbleStr', GARBLE)
    party(ctx, o, 'bob', 'EvaluateStr', GARBLE)
    two = ('GarbleStr', 'EvaluateStr')
    rejected(ctx, o, 'two-party', set(), two, 'neither role')
    rejected(ctx, o, 'two-party', {'alice', 'help'}, two, '--help', status=False)
    for who, c in (('alice', 'ServerInit'), ('bob', 'ClientInit')):
        rejected(ctx, o, 'two-party', {who}, two, 'a failed connection of ' + who, extra=CONNOK(o, c))
    handlers(ctx, p, o, 'two-party', two)

    o = Opt(p, mains[1]); prep(o)
    options(ctx, o, 'plaintext', ['help', 'scd_file', 'clock_cycles', 'p_init', 'g_init', 'e_init', 'p_input', 'g_input', 'e_input', 'terminate_period', 'output_mode'], {'h': 'help', 'i': 'scd_file', 'c': 'clock_cycles', 't': 'terminate_period'}, {'help'})
    plain(ctx, o)
    handlers(ctx, p, o, 'plaintext', ('EvalauatePlaintextStr',))

    o = Opt(p, mains[2]); prep(o)
    options(ctx, o, 'translator', ['help', 'netlist', 'brist_netlist', 'scd'], {'h': 'help', 'i': 'netlist', 'b': 'brist_netlist', 'o': 'scd'}, {'help'})
    translator(ctx, o)
    handlers(ctx, p, o, 'translator', ('Verilog2SCD', 'Bris2SCD'))
    ctx.functions |= set(mains)
    ctx.assumptions = ['boost::program_options stores the given (or default) value of an option in the variable registered for it when notify runs']
    ctx.explanation = ('The three main programs are interpreted abstractly with symbolic option values: registrations bind an option to a variable, notify writes it, count() and string comparisons are conditions over the given options. '
                       'For every combination of role, flags and output mode the calls made, their arguments and the exit status are evaluated and compared with the documented meaning of the options.')


def options(ctx, o, who, names, shorts, flags):
    where = '%s (main)' % o.f['file']
    ctx.anchors(len(o.opts), 'options of ' + who, len(names))
    for n in names:
        d = o.opts.get(n, [])
        ctx.ob(len(d) == 1, '%s:option %s' % (who, n), d[0][3] if d else where, 'documented option --%s is registered once' % n, len(d), group=who)
        if len(d) == 1:
            ctx.ob(d[0][2] == (n not in flags), '%s:option %s:kind' % (who, n), d[0][3], '--%s takes %s value' % (n, 'no' if n in flags else 'a'), '', group=who)
    for s, n in shorts.items():
        ctx.ob(o.short.get(s) == [n], '%s:short %s' % (who, s), where, '-%s abbreviates --%s' % (s, n), o.short.get(s), group=who)
    ctx.ob(len(o.notified) >= 1 and o.parsed, who + ':parsed', where, 'the command line is parsed and its values are stored', len(o.notified), group=who)


def plain(ctx, o):
    I = o.I
    where = '%s (main)' % o.f['file']
    scd = P_atom(('opt', 'scd_file'))
    for mode, code in MODEVAL.items():
        given = {'scd_file'} | ({'output_mode'} if mode != 'absent' else set())
        sub = scenario(o, given, mode)
        sub[('given', 'scd_file')] = TRUE
        sub[('empty', scd)] = FALSE
        c = Case(o, sub)
        calls = [x for x in o.protocol if c.b(x[2]) != F0]
        ret = norm(c.v(o.fr.ret))
        if code is None:
            ctx.ob(not calls and const_of(ret) not in (None, 0), 'plaintext:mode %s' % mode, where, 'an unknown output mode is rejected', show(ret)[:200], group='plaintext')
            continue
        ctx.ob(len(calls) == 1 and c.b(calls[0][2]) == F1, 'plaintext:mode %s:runs' % mode, where, 'with valid options the simulation runs', [showb(c.b(x[2]))[:200] for x in calls], group='plaintext')
        if len(calls) != 1:
            continue
        for i, s in enumerate(PLAIN):
            w = want(I, s, mode, given, None)
            if w is not None:
                got = norm(c.v(calls[0][1][i]))
                ctx.ob(got == norm(w), 'plaintext:mode %s:argument %d' % (mode, i), calls[0][3], 'option %s is passed as argument %d' % (s if isinstance(s, str) else s[1], i), 'expected %s got %s' % (show(w), show(got)[:200]), group='plaintext')
        for st, ok in ((0, True), (-1, False)):
            rr = norm(I.rebuild(ret, {('status', 'EvalauatePlaintextStr'): P_const(st)}))
            cc = const_of(rr) if rr[0] == 'P' else None
            ctx.ob(cc is not None and (cc == 0) == ok, 'plaintext:mode %s:exit %d' % (mode, st), where, 'the exit status reports whether the simulation succeeded', show(rr)[:200], group='plaintext')
    rejected(ctx, o, 'plaintext', set(), ('EvalauatePlaintextStr',), 'no description', extra={('given', 'scd_file'): FALSE, ('empty', P_atom(('str', ''))): TRUE})
    rejected(ctx, o, 'plaintext', {'help', 'scd_file'}, ('EvalauatePlaintextStr',), '--help', extra={('given', 'scd_file'): TRUE}, status=False)


def translator(ctx, o):
    I = o.I
    where = '%s (main)' % o.f['file']
    both = ('Verilog2SCD', 'Bris2SCD')

    def sub(given):
        s = {('given', 'help'): FALSE, ('empty', P_atom(('str', ''))): TRUE}
        for n in ('netlist', 'brist_netlist', 'scd'):
            s[('given', n)] = B(F1 if n in given else F0)
            s[('empty', P_atom(('opt', n)))] = FALSE
        return s
    for src, fn in (('netlist', 'Verilog2SCD'), ('brist_netlist', 'Bris2SCD')):
        c = Case(o, sub({src, 'scd'}))
        calls = [x for x in o.protocol if c.b(x[2]) != F0]
        ctx.ob([x[0] for x in calls] == [fn] and c.b(calls[0][2]) == F1, 'translator:%s:runs' % src, where, '--%s runs %s' % (src, fn), [x[0] for x in calls], group='translator')
        if [x[0] for x in calls] != [fn]:
            continue
        a = calls[0][1]
        got = [norm(c.v(x)) for x in a]
        ctx.ob(got[0] == P_atom(('opt', src)), 'translator:%s:input' % src, calls[0][3], 'the named netlist is read', show(got[0])[:200], group='translator')
        ctx.ob(got[2] == P_atom(('opt', 'scd')), 'translator:%s:output' % src, calls[0][3], 'the description is written to the named file', show(got[2])[:200], group='translator')
        ctx.ob(got[1] not in (got[0], got[2]), 'translator:%s:map' % src, calls[0][3], 'the mapping goes to a file of its own', show(got[1])[:200], group='translator')
        ret = norm(c.v(o.fr.ret))
        for st, ok in ((0, True), (-1, False)):
            rr = norm(I.rebuild(ret, {('status', fn): P_const(st)}))
            cc = const_of(rr) if rr[0] == 'P' else None
            ctx.ob(cc is not None and (cc == 0) == ok, 'translator:%s:exit %d' % (src, st), where, 'the exit status reports whether the translation succeeded', show(rr)[:200], group='translator')
    for given, what in (({'netlist'}, 'no output file'), ({'scd'}, 'no netlist'), (set(), 'no option')):
        rejected_t(ctx, o, Case(o, sub(given)), both, what, where)


def rejected_t(ctx, o, c, fns, what, where):
    calls = [x for x in o.protocol if x[0] in fns and c.b(x[2]) != F0]
    ctx.ob(not calls, 'translator:%s:no run' % what, where, 'nothing runs with %s' % what, '', group='translator')
    ret = norm(c.v(o.fr.ret))
    cc = const_of(ret) if ret is not None and ret[0] == 'P' else None
    ctx.ob(cc not in (None, 0), 'translator:%s:status' % what, where, '%s ends with a failing status' % what, show(ret)[:300], group='translator')


class Reader(Opt):
    """ReadFileOrPassHex: the text of an option that may name a file"""

    def __init__(self, p):
        self.p = p
        self.opts, self.default, self.var, self.short, self.notified, self.parsed, self.n = {}, {}, {}, {}, [], [], 0
        cfg = Config(unroll=0)
        cfg.assume_success = False
        cfg.fail_edges = False
        self.I = I = Interp(p, cfg)
        I.on_std = self.std_r
        self.puts = []
        self.lines = []
        self.f = f = p.fn('ReadFileOrPassHex')
        mem = {}
        self.ptrs = [Ptr((a['name'],)) for a in f['args']]
        self.fr = I.run(f, self.ptrs, mem)

    def put(self, fr, mem, guard, ins, ptr, v):
        Opt.put(self, fr, mem, guard, ins, ptr, v)
        self.puts.append((ptr, v, guard, fr.site(ins)))

    def std_r(self, fr, name, args, ty):
        mem, guard, ins = self.I.std_at
        if 'getline' in name:
            Opt.put(self, fr, mem, guard, ins, args[1], P_atom(('line',)))
            self.lines.append(guard)
            return args[0]
        if name.endswith('::is_open'):
            return B(batom(('isfile',)))
        if name.rsplit('::', 1)[-1] in ('open', 'basic_ifstream') and len(args) > 1:
            self.opened = self.text(args[1], mem)
        return self.std(fr, name, args, ty)


def reader(ctx, p):
    r = Reader(p)
    f = r.f
    where = '%s:%s (ReadFileOrPassHex)' % (f['file'], f['line'])
    sret, arg = r.ptrs[0], r.ptrs[1]
    ctx.opened = getattr(r, 'opened', None)
    given = P_atom(('ld', arg[1], ONE, ZERO, 8))
    def isarg(v):
        k = atom_of(v) if v[0] == 'P' else None
        return bool(k and k[0] == 'ld' and k[1] == arg[1] and k[3] == ZERO)
    ctx.ob(getattr(r, 'opened', None) is not None and isarg(r.opened), 'file:opened', where, 'the file named by the option is read', show(r.opened) if getattr(r, 'opened', None) else 'none', group='file')
    res = as_P(r.I.load(sret[1], ZERO, 'i64', r.I.ver(r.fr.mem_at_ret, sret[1]))) if r.fr.mem_at_ret is not None else None
    isf = ('isfile',)
    if res is None:
        raise Broken('result of ReadFileOrPassHex not found')
    no = r.I.rebuild(res, {isf: FALSE})
    ctx.ob(isarg(norm(no)), 'file:passed', where, 'what is no file is passed on as it is', show(no)[:300], group='file')
    # the text collected from a file: each line goes in front of what was read before (later lines are higher digits)
    acc = []
    for ptr, v, g, site in r.puts:
        k = atom_of(v) if v[0] == 'P' else None
        if k and k[0] == 'cat':
            acc.append((ptr, k, site))
    ok = bool(acc) and bool(r.lines)
    for ptr, k, site in acc:
        prev = atom_of(k[2])
        ok = ok and atom_of(k[1]) == ('line',) and prev is not None and (prev == ('str', '') or prev[0] == 'ld')
    ctx.ob(ok, 'file:order', acc[0][2] if acc else where, 'each line goes in front of the lines read before', [show(P_atom(k))[:200] for _, k, _ in acc], group='file')


_run = run


def run(ctx):
    _run(ctx)
    reader(ctx, program(keep=['ReadFileOrPassHex']))
