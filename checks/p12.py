"""P12  WriteSCD and ReadSCD agree: the sequence of tokens written and the sequence of tokens read are extracted from the two functions and compared field by field."""
import re
from dom import *
from absint import Interp, Config, walk
from frontend import program, Broken, CONTAINERS

CIRC, NAME = ('circ',), ('name',)
W_CLASS, R_CLASS = 'ReadCircuit', 'GarbledCircuit'
LETTER = {'s': (16, True), 't': (16, False), 'i': (32, True), 'j': (32, False), 'l': (64, True), 'm': (64, False), 'x': (64, True), 'y': (64, False)}
CTYPE = {'short': (16, True), 'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False)}
QUIET = ('is_open', 'fail', 'good', 'bad', 'eof', 'operator!', 'operator bool', 'close', 'flush', 'rdstate', 'clear', 'exceptions', 'precision')
MANIP_OK = ('endl', 'flush', 'dec')
# meaning of the description: (reader, writer), one pair per field, and what each array element is
SCALARS = ['p_init_size', 'g_init_size', 'e_init_size', 'p_input_size', 'g_input_size', 'e_input_size', 'dff_size', 'output_size', 'terminate_id', 'gate_size']
ARRAYS = {('garbledGates', 'input0'): ('gate_list', 'input', 0, 'sched'), ('garbledGates', 'input1'): ('gate_list', 'input', 1, 'sched'), ('garbledGates', 'type'): ('gate_list', 'type', 0, 'sched'),
          ('outputs', ''): ('output_list', '', 0, 'k'), ('D', ''): ('dff_list', 'input', 0, 'k'), ('I', ''): ('dff_list', 'input', 1, 'k')}
COUNT = {'garbledGates': 'gate_size', 'outputs': 'output_size', 'D': 'dff_size', 'I': 'dff_size'}


def covers(a, b):
    """every value of integer type a is a value of integer type b"""
    (w, s), (x, t) = a, b
    return (s == t and w <= x) or (not s and t and w < x)


class Side:
    def __init__(self, ctx, fn, cls, args):
        self.ctx, self.fn = ctx, fn
        self.p = p = program(keep=[fn], extra=CONTAINERS)
        self.f = f = p.fn(fn)
        self.where = '%s:%s (%s)' % (f['file'], f['line'], fn)
        cfg = Config(unroll=0)
        cfg.nonneg = lambda k: False
        self.I = I = Interp(p, cfg)
        self.fr = I.run(f, args, {})
        self.fields = {o: (n, s, t) for n, o, s, t in p.structs[cls]}
        self.cls = cls
        self.root = {}                  # pointer of a returned stream -> the stream it is
        self.objs = {}                  # array object -> field holding its pointer
        self.tokens = []                # ('tok', …) / ('lit', text) / ('loop', event, [..])
        self.extra = []
        self.order = {}
        self.stores = []
        self.n = 0
        self.pending = {}
        self.readmem = set()
        self.streams = set()
        for e, st in walk(self.fr.events):
            if e.kind == 'std' and re.search(r'::basic_[io]?fstream$|basic_[io]?fstream<.*>::basic_[io]?fstream', str(e.name)) and e.args and e.args[0][0] == 'Ptr':
                self.streams.add(e.args[0][1])
        for e, st in walk(self.fr.events):
            if e.kind == 'store' and e.args and e.args[0][0] == 'Ptr' and e.args[0][1] == CIRC and e.args[1][0] == 'Ptr':
                o = const_of(e.args[0][2])
                if o in self.fields and e.args[1][1][0] in ('new', 'malloc', 'ret'):
                    self.objs.setdefault(e.args[1][1], set()).add(self.fields[o][0])
        self.body(self.fr.events, self.tokens, ())

    def is_stream(self, v):
        return v[0] == 'Ptr' and (v[1] in self.streams or v[1] in self.root)

    def body(self, events, out, loops):
        for e in events:
            self.n += 1
            if e.kind == 'loop':
                sub = []
                self.body(e.body, sub, loops + (e,))
                if sub:
                    out.append(('loop', e, sub))
                continue
            if e.kind == 'store':
                self.store(e, loops)
                continue
            if e.kind not in ('std', 'call') or not e.args or not isinstance(e.args[0], tuple) or not self.is_stream(e.args[0]):
                continue
            nm = str(e.name)
            if e.ret is not None and e.ret[0] == 'Ptr' and re.search(r'operator(<<|>>)|::(put|write|flush|get|read)$', nm.split('<std')[0]):
                self.root[e.ret[1]] = 1
            m = (e.ins or {}).get('mangled') or ''
            if 'operator<<' in nm or 'operator>>' in nm or re.search(r'::(put|write|get|read|_M_insert|_M_extract)\b', nm):
                out.append(self.op(e, nm, m, loops))
            elif re.search(r'basic_[io]?f?stream(<.*>)?::~?basic_[io]?f?stream$', nm) or any(re.search(r'(::|^)%s$' % re.escape(q), nm) or re.search(r'::%s\b' % q.replace('operator!', 'operator!'), nm) for q in QUIET):
                if '::basic_' in nm and '~' not in nm and len(e.args) > 2:
                    self.mode = const_of(as_P(e.args[2]))
            else:
                out.append(('bad', e, nm.split('(')[0][-60:]))

    def op(self, e, nm, m, loops):
        v = e.args[1] if len(e.args) > 1 else None
        t = re.search(r'E(R?)([a-z])$', m)
        if 'operator>>' in nm:
            mm = re.search(r'rsER([a-z])$', m) or re.search(r'_M_extractI([a-z])E', m)
            if mm and mm.group(1) in LETTER and v[0] == 'Ptr':
                tok = {'e': e, 'ty': LETTER[mm.group(1)], 'ptr': v, 'loops': loops, 'n': self.n, 'store': None}
                if v[1][0] == 'alloca':
                    self.pending[v[1]] = tok
                return ('tok', e, tok)
            return ('bad', e, 'extraction of an unexpected type: %s' % m)
        if v is not None and v[0] == 'Ptr' and v[1][0] == 'g':
            s = self.p.globals.get(v[1][1], {}).get('str')
            if s is not None:
                return ('lit', e, s.rstrip('\0'))
        if v is not None and v[0] == 'Ptr' and v[1][0] == 'fn':
            mm = re.search(r'std::(\w+)', v[1][1].split('& ')[-1])
            if mm and mm.group(1) in MANIP_OK:
                return ('lit', e, '\n' if mm.group(1) == 'endl' else '')
            return ('bad', e, 'manipulator %s' % v[1][1][-60:])
        mm = re.search(r'lsE([a-z])$', m) or re.search(r'_M_insertI([a-z])E', m)
        if mm and mm.group(1) in LETTER:
            return ('tok', e, {'e': e, 'ty': LETTER[mm.group(1)], 'val': v, 'loops': loops, 'n': self.n})
        c = const_of(as_P(v)) if v is not None and v[0] in ('P', 'B') else None
        if m.endswith('c') and c is not None:
            return ('lit', e, chr(c & 255))
        return ('bad', e, 'insertion of an unexpected type: %s' % m)

    def store(self, e, loops):
        ptr, val = e.args[0], e.args[1]
        k = atom_of(val) if val[0] in ('P',) else None
        if k and k[0] == 'ld' and k[1] in self.pending and self.pending[k[1]]['store'] is None and const_of(k[3]) == 0:
            self.pending[k[1]]['store'] = e
            self.pending[k[1]]['ptr'] = ptr
            return
        self.stores.append((self.n, e, loops))

    def field(self, off, cls=None):
        """(name, offset inside, type) of the field at byte offset"""
        best = None
        for n, o, s, t in self.p.structs[cls or self.cls]:
            if o <= off < o + s:
                best = (n, off - o, s, t)
        return best

    def guarded(self, g, loops):
        """the construct runs whenever its loops make at least one turn (a guard that only skips empty loops is fine)"""
        fs = [P_sub(l.info.trip, ONE) for l in loops if l.info.trip is not None]
        self.I.facts[:] = fs
        self.I.rb_memo = {}
        r = self.I.rebuild(B(g), {('nosub',): ZERO})[1]
        self.I.facts[:] = []
        self.I.rb_memo = {}
        return r == F1

    def trip(self, l):
        """name of the size field the loop runs over"""
        t = l.info.trip
        k = atom_of(t) if t is not None else None
        if k and k[0] == 'ld' and k[1] == CIRC and l.info.breaks in ([], (), None, 0) or k and k[0] == 'ld' and k[1] == CIRC and not l.info.breaks:
            f = self.field(const_of(k[3]))
            return f[0] if f and f[1] == 0 else None
        if k and not l.info.breaks:
            return self.length(k)
        return None

    def length(self, k):
        """('len', vector field) when the loop runs over all elements of a vector"""
        d = None
        if k[0] == 'plen' and k[1][2] == ZERO and k[2][2] == ZERO:
            d = (k[1][1], k[2][1], k[3])
        elif k[0] == 'div' and len(k[1][1]) == 2 and sorted(c for m, c in k[1][1]) == [-1, 1] and all(len(m) == 1 and key(m[0])[0] == 'pbase' for m, c in k[1][1]):
            q = {c: key(m[0])[1] for m, c in k[1][1]}
            d = (q[1], q[-1], const_of(k[2]) if isinstance(k[2], tuple) else k[2])
        if d is None or any(x[0] != 'ld' or x[1] != CIRC or const_of(x[3]) is None for x in d[:2]):
            return None
        e, b = const_of(d[0][3]), const_of(d[1][3])
        f = self.field(b)
        if f[1] == 0 and e == b + 8 and f[2] == 24:
            mm = re.match(r'vector<([\w ]+),', f[3])
            ty = mm.group(1) if mm else ''
            size = CTYPE[ty][0] // 8 if ty in CTYPE else (max(o + s for n, o, s, t in self.p.structs.get(ty, [('', 0, 0, '')])) + 7) // 8 * 8
            return ('len', f[0]) if size == d[2] else None
        return None

    def place(self, ptr, loops):
        """reader: the storage a token goes to: (array or None, field, index, loop trip)"""
        base, off = ptr[1], ptr[2]
        for _ in range(4):
            if base[0] == 'pite':
                # the branch where the array exists
                a, b = base[2], base[3]
                a = a if a[0] == 'Ptr' else None; b = b if b[0] == 'Ptr' else None
                pick = [x for x in (a, b) if x and x[1] != ('null',)]
                if len(pick) != 1:
                    return None
                base, off = pick[0][1], (pick[0][2] if off == ZERO else off if pick[0][2] == ZERO else P_add(off, ZERO) if pick[0][2] == off else pick[0][2])
        if base == CIRC:
            c = const_of(off)
            f = self.field(c) if c is not None else None
            return (None, f[0], None, f) if f and f[1] == 0 else None
        fl = self.objs.get(base)
        if not fl or len(fl) != 1:
            k = base
            if k[0] == 'ld' and k[1] == CIRC and const_of(k[3]) is not None:
                fl = {self.field(const_of(k[3]))[0]}
            else:
                return None
        name = next(iter(fl))
        ty = next(t for n, o, s, t in self.p.structs[self.cls] if n == name).rstrip('*').strip()
        return self.element(name, ty, off, loops)

    def element(self, name, ty, off, loops):
        if ty in CTYPE:
            size, fld, inner = CTYPE[ty][0] // 8, '', ZERO
        elif ty in self.p.structs:
            size = max(o + s for n, o, s, t in self.p.structs[ty])
            size = (size + 7) // 8 * 8
        else:
            return None
        c = sum(q for m, q in off[1] if not m)
        # offset = size * index + position of the field
        pos = c % size
        idx = P_sub(off, P_const(pos))
        d = {}
        for m, q in idx[1]:
            if q % size:
                return None
            d[m] = q // size
        idx = P_pn(d)
        if ty in CTYPE:
            return (name, '', idx, ('', 0, size, ty)) if pos == 0 else None
        f = self.field(pos, ty)
        return (name, f[0], idx, f) if f else None


def P_pn(d):
    r = ZERO
    for m, q in d.items():
        t = P_const(q)
        for a in m:
            t = P_mul(t, P_atom(key(a)))
        r = P_add(r, t)
    return r


def shape(toks):
    return [('loop', t[1], [x for x in t[2] if x[0] != 'lit']) if t[0] == 'loop' else t for t in toks if t[0] != 'lit']


def separated(seq, state, viol, must):
    """state: True when the text written so far may end in a digit; must(event, loop, last): the text is certainly written in this round of the loop"""
    for t in seq:
        if t[0] == 'lit':
            s = t[2]
            if s.strip():
                viol.append((t[1], 'text %r between numbers' % s))
            if s and not s.strip() and must(t[1]):
                state = False
        elif t[0] == 'tok':
            if state:
                viol.append((t[1], 'two numbers without a separator'))
            state = True
        elif t[0] == 'loop':
            L = t[1]
            tr = L.info.trip
            kk = P_atom(('k', L.name))
            more = lambda e: must(e, [P_sub(P_sub(tr, P_const(2)), kk)] if tr is not None else [])
            last = lambda e: must(e, [P_sub(P_sub(tr, ONE), kk), P_sub(kk, P_sub(tr, ONE))] if tr is not None else [])
            mid = separated(t[2], state, viol, more)
            mid = separated(t[2], state or mid, viol, more)
            end = separated(t[2], state or mid, viol, last)
            state = state or end
    return state


def run(ctx):
    ctx.level = 'extracted stream grammars of writer and reader, compared'
    ob = lambda ok, k, w, rule, det='', g='grammar': ctx.ob(bool(ok), k, w, rule, det, group=g)
    R = Side(ctx, 'ReadSCD', R_CLASS, [Ptr(NAME), Ptr(CIRC)])
    W = Side(ctx, 'WriteSCD', W_CLASS, [Ptr(CIRC), Ptr(NAME)])
    ctx.functions |= {'ReadSCD', 'WriteSCD'}
    for S in (R, W):
        ctx.anchors(len(S.streams), 'file streams in %s' % S.fn)
        ob(len(S.streams) == 1, S.fn + ':stream', S.where, 'one file stream carries the description', len(S.streams))
    ob(getattr(W, 'mode', 16) is not None and not (getattr(W, 'mode', 16) & 1), 'WriteSCD:mode', W.where, 'the file is replaced, not appended to', getattr(W, 'mode', None))
    viol = []
    def must(e, facts=()):
        W.I.facts[:] = list(facts); W.I.rb_memo = {}
        r = W.I.rebuild(B(e.guard), {('nosub',): ZERO})[1] == F1
        W.I.facts[:] = []; W.I.rb_memo = {}
        return r
    separated(W.tokens, False, viol, must)
    bad = []
    separated([('tok', None), ('lit', None, ''), ('tok', None)], False, bad, lambda e, f=(): True)
    ctx.selftest(len(bad) == 1, 'separator automaton')
    for e, msg in viol:
        ob(False, 'WriteSCD:separator', e.site, 'numbers are separated by white space only', msg)
    ob(not viol, 'WriteSCD:separated', W.where, 'numbers are separated by white space only', len(W.tokens))
    rt, wt = shape(R.tokens), shape(W.tokens)
    for S, ts in ((R, rt), (W, wt)):
        flat = []
        for t in ts:
            flat += t[2] if t[0] == 'loop' else [t]
        for t in flat:
            if t[0] == 'bad':
                ob(False, S.fn + ':operation', t[1].site, 'only plain decimal numbers are read and written', t[2])
        ctx.anchors(len([t for t in flat if t[0] == 'tok']), 'numbers in ' + S.fn, 10)
    rt = [t for t in rt if t[0] != 'bad']; wt = [t for t in wt if t[0] != 'bad']
    ob(len(rt) == len(wt), 'sequence', R.where, 'writer and reader have the same number of items', '%d read, %d written' % (len(rt), len(wt)))
    seen = set()
    done_at = {}
    for i, (r, w) in enumerate(zip(rt, wt)):
        wh = '%s / %s' % (r[1].site, w[1].site)
        if r[0] != w[0]:
            ob(False, 'item%d' % i, wh, 'item %d is a list for both or a number for both' % i, '%s vs %s' % (r[0], w[0]))
            continue
        rl = r[2] if r[0] == 'loop' else [r]
        wl = w[2] if w[0] == 'loop' else [w]
        ob(len(rl) == len(wl) and all(x[0] == 'tok' for x in rl + wl), 'item%d:shape' % i, wh, 'item %d has the same numbers per element' % i, '%d vs %d' % (len(rl), len(wl)))
        for a, b in zip(rl, wl):
            if a[0] == 'tok' and b[0] == 'tok':
                number(ob, i, R, W, a[2], b[2], seen, done_at)
    for s in SCALARS:
        ob((None, s) in seen, 'field:' + s, R.where, 'the field is written and read', '')
    for s in ARRAYS:
        ob(s in seen, 'field:' + ' '.join(s), R.where, 'the field is written and read', '')
    # nothing overwrites what was read, and gates take consecutive output indices
    out_ok = []
    for n, e, loops in R.stores:
        pl = R.place(e.args[0], loops) if e.args[0][0] == 'Ptr' else None
        if pl is None:
            continue
        k = (pl[0], pl[1])
        if k in done_at:
            ob(n < done_at[k], 'overwrite:%s' % ' '.join(x for x in k if x), e.site, 'a value that was read is not overwritten', '')
        if k == ('garbledGates', 'output'):
            out_ok.append((e, loops, pl))
    for e, loops, pl in out_ok:
        t = R.trip(loops[-1]) if loops else None
        kk = P_atom(('k', loops[-1].name)) if loops else None
        v = as_P(e.args[1])
        rest = P_sub(v, pl[2])
        names = sorted(R.field(const_of(key(m[0])[3]))[0] for m, c in rest[1] if len(m) == 1 and c == 1 and key(m[0])[0] == 'ld' and key(m[0])[1] == CIRC)
        want = sorted(['p_init_size', 'g_init_size', 'e_init_size', 'p_input_size', 'g_input_size', 'e_input_size', 'dff_size'])
        late = [x for x in want if done_at.get((None, x), 1 << 30) > [n for n, f, l in R.stores if f is e][0]]
        ob(t == 'gate_size' and pl[2] == kk and names == want and len(rest[1]) == len(want) and not late and R.guarded(e.guard, loops), 'gate output', e.site,
           'gate i drives the wire following all inputs, state elements and earlier gates', '%s -> %s' % (show(pl[2])[:40], show(v)[:160]))
    ob(len(out_ok) == 1, 'gate outputs', R.where, 'every gate gets its output wire index', len(out_ok))
    ctx.explanation = ('Both functions are interpreted abstractly; the extraction (reader) and insertion (writer) operations on their file stream give two token sequences with loops. They are compared item by item: same field, same element, same loop count, '
                       'every value of the written type representable in the read type, separators between any two numbers on every path (also around empty lists), and no later overwrite.')


def number(ob, i, R, W, r, w, seen, done_at):
    wh = '%s / %s' % (r['e'].site, w['e'].site)
    pl = R.place(r['ptr'], r['loops'])
    if pl is None:
        ob(False, 'item%d:place' % i, r['e'].site, 'the number read is stored in a field of the circuit', show(r['ptr'])[:200])
        return
    k = (pl[0], pl[1])
    nm = ' '.join(x for x in k if x)
    seen.add(k)
    done_at.setdefault(k, r['n'])
    ob(R.guarded(r['e'].guard, r['loops']) and (r['store'] is None or R.guarded(r['store'].guard, r['loops'])), nm + ':read', r['e'].site, 'the number is read on every path', showb(r['e'].guard)[:120])
    ob(W.guarded(w['e'].guard, w['loops']), nm + ':written', w['e'].site, 'the number is written on every path', showb(w['e'].guard)[:120])
    kk = atom_of(as_P(w['val']))
    src = None
    if kk and kk[0] == 'ld':
        if kk[1] == CIRC:
            f = W.field(const_of(kk[3])) if const_of(kk[3]) is not None else None
            src = (None, f[0], f[1] // 8, None, f) if f else None
        elif kk[1][0] == 'ld' and kk[1][1] == CIRC and const_of(kk[1][3]) is not None:
            v = W.field(const_of(kk[1][3]))
            mm = v and re.match(r'vector<([\w ]+),', v[3])
            el = W.element(v[0], mm.group(1), kk[3], w['loops']) if mm else None
            if el:
                f = el[3]
                src = (el[0], el[1], f[1] // 8, el[2], f)
    if src is None:
        ob(False, nm + ':source', w['e'].site, 'the number written is a field of the circuit, unmodified', show(w['val'])[:200])
        return
    ty = CTYPE.get(src[4][3]) or CTYPE.get('long' if src[0] and src[1] == 'input' else '')
    ob(ty and covers(ty, w['ty']), nm + ':written type', w['e'].site, 'the written type has every value of the field', '%s -> %s' % (ty, w['ty']))
    rty = CTYPE.get(pl[3][3])
    ob(covers(w['ty'], r['ty']) or ty and covers(ty, r['ty']) and covers(ty, w['ty']), nm + ':type', wh, 'every number written can be read back', 'written %s, read %s' % (w['ty'], r['ty']))
    ob(rty and covers(r['ty'], rty), nm + ':stored type', r['e'].site, 'the field has every value of the type read', '%s -> %s' % (r['ty'], rty))
    if pl[0] is None:
        ob(src[0] is None and src[1] == pl[1] and not r['loops'] and not w['loops'], nm + ':field', wh, 'the same field is written and read', 'read into %s, written from %s' % (pl[1], ' '.join(x for x in src[:2] if x)))
        if pl[1] not in SCALARS:
            ob(False, nm + ':meaning', wh, 'the field belongs to the description', nm)
        return
    want = ARRAYS.get(k)
    ob(want and src[:3] == want[:3], nm + ':field', wh, 'the same field of the same element is written and read', 'read into %s, written from %s' % (nm, src[:3]))
    if not want:
        return
    rl, wl = (r['loops'] or (None,))[-1], (w['loops'] or (None,))[-1]
    ok = len(r['loops']) == len(w['loops']) == 1
    wt = W.trip(wl) if ok else None
    if isinstance(wt, tuple) and wt[1] == want[0]:
        wt = {'output_list': 'output_size', 'dff_list': 'dff_size', 'gate_list': 'gate_size'}[wt[1]]      # the netlist parsers size the lists by these fields
    ob(ok and R.trip(rl) == COUNT[pl[0]] == wt, nm + ':count', wh, 'as many numbers are written and read as the size field says', '%s vs %s' % (ok and R.trip(rl), wt))
    if not ok:
        return
    ob(all(done_at.get((None, COUNT[pl[0]]), 1 << 30) < r['n'] for _ in (0,)), nm + ':count first', r['e'].site, 'the count is read before its list', '')
    rk, wk = P_atom(('k', rl.name)), P_atom(('k', wl.name))
    ob(pl[2] == rk, nm + ':read index', r['e'].site, 'element i is the i-th number', show(pl[2])[:120])
    if want[3] == 'k':
        good = src[3] == wk
    else:
        q = atom_of(src[3])
        good = bool(q) and q[0] == 'ld' and q[1][0] == 'ld' and q[1][1] == CIRC and const_of(q[1][3]) is not None and W.field(const_of(q[1][3]))[0] == 'task_schedule' and q[3] == P_scale(wk, 8)
    ob(good, nm + ':written index', w['e'].site, 'the i-th number is element i (gates in schedule order)', show(src[3])[:160])
