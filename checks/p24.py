"""P24  logs never contain secrets."""
from frontend import program, Broken
from taint import Taint
from runner import pmap

KEEP = ['RandomBlock', 'GarbleGate', 'EvalGate', 'SendData', 'RecvData', 'LogStream', 'DummyLogStream', 'Dump', 'GarbleStr', 'EvaluateStr']
OUT = ('_ZSt4cout', '_ZSt4cerr', '_ZSt4clog')
LOGS = {('log',)} | {('g', x) for x in OUT}
PRINTF = ('printf', 'vprintf', 'puts', 'putchar', 'perror', 'putc', 'fputs', 'fprintf', 'fputc', 'fwrite', '__printf_chk', '__fprintf_chk', 'syslog')
# private arguments of the two parties' entry points, by position: name -> why
PRIV = {'GarbleStr': {3: 'the garbler\'s private initial values', 4: 'the garbler\'s private input'},
        'EvaluateStr': {3: 'the evaluator\'s private initial values', 4: 'the evaluator\'s private input'},
        'GarbleGate': {0: 'labels', 2: 'labels', 9: 'the global offset', 10: 'the session key', 7: 'garbled tables'},
        'EvalGate': {0: 'labels', 2: 'labels', 9: 'the session key', 7: 'garbled tables'}}
OUTS = {'GarbleGate': {11: 'labels', 7: 'garbled tables'}, 'EvalGate': {10: 'labels'}}
NARGS = {'GarbleStr': 13, 'EvaluateStr': 13, 'GarbleGate': 13, 'EvalGate': 12}

INPUTS = {w for d in (PRIV['GarbleStr'], PRIV['EvaluateStr']) for w in d.values()}


def site(i):
    d = i.get('dbg') or []
    return '%s:%s (%s)' % tuple(d[0][:3]) if d else '?'


def stream_call(name):
    return 'operator<<' in name or 'ostream::' in name or '__ostream_insert' in name or 'basic_ostream<char' in name


class Model:
    def __init__(self, p, root):
        self.p = p; self.root = root
        self.sinks = {}
        for n, c in NARGS.items():
            if len(p.fn(n)['args']) != c:
                raise Broken('anchor signature changed: ' + n)

    def __call__(self, t, i, name):
        a = i.get('args', [])
        n = ('v', i['id']) if 'id' in i else None
        if name == 'RandomBlock':
            t.set_t(n, 'a random block (label, offset or key)'); return 1
        if name in ('BN_rand', 'BN_rand_range', 'BN_priv_rand', 'RAND_bytes', 'RSA_generate_key_ex', 'BN_generate_prime_ex'):
            for o in t.P(a[0]):
                t.set_to(o, 'a random number or key of the oblivious transfer')
            return 1
        if name == 'BN_is_bit_set':
            why = t.TO(a[0])
            if why:
                t.set_t(n, why if why.startswith('a bit of') or why not in INPUTS else 'a bit of ' + why)
            return 1
        if name == 'SendData':
            return 1
        if name == 'RecvData':
            if not (a[2][0] == 'i' and a[2][1] in ('4', '8')):
                for o in t.P(a[1]):
                    t.set_to(o, 'data received from the peer (labels, tables, colours, transfer messages)')
            return 1
        if name == 'LogStream':
            t.add_p(n, {('log',)}); return 1
        if name in ('DummyLogStream', 'Dump'):
            t.add_p(n, {('dump',)}); return 1
        if name in ('GarbleGate', 'EvalGate') and name != self.root:
            for k, why in OUTS[name].items():
                for o in t.P(a[k]):
                    t.set_to(o, why)
            return 1
        if name in ('GarbleStr', 'EvaluateStr') and name != self.root:
            for k, why in PRIV[name].items():
                for o in t.P(a[k]):
                    t.set_to(o, why)
            return 1
        if name in PRINTF:
            self.sinks.setdefault(i['id'], (i, a)); return 1
        if stream_call(name) and a:
            s = t.P(a[0])
            t.add_p(n, s)
            if s & (LOGS | {('dump',)}):
                if s & LOGS:
                    self.sinks[i['id']] = (i, a[1:])
                return 1
        return None


def root(job):
    name = job
    p = _P
    f = p.fn(name)
    m = Model(p, name)
    args = dict(PRIV.get(name, {}))
    t = Taint(f, m, args, implicit={'a bit of ' + w for w in INPUTS})
    out = []
    for i, a in m.sinks.values():
        why = None
        for x in a:
            why = why or t.T(x) or t.TO(x)
        out.append((why is None, '%s:%s' % (name, site(i)), site(i), 'no secret is written to a log or to standard output', why or ''))
    return name, out, len(t.to), len(t.tv)


def run(ctx):
    global _P
    _P = program(keep=KEEP)
    roots = ['GarbleStr', 'EvaluateStr', 'GarbleGate', 'EvalGate', 'main_garbled_circuit_main']
    for name, out, no, nv in pmap(root, roots):
        ctx.ob(len(out) > 0 or name in ('GarbleGate', 'EvalGate'), 'anchor:' + name, name, 'insertions into log streams were found', len(out))
        ctx.ob(nv > 0 or no > 0, 'sources:' + name, name, 'secrets were found', '%d/%d' % (no, nv))
        for ok, k, w, rule, det in out:
            ctx.ob(ok, k, w, rule, det, group=name)
        ctx.count('insertions into log streams and standard output', len(out)); ctx.count('tainted objects', no); ctx.count('tainted values', nv)
        ctx.functions.add(name)
    ctx.assumptions = ['explicit flows, selects and two-way merges of constants; which messages are printed at all is not treated as a leak',
                       'the simulator and the OT demonstration program print their inputs by design and are outside the statement']
    ctx.explanation = ('Whole-program (inlined) points-to and taint analysis of the garbler, the evaluator, the gate routines and the main program: random blocks, received data, labels, keys and private input strings are sources; every insertion into a log stream or standard stream and every printf-like call is a sink.')
