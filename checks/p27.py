"""P27  the fixed-key hash is AES-128: byte-level value numbering of the key schedule and of the rounds against FIPS-197."""
from frontend import program, Broken
from calls import Calls
from bytesim import *

KS, ENC = 'AESSetEncryptKey', 'AESEcbEncryptBlks'
RCON = [1, 2, 4, 8, 16, 32, 64, 128, 27, 54]


def schedule(user):
    """FIPS-197 key expansion of 16 symbolic bytes -> 11 round keys"""
    w = [list(user[4 * i:4 * i + 4]) for i in range(4)]
    for r in range(10):
        t = [atom('S', b) for b in w[-1]]
        t = t[1:] + t[:1]
        t[0] = bxor(t[0], (RCON[r], frozenset()))
        for j in range(4):
            t = [bxor(a, b) for a, b in zip(w[-4], t)]
            w.append(t)
    return [tuple(sum(w[4 * i:4 * i + 4], [])) for i in range(11)]


def cipher(state, rk):
    s = vxor(state, rk[0])
    for r in range(1, 10):
        s = vxor(tuple(atom('aesenc', s, i) for i in range(16)), rk[r])
    return vxor(tuple(atom('aesenclast', s, i) for i in range(16)), rk[10])


def const_args(o, f):
    """the constants an operand can be; None when it can be something else"""
    defs = {i['id']: i for b in f['blocks'] for i in (b if isinstance(b, list) else b['ins']) if i.get('id') is not None}
    out, seen, work = set(), set(), [o]
    while work:
        o = work.pop()
        if o[0] == 'i':
            out.add(int(o[1])); continue
        d = defs.get(o[1]) if o[0] == 'v' else None
        if d is None or d['op'] not in ('phi', 'select'):
            return None
        if o[1] not in seen:
            seen.add(o[1])
            work += [x for _, x in d['in']] if d['op'] == 'phi' else d['args'][1:]
    return out


def leftover(o, f, called):
    """the standalone body of a helper whose size is its parameter: every use of it has been inlined, and those copies are examined"""
    return o[0] == 'v' and o[1] in [a['id'] for a in f['args']] and f['mangled'] not in called and f['dem'] not in called


def run(ctx):
    ctx.level = 'byte-level value numbering of the cipher against FIPS-197'
    p = program(keep=[KS, ENC])
    ob = lambda ok, k, w, rule, det='', g=None: ctx.ob(bool(ok), k, w, rule, det, group=g or k.split(':')[0])
    C = Calls(p)
    user = tuple(atom('in', ('user',), i) for i in range(16))
    # call sites
    sites = {KS: [], ENC: []}
    fns = list(p.functions.values() if isinstance(p.functions, dict) else p.functions)
    calls = [(f, i) for f in fns for b in f['blocks'] for i in (b if isinstance(b, list) else b['ins']) if i['op'] in ('call', 'invoke')]
    called = {x for f, i in calls for x in (i.get('callee'), i.get('mangled')) if x}
    for f, i in calls:
        if i.get('callee') in sites and not leftover(i['args'][1], f, called):
            sites[i['callee']].append((f, i))
    ctx.anchors(len(sites[KS]), 'key schedule call sites', 2)
    ctx.anchors(len(sites[ENC]), 'hash call sites', 2)
    f = p.fn(KS)
    where = '%s:%s (%s)' % (f['file'], f['line'], KS)
    for g, i in sites[KS]:
        n = const_args(i['args'][1], g)
        ob(n == {128}, 'keysize:%s' % g['dem'].split('(')[0], C.site(i), 'the session key is a 128-bit key', n)
    S = ByteSim(p, aes_intrinsics)
    mem = {}
    ret, mem, err = S.run(f, [('ptr', ('user',), 0), ('I', 32, 128), ('ptr', ('key',), 0)], mem)
    ob(err is None and not S.unknown, 'schedule:analysed', where, 'the key schedule is a fixed sequence of known operations', err or S.unknown[:3])
    want = schedule(user)
    for r in range(11):
        got = tuple(mem.get((('key',), 16 * r + i), atom('in', ('key',), 16 * r + i)) for i in range(16))
        bad = [i for i in range(16) if got[i] != want[r][i]]
        ob(not bad, 'schedule:round key %d' % r, where, 'round key %d is the standard\'s' % r, 'byte %d is %s, expected %s' % (bad[0], bshow(got[bad[0]]), bshow(want[r][bad[0]])) if bad else '')
    keys = {k: v for k, v in mem.items() if k[0] == ('key',)}
    g = p.fn(ENC)
    where = '%s:%s (%s)' % (g['file'], g['line'], ENC)
    sizes = set()
    for h, i in sites[ENC]:
        n = const_args(i['args'][1], h)
        sizes |= n or set()
        ob(n is not None and min(n) > 0, 'batch:%s' % h['dem'].split('(')[0], C.site(i), 'the batch size is a positive constant', n)
    for n in sorted({x for x in sizes if x > 0} | set(range(0, 9 if ctx.thorough else 6))):
        S = ByteSim(p, aes_intrinsics)
        ret, m2, err = S.run(g, [('ptr', ('blk',), 0), ('I', 32, n), ('ptr', ('key',), 0)], dict(keys))
        ob(err is None and not S.unknown, 'rounds:%d:analysed' % n, where, 'the rounds are a fixed sequence of known operations', err or S.unknown[:3])
        for b in range(n + 1):
            blk = tuple(atom('in', ('blk',), 16 * b + i) for i in range(16))
            got = tuple(m2.get((('blk',), 16 * b + i), blk[i]) for i in range(16))
            exp = cipher(blk, want) if b < n else blk
            bad = [i for i in range(16) if got[i] != exp[i]]
            ob(not bad, 'rounds:%d:block %d' % (n, b), where, 'block %d of %d is encrypted by the ten rounds of AES-128' % (b, n) if b < n else 'nothing behind the batch is touched',
               'byte %d is %s, expected %s' % (bad[0], bshow(got[bad[0]], 2), bshow(exp[bad[0]], 2)) if bad else '')
        ob({k for k in m2 if k[0] == ('key',)} == set(keys) and all(m2[k] == keys[k] for k in keys), 'rounds:%d:key' % n, where, 'encryption leaves the key schedule alone', '')
    wrong = schedule(tuple(reversed(user)))
    ctx.selftest(wrong[1] != want[1] and cipher(user, wrong) != cipher(user, want), 'a different schedule is told apart')
    ctx.functions |= {KS, ENC}
    ctx.explanation = ('The key schedule and the batch encryption are value-numbered byte by byte (AES-NI instructions by their architectural definition: substitution, rotation and round constant per byte, round functions as uninterpreted expressions of the state) and compared with the FIPS-197 recurrences, '
                       'for every batch size used at a call site and all sizes up to a small bound.')
