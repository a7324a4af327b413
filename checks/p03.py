"""P03  every wire's two labels differ by one odd global secret offset."""
from dom import *
from gcmodel import *
import gcmodel
import bits
from view import *
from calls import Calls
from flow import DUMMY
from duality import anf_set
from runner import pmap
from frontend import Broken


def loads(v):
    """(base -> set of offsets) of the array loads a block value is a combination of; None when it is something else"""
    out = []
    for a, c in v[1]:
        k = key(a)
        if k[0] == 'ld':
            out.append((k, c))
        else:
            return None
    return out


def scaled(p, m):
    return all(c % m == 0 for _, c in p[1])


def base_ok(b):
    return isinstance(b, tuple) and b and b[0] == 'new'


def session(job):
    low, noot = job
    S = Session(_P, 'GarbleStr', low, noot, extra_facts=())
    v = View(S)
    res = []
    nm = '%s/%s' % ('low' if low else 'high', 'noOT' if noot else 'OT')

    def ob(ok, k, where, rule, det=''):
        res.append((bool(ok), nm + ':' + k, where, rule, det))

    stores = {}; loops_of = {}
    for n_, (e, st) in enumerate(v.all):
        if e.kind in ('store', 'copy', 'set') and isinstance(e.name, tuple):
            loops_of[id(e)] = [x for x in st if x.kind == 'loop']
            stores.setdefault(e.name, []).append((n_, e, tuple(x.name for x in st if x.kind == 'loop')))
    # arrays of label pairs: the wire labels and everything copied into them
    arrs = [v.W]; deltas = {}; fresh = {}; npairs = 0
    i = 0
    while i < len(arrs):
        b = arrs[i]; i += 1
        todo = stores.get(b, [])
        halves = {}
        for n_, e, lp in todo:
            site = e.site
            p = e.args[0]
            off = p[2] if p[0] == 'Ptr' else None
            if e.kind == 'set':
                z = const_of(as_P(e.args[1]))
                ob(z == 0, 'fill:' + sname_(b), site, 'a label array is only ever filled with zeros', show(e.args[1]))
                continue
            if e.kind == 'copy':
                src = e.args[1]
                ok = off is not None and scaled(off, 32) and scaled(as_P(e.args[2]), 32) and src[0] == 'Ptr' and scaled(src[2], 32) and base_ok(src[1])
                ob(ok, 'copy:' + sname_(b), site, 'label arrays are copied pair by pair', [show(x)[:200] for x in e.args])
                if ok and src[1] not in arrs:
                    arrs.append(src[1])
                continue
            val, size = e.args[1], e.args[2]
            if val[0] != 'K' or size != 16 or off is None:
                ob(False, 'store:' + sname_(b), site, 'only whole labels are stored into a label array', show(val)[:300])
                continue
            c0 = sum(c for m, c in off[1] if not m) % 32
            nc = tuple((m, c) for m, c in off[1] if m)
            if not scaled(('P', nc), 32) or c0 not in (0, 16):
                ob(False, 'cell:' + sname_(b), site, 'labels are stored at the first or second half of a pair', show(off)[:300])
                continue
            h = c0 // 16
            cell = P_sub(off, P_const(16 * h))
            hl = halves.setdefault((cell, e.guard, lp), [[], []])[h]
            if not any(x[1].args[1] == val for x in hl):
                hl.append((n_, e))
        for (cell, guard, lp), (h0, h1) in halves.items():
            for x, y in zip(h0 + [None] * (len(h1) - len(h0)), h1 + [None] * (len(h0) - len(h1))):
                e0 = (x or y)[1]
                k = 'pair:%s:%s' % (sname_(b), e0.site.split('(')[-1].rstrip(')'))
                if x is None or y is None:
                    ob(False, k, e0.site, 'both labels of a pair are stored together', show(e0.args[1])[:300])
                    continue
                v0, v1 = x[1].args[1], y[1].args[1]
                npairs += 1
                if any(c != F1 for q in (v0, v1) for _, c in q[1]):
                    # conditions the enclosing loops decide (a loop over an empty class does not run)
                    fs = []
                    for s in loops_of[id(x[1])]:
                        if s.info.trip is not None:
                            kk_ = P_atom(('k', s.name)); fs += [kk_, P_sub(P_sub(s.info.trip, ONE), kk_)]
                    for a in {a for m in x[1].guard for a in m if key(a)[0] == 'ge0'}:
                        if anf_set(x[1].guard, a, False) == F0:
                            fs.append(key(a)[1])
                        elif anf_set(x[1].guard, a, True) == F0:
                            fs.append(P_sub(P_scale(key(a)[1], -1), ONE))
                    v.with_facts(fs)
                    v0, v1 = v.I.rebuild(v0, DUMMY), v.I.rebuild(v1, DUMMY)
                    v.with_facts([])
                # 1. gate output
                g0, g1 = [key(q[1][0][0]) if len(q[1]) == 1 and q[1][0][1] == F1 else None for q in (v0, v1)]
                if g0 and g1 and g0[0] == 'gout' and g1[0] == 'gout':
                    ob(g0[1] == 0 and g1[1] == 1 and g0[2:] == g1[2:], k, e0.site, 'a gate stores its output pair', show(v0)[:200])
                    continue
                # 2. copies of one pair
                l0, l1 = loads(v0), loads(v1)
                if l0 is not None and l1 is not None:
                    sub = {}
                    ok = len(l0) == len(l1)
                    excl = F1
                    for q, c in l0:
                        if not base_ok(q[1]) or q[4] != 16 or sum(c_ for m, c_ in q[3][1] if not m) % 32 or not scaled(('P', tuple((m, c_) for m, c_ in q[3][1] if m)), 32):
                            ok = False
                            break
                        if q[1] not in arrs:
                            arrs.append(q[1])
                        mate = [c1 for r, c1 in l1 if r[1] == q[1] and r[2] == q[2] and r[3] == P_add(q[3], P_const(16))]
                        if mate != [c]:
                            ok = False
                    for a in range(len(l0)):
                        for b2 in range(a):
                            if band(l0[a][1], l0[b2][1]) != F0:
                                ok = False
                    ob(ok, k, e0.site, 'both labels are copied from the two halves of one existing pair', '%s | %s' % (show(v0)[:600], show(v1)[:600]))
                    continue
                # 3. a fresh pair
                d = K_xor(v0, v1)
                deltas.setdefault(d, []).append(e0.site)
                if g0 and g0[0] == 'rnd':
                    others = fresh.setdefault(g0[1], [])
                    others.append((b, cell, lp, e0.site, g0))
                    made = [(e, st) for e, st in v.all if e.kind == 'call' and e.name == 'RandomBlock' and e.ret and key(e.ret[1][0][0])[1] == g0[1]]
                    lps = tuple(s.name for s in made[0][1] if s.kind == 'loop')
                    bad = [l for l in lp if l not in lps]
                    # a label created in another loop than the one storing it has been resolved through an array: fine when indexed injectively
                    ob(all(any(View.atoms_in(q, lambda z: z == ('k', l)) for q in g0[2]) for l in bad), k + ':fresh', e0.site,
                       'each fresh label is drawn for its own wire', 'stored in %s, drawn in %s' % (lp, lps))
                else:
                    ob(False, k, e0.site, 'the first label of a new pair is a random block', show(v0)[:400])
    # one draw is used for one pair (copies of resolved cells apart)
    for u, uses in fresh.items():
        per = {}
        for b, cell, lp, site, g0 in uses:
            per.setdefault(b, set()).add((cell, lp))
        for b, cells in per.items():
            ob(len(cells) == 1, 'draw:%s:%s' % (sname_(b), u.split('/')[-1]), uses[0][3], 'a random block becomes the label of one pair', len(cells))
    ob(len(deltas) == 1, 'one offset', ' '.join(sorted({x for s in deltas.values() for x in s})), 'all fresh pairs of the session differ by the same offset', [show(d)[:200] for d in deltas])
    R = None
    if len(deltas) == 1:
        R = next(iter(deltas))
        bs = bits.kbits(R)
        ob(bs[0] == F1, 'offset:colour', v.where, 'the permutation bit of the offset is 1', '' if bs[0] is None else showb(bs[0]))
        srcs = set()
        ok = True
        for i_, x in enumerate(bs[1:], 1):
            m = next(iter(x)) if x is not None and len(x) == 1 else None
            kk = key(next(iter(m))) if m is not None and len(m) == 1 else None
            if not kk or kk[0] != 'kbit' or kk[2] != i_ or kk[1][0] != 'rnd':
                ok = False
                break
            srcs.add(kk[1])
        ok = ok and len(srcs) == 1
        ob(ok, 'offset:random', v.where, 'all other bits of the offset are the corresponding bits of one random block', [str(s)[:100] for s in srcs])
        if ok:
            rk = next(iter(srcs))
            draws = [(e, st) for e, st in v.all if e.kind == 'call' and e.name == 'RandomBlock' and e.ret and key(e.ret[1][0][0])[1] == rk[1]]
            ob(len(draws) == 1 and not draws[0][1], 'offset:drawn once', draws[0][0].site if draws else v.where, 'the offset is drawn once, outside every loop', '')
            ob(rk[1] not in fresh, 'offset:not a label', v.where, 'the offset\'s random block is not also a label')
            keys = [(e, st) for e, st in v.all if e.kind == 'call' and e.name == 'AESSetEncryptKey']
            ob(all(not View.atoms_in(e.ret, lambda q: q == rk) for e, _ in keys), 'offset:not the key', v.where, 'the hash key is not derived from the offset')
        # gates use it
        ng = 0
        from gateview import gate_calls
        for g in gate_calls(v):
            if g.e.name == 'GarbleGate':
                ng += 1
                ob(g.a['R'] == R, 'gate offset', g.e.site, 'gates are garbled with the session offset', show(g.a['R'])[:200])
        if not ng:
            raise Broken('no garbling call found')
    ob(npairs >= 5, 'anchors', v.where, 'label pairs were found', npairs)
    return res, npairs, len(arrs)


def sname_(b):
    """stable name of an array: where it was allocated is not stable, so the kind of array only"""
    return 'labels'


def run(ctx):
    global _P
    _P = gcmodel.prog()
    for r, np_, na in pmap(session, [(l, o) for l in (False, True) for o in (False, True)]):
        for ok, k, w, rule, det in r:
            ctx.ob(ok, k, w, rule, det, group=k.split(':')[1])
        ctx.count('label pairs', np_); ctx.count('label arrays', na)
    # the generator is seeded once, by the program, never inside a session
    reach = Calls().reaching('SrandSSE')
    if not any(x.startswith('main_') for x in reach):
        raise Broken('no program seeds the generator')
    for root in ('GarbleStr', 'EvaluateStr', 'OTSend', 'OTRecv', 'OTExtSend', 'OTExtRecv', 'RandomBlock'):
        ctx.ob(root not in reach, 'seed:' + root, root, 'the generator is never reseeded inside a session (reseeding repeats labels)', group='seeding')
    ctx.functions |= {'GarbleStr'}
    ctx.explanation = ('GarbleStr is interpreted abstractly in both memory modes with transfer on and off; every store into the wire-label array and, transitively, into each array labels are copied from is enumerated and '
                       'must be a gate output pair, a copy of both halves of one pair under mutually exclusive conditions, or a random block stored with its xor with one session offset; the 128 bits of that offset are '
                       'decomposed symbolically (bit 0 constant 1, the rest the bits of one random block drawn outside every loop).')

