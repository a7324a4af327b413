"""random differential runs of the built program against the reference simulator (exploration aid, not a check)"""
import sys, random, tg


def rnd(seed):
    r = random.Random(seed)
    sz = [r.randint(0, 3) for _ in range(6)]
    nd = r.randint(0, 4); ng = r.randint(1, 14)
    n0 = sum(sz) + nd
    C = tg.Circ(*sz)
    tot = n0 + ng
    C.gates = []
    for i in range(ng):
        ch = list(range(sum(sz[:3]), n0 + i)) + [-2, -3]
        t = r.choice(list(tg.F))
        C.gates.append((t, r.choice(ch), r.choice(ch)))
    ini = list(range(sum(sz[:3]))) + [-2, -3]
    data = list(range(sum(sz[:3]), tot)) + [-2, -3]
    C.dff = [(r.choice(data), r.choice(ini)) for _ in range(nd)]
    C.outputs = [r.choice(data[:-2]) for _ in range(r.randint(1, 6))]
    cyc = r.choice([1, 1, 2, 3, 4])
    tp = 0
    if r.random() < .5 and cyc > 1:
        c = [w for w in data[:-2] if w > 0]
        C.term = r.choice(c); tp = r.choice([1, 2])
    v = [r.getrandbits(n) for n in sz[:3]] + [r.getrandbits(n * cyc) if n else 0 for n in sz[3:]]
    mask = r.getrandbits(len(C.outputs))
    return r, C, cyc, tp, v, mask


def expect(C, cyc, tp, v, mask):
    # simulate with termination
    C2 = tg.Circ(*C.sz, dff=C.dff, gates=C.gates, outputs=C.outputs + ([C.term] if C.term else []))
    outs = C2.sim(v[0], v[1], v[2], v[3], v[4], v[5], cyc)
    n = len(C.outputs); a = b = 0; used = 0
    for c, o in enumerate(outs):
        for i in range(n):
            if (mask >> i) & 1:
                a |= o[i] << (c * n + i)
            else:
                b |= o[i] << (c * n + i)
        used = c + 1
        if tp and C.term and c % tp == 0 and o[n]:
            break
    return a, b, used


if __name__ == '__main__':
    lo, hi = int(sys.argv[1]), int(sys.argv[2])
    bad = 0
    for s in range(lo, hi):
        r, C, cyc, tp, v, mask = rnd(s)
        ot = r.random() < .5; low = r.random() < .5
        a, b, used = expect(C, cyc, tp, v, mask)
        (ra, oa, _), (rb, ob, _) = tg.run(C, a=(v[1], v[4]), b=(v[2], v[5]), pub=(v[0], v[3]), cycles=cyc, mask=mask, ot=ot, low=low, term=tp, mode=1, timeout=20)
        n = len(C.outputs)

        def dec(o):
            x = 0
            L = o.split('\n') if o else []
            for c, h in enumerate(L):
                x |= int(h or '0', 16) << (c * n)
            return x, len(L)
        try:
            ok = ra == 0 and rb == 0 and dec(oa) == (a, used) and dec(ob) == (b, used)
        except ValueError:
            ok = False
        if not ok:
            bad += 1
            print('seed', s, 'ot', ot, 'low', low, 'cyc', cyc, 'tp', tp, 'mask', bin(mask), 'got', (ra, oa, rb, ob), 'want', (a, b, used)); print(C.text())
    print('bad', bad)
