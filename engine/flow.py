"""Resolve array cells to the store that fills them (all stores to the array enumerated, offsets solved for the loop counters)."""
from dom import *
from gcmodel import *
from view import *
from duality import *


DUMMY = {('no atom',): ZERO}


def coeffs(f, ks):
    """f = f0 + sum ci*ki (affine in the given atoms) or None"""
    ids = {A(k): i for i, k in enumerate(ks)}
    cs = [dict() for _ in ks]; f0 = {}
    for m, c in f[1]:
        hit = [a for a in m if a in ids]
        if not hit:
            f0[m] = f0.get(m, 0) + c
        elif len(hit) == 1:
            mm = tuple(a for a in m if a != hit[0]) if m.count(hit[0]) == 1 else None
            if mm is None:
                return None
            d = cs[ids[hit[0]]]
            d[mm] = d.get(mm, 0) + c
        else:
            return None
    mk = lambda d: ('P', tuple(sorted((m, c) for m, c in d.items() if c)))
    return mk(f0), [mk(d) for d in cs]


class Flow:
    def __init__(self, side):
        self.s = side; self.I = side.I; self.v = side.v
        self.stores = {}; self.guards = {}      # guards: with the conditions of the loops around the store
        for n_, (e, st) in enumerate(side.v.all):
            if e.kind in ('store', 'copy', 'set') and isinstance(e.name, tuple):
                self.stores.setdefault(e.name, []).append((n_, e, [x for x in st if x.kind == 'loop']))
                g = e.guard
                for x in st:
                    if x.guard != F1:
                        g = band(g, x.guard)
                self.guards[id(e)] = g
        self.ot = {}
        self.cells_resolved = 0; self.cells_symbolic = 0

    def proves(self, p):
        I = self.I
        if I.b_ge0(p) == F1:
            return True
        if len(p[1]) < 3 or not any(len(m) > 1 for m, c in p[1]):
            return False
        # a fact scaled by a size: n * (trips - 1 - k) >= 0
        nn = [('P', (((a,), 1),)) for a in P_atoms(p) if I.nonneg(a) and any(len(m) > 1 and a in m for m, c in p[1])]
        pa = set(P_atoms(p))
        fs = [f for f in I.facts if pa & set(P_atoms(f))]
        for n in nn:
            for f in fs:
                q = P_sub(p, P_mul(n, f))
                if I._easy_ge0(q) or any(I._easy_ge0(P_sub(q, g)) for g in fs):
                    return True
        return False

    def cell(self, base, off, size, ctx, skip=None):
        """-> list of (event, ksub) that fill the cell, or None when undecided"""
        ws = self.stores.get(base)
        if not ws:
            return None
        return self.writers([(e, loops, e.args[0][2] if e.kind == 'store' else None) for n_, e, loops in ws if not (skip and skip(e))], off, ctx)

    def row(self, base, off, inner, width, ctx):
        """stores at offset `inner` of the object (of `width` bytes) that the pointer cell at `off` holds"""
        ws = []; sc = width // 8
        for b, l in self.stores.items():
            if b[0] == 'ld' and b[1] == base and b[4] == 8:
                for n_, e, loops in l:
                    o = None
                    if e.kind == 'store' and all(self.proves(x) for x in (e.args[0][2], P_sub(P_const(width - 1), e.args[0][2]))):
                        o = P_add(P_scale(b[3], sc), e.args[0][2])
                    elif e.kind == 'store':
                        fs = [P_sub(P_sub(x.info.trip, ONE), P_atom(('k', x.name))) for x in loops if x.info.trip is not None]
                        n = len(self.I.facts)
                        self.I.facts.extend(fs)
                        try:
                            if all(self.proves(x) for x in (e.args[0][2], P_sub(P_const(width - 1), e.args[0][2]))):
                                o = P_add(P_scale(b[3], sc), e.args[0][2])
                        finally:
                            del self.I.facts[n:]
                    ws.append((e, loops, o))
        return self.writers(ws, P_add(P_scale(off, sc), inner), ctx) if ws else None

    def writers(self, ws, off, ctx):
        out = []
        for e, loops, f in ws:
            if f is None:
                return None
            ks = [('k', l.name) for l in loops]
            sub = {k: ctx[k] for k in ks if k in ctx}
            free = [(k, l) for k, l in zip(ks, loops) if k not in ctx]
            f = self.I.rebuild(f, sub) if sub else f
            cf = coeffs(f, [k for k, _ in free])
            if cf is None:
                return None
            f0, cs = cf
            diff = P_sub(off, f0)
            if not free:
                if diff == ZERO:
                    out.append((e, dict(sub)))
                elif const_of(diff) is None and not (self.proves(P_sub(diff, ONE)) or self.proves(P_sub(P_scale(diff, -1), ONE))):
                    return None
                continue
            r = self.solve(diff, cs, free, sub, f0)
            if r is None:
                return None
            if r:
                ksub = dict(sub); ksub.update(r)
                out.append((e, ksub))
        return out

    def trip(self, loop, sub):
        t = loop.info.trip
        return None if t is None else (self.I.rebuild(t, sub) if sub else t)

    def solve(self, diff, cs, free, sub, f0=ZERO):
        """-> {k: value} (unique solution in range) | {} (no solution) | None (undecided)"""
        k, l = free[0]
        c = cs[0]
        t = self.trip(l, sub)
        if t is None:
            return None
        if len(free) == 1:
            cc = const_of(c)
            if not cc:
                return None
            if any(x % cc for m, x in diff[1]):
                cd = const_of(diff)
                # different residue modulo the stride: never equal
                rs = [x % cc for m, x in diff[1] if m]
                if not any(rs):
                    return {}
                return None
            q = ('P', tuple((m, x // cc) for m, x in diff[1]))
            if self.proves(q) and self.proves(P_sub(P_sub(t, ONE), q)):
                return {k: q}
            if self.proves(P_sub(P_scale(q, -1), ONE)) or self.proves(P_sub(q, t)):
                return {}
            return None
        # outer loop: mixed radix.  target = c*q + r with 0 <= r < c, writer = c*k + f0 + inner with 0 <= f0 + inner < c
        tgt = P_add(diff, f0)
        cands = [ZERO]
        for m, x in tgt[1]:
            for a in m:
                if key(a)[0] in ('k', 'idx') and P_atom(key(a)) not in cands:
                    cands.append(P_atom(key(a)))
        inner_max = ZERO
        for (ki, li), ci in zip(free[1:], cs[1:]):
            ti = self.trip(li, sub)
            if ti is None or not self.proves(ci):
                return None
            inner_max = P_add(inner_max, P_mul(ci, P_sub(ti, ONE)))
        if self.proves(c) and self.proves(P_sub(P_scale(diff, -1), ONE)):
            return {}            # below the writer's first cell
        part = P_const(sum(x for m, x in f0[1] if not m))
        for base_shift in dict.fromkeys((f0, ZERO, part)):
            T = P_add(diff, base_shift)
            if not (self.proves(base_shift) and self.proves(P_sub(P_sub(P_sub(c, ONE), inner_max), base_shift))):
                continue
            for q in reversed(cands):
                r = P_sub(T, P_mul(c, q))
                if not (self.proves(r) and self.proves(P_sub(P_sub(c, ONE), r))):
                    continue
                if not (self.proves(q) and self.proves(P_sub(P_sub(t, ONE), q))):
                    continue
                s2 = dict(sub); s2[k] = q
                rr = self.solve(P_sub(r, base_shift), cs[1:], free[1:], s2)
                if rr is None or rr == {}:
                    return rr
                rr = dict(rr); rr[k] = q
                return rr
        return None

    def norm(self, v, ctx, depth=0):
        """replace array reads by the values that were stored there"""
        if v is None or depth > 8:
            return v
        atoms = self.s.atoms(v, [])
        sub = {}
        for k in atoms:
            if k[0] != 'ld':
                continue
            base, ver, off, size = k[1], k[2], k[3], k[4]
            if not (isinstance(base, tuple) and base and base[0] == 'new'):
                continue
            if base in (self.v.V, self.v.W):
                continue
            vk = key(ver)
            o = self.otver(ver)
            if o is not None:
                u, ks = o
                q = ('P', tuple((m, x // 16) for m, x in off[1])) if not any(x % 16 for m, x in off[1]) else None
                sub[k] = K_atom(('ot', u, ks, q)) if q is not None else K_atom(k)
                continue
            r = self.cell(base, off, size, ctx)
            m = self.merge(r, size, ctx, depth) if r and len(r) > 1 else None
            if m is not None:
                sub[k] = m
                self.cells_resolved += 1
            elif r is not None and len(r) == 1:
                e, ks = r[0]
                val = self.I.rebuild(e.args[1], {kk: vv for kk, vv in ks.items()}) if ks else e.args[1]
                val = self.norm(val, dict(ctx), depth + 1)
                if size < 16 and val[0] == 'K':
                    val = P_atom(('low', size * 8, val))
                g = self.guards[id(e)]
                if g != F1:
                    g = self.I.rebuild(B(g), ks or DUMMY)[1]
                    if g != F1:
                        continue
                sub[k] = val
                self.cells_resolved += 1
            else:
                self.cells_symbolic += 1
                c = ('cell', base, off)
                sub[k] = K_atom(c) if size == 16 else P_atom(c)
        return self.I.rebuild(v, sub) if sub else v

    def merge(self, r, size, ctx, depth):
        """several stores of one iteration fill the cell: the last one whose guard holds"""
        fl = {id(e): l for ws in self.stores.values() for n_, e, l in ws}
        if len({tuple(x.name for x in fl[id(e)]) for e, ks in r}) != 1 or any(ks != r[0][1] for e, ks in r):
            return None
        val = None; some = F0
        for e, ks in r:
            g = self.I.rebuild(B(self.guards[id(e)]), ks or DUMMY)[1]
            if g == F0:
                continue
            x = self.norm(self.I.rebuild(e.args[1], ks or DUMMY), dict(ctx), depth + 1)
            if size < 16 and x[0] == 'K':
                x = P_atom(('low', size * 8, x))
            some = some ^ g ^ band(some, g)
            val = x if val is None else self.I.ite(g, x, val)
        return val if some == F1 else None

    def otver(self, ver):
        """does this memory version come (unchanged) from a transfer?"""
        seen = 0
        while seen < 20:
            seen += 1
            k = key(ver)
            if k[0] == 'otmsg':
                return k[2], k[3]
            if k[0] == 'end' or k[0] == 'loop':
                return None
            return None
        return None

    def pointer(self, p, off, mem, ctx):
        """load a pointer cell -> (Ptr, ctx of the writer)"""
        I = self.I
        I._curmem = mem
        x = I.load(p[1], P_add(p[2], off), 'ptr', I.ver(mem, p[1]))
        if x[0] == 'Ptr' and x[1][0] == 'new' and not View.atoms_in(x, lambda k: k[0] == 'ld'):
            # resolved by the engine: the loops of the allocation are bound by solving the writer
            pass
        r = self.cell(p[1], P_add(p[2], off), 8, ctx)
        if r is None or len(r) != 1:
            return None
        e, ks = r[0]
        val = e.args[1]
        if ks:
            val = I.rebuild(val, ks)
        c2 = dict(ctx); c2.update(ks)
        return val, c2
