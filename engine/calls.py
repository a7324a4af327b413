"""Un-inlined view of the program: call sites, call graph (calls and taken addresses), simple CFG queries."""
from frontend import program, Broken


class Calls:
    def __init__(self, prog=None):
        self.p = prog or program(inline_none=True)
        self.by_m = self.p.functions
        self.sites = {}          # mangled -> [(block, index, ins)]
        self.out = {}
        for m, f in self.by_m.items():
            s = []
            tg = set()
            for bi, b in enumerate(f['blocks']):
                for ii, i in enumerate(b):
                    if i['op'] in ('call', 'invoke'):
                        s.append((bi, ii, i))
                        if i.get('mangled'):
                            tg.add(i['mangled'])
                    for a in self.globals_in(i):
                        if a in self.by_m:
                            tg.add(a)
            self.sites[m] = s
            self.out[m] = tg

    def globals_in(self, i):
        for a in i.get('args', []):
            if isinstance(a, list) and a and a[0] in ('g', 'f', 'fn'):
                yield a[1]

    def dem(self, m):
        return self.by_m[m]['dem'] if m in self.by_m else m

    def reaching(self, name):
        """demangled names of the functions from which `name` is reachable (excluding itself unless recursive)"""
        tg = {f['mangled'] for f in self.by_m.values() if f['dem'] == name}
        rev = {}
        for m, o in self.out.items():
            for t in o:
                rev.setdefault(t, set()).add(m)
        seen = set(); todo = list(tg)
        while todo:
            x = todo.pop()
            for y in rev.get(x, ()):
                if y not in seen:
                    seen.add(y); todo.append(y)
        return {self.dem(m) for m in seen}

    def site(self, i):
        d = i.get('dbg') or []
        return '%s:%s (%s)' % tuple(d[0][:3]) if d else '?'
