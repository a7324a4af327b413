"""Two-party runs of the built TinyGarble against a plain reference simulator (used for replays and demos)."""
import os, subprocess, socket, tempfile, random, shutil, sys

REPO = os.environ.get('TG_REPO', os.getcwd())
BIN = os.path.join(REPO, '_build/garbled_circuit/TinyGarble')
T = {'AND': 8, 'ANDN': 4, 'NAND': 7, 'NANDN': 11, 'OR': 14, 'ORN': 13, 'NOR': 1, 'NORN': 2, 'XOR': 6, 'XNOR': 9, 'NOT': 12}
F = {8: lambda a, b: a & b, 4: lambda a, b: a & (1 - b), 7: lambda a, b: 1 - (a & b), 11: lambda a, b: 1 - (a & (1 - b)),
     14: lambda a, b: a | b, 13: lambda a, b: a | (1 - b), 1: lambda a, b: 1 - (a | b), 2: lambda a, b: 1 - (a | (1 - b)),
     6: lambda a, b: a ^ b, 9: lambda a, b: 1 - (a ^ b), 12: lambda a, b: 1 - a}
C0, C1 = -2, -3


class Circ:
    """sizes: p_init,g_init,e_init,p_input,g_input,e_input ; dffs [(D,I)] ; gates [(type,in0,in1)] ; outputs; terminate"""

    def __init__(self, pi=0, gi=0, ei=0, p=0, g=0, e=0, dff=(), gates=(), outputs=(), term=0):
        self.sz = [pi, gi, ei, p, g, e]
        self.dff = list(dff); self.gates = list(gates); self.outputs = list(outputs); self.term = term

    def lo(self, k):
        return sum(self.sz[:k])

    @property
    def dlo(self):
        return sum(self.sz)

    @property
    def glo(self):
        return self.dlo + len(self.dff)

    def text(self):
        L = [' '.join(map(str, self.sz + [len(self.dff), len(self.outputs), self.term, len(self.gates)]))]
        L.append(' '.join(str(a) for t, a, b in self.gates)); L.append(' '.join(str(b) for t, a, b in self.gates))
        L.append(' '.join(str(t) for t, a, b in self.gates)); L.append(' '.join(map(str, self.outputs)))
        L.append(' '.join(str(d) for d, i in self.dff)); L.append(' '.join(str(i) for d, i in self.dff))
        return '\n'.join(L) + '\n'

    def sim(self, pinit, ginit, einit, pin, gin, ein, cycles, term_period=0):
        """ints; returns (list of per-cycle output bit lists, cycles run)"""
        dv = []
        init = []
        for v, n in zip((pinit, ginit, einit), self.sz[:3]):
            init += [(v >> i) & 1 for i in range(n)]
        outs = []
        for c in range(cycles):
            w = list(init)
            for v, n in zip((pin, gin, ein), self.sz[3:]):
                w += [(v >> (c * n + i)) & 1 for i in range(n)]
            get = lambda w, i: 0 if i == C0 else 1 if i == C1 else w[i]
            if c == 0:
                d = [get(w, i) for _, i in self.dff]
            else:
                d = [get(prev, D) for D, _ in self.dff]
            w += d
            for t, a, b in self.gates:
                w.append(F[t](get(w, a), get(w, b) if t != 12 else 0))
            outs.append([get(w, o) for o in self.outputs])
            prev = w
            if self.term and term_period and (c % term_period == 0 or True) and False:
                pass
        return outs


def free_port():
    s = socket.socket(); s.bind(('127.0.0.1', 0)); p = s.getsockname()[1]; s.close()
    return p


def hexw(v):
    return '%X' % v


def run(circ, a=(0, 0), b=(0, 0), pub=(0, 0), cycles=1, mask=0, ot=True, low=False, term=0, mode=None, timeout=60, raw_mask=None, scd=None):
    """a=(init,input) of Alice, b=(init,input) of Bob, pub=(p_init,p_input); returns ((rc,out),(rc,out))"""
    d = tempfile.mkdtemp(prefix='tgdemo.')
    try:
        f = os.path.join(d, 'c.scd')
        open(f, 'w').write(scd if scd is not None else circ.text())
        port = free_port()
        com = ['-i', f, '-p', str(port), '--p_init', hexw(pub[0]), '--p_input', hexw(pub[1]), '-c', str(cycles),
               '--output_mask', raw_mask if raw_mask is not None else hexw(mask)]
        if not ot:
            com.append('--disable_OT')
        if low:
            com.append('--low_mem_foot')
        if term:
            com += ['-t', str(term)]
        if mode is not None:
            com += ['--output_mode', str(mode)]
        A = subprocess.Popen([BIN, '-a'] + com + ['--init', hexw(a[0]), '--input', hexw(a[1])], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, text=True)
        B = None
        import time
        for _ in range(400):      # wait for the listener without connecting to it
            if A.poll() is not None or any(('%04X' % port) in l and ' 0A ' in l for l in open('/proc/net/tcp')) :
                break
            time.sleep(0.01)
        B = subprocess.Popen([BIN, '-b'] + com + ['--init', hexw(b[0]), '--input', hexw(b[1])], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, text=True)
        res = []
        t0 = time.time()
        for P in (A, B):
            try:
                o, e = P.communicate(timeout=max(0.5, timeout - (time.time() - t0)))
                res.append((P.returncode, o.strip(), e))
            except subprocess.TimeoutExpired:
                for Q in (A, B):
                    Q.kill()
                o, e = P.communicate()
                res.append(('timeout', o.strip(), e))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)
