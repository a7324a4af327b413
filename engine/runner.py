"""Common driver: obligations, known findings, evidence, exit codes (0 holds / 1 violation / 2 no answer)."""
import json, os, sys, time, traceback, importlib, multiprocessing as mp
from frontend import Broken
import frontend

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop; self.tier = tier; self.seed = seed
        self.obligations = 0; self.failed = []; self.groups = {}; self.samples = {}; self.counts = {}
        self.functions = set(); self.assumptions = []; self.explanation = ''; self.selftests = []
        self.level = 'other'

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def ob(self, ok, key, where, rule, detail='', group=None):
        """one decided obligation; `key` identifies the construct (no line numbers), `where` locates it"""
        self.obligations += 1
        g = group or key.split(':')[0]
        self.groups.setdefault(g, [0, 0])
        self.groups[g][0] += 1
        if ok:
            self.groups[g][1] += 1
            s = self.samples.setdefault(g, [])
            if len(s) < 2:
                s.append({'obligation': key, 'where': where, 'rule': rule, 'detail': str(detail)[:400]})
        else:
            self.failed.append({'key': key, 'where': where, 'rule': rule, 'detail': str(detail)[:4000]})
        return ok

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def anchors(self, n, what, minimum=1):
        if n < minimum:
            raise Broken('vanished anchor: %d %s found, expected at least %d' % (n, what, minimum))
        self.counts['anchors: ' + what] = n

    def selftest(self, ok, name):
        """positive control: the rule fires on a synthetic violation"""
        if not ok:
            raise Broken('self-test failed: ' + name)
        self.selftests.append(name)

    def analysed(self, prog, names=()):
        for n in names:
            self.functions.add(n)


def known():
    p = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def pmap(fn, items, procs=8):
    """fork-pool map (the loaded program is shared copy-on-write)"""
    items = list(items)
    if len(items) <= 1 or procs <= 1:
        return [fn(x) for x in items]
    global _fn
    _fn = fn
    with mp.get_context('fork').Pool(min(procs, len(items))) as pool:
        return pool.map(_call, items, chunksize=max(1, len(items) // (procs * 4)))


def _call(x):
    return _fn(x)


def main(argv):
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(prop, tier, seed)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    try:
        sys.path.insert(0, os.path.join(ROOT, 'checks'))
        m = importlib.import_module(prop.lower())
        m.run(ctx)
        if not ctx.obligations:
            raise Broken('no obligations generated')
    except Broken as e:
        print('NO-ANSWER property=%s %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('NO-ANSWER property=%s internal error' % prop)
        return 2
    kf = {f['key']: f for f in known().get('findings', []) if f['property'] == prop}
    viol = []; seen = set()
    for f in ctx.failed:
        if f['key'] in kf:
            if f['key'] not in seen:
                print('KNOWN-FINDING: property=%s %s' % (prop, kf[f['key']]['what']))
                seen.add(f['key'])
        else:
            viol.append(f)
    stale = [k for k in kf if k not in seen]
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    rep = os.path.join(ROOT, 'evidence', prop + '.violations.json')
    if viol:
        json.dump(viol, open(rep, 'w'), indent=1)
    elif os.path.exists(rep):
        os.unlink(rep)
    samples = []
    for g, s in ctx.samples.items():
        samples += s
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': ctx.level,
          'coverage': {'explanation': ctx.explanation, 'obligations': ctx.obligations,
                       'discharged': ctx.obligations - len(ctx.failed),
                       'obligation_groups': {g: {'generated': a, 'discharged': b} for g, (a, b) in sorted(ctx.groups.items())},
                       'functions_analysed': sorted(ctx.functions), 'counts': ctx.counts,
                       'self_tests_fired': ctx.selftests, 'known_findings_seen': sorted(seen), 'known_findings_not_seen': stale,
                       'samples': samples[:40]},
          'assumptions': ctx.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    if viol:
        for f in viol[:40]:
            print('  [%s] %s\n      at %s\n      %s' % (f['key'], f['rule'], f['where'], f['detail'][:800]))
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    print('OK property=%s tier=%s obligations=%d wall=%.1fs' % (prop, tier, ctx.obligations, time.time() - t0))
    return 0
