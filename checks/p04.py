"""P04  the two parties' message sequences match one for one."""
from dom import *
from gcmodel import *
import gcmodel
from view import *
from duality import *
from runner import pmap

PARTS = [('all sizes positive', ())] + [('%s empty' % '+'.join(z), z) for z in (('e_init',), ('e_input',), ('e_init', 'e_input'), ('g_init',), ('g_input',), ('output',))]


def session(job):
    low, noot, (pn, zero) = job
    facts = [f for x, f in zip([y for y in SIZES if y != 'dff'], positive()) if x not in zero]
    sides = []
    for root, l in (('GarbleStr', 'G'), ('EvaluateStr', 'E')):
        S = Session(_P, root, low, noot, extra_facts=facts, zero=zero)
        sides.append(Side(S, l))
    D = Duality(sides[0], sides[1], values=(0, 1, sides[0].S.SECRET, sides[0].S.INV))
    D.run()
    nm = '%s/%s/%s' % ('low' if low else 'high', 'noOT' if noot else 'OT', pn)
    def w(n):
        return '-' if n is None else str(n.site)
    errs = [(what, w(g), w(e), ' '.join(desc)[:1500]) for what, g, e, desc in D.err]
    return nm, errs, [(g.e.name, w(g), e.e.name, w(e), len(d)) for g, e, d in D.pairs.values()], D.ncases, len(D.loops)


def run(ctx):
    global _P
    _P = gcmodel.prog()
    jobs = [(low, noot, p) for low in (False, True) for noot in (False, True) for p in PARTS]
    for nm, errs, pairs, ncases, nloops in pmap(session, jobs):
        for gname, gw, ename, ew, n in pairs:
            ctx.ob(True, nm + ':pair:%s:%s' % (gname, ename), gw + ' <-> ' + ew, 'a message sent is received at the same point with the same length', '%d cases' % n, group='message pairs')
        seen = set()
        for what, gw, ew, desc in errs:
            k = nm + ':' + what.split(':')[0]
            if k in seen:
                continue
            seen.add(k)
            ctx.ob(False, k, gw + ' <-> ' + ew, what, desc, group='message pairs')
        ctx.ob(not errs, nm + ':session', 'GarbleStr <-> EvaluateStr', 'the two sessions are dual in every case', '%d cases, %d loops' % (ncases, nloops), group='sessions')
        ctx.ob(len(pairs) >= 4, nm + ':anchors', 'GarbleStr <-> EvaluateStr', 'messages were found on both sides', len(pairs), group='sessions')
        ctx.count('cases', ncases)
    ctx.functions |= {'GarbleStr', 'EvaluateStr'}
    ctx.explanation = ('The send/receive events of GarbleStr and EvaluateStr are extracted as trees of guarded loops and compared body by body: every combination of guard conditions over common public data is enumerated (with pairwise linear pruning), and in each the two sequences must be dual in direction, primitive and length, loops must repeat equally and be left together.')
