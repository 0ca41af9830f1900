"""the coordinator's rounds"""
from registry import prop
from engine.terms import *
from engine import terms as T
from engine.rounds import Rounds
from engine.exec import State, Unsupported
from contracts import coordinator as co
READY, MESSAGE = 1, 3
PH = {'initCoordinator': 'init', 'configCommParams': 'config', 'addFakeClients': 'fillers', 'clearBuffer': 'clear', 'announce': 'announce', 'vote': 'vote', 'roundEnd': 'end'}
FIRST = ['init', 'key', 'config', 'clear', 'announce', 'key', 'vote', 'key', 'end']
LATER = ['clear', 'announce', 'key', 'vote', 'key', 'end']
def start(g, pkg, watch, glob_, typ, field):
    """the state in which the program starts, and a run that observes the calls of `watch`"""
    E = g.E
    s0 = State()
    for n, t in E.p.globals.items():                # Go sets every variable to its zero value first
        if n.startswith(pkg):
            t = E.p.elem(t)
            try: E.store(s0, t, gobj(n), E.p.zero(t))
            except Unsupported: pass
    outs = [o for o in E.inline(pkg + 'init', s0, [], 'init', ()) if o.kind == 'ret']
    st = max(outs, key=lambda o: len(o.st.heaps)).st
    node = g.ref('node'); g.assume(st, neq(node, NIL))
    i = [f['name'] for f in E.p.fields(typ)].index(field)
    cell = (fld(node, E.fname(typ, i)), E.p.fields(typ)[i]['t'])
    R = Rounds(E, watch, lambda s: [cell])
    init = [n for n in watch if '.init' in n][0]
    rec = E.intr[init]
    def made(E, st, a, site, ks, x):
        r = rec(E, st, a, site, ks, x); E.store(st, '*' + typ, gobj(glob_), node); return r
    E.intr[init] = made
    return st, node, R
def calls(t): return [e for e in t if e[0] != 'set' and not e[0].startswith('go ')]
def order(g):
    """what the coordinator does from its start on, in any number of rounds"""
    st, node, R = start(g, co.CN, {co.CN + n: e for n, e in PH.items()}, co.CN + 'anonCoordinator', co.CO, 'Status')
    g.E.call_all(co.CN + 'Launch', st, [], '/g', ())
    g.nlive += 1
    runs = [(pre, log) for pre, log in R.runs.values() if any(log)]
    if len(runs) != 1: return g.fail('one loop runs the rounds')
    (pre, log), = runs
    def proven(what, e, c): g.prove(what, e[3], c)
    def sequence(t, want, first):
        c = [e[0] for e in calls(t)]
        if first:
            n = [i for i, e in enumerate(c) if e == 'fillers']
            ok = len(n) == 1 and 'config' in c[:n[0]] and 'announce' in c[n[0]:]
            g.prove('fillers once, between setup and the first announcement', st, B(ok))
            c = [e for e in c if e != 'fillers']
        g.prove('%s: %s' % ('setup and first round' if first else 'a later round', ', '.join(want)), st, B(c == want))
    def states(t):
        names = [e[0] for e in t]
        c = calls(t)
        if not c or 'announce' not in names or 'end' not in names: return
        proven('a round starts when the state is ready', t[0], eq(t[0][2][0], I(READY)))
        a = names.index('announce'); e = names.index('end')
        sets = [x for x in t[:a] if x[0] == 'set']
        if sets: proven('the state is not yet that of posting when the table is sent', sets[-1], neq(sets[-1][1][0], I(MESSAGE)))
        after = [x for x in t[a + 1:] if x[0] != 'set']
        k = t.index(after[0])
        g.prove('the state is not touched while the servers work on the table', st, B(all(x[0] != 'set' for x in t[a + 1:k])))
        proven('posting starts when the table is back', after[0], eq(after[0][2][0], I(MESSAGE)))
        for x in t[k:e]:
            if x[0] == 'set': proven('the round is not declared complete before its end', x, neq(x[1][0], I(READY)))
        g.prove('the state is not touched while the servers work on the end of the round', st, B(all(x[0] != 'set' for x in t[e + 1:])))
    g.prove('a listener runs before the first key', st, B('key' in [e[0] for e in pre] and any(e[0].startswith('go ') for e in pre[:[e[0] for e in pre].index('key')])))
    sets = [e for e in pre if e[0] == 'set']
    if sets: proven('the first round may start after setup', sets[-1], eq(sets[-1][1][0], I(READY)))
    g.prove('the first round may start after setup', st, B(bool(sets)))
    for i, l in enumerate(log if len(log) > 1 else log * 2):
        if not l: g.fail('a round is run')
        for t in l:
            sequence((pre if i == 0 else ()) + t, FIRST if i == 0 else LATER, i == 0); states(t)
prop('C44', contracts=[co.CN + f for f in ('announce', 'handleAnnouncement', 'roundEnd', 'handleRoundEnd', 'clearBuffer', 'vote', 'initCoordinator')], goals=[order], replay=[('cmd/coordinator', 'c44_test.go', 'TestZV')])
