from registry import prop
from engine.terms import *
from engine import terms as T
from contracts import client as cl, pedersen as pd, util as ut
DC = cl.DC
def node(g, st):
    cln = g.ref('client'); v = g.view(st)
    g.assume(st, neq(cln, NIL))
    pb = g.f(st, cln, DC, 'PedersenBase')
    g.assume(st, neq(pb, NIL)); pd.wf(v, pb)
    for n in ('PCommr', 'OnetimePseudoNym', 'R', 'PrivateKey'): g.assume(st, neq(g.f(st, cln, DC, n), NIL))
    return cln
def opening(g, st, cln):
    """(commitment, what reputation and randomness of the client open to)"""
    v = g.view(st)
    return g.pv(st, g.f(st, cln, DC, 'PCommr')), pd.val(*pd.gh(v, g.f(st, cln, DC, 'PedersenBase')), g.f(st, cln, DC, 'Reputation'), g.sv(st, g.f(st, cln, DC, 'R')))
def listed(g, st, key, n, nym, m):
    """position of the pseudonym in a list of a message, present together with its companion"""
    w = freshvar('i', 'Int')
    i = T.first(n, lam(w, eq(nym, key(w))))
    if i.op == 'first':
        for x in T.first_facts(i): g.assume(st, x)
    g.assume(st, lt(i, n)); g.assume(st, lt(i, m))
    return i
def finalised(g, st, cln, pm, com, label):
    """after the announcement message whose bases are GT^E, HT^E and which lists com^E for this client, the commitment opens"""
    v = g.view(st); E = g.any('E', 'Int')
    gb = v.param(pm, 'g'); ok1, n, key = ut.plist(v.param(pm, 'keys')); ok2, m, val = ut.plist(v.param(pm, 'vals'))
    G_, H_ = v.param(pm, 'GT'), v.param(pm, 'HT')
    for x in (ok1, ok2, T.pvalid(gb), T.pvalid(G_), T.pvalid(H_)): g.assume(st, x)
    nym = T.gexp(T.unpb(gb), g.sv(st, g.f(st, cln, DC, 'PrivateKey')))
    i = listed(g, st, key, n, nym, m)
    GT, HT = com[1:]
    g.assume(st, eq(T.unpb(G_), gexp(GT, E))); g.assume(st, eq(T.unpb(H_), gexp(HT, E))); g.assume(st, eq(val(i), gexp(com[0], E)))
    for s, _ in g.call(cl.CL + 'handleAnnouncementFinalize', st, pm, cln):
        C, V = opening(g, s, cln)
        g.prove(label, s, eq(C, V))
        g.prove(label + ': under the own pseudonym', s, eq(g.pv(s, g.f(s, cln, DC, 'OnetimePseudoNym')), nym))
def after_announcement(g):
    """the randomised commitment of an announcement opens to the reputation with the randomness held, if the one before did"""
    st = g.st; cln = node(g, st)
    C, V = opening(g, st, cln); g.assume(st, eq(C, V))
    finalised(g, st, cln, g.ref('finalize'), (C,) + pd.gh(g.view(st), g.f(st, cln, DC, 'PedersenBase')), 'opens after an announcement')
def first_round(g):
    """a client that has just received its first randomness holds the opening of the commitment made for it at registration"""
    st = g.st; cln = node(g, st)
    GT, HT = pd.gh(g.view(st), g.f(st, cln, DC, 'PedersenBase'))
    pm = g.ref('init'); v = g.view(st)
    r = T.unsb(v.param(pm, 'r'))
    GT, HT = g.any('GT0', 'G'), g.any('HT0', 'G')
    com = pd.val(GT, HT, g.f(st, cln, DC, 'Reputation'), r)
    for s, _ in g.call(cl.CL + 'handleInitPedersenR', st, pm, cln):
        finalised(g, s, cln, g.ref('finalize'), (com, GT, HT), 'opens after the first announcement')
def after_round(g):
    """score and randomness of a round move reputation and randomness exactly as the coordinator moved the commitment"""
    st = g.st; cln = node(g, st)
    C, V = opening(g, st, cln); g.assume(st, eq(C, V))
    v = g.view(st); nym = g.pv(st, g.f(st, cln, DC, 'OnetimePseudoNym'))
    GT, HT = pd.gh(v, g.f(st, cln, DC, 'PedersenBase'))
    p1, p2 = g.ref('rdiffs'), g.ref('diffs')
    ok1, n, key = ut.plist(v.param(p1, 'keys')); ok2, m, rd = ut.secrets_in(v.param(p1, 'rDiffs'))
    g.assume(st, ok1); g.assume(st, ok2)
    r = rd(listed(g, st, key, n, nym, m))
    ok3, n2, key2 = ut.plist(v.param(p2, 'keys')); ok4, m2, df = ut.ints_in(v.param(p2, 'diffs'))
    g.assume(st, ok3); g.assume(st, ok4)
    for scored in (True, False):
        s0 = st.copy()
        if scored: d = df(listed(g, s0, key2, n2, nym, m2))
        else:
            d = ZERO
            g.assume(s0, v.all(n2, lambda i: neq(nym, key2(i))))
        com = (gmul(C, pd.val(GT, HT, d, r)), GT, HT)
        for s, _ in g.call(cl.CL + 'handleBroadcastPedersenRDiff', s0, p1, cln):
            for s2, _ in g.call(cl.CL + 'handleRoundEnd', s, p2, cln):
                finalised(g, s2, cln, g.ref('finalize'), com, 'opens after a round %s score' % ('with' if scored else 'without'))
H = ('handleInitPedersenR', 'handleAnnouncementFinalize', 'handleRoundEnd', 'handleBroadcastPedersenRDiff', 'initClient')
prop('C30', contracts=[cl.CL + h for h in H], goals=[after_announcement, first_round, after_round], replay=[('cmd/client', 'c30_test.go', 'TestZV')])
