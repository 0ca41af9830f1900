"""the start of servers and clients, and the console of a client"""
from registry import prop
from engine.terms import *
from engine import terms as T
from engine.intrinsics import tcpstr
from contracts import client as cl, server as sv
from props.p44 import start
def begin(g, pkg, init, reg, glob_, typ, field, more):
    """the calls of a node from its start on"""
    E = g.E
    st, node, R = start(g, pkg, dict({pkg + init: 'init', pkg + reg: 'register'}, **more), pkg + glob_, typ, field)
    at = {}
    listen0 = E.intr['net.ListenTCP']
    def listen(E, st, a, site, ks, x):
        r = listen0(E, st, a, site, ks, x)
        at.setdefault(r[0][1][0], []).append(a[1]); return r
    E.intr['net.ListenTCP'] = listen
    def addr(E, st, a, site, ks, x):
        r = alloc(site, *ks); at.setdefault(a[0], []).append(r); return [(st, [r])]
    E.intr['(*net.TCPListener).Addr'] = addr
    E.intr['(*net.TCPListener).Close'] = lambda E, st, a, site, ks, x: [(st, [NIL])]
    def split(E, st, a, site, ks, x):
        w = R.fresh('Ref'); n = R.fresh('Int'); st.assume(ge0(sub(n, ONE))); R.event(st, 'split', [a[0], a[1], slice_(w, ZERO, n)], False); return [(st, [slice_(w, ZERO, n)])]
    E.intr['strings.Split'] = split
    return st, node, R, at
def registers(g, t, node, typ, at, st):
    names = [e[0] for e in t if e[0] != 'set']
    g.prove('it initialises, listens and then registers, once', st, T.B(len(names) == 3 and names[0] == 'init' and names[1].startswith('go ') and names[2] == 'register'))
    if len(names) < 3: return
    go = [e for e in t if e[0].startswith('go ')][0]; reg = [e for e in t if e[0] == 'register'][0]
    l = go[1][0] if go[1] else NIL
    if l is NIL: return                       # every port is taken: the listener stops the program
    a = g.f(reg[3], node, typ, 'LocalAddr')
    g.prove('under the address it listens at', st, T.B(a in at.get(l, ())))
def server(g):
    """a server registers once, after it listens, under the address it listens at"""
    st, node, R, at = begin(g, sv.SN, 'initAnonServer', 'serverRegister', 'anonServer', sv.SV, 'IsConnected', {})
    outs = trace_all(g, R, sv.SN + 'Launch', st)
    for t in outs: registers(g, t, node, sv.SV, at, st)
def trace_all(g, R, fn, st):
    """what was done when the run first waits, in every path"""
    seen = []
    old = R.loop
    def loop(fr, s, hdr, prev, body):
        tr = R.trace(s)
        if any(e[0] == 'register' for e in tr) and tr not in seen: seen.append(tr)
        return old(fr, s, hdr, prev, body)
    g.E.do_loop = loop
    g.E.call_all(fn, st, [], '/g', ())
    g.nlive += 1
    if not seen: g.fail('the node registers')
    for _, log in R.runs.values():
        g.prove('nothing of the start is done again', st, T.B(not any(e[0] in ('init', 'register') or e[0].startswith('go ') for l in log for t in l for e in t)))
    return seen
OPS = {'vote': 'sendVote', 'post': 'postBridge', 'get': 'requestBridges'}
def client(g):
    """a client registers once, after it listens, under the address it listens at"""
    st, node, R, at = begin(g, cl.CL, 'initClient', 'register', 'dissentClient', cl.DC, 'Status', {cl.CL + f: f for f in OPS.values()})
    outs = trace_all(g, R, cl.CL + 'Launch', st)
    for t in outs: registers(g, t, node, cl.DC, at, st)
    runs = [(pre, log) for pre, log in R.runs.values() if any(t for l in log for t in l)]
    if len(runs) != 1: return g.fail('one loop takes commands')
    for paths in runs[0][1]:
        for t in paths: command(g, t)
    for t in R.left:
        names = [e[0] for e in t]
        g.prove('only exit ends the program, and does nothing else', t.end, eq(g.at(t.end, t[1][1][2], ZERO, 'string'), S('exit')) if names == ['key', 'split'] else FALSE)
def command(g, t):
    names = [e[0] for e in t]
    ops = [e for e in t if e[0] in OPS.values()]
    g.prove('one line is read and at most one operation done', t[0][3], T.B(names[:2] == ['key', 'split'] and len(t) == 2 + len(ops) and len(ops) < 2))
    if names[:2] != ['key', 'split']: return
    key, sp = t[0], t[1]
    g.prove('the line is cut at blanks', sp[3], and_(eq(sp[1][0], T.b2s(key[1][0])), eq(sp[1][1], S(' '))))
    last = t[-1][3]
    word = lambda i: g.at(last, sp[1][2], I(i), 'string')
    number = lambda i: uf('atoi', 'Int', word(i))
    for name, op in OPS.items():
        if ops and ops[0][0] == op:
            g.prove('%s is done for %s only' % (op, name), last, eq(word(0), S(name)))
            want = {'vote': lambda: [number(1), number(2)], 'post': lambda: [word(1)], 'get': lambda: [number(1)]}[name]()
            g.prove('%s gets what was typed' % op, last, and_(*[eq(a, b) for a, b in zip(ops[0][1], want)]))
        else: g.prove('no %s is left undone' % name, t.end, neq(word(0), S(name)))
    if not ops: g.prove('no exit is left undone', t.end, neq(word(0), S('exit')))
prop('C45', contracts=[], goals=[server, client], replay=[('cmd/client', 'c45_test.go', 'TestZV'), ('cmd/server', 'c45s_test.go', 'TestZV')])
