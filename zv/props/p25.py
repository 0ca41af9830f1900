"""Delivery of signed assignments.  The log of an assignment is well formed when it has one position for every server and
one for the coordinator and its counter is the number of filled positions.  handleRequestBridges makes well-formed entries
(its contract); every iteration of the loop in handleGotSignatures, from any state in which the entry of the
bridge it treats is well formed, does exactly one allowed step (goal `step`); the two counting lemmas turn that into: the
counter stays the number of filled positions, and a delivery happens only with all of them filled."""
from registry import prop
from engine import terms as T
from engine.terms import *
from engine.exec import Unsupported, blen
from engine.intrinsics import tcpstr
from contracts import coordinator as co, bridge as br, elgamal as eg, util as ut
from contracts.coordinator import CN, CO, M, MAS, MBR, MADDR, AS, BI, SI
ADD, FIN, GET, INIT, IDX = [M + n for n in ('AddAssignmentSignature', 'FinishCollectingAssignmentSignatures', 'GetAssignmentSignatures', 'InitAssignmentSignatures', 'GetServerIndex')]
EB = 'M:[]byte'

class Step:
    """contract of one iteration of the loop that records signatures"""
    def __init__(self, g, pm, addr):
        self.g = g; self.pm = pm; self.addr = addr; self.steps = 0; self.sends = 0; self.seen = False
    def heaps(self, E): return ['MV:' + MAS, 'MD:' + MAS, 'MV:' + MBR, 'MD:' + MBR, '$sent']
    def claims(self, touched): return 'MV:' + MAS in touched or '$sent' in touched
    def maps(self, E, st):
        c = self.g.view(st); a = co.me(c)
        return c, c.f(a, CO, 'AssignmentSignaturesLog'), c.f(a, CO, 'Bridges')
    def state(self, E, s, j):
        """signature lists stay where they were; counters, use marks and what was sent so far are arbitrary"""
        g = self.g; c, log, brs = self.maps(E, s); self.s0 = s.copy(); self.j = j; self.seen = True
        k = freshvar('k', 'Str'); h = s.heaps.get('MV:' + MAS, hbase('MV:' + MAS, 'init', 0))
        sl = lambda k: T.sfield(T.sel(h, pair(log, k), 'Struct', E.decide(s)), 0, 'Slice')
        self.sl = sl
        AST = E.p.canon(AS); BIT = E.p.canon(BI)
        s.heaps['MV:' + MAS] = T.hfn(h, log, lam(k, struct(AST, sl(k), sym('inv:count', 'Int', j, k))))
        hb = s.heaps.get('MV:' + MBR, hbase('MV:' + MBR, 'init', 0)); k2 = freshvar('k', 'Str')
        s.heaps['MV:' + MBR] = T.hfn(hb, brs, lam(k2, struct(BIT, T.sfield(T.sel(hb, pair(brs, k2), 'Struct', E.decide(s)), 0, 'Ref'), sym('inv:used', 'Bool', j, k2))))
        hd = s.heaps.get('MD:' + MBR, hbase('MD:' + MBR, 'init', 0)); k3 = freshvar('k', 'Str')
        s.heaps['MD:' + MBR] = T.hfn(hd, brs, lam(k3, sym('inv:known', 'Bool', j, k3)))
        s.heaps['$sent'] = sym('inv:sent', 'Bag', j)
        # the entry of the bridge of this iteration is well formed
        ok, n, raw = br.blist(c.param(self.pm, 'assignments'))
        self.raw = raw
        _, a = br.drec(c, 'pbuf', br.ASG, raw(j)); self.a = a; self.k = a['Addr']
        ns = slen(c.f(co.me(c), CO, 'ServerList')); self.ns = ns
        has, v = c.mget(MAS, log, self.k); self.has = has
        g.assume(s, or_(not_(has), eq(slen(sl(self.k)), add(ns, ONE))))
    def step(self, E, pre, st, j, ws):
        g = self.g; c, log, brs = self.maps(E, pre); d = E.decide(st); k = self.k; self.steps += 1
        if not g.alive(st): return
        tag = 'iteration %d: ' % self.steps
        sl = self.sl(k)
        # only the entry of this bridge, only in allowed cells
        cells = []
        bk, bv = g.mget(pre, MBR, brs, k)
        for n, key, v in ws:
            r = T.root(key if key is None or key.op != 'pair' else key.args[0]) if key is not None else None
            if n in ('MV:' + MAS, 'MD:' + MAS, 'MV:' + MBR, 'MD:' + MBR):
                m = log if n[3:] == MAS else brs
                g.prove(tag + 'only the entry of this bridge is written', st, and_(eq(key.args[0], m), eq(key.args[1], k)))
                if n == 'MV:' + MBR: g.prove(tag + 'the bridge keeps its provider and becomes used', st, 
                            and_(c.vf(v, BI, 'Used'), or_(not_(bk), eq(c.vf(v, BI, 'Nym'), c.vf(bv, BI, 'Nym')))))
                if n == 'MD:' + MAS: g.prove(tag + 'entries are not created here', st, self.has)
            elif n == '$sent': pass
            elif r is not None and r.op == 'alloc': pass
            elif n == EB and key is not None and key.op == 'elem': cells.append(key)
            else: g.fail(tag + 'writes outside the log: %s' % n, T.show(key)[:200] if key is not None else '')
        ok, v = g.mget(st, MAS, log, k); v = E.simp(st, v)
        l1, c1 = c.vf(v, AS, 'Signatures'), c.vf(v, AS, 'Count')
        c0 = sym('inv:count', 'Int', j, k)
        g.prove(tag + 'the signature list stays the list of the bridge', st, eq(l1, sl) if l1 is not sl else TRUE)
        i = self.index(st)
        cell = E.elem_addr(sl, i)
        if cells and g.prove(tag + 'the bridge has an entry', st, self.has):
            st = st.copy(); g.assume(st, self.has)
            cells = [E.simp(st, x) for x in cells]; d = E.decide(st)
        for x in cells: g.prove(tag + 'only the position of the sender is written', st, eq(x, cell))
        heap = lambda s: s.heaps.get(EB, hbase(EB, 'init', 0))
        before, after = T.sel(heap(pre), cell, 'Bytes', d), T.sel(heap(st), cell, 'Bytes', d)
        sig = br.blist(c.param(self.pm, 'signatures'))[2](j)
        g.prove(tag + 'either nothing is recorded, or the first signature of this sender is recorded and counted', st,
                or_(and_(eq(c1, c0), eq(after, before)), and_(self.has, eq(c1, add(c0, ONE)), eq(blen(before), ZERO), neq(blen(sig), ZERO), eq(after, sig))))
        g.prove(tag + 'the first signature of a sender is recorded', st, or_(not_(and_(self.has, eq(blen(before), ZERO), neq(blen(sig), ZERO))), eq(c1, add(c0, ONE))))
        # messages
        s1 = st.heaps['$sent']; s0 = pre.heaps['$sent']
        full = and_(self.has, eq(c1, add(self.ns, ONE)))
        if s1 is s0:
            g.prove(tag + 'nothing is delivered only while positions are empty', st, not_(full)); return
        parts = list(s1.args) if s1.op in ('bag', 'bag+') else [s1]
        if s0 not in parts or len(parts) != 2: g.fail(tag + 'at most one delivery', T.show(s1)[:200]); return
        parts.remove(s0); self.sends += 1
        g.prove(tag + 'delivered only when every position has been counted', st, full)
        s2 = st.copy(); s2.heaps['$sent'] = parts[0] if parts[0].sort == 'Bag' else bag1(parts[0])
        (dst, et, p, src), = g.sent(s2)
        get = lambda x: T.unbox('[]byte', p[x], 'Bytes') if x in p else None
        dt = co.ADT(c); asg = T.enc(dt, T.rec(dt[5:], self.a['NymR'], self.a['Addr'], self.a['Nym']))
        has, to = g.mget(pre, MADDR, c.f(co.me(c), CO, 'RequesterAddrs'), T.pstr(self.a['NymR']))
        g.prove(tag + 'it goes to the recorded address of the requester', st, and_(eq(et, I(co.GOT_SIGNS)), eq(dst, ite(has, tcpstr(E, pre, to), tcpstr(E, pre, NIL)))))
        if set(p) != {'assignment', 'signatures', 'signature'}: g.fail(tag + 'contents of the delivery', str(sorted(p))); return
        g.prove(tag + 'it carries the assignment', st, eq(get('assignment'), asg))
        at = lambda i: T.sel(heap(st), E.elem_addr(sl, i), 'Bytes', d)
        g.prove(tag + 'it carries the complete signature list', st, eq(get('signatures'), co.enc_list(add(self.ns, ONE), at)))
        g.prove(tag + 'the coordinator signed both', st, eg.accepts(cat(get('assignment'), get('signatures')), T.gexp(GB, c.sv(c.f(co.me(c), CO, 'PrivateKey'))), get('signature'), GB))
    def index(self, st):
        c = self.g.view(st); a = co.me(c)
        return self.idx

def step(g):
    """one iteration of the loop over the signatures of a server, from any state with a well-formed log"""
    E = g.E
    pm, addr = g.params(CN + 'handleGotSignatures')
    c = g.view(g.st); a = co.me(c)
    co.wf_addrs(c)
    g.assume(g.st, neq(a, NIL), neq(addr, NIL), neq(c.f(a, CO, 'PrivateKey'), NIL))
    inv = Step(g, pm, addr)
    l = c.f(a, CO, 'ServerList'); n = slen(l)
    w = freshvar('i', 'Int')
    sa = lambda i: c.vf(c.at(l, i, SI), SI, 'Addr')
    inv.idx = T.first(n, lam(w, and_(co.ipeq(c.f(sa(w), co.TCP, 'IP'), c.f(addr, co.TCP, 'IP')), eq(c.f(sa(w), co.TCP, 'Port'), c.f(addr, co.TCP, 'Port')))))
    E.loopinv = inv
    try: outs = g.call(CN + 'handleGotSignatures', g.st, pm, addr)
    finally: E.loopinv = None
    if not inv.seen: g.fail('the loop over the signatures is found')
    elif not inv.sends: g.fail('a complete log is delivered')
    for st, r in outs:
        b = E.sent(st)
        for n in ('MV:' + MAS, 'MV:' + MBR):
            h = st.heaps.get(n)
            g.prove('the log changes only in the loop', st, B(h is g.st.heaps.get(n) or h.op in ('hbase', 'hfn')))
        g.prove('nothing is sent outside the loop', st, B(b is BAGE or (b.op == 'sym' and b.args[0] == 'inv:sent')))

def counting(g):
    """counting lemmas, by induction on the number of positions: (1) filling one empty position adds one to the number of
    filled positions; (2) if as many positions are filled as there are, all are"""
    import z3
    b, b2 = z3.Function('b', z3.IntSort(), z3.IntSort()), z3.Function('b2', z3.IntSort(), z3.IntSort())
    S, S2 = z3.Function('S', z3.IntSort(), z3.IntSort()), z3.Function('S2', z3.IntSort(), z3.IntSort())
    n, p, i = z3.Ints('n p i')
    bits = lambda f: z3.ForAll([i], z3.And(f(i) >= 0, f(i) <= 1))
    base = [S(0) == 0, S2(0) == 0, bits(b), bits(b2), n >= 0, S(n + 1) == S(n) + b(n), S2(n + 1) == S2(n) + b2(n)]
    upd = [p >= 0, b(p) == 0, b2(p) == 1, z3.ForAll([i], z3.Implies(i != p, b2(i) == b(i)))]
    L1 = lambda m: S2(m) == S(m) + z3.If(p < m, 1, 0)
    L2 = lambda m: z3.And(S(m) <= m, z3.Implies(S(m) == m, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), b(i) == 1))))
    for name, hyp, goal in (('filling a position counts it: base', base + upd, L1(z3.IntVal(0))), ('filling a position counts it: step', base + upd + [L1(n)], L1(n + 1)),
                            ('a full count means every position: base', base, L2(z3.IntVal(0))), ('a full count means every position: step', base + [L2(n)], L2(n + 1))):
        s = z3.Solver(); s.set('timeout', 20000); s.add(*hyp); s.add(z3.Not(goal))
        g.nlive += 1; g.results.append(('%s: %s' % (g.name, name), s.check() == z3.unsat, None))

prop('C25', contracts=[ADD, FIN, GET, INIT, IDX, CN + 'handleRequestBridges'], goals=[step, counting], replay=[('cmd/coordinator', 'c25_test.go', 'TestZV')])
