"""Endless loops that run beside message handlers in other goroutines: what a run does is a sequence of observed events.
A loop is executed from the state on entry, then from the state its body leaves, until the cells it writes settle
(cells that keep changing become unknown); a path to the loop head with no event is waiting.  The cells that handlers
change (`shared`) are unknown again at every event, pause and loop head."""
from .terms import *
from . import terms as T
from .exec import Unsupported, Outcome, State, blen
from . import intrinsics as I_
I_.DOC.update({'(*net.TCPListener).AcceptTCP': 'the next connection, or an error', 'io.Copy': 'appends all that arrives on the connection, or fails', 'io.ReadAll': 'all that arrives on the connection, or an error',
               'net.ListenTCP': 'a listener, or an error', 'bufio.NewReader': 'a reader', '(*bufio.Reader).ReadLine': 'waits for the operator', '(*bufio.Reader).ReadString': 'waits for the operator'})
def received(c): return sym('received', 'Bytes', c)

class Run(tuple):
    """the events of one pass through a loop, and the state after it"""
    def __new__(cls, t, end):
        r = tuple.__new__(cls, t); r.end = end; return r

class Rounds:
    def __init__(self, E, watch, shared=lambda st: []):
        self.E = E; self.shared = shared; self.runs = {}; self.left = []; self.own = False; self.n = 0
        E.contracts = {n: c for n, c in E.contracts.items() if n not in watch}
        E.intr = dict(E.intr)
        for n, name in watch.items(): E.intr[n] = self.recorder(name)
        E.intr['time.Sleep'] = lambda E, st, a, site, ks, x: (self.disturb(st), [(st, [])])[1]
        E.intr['bufio.NewReader'] = lambda E, st, a, site, ks, x: [(st, [alloc(site, *ks)])]
        for n, k in (('(*bufio.Reader).ReadLine', 3), ('(*bufio.Reader).ReadString', 2), ('(*bufio.Reader).ReadBytes', 2), ('fmt.Scanln', 2)):
            E.intr[n] = self.recorder('key', k)
        def accept(E, st, a, site, ks, x):
            c = self.fresh('Ref'); s2 = st.copy(); st.assume(neq(c, NIL)); self.event(st, 'accept', [c])
            return [(st, [c, NIL]), (s2, [NIL, alloc(site + 'e', *ks)])]
        E.intr['(*net.TCPListener).AcceptTCP'] = accept
        def copy(E, st, a, site, ks, x):
            w, r = a
            s2 = st.copy(); E.sp_store(s2, 'HS', w, self.fresh('Bytes'))
            E.sp_store(st, 'HS', w, cat(E.sp_load(st, 'HS', w), received(r)))
            return [(st, [blen(received(r)), NIL]), (s2, [self.fresh('Int'), alloc(site + 'e', *ks)])]
        E.intr['io.Copy'] = copy
        def readall(E, st, a, site, ks, x):
            r = a[0]; return [(st, [received(r), NIL]), (st.copy(), [self.fresh('Bytes'), alloc(site + 'e', *ks)])]
        E.intr['io.ReadAll'] = E.intr['io/ioutil.ReadAll'] = readall
        def listen(E, st, a, site, ks, x):
            l = alloc(site, *ks); s2 = st.copy()
            return [(st, [l, NIL]), (s2, [NIL, alloc(site + 'e', *ks)])]
        E.intr['net.ListenTCP'] = listen
        E.do_loop = self.loop
        E.on_go = lambda st, name, args: self.event(st, 'go ' + name, args)
        store = E.store
        def st_(st, t, a, v):
            if not self.own:
                for addr, tt in self.shared(st):
                    if a is addr: self.event(st, 'set', [v], False)
            return store(st, t, a, v)
        E.store = st_
    def trace(self, st): return st.heaps.get('$trace', ())
    def fresh(self, sort):
        self.n += 1
        return freshvar('other%d' % self.n, sort)
    def disturb(self, st):
        self.own = True
        try:
            for addr, t in self.shared(st): self.E.store(st, t, addr, self.fresh(self.E.p.sort(t)))
        finally: self.own = False
    def event(self, st, name, args, disturb=True):
        now = [self.E.load(st, t, a) for a, t in self.shared(st)]
        st.heaps['$trace'] = self.trace(st) + ((name, list(args), now, st.copy()),)
        if disturb: self.disturb(st)
    def recorder(self, name, nres=0):
        def f(E, st, a, site, ks, x):
            if nres == 3:
                line = self.fresh('Bytes'); self.event(st, name, [line])
                return [(st, [line, self.fresh('Bool'), self.fresh('Ref')])]
            self.event(st, name, a)
            return [(st, [self.fresh(s) if s != 'Slice' else slice_(self.fresh('Ref'), ZERO, ZERO) for s in {0: (), 2: ('Str', 'Ref'), 3: ('Bytes', 'Bool', 'Ref')}[nres]])]
        return f
    def cells(self, st):
        """last value written to each cell, apart from the shared ones, and what is below"""
        skip = {a for a, _ in self.shared(st)}
        d = {}
        for n, h in st.heaps.items():
            if n.startswith('$'): continue
            while h.op == 'hst':
                if h.args[1] not in skip: d.setdefault((n, h.args[1]), h.args[2])
                h = h.args[0]
            if not (h.op == 'hbase' and h.args[1] == 0): d[n, None] = h
        return d
    def loop(self, fr, st, hdr, prev, body):
        E = self.E
        blk = fr.fn['blocks'][hdr]
        f0, s0 = fr.fork(), st.copy()
        E.do_phis(f0, s0, blk, prev)
        phis = [i['reg'] for i in blk['instrs'] if i['op'] == 'Phi']
        pre = self.trace(s0)
        key = (fr.name, hdr, tuple(e[0] for e in pre)); log = []
        def inner(a):                                   # an object made by the body
            while a.op in ('fld', 'elem'): a = a.args[0]
            return a.op == 'alloc' and any(a.args[0].startswith('%s@%d.' % (fr.site, b)) for b in body)
        low = set()
        for it in range(6):
            s = s0.copy(); s.heaps['$trace'] = (); self.disturb(s)
            outs = [o for o in E.run(f0.fork(), s, hdr, prev, (hdr, body)) if not o.st.dead]
            backs = [o for o in outs if o.kind == 'back']
            before = self.cells(s0); changed = False
            def waits(o):
                ff = o.fr.fork(); E.do_phis(ff, o.st, blk, o.prev)
                return not self.trace(o.st) and all(ff.regs[r] is f0.regs[r] for r in phis) and all(before.get(k) is v or k[1] is not None and inner(k[1]) for k, v in self.cells(o.st).items())
            backs = [o for o in backs if not waits(o)]
            log.append([Run(self.trace(o.st), o.st) for o in backs])
            def settled(w, v):
                if w is v: return True
                if w in low: return sub(v, w).op == 'int' and sub(v, w).args[0] >= 0
                return w.op == 'var' and w.args[0].startswith('other')
            def widen(w, v):
                if it < 2 and len(backs) == 1: return v
                x = self.fresh(v.sort)
                if w is not None and w not in low and v.sort == 'Int' and sub(v, w).op == 'int' and sub(v, w).args[0] > 0:
                    low.add(x); s0.assume(ge0(sub(x, v)))          # it only grows
                return x
            for o in backs:
                ff = o.fr.fork(); E.do_phis(ff, o.st, blk, o.prev)
                for r in phis:
                    if settled(f0.regs[r], ff.regs[r]): continue
                    f0.regs[r] = widen(f0.regs[r], ff.regs[r]); changed = True
                for (n, a), v in self.cells(o.st).items():
                    w = before.get((n, a))
                    if w is not None and settled(w, v): continue
                    if a is None: raise Unsupported('a loop with more than single cells')
                    if inner(a): continue
                    v = widen(w, v)
                    h = s0.heaps.get(n)
                    s0.heaps[n] = hst(h if h is not None else hbase(n, 'init', 0), a, v); before[n, a] = v; changed = True
            if not changed: break
        else: raise Unsupported('a loop whose state does not settle')
        if any(t for l in log for t in l): self.runs[key] = (pre, log)
        res = []
        for o in outs:
            if o.kind == 'back': continue
            if self.trace(o.st) and o.kind != 'panic': self.left.append(Run(self.trace(o.st), o.st))
            o.st.heaps['$trace'] = pre + self.trace(o.st); res.append(o)
        return res
