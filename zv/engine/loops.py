"""Loop summaries.  For every loop the engine infers, for an arbitrary iteration j, the value of each loop-carried
register and of each memory cell written by the body as a closed form (counter, sum, product, concatenation, append,
conjunction, indexed family of stores), then re-executes the body from that state and checks that one iteration leads
from the form at j to the form at j+1.  The base case holds by construction (form at 0 = entry value).
What has no closed form is left completely unknown (with its recurrence as a fact)."""
from . import terms as T
from .terms import *

class Sol:
    """hypothesis about one component: kind in init/sym/solved"""
    def __init__(self, init):
        self.init = init; self.kind = 'init'; self.term = init; self.how = None; self.r = None; self.dead = False

def comp_syms(name, sort, ks):
    return sym(name, sort, *ks)

def diff(e, c, op):
    """r with e = c (op) r, r free of c; None otherwise"""
    if e is c: return {'add': ZERO, 'gmul': GID, 'cat': BEMPTY, 'bag': BAGE, 'and': TRUE, 'scat': S('')}[op]
    if e.op == 'ite' and op != 'and':
        a = diff(e.args[1], c, op); b = diff(e.args[2], c, op)
        if a is None or b is None: return None
        r = ite(e.args[0], a, b)
        return None if has(r, c) else r
    if op == 'add':
        r = sub(e, c)
        return None if has(r, c) else r
    if op == 'gmul':
        r = gmul(e, ginv(c))
        return None if has(r, c) else r
    if op == 'cat':
        if e.op == 'cat' and e.args and e.args[0] is c:
            r = cat(*e.args[1:])
            return None if has(r, c) else r
        if c.op == 'cat' and e.op == 'cat' and e.args[:len(c.args)] == c.args:
            r = cat(*e.args[len(c.args):]); return r
        return None
    if op == 'scat':
        if e.op == 'scat' and e.args and e.args[0] is c:
            r = scat(*e.args[1:])
            return None if has(r, c) else r
        return None
    if op == 'bag':
        if e.op in ('bag+', 'bag'):
            cl = list(c.args) if c.op in ('bag', 'bag+') else [c]
            el = list(e.args)
            for x in cl:
                if x not in el: return None
                el.remove(x)
            r = bagadd(*[x if x.sort == 'Bag' else bag1(x) for x in el])
            return None if c.op not in ('bag', 'bag+') and has(r, c) else r
        return None
    if op == 'and':
        if e.op == 'and':
            cl = set(c.args) if c.op == 'and' else {c}
            if cl <= set(e.args):
                r = and_(*[x for x in e.args if x not in cl])
                return None if has(r, c) else r
        if c.op in ('sym', 'forall', 'and') and has(e, c) and T.replace(e, {c: FALSE}) is FALSE: return T.replace(e, {c: TRUE})
        return None

def has(t, c):
    return T.occurs(c, t)

OPS = {'Int': 'add', 'G': 'gmul', 'Bytes': 'cat', 'Bag': 'bag', 'Bool': 'and', 'Str': 'scat'}

def accum(op, init, r, j):
    w = freshvar('a', 'Int')
    l = lam(w, subst(r, {j: w}))
    if op == 'add': return add(init, T.bigsum(ZERO, j, l))
    if op == 'gmul': return gmul(init, T.bigprod(ZERO, j, l))
    if op == 'cat': return cat(init, T.bigcat(ZERO, j, l))
    if op == 'bag': return bagadd(init, T.bigbag(ZERO, j, l))
    if op == 'and': return and_(init, forall(w, or_(not_(and_(ge0(w), lt(w, j))), subst(r, {j: w}))))
    return None

def try_solve(s, c, e, j, unsolved):
    """s: Sol in state sym with symbol c; e: next value"""
    op = OPS.get(c.sort)
    def clean(r): return not any(T.occurs(u, r) for u in unsolved)
    if op:
        r = diff(e, c, op)
        if r is not None and clean(r):
            t = accum(op, s.init, r, j)
            if t is not None:
                if op == 'add' and j not in r.vars:
                    t = add(s.init, mul(j, r))
                return (op, r, t)
    if c.sort == 'Int' and e.op == 'ite' and T._modof(e, c) is not None:
        m = T._modof(e, c)
        def step(e):
            if e is c: return ZERO
            if e.op == 'ite':
                a, b = step(e.args[1]), step(e.args[2])
                return None if a is None or b is None else ite(e.args[0], a, b)
            return diff(e.args[0], c, 'add')
        r = step(e)
        if r is not None and clean(r) and j not in m.vars and mod(s.init, m) is s.init:
            return ('mod', (r, m), mod(accum('add', s.init, r, j), m))
    if c.sort == 'Int' and e.op == 'mod':
        m = e.args[1]
        r = diff(e.args[0], c, 'add')
        if r is not None and clean(r) and j not in m.vars and mod(s.init, m) is s.init:
            t = mod(accum('add', s.init, r, j), m)
            return ('mod', (r, m), t)
    if not T.occurs(c, e) and clean(e):
        # overwritten in every iteration
        t = ite(eq(j, ZERO), s.init, subst(e, {j: sub(j, ONE)}))
        return ('last', e, t)
    return None

def check_step(s, e, j):
    """s solved: does one iteration from s.term produce the form at j+1?"""
    op, r = s.how
    if op == 'mod':
        r, m = r
        def go(e, r):
            if e.op == 'ite' and r.op == 'ite' and e.args[0] is r.args[0]: return go(e.args[1], r.args[1]) and go(e.args[2], r.args[2])
            return eq(e, mod(add(s.term, r), m)) is TRUE
        return go(e, r)
    if op == 'last': return e is r
    if e.op == 'ite' and r.op == 'ite' and e.args[0] is r.args[0] and op in ('cat', 'scat', 'gmul', 'add'):
        f = {'cat': cat, 'scat': scat, 'gmul': gmul, 'add': add}[op]
        def go(e, r):
            if e.op == 'ite' and r.op == 'ite' and e.args[0] is r.args[0]: return go(e.args[1], r.args[1]) and go(e.args[2], r.args[2])
            return eq(e, f(s.term, r)) is TRUE
        if go(e, r) or op != 'add': return go(e, r)
    if op == 'add': return sub(e, s.term) is r or eq(e, add(s.term, r)) is TRUE or diff(e, s.term, 'add') is r
    if op == 'gmul': return eq(e, gmul(s.term, r)) is TRUE
    if op == 'cat': return eq(e, cat(s.term, r)) is TRUE
    if op == 'bag': return e is bagadd(s.term, r)
    if op == 'and':
        if e is and_(s.term, r): return True
        for q in (s.term.args if s.term.op == 'and' else [s.term]):     # the conjuncts one after another: e = q and e[q:=True]
            if q is TRUE: continue
            if T.replace(e, {q: FALSE}) is not FALSE: return False
            e, r = T.replace(e, {q: TRUE}), T.replace(r, {q: TRUE})
        return e is r
    if op == 'scat': return eq(e, scat(s.term, r)) is TRUE
    return False

def chain(h):
    out = [h]
    while h.op != 'hbase':
        h = h.args[0]; out.append(h)
    return out

def writes(h, built):
    """nodes applied on top of `built`, oldest first"""
    bs = set(chain(built))
    out = []
    while h not in bs:
        out.append(h); h = h.args[0]
    out.reverse()
    return out

class Summary: pass

MAXPASS = 14

def small_bound(E, fr, st, hdr, prev):
    """is the loop a counting loop over a literal range of at most 8 iterations?"""
    blk = fr.fn['blocks'][hdr]
    f = fr.fork(); s = st.copy()
    E.do_phis(f, s, blk, prev)
    for ins in blk['instrs']:
        if ins['op'] == 'Phi' and f.regs[ins['reg']].sort == 'Int':
            f.regs[ins['reg']] = freshvar('ub', 'Int')
    try:
        for i, ins in enumerate(blk['instrs']):
            if ins['op'] == 'Phi': continue
            if ins['op'] == 'If':
                c = E.val(f, s, ins['args'][0])
                if c.op == 'ge0' and c.args[0].op == 'poly':
                    d = monos(c.args[0])
                    k = [m for m in d if m != ()]
                    if len(k) == 1 and d[k[0]] == -1 and 0 <= d.get((), 0) <= 8: return True
                return False
            if ins['op'] in ('Call', 'Jump'): return False
            E.simple(f, s, ins, hdr, i)
    except Exception:
        return False
    return False

def unroll(E, fr, st, hdr, prev, body):
    outs = []
    work = [(fr, st, prev, 0)]
    while work:
        fr, st, prev, n = work.pop()
        if n > 12: raise Exception('unroll')
        blk = fr.fn['blocks'][hdr]
        f = fr.fork(); s = st.copy()
        E.do_phis(f, s, blk, prev)
        site = f.site; ks0 = f.ks
        f.ks = f.ks + (I(n),)
        for o in E.run(f, s, hdr, prev, (hdr, body)):
            if o.fr is not None and o.kind in ('back', 'leave'):
                o.fr = o.fr.fork(); o.fr.ks = ks0
            if o.kind == 'back': work.append((o.fr, o.st, o.prev, n + 1))
            else: outs.append(o)
    return outs

def summarise(E, fr, st0, hdr, prev, body):
    if E.loopinv is not None:
        r = with_invariant(E, fr, st0, hdr, prev, body)
        if r is not None: return r
    if small_bound(E, fr, st0, hdr, prev):
        return unroll(E, fr, st0, hdr, prev, body)
    blk = fr.fn['blocks'][hdr]
    site = '%s@L%d' % (fr.site, hdr)
    f0 = fr.fork(); s0 = st0.copy()
    E.do_phis(f0, s0, blk, prev)
    phis = [i['reg'] for i in blk['instrs'] if i['op'] == 'Phi']
    j = freshvar('j', 'Int')
    CTX.nonneg.add(j)
    ksj = fr.ks + (j,)
    # components: ('phi', reg) / ('phi', reg, 'ref'|'off'|'len') / ('cell', heap, key[, part])
    comps = {}
    def add_comp(base, init):
        if init.sort == 'Slice':
            comps[base + ('ref',)] = Sol(sref(init)); comps[base + ('off',)] = Sol(soff(init)); comps[base + ('len',)] = Sol(slen(init))
        else: comps[base] = Sol(init)
    for r in phis: add_comp(('phi', r), f0.regs[r])
    cells = {}            # (heap,key) -> sort
    fams = {}             # heap -> list of (key, val, cond) with j free
    hav = {}              # heap -> list of key patterns (with j free)
    swaps = {}            # heap -> (array, n): iterations only exchange two of its first n cells
    def perm(n, w, jj=j): return sym('perm:%s:%s' % (site, n), 'Int', *(fr.ks + (jj, w)))
    def swapped(n, o, b):
        """(array, n) when every iteration exchanges two cells of one array or leaves them all"""
        ref = N = None
        for pi in range(len(backs)):
            eff = perpath[n].get(pi, []); st = backs[pi].st
            if not eff: continue
            if len(eff) != 2 or any(not isinstance(k, Term) or v is None or k.op != 'elem' or k.args[1].sort != 'Int' for k, v in eff): return None
            (ka, va), (kb, vb) = eff
            if ka.args[0] is not kb.args[0] or j in ka.args[0].vars or (ref is not None and ref is not ka.args[0]): return None
            ref = ka.args[0]; D = E.decide(st); so = T.HEAPSORT[n]
            if T.sel(b, kb, so, D) is not va or T.sel(b, ka, so, D) is not vb: return None
            a, c = ka.args[1], kb.args[1]
            if not (E.quick(st, ge0(a)) is True and E.quick(st, ge0(c)) is True): return None
            cands = [N] if N is not None else [k for k in (add(x.args[0], y, ONE) for y in (a, c) for x in st.facts if x.op == 'ge0') if not has(k, a) and not has(k, c) and j not in k.vars]
            cands = list(dict.fromkeys(cands))
            cands = [k for k in cands if E.quick(st, lt(a, k)) is True and E.quick(st, lt(c, k)) is True]
            if not cands: return None
            N = next((k for k in cands if all(k is y or E.quick(st, T.le(k, y)) is True for y in cands)), cands[0])
        return (ref, N) if ref is not None else None
    unstable = {}
    def symname(k): return 'L:%s:%s' % (site, ':'.join(x if isinstance(x, str) else '#%d' % x.id for x in k))
    def cur(k, jj=j):
        s = comps[k]
        if s.kind == 'sym': return sym(symname(k), s.init.sort, *(fr.ks + (jj,)))
        return s.term if jj is j else subst(s.term, {j: jj})
    def value(base, sort, jj=j):
        if sort == 'Slice':
            return slice_(cur(base + ('ref',), jj), cur(base + ('off',), jj), cur(base + ('len',), jj))
        return cur(base, jj)
    def base_heap(n, s=None):
        h = (s or s0).heaps.get(n)
        if h is None:
            if n.startswith('$'): return E.ghost_init(n)
            h = hbase(n, 'init', 0)
        return h
    def build():
        s = s0.copy()
        names = {n for n, k in cells} | set(fams) | set(hav) | set(swaps)
        for n in sorted(names):
            if n.startswith('$'):
                s.heaps[n] = value(('cell', n, NIL), s0.heaps[n].sort if n in s0.heaps else E.ghost_init(n).sort); continue
            h = base_heap(n)
            if n in swaps and n not in hav:
                w = freshvar('w', 'Int'); ref, N = swaps[n]
                x = perm(n, w); CTX.permn[x.args[0]] = N
                s.assume(forall(w, or_(not_(and_(ge0(w), lt(w, N))), and_(ge0(x), lt(x, N)))))
                s2 = s.copy()
                for c in (ge0(w), lt(w, N), ge0(x), lt(x, N)): s2.assume(c)
                h = hfam(h, N, lam(w, elem(ref, w)), lam(w, T.sel(h, elem(ref, x), T.HEAPSORT[n], E.decide(s2))), lam(w, TRUE))
            if n in hav:
                v = freshvar('p', 'Int')
                h = hhav(h, '%s:%s' % (site, n), tuple(lam(v, subst(k, {j: v})) for k in hav[n]) + tuple(ksj))
            else:
                for k, v, c in fams.get(n, ()):
                    w = freshvar('w', 'Int')
                    m = {j: w}
                    h = hfam(h, j, lam(w, subst(k, m)), lam(w, subst(v, m)), lam(w, subst(c, m)))
            for (n2, k), so in cells.items():
                if n2 == n: h = hst(h, k, value(('cell', n, k), so))
            s.heaps[n] = h
        return s
    def apart(x, y):
        """keys that are different: by their form, or entries of maps known to be different"""
        if T.key_distinct(x, y): return True
        return x.op == 'pair' and y.op == 'pair' and j not in x.args[0].vars and E.decide(s0)(eq(x.args[0], y.args[0])) is False
    rebased = set()
    stable = False
    ndrop = {}
    for npass in range(MAXPASS):
        s = build()
        built = dict(s.heaps)
        f = f0.fork()
        for r in phis: f.regs[r] = value(('phi', r), f0.regs[r].sort)
        f.ks = ksj
        nb = len(s.br); nf = len(s.facts)
        for nm in ('$', ): pass
        outs = E.run(f, s, hdr, prev, (hdr, body))
        backs = [o for o in outs if o.kind == 'back' and not o.st.dead]
        # ---- collect next phi values and writes
        conds = []
        for o in backs: conds.append(and_(*o.st.br[nb:]))
        changed = False
        # families / cells written
        newf = {}; newcells = {}
        nextval = {}          # comp base -> list of values per path
        touched = set()
        for o in backs:
            for n in o.st.heaps:
                b = built.get(n)
                if b is None: b = base_heap(n)
                if o.st.heaps[n] is not b: touched.add(n)
        bad = set()
        perpath = {}
        for n in touched:
            for pi, o in enumerate(backs):
                b = built.get(n)
                if b is None: b = base_heap(n)
                h = o.st.heaps.get(n, b)
                if n.startswith('$'):
                    perpath.setdefault((n, NIL), {})[pi] = h
                    continue
                ws = writes(h, b)
                eff = []
                for w in ws:
                    if w.op == 'hst':
                        k, v = w.args[1], w.args[2]
                        eff = [(kk, vv) for kk, vv in eff if kk is not k]
                        eff.append((k, v))
                    else:
                        eff.append((w, None))
                perpath.setdefault(n, {})[pi] = eff
        for key_ in list(perpath):
            if isinstance(key_, tuple):
                n, _ = key_
                sort = E.ghost_init(n).sort
                b = built.get(n, E.ghost_init(n))
                vals = [perpath[key_].get(pi, b) for pi in range(len(backs))]
                newcells[(n, NIL)] = (sort, vals)
                continue
            n = key_
            keys = []
            for pi in perpath[n]:
                for k, v in perpath[n][pi]:
                    if v is None: keys.append(('node', k)); continue
                    if k not in keys: keys.append(k)
            plain = [k for k in keys if isinstance(k, Term)]
            nodes = [k for k in keys if not isinstance(k, Term)]
            famlist = []
            ok = True
            if nodes:
                # inner-loop families: kept only when a single path and keys involve j injectively is not decidable: havoc
                pats = []
                for _, w in nodes:
                    if w.op == 'hfam':
                        v2 = freshvar('n', 'Int'); pats.append(app(w.args[2], v2))
                    else: 
                        for pl in w.args[2:]:
                            if isinstance(pl, Term) and pl.op == 'lam': pats.append(app(pl, freshvar('n', 'Int')))
                inner = getattr(E, 'nested_fam', None)
                bad.add(n)
                hav_new = [abstract_vars(p, j) for p in pats] + [k for k in plain]
                hav.setdefault(n, [])
                for p in hav_new:
                    if p not in hav[n]: hav[n].append(p); changed = True
                continue
            for a in range(len(plain)):
                for b_ in range(a + 1, len(plain)):
                    x, y = plain[a], plain[b_]
                    if not apart(x, y):
                        # keys of the same iteration must differ; keys of different iterations too for families
                        ok = False
                    elif (j in x.vars or j in y.vars):
                        y2 = subst(y, {j: freshvar('jj', 'Int')})
                        if not apart(x, y2): ok = False
            if n in hav: ok = False
            if not ok and n not in hav and not any(k[0] == n for k in cells) and n not in fams:
                sw = swapped(n, backs, built.get(n, base_heap(n)))
                if sw is not None:
                    if swaps.get(n) != sw: swaps[n] = sw; changed = True
                    continue
            if not ok:
                if n not in hav: changed = True
                hav.setdefault(n, [])
                for k in plain:
                    if k not in hav[n]: hav[n].append(k); changed = True
                continue
            for k in plain:
                vals = []; ws_ = []
                for pi in range(len(backs)):
                    eff = dict((kk, vv) for kk, vv in perpath[n].get(pi, []))
                    if k in eff: vals.append(eff[k]); ws_.append(True)
                    else: vals.append(None); ws_.append(False)
                if j in k.vars:
                    famlist.append((k, merge([v for v in vals if v is not None], [c for c, w in zip(conds, ws_) if w]),
                                    TRUE if all(ws_) else or_(*[c for c, w in zip(conds, ws_) if w])))
                else:
                    h0 = base_heap(n)
                    sort = T.HEAPSORT[n]
                    curv = T.sel(built.get(n, h0), k, sort, E.decide(s))
                    newcells[(n, k)] = (sort, [v if v is not None else curv for v in vals])
            if famlist: newf[n] = famlist
        # ---- families stable?
        for n in set(newf) | set(fams):
            if n in hav: fams.pop(n, None); continue
            if fams.get(n) != newf.get(n):
                unstable[n] = unstable.get(n, 0) + 1
                changed = True
                if unstable[n] > 7:
                    hav[n] = [k for k, v, c in (newf.get(n) or fams.get(n))]
                    fams.pop(n, None)
                elif n in newf: fams[n] = newf[n]
                else: fams.pop(n, None)
        # ---- new cells
        for (n, k), (sort, vals) in newcells.items():
            if (n, k) not in cells:
                cells[(n, k)] = sort
                iv = E.ghost_init(n) if (n.startswith('$') and n not in s0.heaps) else (s0.heaps[n] if n.startswith('$') else T.sel(base_heap(n), k, sort, E.decide(s0)))
                add_comp(('cell', n, k), iv)
                changed = True
        # ---- cells no longer written (the key was read off an entry value)
        for ck in list(cells):
            if ck in newcells or ck[0].startswith('$') or ndrop.get(ck, 0) > 2: continue
            ndrop[ck] = ndrop.get(ck, 0) + 1
            del cells[ck]
            for k in [k for k in comps if k[:3] == ('cell',) + ck]: del comps[k]
            changed = True
        # ---- next values of components
        nxt = {}
        for r in phis:
            vs = []
            for o in backs:
                ff = o.fr.fork()
                E.do_phis(ff, o.st, blk, o.prev)
                vs.append(ff.regs[r])
            if not vs: continue
            if f0.regs[r].sort == 'Slice':
                for part, g in (('ref', sref), ('off', soff), ('len', slen)):
                    nxt[('phi', r, part)] = merge([g(v) for v in vs], conds)
            else: nxt[('phi', r)] = merge(vs, conds)
        for (n, k), sort in cells.items():
            if (n, k) in newcells:
                vs = newcells[(n, k)][1]
            else: vs = [value(('cell', n, k), sort)] * max(1, len(backs))
            cs = conds if (n, k) in newcells else [TRUE] * len(vs)
            if not vs: continue
            if sort == 'Slice':
                for part, g in (('ref', sref), ('off', soff), ('len', slen)):
                    nxt[('cell', n, k, part)] = merge([g(v) for v in vs], cs)
            else: nxt[('cell', n, k)] = merge(vs, cs)
        # ---- append re-basing
        restart = False
        for base in [('phi', r) for r in phis] + [('cell', n, k) for (n, k) in cells]:
            kr = base + ('ref',)
            if kr in comps and kr in nxt and base not in rebased:
                e = nxt[kr]; i0 = comps[kr].init
                if _has_app(e) and not (i0.op == 'alloc' and i0.args[0].endswith('#app')):
                    rebased.add(base)
                    A = alloc(symname(base) + '#app', *fr.ks)
                    if base[0] == 'phi':
                        et = E.p.elem(phi_type(blk, base[1])); init = f0.regs[base[1]]
                    else:
                        et = E.p.elem(base[1][2:]); init = T.sel(base_heap(base[1]), base[2], 'Slice', E.decide(s0))
                    E.copy_slice(s0, et, A, ZERO, init)
                    new = slice_(A, ZERO, slen(init))
                    if base[0] == 'phi': f0.regs[base[1]] = new
                    else: s0.heaps[base[1]] = hst(base_heap(base[1]), base[2], new)
                    add_comp(base, new)
                    restart = True
        if restart:
            for k, c in comps.items():
                c.kind = 'init'; c.term = c.init
            fams.clear(); hav.clear(); unstable.clear()
            continue
        unsolved = set(sym(symname(k), c.init.sort, *ksj) for k, c in comps.items() if c.kind == 'sym')
        for k, c in comps.items():
            e = nxt.get(k)
            if e is None: continue
            if c.kind == 'init':
                if e is not c.init:
                    c.kind = 'sym'; changed = True
                    # solve at once when possible (uses the value computed from the symbol in the next pass)
            elif c.kind == 'sym':
                if c.dead: continue
                cs = sym(symname(k), c.init.sort, *ksj)
                r = try_solve(c, cs, e, j, unsolved - {cs})
                if r is not None:
                    c.kind = 'solved'; c.how = (r[0], r[1]); c.term = r[2]; changed = True
            else:
                if not check_step(c, e, j):
                    # not inductive in the refined state: try again from an unknown value, then give up
                    c.kind = 'sym'; changed = True
                    c.nfail = getattr(c, 'nfail', 0) + 1
                    if c.nfail > 2: c.dead = True
        if not changed:
            stable = True; break
    if not stable:
        from .exec import Unsupported
        raise Unsupported('loop in %s (block %d): no stable summary' % (fr.name, hdr))
    # ------------------------------------------------------------ facts about completed iterations
    base_facts = set(s0.facts)
    def newfacts(o): return [x for x in o.st.facts if x not in base_facts]
    if backs:
        sets = [newfacts(o) for o in backs]
        common = [x for x in sets[0] if all(x in t for t in sets[1:])]
        rest = or_(*[and_(*[x for x in t if x not in common]) for t in sets]) if len(sets) > 1 else TRUE
        cont = and_(*common, rest)
        recs = []
        for k, c in comps.items():
            if c.kind == 'sym':
                s1 = sym(symname(k), c.init.sort, *(fr.ks + (add(j, ONE),)))
                if k in nxt: recs.append((symname(k), eq(s1, nxt[k])))
    else: cont = None; recs = []
    inits = []
    for k, c in comps.items():
        if c.kind == 'sym':
            x = eq(sym(symname(k), c.init.sort, *(fr.ks + (ZERO,))), c.init); inits.append(x)
            if x is not TRUE: CTX.recs[x] = symname(k)
    results = []
    for o in outs:
        if o.kind == 'back' or o.st.dead: continue
        if cont is None:
            J = ZERO; extra = []
            variants = [(ZERO, [])]
        else:
            variants = None
            nbr = o.st.br[nb:]
            if nbr:
                c = nbr[0]
                if c.op == 'ge0':
                    d = monos(c.args[0])
                    mj = ((j, 1),)
                    if d.get(mj) == 1 and all(j not in a.vars for m in d if m != mj for a, _ in m) and all(not_(c) in b.st.fset for b in backs):
                        N = sub(j, c.args[0])
                        sg = True if nonneg(N) else E.quick(s0, ge0(N))
                        if sg is True: variants = [(N, [])]
                        elif sg is False: variants = [(ZERO, [])]
                        else: variants = [(N, [ge0(N)]), (ZERO, [lt(N, ZERO)])]
            elif False: pass
            if variants is None:
                jx = freshvar('jx', 'Int'); CTX.nonneg.add(jx)
                variants = [(jx, [])]
        for J, extra in variants:
            m = {j: J}
            s = State_like(o.st)
            s.heaps = {n: (subst(h, m) if h.vars and j in h.vars else h) for n, h in o.st.heaps.items()}
            ok = True
            for x in s0.facts: ok = s.assume(x) and ok
            for x in extra + inits: ok = s.assume(x) and ok
            s.br = list(s0.br) + [subst(b, m) for b in o.st.br[nb:]]
            for x in newfacts(o):
                if x is ge0(j): continue
                ok = s.assume(subst(x, m)) and ok
            if cont is not None and J is not ZERO:
                w = freshvar('k', 'Int')
                for nm, fml in [(None, cont)] + recs:
                    body_f = subst(fml, {j: w})
                    if body_f is TRUE: continue
                    x = forall(w, or_(not_(and_(ge0(w), lt(w, J))), body_f))
                    s.assume(x)
                    if nm is not None: CTX.recs[x] = nm
            if not ok or s.dead: continue
            o2 = o.__class__(o.kind, s, None, None, o.bid, o.prev)
            if o.vals is not None: o2.vals = [sub_val(v, m) for v in o.vals]
            if o.fr is not None:
                f2 = o.fr.fork(); f2.ks = fr.ks
                f2.regs = {r: sub_val(v, m) for r, v in o.fr.regs.items()}
                o2.fr = f2
            results.append(o2)
    return results

def with_invariant(E, fr, st0, hdr, prev, body):
    """a loop under a given contract: the state before an arbitrary iteration j is the state on entry in which the parts
    the contract names have the form it gives (inv.state) and every other cell the body writes is unknown; inv.step
    receives the states before and after each path through the body and the list of cells written, and must establish
    that the form holds again.  None when inv does not claim this loop"""
    from .exec import Unsupported
    inv = E.loopinv
    blk = fr.fn['blocks'][hdr]
    f0, s0 = fr.fork(), st0.copy()
    E.do_phis(f0, s0, blk, prev)
    phis = [i['reg'] for i in blk['instrs'] if i['op'] == 'Phi']
    j = freshvar('j', 'Int'); CTX.nonneg.add(j)
    site = '%s@L%d' % (fr.site, hdr)
    n0 = len(E.pre_obl)
    def unknown(r, so):
        x = 'inv:%s:%s' % (site, r)
        if so == 'Slice': return slice_(sym(x + ':r', 'Ref', j), sym(x + ':o', 'Int', j), sym(x + ':n', 'Int', j))
        return sym(x, so, j)
    form = {r: unknown(r, f0.regs[r].sort) for r in phis}
    hav = {}; claimed = None
    E.loopinv = None
    try:
        for npass in range(8):
            del E.pre_obl[n0:]
            s = s0.copy()
            if claimed: inv.state(E, s, j)
            for n, pats in hav.items():
                s.heaps[n] = hhav(s.heaps[n] if n in s.heaps else hbase(n, 'init', 0), '%s:%s' % (site, n), tuple(lam(v, subst(k, {j: sub(sub(j, ONE), v)})) for k in pats for v in [freshvar('p', 'Int')]) + tuple(fr.ks) + (j,))
            pre = s.copy()
            f = f0.fork()
            for r in phis: f.regs[r] = form[r]
            f.ks = fr.ks + (j,)
            outs = E.run(f, s, hdr, prev, (hdr, body))
            backs = [o for o in outs if o.kind == 'back' and not o.st.dead]
            touched = {n for o in backs for n, h in o.st.heaps.items() if h is not pre.heaps.get(n) and not (h.op == 'hbase' and h.args[1] == 0)}
            if claimed is None:
                claimed = inv.claims(touched)
                if not claimed: return None
                changed = True
            else: changed = False
            own = inv.heaps(E)
            allw = []
            for o in outs:
                ws = []
                if o.kind == 'panic' or o.st.dead:
                    allw.append(None); continue
                for n in touched | {n for n, h in o.st.heaps.items() if h is not pre.heaps.get(n) and not (h.op == 'hbase' and h.args[1] == 0)}:
                    h = o.st.heaps.get(n); b = pre.heaps.get(n)
                    if h is None or h is b: continue
                    if n.startswith('$'):
                        ws.append((n, None, h)); continue
                    if b is None: b = hbase(n, 'init', 0)
                    for w in writes(h, b):
                        if w.op == 'hst': ws.append((n, w.args[1], w.args[2]))
                        elif w.op == 'hfam': ws.append((n, app(w.args[2], freshvar('n', 'Int')), None))
                        else:
                            ws += [(n, app(pl, freshvar('n', 'Int')), None) for pl in w.args[2:] if isinstance(pl, Term) and pl.op == 'lam']
                allw.append(ws)
                for n, k, v in ws:
                    if n in own: continue
                    if n.startswith('$'): raise Unsupported('loop contract says nothing about ' + n)
                    if k not in hav.setdefault(n, []): hav[n].append(k); changed = True
            for r in phis:
                if form[r].op != 'sym': continue
                vs = []
                for o in backs:
                    ff = o.fr.fork(); E.do_phis(ff, o.st, blk, o.prev); vs.append(ff.regs[r])
                ds = {sub(v, form[r]) for v in vs} if form[r].sort == 'Int' else set()
                if len(ds) == 1 and next(iter(ds)).op == 'int':
                    form[r] = add(f0.regs[r], mul(next(iter(ds)), j)); changed = True; hav = {}
            if not changed: break
        else: raise Unsupported('loop contract: the cells written do not settle')
    finally: E.loopinv = inv
    for o, ws in zip(outs, allw):
        if ws is not None and (o.kind == 'back' or ws): inv.step(E, pre, o.st, j, ws)
    res = []
    for o in outs:
        if o.kind == 'back' or o.st.dead: continue
        if o.fr is not None: o.fr = o.fr.fork(); o.fr.ks = fr.ks
        res.append(o)
    return res

def State_like(s):
    n = s.__class__()
    return n
def sub_val(v, m):
    if isinstance(v, tuple): return tuple(sub_val(x, m) for x in v)
    if isinstance(v, Term): return subst(v, m)
    return v
def merge(vals, conds):
    r = vals[-1]
    for v, c in list(zip(vals, conds))[-2::-1]:
        r = ite(c, v, r)
    return r
def _has_app(e):
    if e.op == 'ite': return _has_app(e.args[1]) or _has_app(e.args[2])
    return e.op == 'alloc' and e.args[0].endswith('#app')
def phi_type(blk, reg):
    for i in blk['instrs']:
        if i.get('reg') == reg: return i['t']
def abstract_vars(p, j): return p
