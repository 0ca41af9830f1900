from registry import prop
from engine.terms import *
from engine import terms as T
from contracts import client as cl, fujiokam as fo, pedersen as pd, elgamal as eg
from props import p31
OPAQUE = ('hash', 'pickhash')
def draw(x): return x.op == 'sym' and x.args[0].startswith(('pick:', 'randint:'))
def open_atoms(t):
    """what a value is made of; a hash shows nothing of its input"""
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op not in OPAQUE and not (draw(x) or x.op == 'sym'): st.extend(T.children(x))
    return seen
def parts(b):
    """the numbers and group elements a message field carries"""
    if b.op == 'iface': yield from parts(b.args[1]); return
    if b.op == 'cat':
        for x in b.args: yield from parts(x)
        return
    if b.op == 'enc' or b.op == 'rec':
        for x in b.args:
            if isinstance(x, Term): yield from parts(x)
        return
    if b.op in ('i2b', 'pb', 'sb', 'u32') and len(b.args) == 1: yield from parts(b.args[0]); return
    if b.op == 'mod' and b.args[1] is pd.Q: yield from parts(b.args[0]); return
    yield b
def pairs(t):
    if t.op == 'grp': return list(t.args)
    if t.op == 'zn': return list(t.args[1])
    return None
def hides(g, s, pm, secret):
    """every value that depends on a secret carries a draw that is used for nothing else"""
    nums, elems = [], []
    for k in sorted(pm):
        for x in parts(pm[k]):
            (nums if pairs(x) is None else elems).append((k, x))
    atoms = {id(x): open_atoms(x) for _, x in nums + elems}
    sec = lambda x: any(secret(a) for a in atoms[id(x)])
    draws = lambda x: {a for a in atoms[id(x)] if draw(a)}
    blinds = {}
    for k, x in elems:                                  # commitments to secrets
        if not sec(x): continue
        c = [b for b in draws(x) if any(b not in open_atoms(add(e, neg(b))) or b not in open_atoms(add(e, b)) for _, e in pairs(x) if b in open_atoms(e))]
        blinds[k, x] = c
    shown = set()                                       # draws that are told
    for k, x in nums:
        if not sec(x) and not any(b in draws(x) for bs in blinds.values() for b in bs if x is not b): shown |= draws(x)
    masks = {}
    for k, x in nums:
        if not sec(x) and draws(x) <= shown: continue
        c = [m for m in draws(x) if m not in shown and (m not in open_atoms(sub(x, m)) or m not in open_atoms(add(x, m))) and sum(m in draws(y) for _, y in nums) == 1]
        masks[k, x] = c
    for (k, x), c in masks.items():
        g.prove('a number in %s that depends on a secret has a mask of its own' % k, s, B(bool(c)))
    used = {c[0] for c in masks.values() if len(c) == 1}
    for (k, x), c in blinds.items():
        c = [b for b in c if b not in shown and b not in used and sum(b in draws(y) for _, y in elems if sec(y)) == 1]
        g.prove('a commitment in %s to a secret has a blind of its own' % k, s, B(bool(c)))
    return masks, blinds
def request_is_blinded(g):
    """what a request shows of the reputation, its randomness and the key"""
    def what(s, c, n, pm, ind):
        rep = g.f(g.st, c, cl.DC, 'Reputation'); R = g.sv(g.st, g.f(g.st, c, cl.DC, 'R')); x = g.sv(g.st, g.f(g.st, c, cl.DC, 'PrivateKey'))
        def secret(a): return a in (rep, R, x) or (a.op == 'sym' and not draw(a))
        masks, blinds = hides(g, s, pm, secret)
        fb = g.f(g.st, c, cl.DC, 'FujiOkamBase')
        dia = g.bi(g.st, g.f(g.st, fb, fo.FB, 'RandomDiameter'))
        for what_, d in (('mask', masks), ('blind', blinds)):
            for (k, _), cs in d.items():
                for m in cs:
                    if m.args[0].startswith('randint:'): g.prove('the %s in %s is from the whole range' % (what_, k), s, eq(m.args[1], dia))
        g.prove('values that depend on the reputation', s, B(bool(masks) and bool(blinds)))
    p31.request(g, what)
prop('C43', contracts=[fo.M + 'genRandomSecret', fo.M + 'Commit', pd.M + 'Commit', eg.U + 'ElGamalSign'], goals=[request_is_blinded], replay=[('cmd/client', 'c43_test.go', 'TestZV')])
