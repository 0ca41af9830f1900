from registry import prop
from engine.terms import *
from contracts import elgamal as eg
U = eg.U

def sign_then_verify(g):
    """a signature by the private key is accepted for the public key, default base and given base"""
    st = g.st
    suite = gobj('suite.QR512'); m = g.any('message', 'Bytes'); x = g.ref('priv')
    for nm, b in (('default base', NIL), ('given base', g.ref('g'))):
        s0 = st.copy()
        if b is not NIL: s0.assume(neq(b, NIL))
        G = GB if b is NIL else g.pv(s0, b)
        key = g.E.newpoint(s0, '/key', (), gexp(G, g.sv(s0, x)))
        for s1, (sig,) in g.call(U + 'ElGamalSign', s0, suite, eg.STREAM, m, x, b):
            for s2, (err,) in g.call(U + 'ElGamalVerify', s1, suite, m, key, sig, b):
                g.prove('accepted with the %s' % nm, s2, eq(err, NIL))
prop('C10', contracts=[U + 'ElGamalSign'], goals=[sign_then_verify], replay=[('util', 'c10_test.go', 'TestZV')])

def accepted_means_challenge_matches(g):
    """whenever no error is returned the buffer decodes and the challenge matches message, key and base"""
    st = g.st
    suite = gobj('suite.QR512'); m = g.any('message', 'Bytes'); sig = g.any('sig', 'Bytes'); y = g.ref('key'); b = g.ref('g')
    st.assume(neq(y, NIL)); st.assume(neq(b, NIL))
    for s1, (err,) in g.call(U + 'ElGamalVerify', st, suite, m, y, sig, b):
        g.prove('accepted iff the challenge matches', s1, eq(eq(err, NIL), eg.accepts(m, g.pv(st, y), sig, g.pv(st, b))))
        g.prove('key unchanged', s1, eq(g.pv(s1, y), g.pv(st, y)))
prop('C11', contracts=[U + 'ElGamalVerify', U + 'hashElGamal'], goals=[accepted_means_challenge_matches], replay=[('util', 'c11_test.go', 'TestZV')])

def encrypt_then_decrypt(g):
    st = g.st
    suite = gobj('suite.QR512'); x = g.ref('priv'); M = g.ref('M')
    key = g.E.newpoint(st, '/key', (), gexp(GB, g.sv(st, x)))
    for s1, (K, C, rem) in g.call(U + 'ElGamalEncrypt', st, suite, key, M):
        for s2, (D,) in g.call(U + 'ElGamalDecrypt', s1, suite, x, K, C):
            g.prove('decryption returns the element', s2, eq(g.pv(s2, D), g.pv(st, M)))
            g.prove('element unchanged', s2, eq(g.pv(s2, M), g.pv(st, M)))
prop('C13', contracts=[U + 'ElGamalEncrypt', U + 'ElGamalDecrypt'], goals=[encrypt_then_decrypt], replay=[('util', 'c13_test.go', 'TestZV')])
