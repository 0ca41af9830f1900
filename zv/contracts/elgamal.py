"""signatures and encryption in zRep/util"""
from registry import contract
from engine import terms as T
from engine.terms import *
from engine.intrinsics import parse_fixed
U = 'zRep/util.'
STREAM = gobj('random.Stream')

def elhash(msg, P):
    """challenge for a message and a commitment point"""
    return mk('pickhash', (cat(mk('seed', (pb(P),), 'Bytes'), mk('absorb', (BEMPTY, BEMPTY, msg), 'Bytes')),), 'Int')
def base_of(c, g):
    return GB if c.case(eq(g, NIL)) else c.pv(g)
def gpow(g, e):
    return T.gexp(g, e)
def gm(a, b):
    from engine.intrinsics import gm as f
    return f(a, b)

@contract(U + 'hashElGamal')
def hashElGamal(c, suite, message, p):
    c.ret(c.newsecret(elhash(message, c.pv(p))))

def accepts(msg, key, sig, G):
    ok, (C, R) = parse_fixed(['secret', 'secret'], sig)
    return and_(ok, eq(elhash(msg, gm(gpow(G, R), gpow(key, C))), C))

def signature(message, x, G, v):
    """signature under the secret x and base G with the one-time secret v"""
    C = elhash(message, gpow(G, v))
    return cat(T.sb(C), T.sb(T.mod(sub(v, mul(x, C)), Q)))

@contract(U + 'ElGamalSign')
def ElGamalSign(c, suite, random, message, priv, g):
    c.requires(c.secure(random), 'the one-time secret comes from the secure random source')
    G = base_of(c, g)
    c.requires(neq(G, GZERO), 'the base is a group element')
    c.ret(signature(message, c.sv(priv), G, c.random()))

@contract(U + 'ElGamalVerify')
def ElGamalVerify(c, suite, message, key, sig, g):
    G = base_of(c, g)
    c.requires(neq(key, NIL), 'a key is given')
    c.requires(neq(G, GZERO), 'the base is a group element')
    if c.case(accepts(message, c.pv(key), sig, G)): c.ret(NIL)
    else: c.ret(c.fresh('err'))

@contract(U + 'ElGamalEncrypt')
def ElGamalEncrypt(c, suite, pub, M):
    c.requires(neq(pub, NIL), 'a key is given')
    k = c.random()
    c.ret(c.newpoint(gexp(GB, k)), c.newpoint(gmul(gexp(c.pv(pub), k), c.pv(M))), BEMPTY)
@contract(U + 'ElGamalDecrypt')
def ElGamalDecrypt(c, suite, priv, K, C):
    c.requires(neq(K, NIL), 'ciphertext given')
    c.ret(c.newpoint(gmul(c.pv(C), gexp(c.pv(K), neg(c.sv(priv))))))
