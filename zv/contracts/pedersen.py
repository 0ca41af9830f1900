"""zRep/primitive/pedersen"""
from registry import contract
from engine.terms import *
PKG = 'zRep/primitive/pedersen.'
PB = PKG + 'PedersenBase'
M = '(*zRep/primitive/pedersen.PedersenBase).'
SUITE = gobj('suite.QR512')

def wf(c, base):
    """a base has both generators set"""
    c.requires(neq(c.f(base, PB, 'GT'), NIL), 'base has g')
    c.requires(neq(c.f(base, PB, 'HT'), NIL), 'base has h')
def gh(c, base):
    return c.pv(c.f(base, PB, 'GT')), c.pv(c.f(base, PB, 'HT'))
def replace_point(c, r, t, name, g):
    """the point in a field becomes g: in place or as a new object"""
    if c.alt(): c.setpv(c.f(r, t, name), g)
    else: c.setf(r, t, name, c.newpoint(g))
def val(G, H, x, r): return gmul(gexp(G, x), gexp(H, r))

@contract(M + 'CommitWithR')
def CommitWithR(c, base, x, r):
    wf(c, base); G, H = gh(c, base)
    c.ret(c.newpoint(val(G, H, c.sv(x), c.sv(r))))

@contract(M + 'Commit')
def Commit(c, base, x):
    wf(c, base); G, H = gh(c, base)
    r = c.random()
    c.ret(c.newpoint(val(G, H, c.sv(x), r)), c.newsecret(r))

@contract(M + 'Verify')
def Verify(c, base, x, r, pc):
    wf(c, base); G, H = gh(c, base)
    c.ret(eq(c.pv(pc), val(G, H, c.sv(x), c.sv(r))))

@contract(M + 'Add')
def Add(c, base, x, y):
    if c.case(or_(eq(x, NIL), eq(y, NIL))): return c.stops()
    c.ret(c.newpoint(gmul(c.pv(x), c.pv(y))))
@contract(M + 'Sub')
def Sub(c, base, x, y):
    if c.case(or_(eq(x, NIL), eq(y, NIL))): return c.stops()
    c.ret(c.newpoint(gmul(c.pv(x), ginv(c.pv(y)))))
@contract(M + 'Randomize')
def Randomize(c, base, x):
    c.requires(neq(x, NIL), 'commitment given')
    e = c.random()
    c.ret(c.newpoint(gexp(c.pv(x), e)), c.newsecret(e))

@contract(PKG + 'CreateMinimalBaseFromSuite')
def CreateMinimal(c, suite):
    c.ret(c.newstruct(PB, Suite=suite, GT=c.newpoint(GB), HT=c.newpoint(GB)))
@contract(PKG + 'CreateBase')
def CreateDefault(c):
    s = c.random()
    c.ret(c.newstruct(PB, Suite=SUITE, GT=c.newpoint(GB), HT=c.newpoint(gexp(GB, s))))
@contract(PKG + 'CreateBaseFromSuite')
def CreateBase(c, suite):
    s = c.random()
    c.ret(c.newstruct(PB, Suite=suite, GT=c.newpoint(GB), HT=c.newpoint(gexp(GB, s))))
