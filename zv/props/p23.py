from registry import prop
from engine.terms import *
from contracts import bridge as br
B_ = br.B_
prop('C23', contracts=[B_ + 'VerifyInd'], replay=[('cmd/bridge', 'c23_test.go', 'TestZV')])
