from registry import prop
from contracts import coordinator as co
prop('C22', contracts=[co.CN + 'handleRequestBridges', co.M + 'AssignBridges', co.br.B_ + 'VerifyInd'], replay=[('cmd/coordinator', 'c22_test.go', 'TestZV')])
