from registry import prop
from contracts import coordinator as co
from props import p25
prop('C20', contracts=[co.M + 'GetBridges', co.M + 'AssignBridges', co.M + 'GetBridge'], goals=[p25.step],
     replay=[('cmd/coordinator', 'c20_test.go', 'TestZV'), ('cmd/coordinator', 'c25_test.go', 'TestZV')])
