"""Registration of contracts and properties."""
from engine.contracts import Contract

CONTRACTS = {}      # function name -> Contract
def contract(*names, stubs=()):
    def d(f):
        for n in names:
            CONTRACTS[n] = Contract(n, f); CONTRACTS[n].stubs = tuple(stubs)
        return f
    return d

class Property:
    def __init__(self, pid, contracts=(), goals=(), replay=(), uses=None, notes='', trusted=()):
        """contracts: functions whose contract states part of the property; goals: lemmas over the (real) functions;
        replay: (package dir, test file, test name) used to find a failing input once an obligation has failed"""
        self.pid = pid; self.contracts = list(contracts); self.goals = list(goals); self.replay = list(replay)
        self.notes = notes; self.uses = uses; self.trusted = list(trusted)
PROPERTIES = {}
def prop(pid, **kw):
    PROPERTIES[pid] = Property(pid, **kw); return PROPERTIES[pid]
