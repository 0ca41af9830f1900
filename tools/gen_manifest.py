import json, sys, os
sys.path.insert(0, '/verif/zv')
os.chdir('/verif')
import check
reg = check.load_all()
props = [json.loads(l) for l in open('properties.jsonl')]
NA = {
 'C40': 'indistinguishability of runs for an adversary coalition is a probabilistic two-run statement; contracts over single calls cannot express it (the algebraic parts of the shuffle are claimed as C16 and C17)',
 'C41': 'liveness over several processes: partial-correctness contracts of sequential functions say nothing about progress',
 'C42': 'absence of data races between goroutines: the verifier treats each call as sequential and has no permission model for goroutines',
}
checks = []; na = []
for p in props:
    i = p['id']
    if i in reg.PROPERTIES:
        pr = reg.PROPERTIES[i]
        checks.append({'property': i,
          'quick_cmd': 'python3-vt zv/check.py %s --tier quick' % i,
          'thorough_cmd': 'python3-vt zv/check.py %s --tier thorough' % i,
          'technique': 'contract-based deductive verification: contracts on the real functions, verification conditions generated from the SSA of the current tree, discharged by algebraic normalisation and z3',
          'level': 'proof',
          'level_note': 'all inputs and all iterations; assumes the listed library contracts, mathematical integers and sequential execution. ' + pr.notes})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt zv/check.py setup', 'checks': checks, 'not_applicable': na,
  'notes': 'zv: see DESIGN.md. No hooks in /repo are needed.'}, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
