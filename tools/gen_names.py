#!/usr/bin/env python3-vt
"""names the contracts refer to: python3-vt tools/gen_names.py, to be run on the tree the contracts were written for"""
import sys, os, json, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'zv'))
import check
from engine import names
t = tempfile.mkdtemp()
d = json.load(open(check.export(t))); shutil.rmtree(t)
s = names.snapshot(d)
json.dump(s, open(names.FILE, 'w'), indent=0, sort_keys=True)
print({k: len(v) for k, v in s.items()})
