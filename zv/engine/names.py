"""Renamed declarations. The contracts name functions, struct fields, types and globals as they were when they were written
(names.json). A name that is gone is taken to be a name that is new when the declaration matches in everything else (package,
receiver, parameter and result types; type and place among the unmatched fields) and the match is unique; the exported program
is then read under the old name, so that the contract is checked on the renamed body."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = os.path.join(HERE, 'names.json')

def recv(n):
    m = re.match(r'\((\*?[^)]*)\)\.(\w+)$', n)
    return (m.group(1), m.group(2)) if m else (None, n.rsplit('.', 1)[-1])
def sig(f):
    return [[x['t'] for x in f['params'] or []], [x['t'] if isinstance(x, dict) else x for x in f['results'] or []]]
def ours(n): return n.startswith('zRep/')
def snapshot(d):
    out = {'types': {}, 'funcs': {}, 'globals': {g: t for g, t in d['globals'].items() if ours(g) and '$' not in g}}
    for n, x in d['types'].items():
        if ours(n) and x.get('kind') == 'named':
            u = d['types'].get(x['under'], {})
            if u.get('kind') == 'struct': out['types'][n] = [[f['name'], f['t']] for f in u.get('fields') or []]
            else: out['types'][n] = x['under']
    for n, f in d['funcs'].items():
        if ours(f['pkg'] or '') and '$' not in n and not n.endswith('.init') and not f.get('synth'):
            out['funcs'][n] = [f['pkg']] + sig(f)
    return out

def pairs(old, new, key):
    """the names in old without a counterpart in new, each with the only new name that has the same key"""
    gone = [n for n in old if n not in new]; come = [n for n in new if n not in old]
    res = {}
    for g in gone:
        c = [n for n in come if key(n, new[n]) == key(g, old[g])]
        o = [n for n in gone if key(n, old[n]) == key(g, old[g])]
        if len(c) == 1 and len(o) == 1: res[c[0]] = g
    return res

def replace(text, ren):
    for n, o in ren.items():
        text = re.sub(r'(?<![\w/.])' + re.escape(n) + r'(?!\w)', o, text)
    return text

def load(path):
    text = open(path).read()
    if not os.path.exists(FILE): return json.loads(text)
    want = json.load(open(FILE)); d = json.loads(text); log = {}
    def again(ren, f=lambda n: n):
        nonlocal text, d
        if not ren: return
        log.update(ren); text = replace(text, {f(n): f(o) for n, o in ren.items()}); d = json.loads(text)
    shape = lambda n, x: (n.rsplit('.', 1)[0], json.dumps(x).replace(n, '~') if isinstance(x, str) else json.dumps([f[1].replace(n, '~') for f in x]), [f[0] for f in x] if isinstance(x, list) else 0)
    again(pairs(want['types'], snapshot(d)['types'], shape))
    # fields, before the functions: they change no signature
    done = set()
    for n, old in want['types'].items():
        x = d['types'].get(n)
        if not x or not isinstance(old, list): continue
        u = d['types'].get(x['under'], {}); new = u.get('fields') or []
        if u.get('kind') != 'struct' or x['under'] in done: continue
        done.add(x['under'])
        names = {f['name'] for f in new}
        gone = [f for f in old if f[0] not in names]; come = [f for f in new if f['name'] not in {o[0] for o in old}]
        if gone and [f[1] for f in gone] == [f['t'] for f in come]:
            for (o, _), f in zip(gone, come):
                log['%s.%s' % (n, f['name'])] = '%s.%s' % (n, o); f['name'] = o
    text = json.dumps(d)
    again(pairs(want['globals'], snapshot(d)['globals'], lambda n, t: (n.rsplit('.', 1)[0], t)))
    now = snapshot(d)['funcs']
    again(pairs(want['funcs'], now, lambda n, s: json.dumps([recv(n)[0]] + s)))
    if log: d['renamed'] = log
    return d
