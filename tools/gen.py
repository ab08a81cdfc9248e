#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json
G = ['gfm/src/lib.rs', 'gfm/src/lexer.rs', 'gfm/src/iter.rs', 'gfm/src/token.rs']
P = []
def prop(id, title, statement, over, otext, why, files, mech, tech=None, level=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=otext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _=(tech, level, note, na)))
AI = 'abstract interpretation of MIR (path-sensitive symbolic string/integer domain, fixpoint over loops, modular over recursion)'
exec(open(__file__.replace('gen.py', 'props.py')).read())
with open('/verif/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k != '_'}, ensure_ascii=False) + '\n')
checks, na = [], []
for p in P:
    tech, level, note, why = p['_']
    if why:
        na.append(dict(property=p['id'], reason=why))
    else:
        checks.append(dict(property=p['id'], quick_cmd='python3 analysis/run.py ' + p['id'], thorough_cmd='python3 analysis/run.py ' + p['id'],
                           technique=tech, level=level, level_note=note))
json.dump(dict(version=1, setup_cmd='python3 analysis/dump.py', checks=checks, not_applicable=na), open('/verif/MANIFEST.json', 'w'), indent=1)
