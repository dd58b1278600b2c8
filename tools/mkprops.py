#!/usr/bin/env python3
# writes properties.jsonl and MANIFEST.json from the table below and contracts/props.json
import json, os
V = '/verif'
props = []
def P(id, title, statement, over, text, why, files, mech, na=None, observe=None, tech=None, note=None):
    props.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over.split(), text=' '.join(text.split()),
                      why=' '.join(why.split()), files=files.split(), mech=mech, na=na, observe=observe, tech=tech, note=note))
exec(open(V + '/tools/props_table.py').read())
cfg = json.load(open(V + '/contracts/props.json'))
with open(V + '/properties.jsonl', 'w') as f:
    for p in props:
        a = {"files": p['files'], "mechanism": [{"name": n, "where": w} for n, w in p['mech']]}
        if p['observe']: a["observe_at"] = p['observe']
        a["hook_needed"] = None
        f.write(json.dumps({"id": p['id'], "title": p['title'], "statement": p['statement'],
            "quantifier": {"over": p['over'], "text": p['text']}, "why_tests_cant": p['why'], "anchors": a}) + '\n')
        assert len(p['title']) <= 80, p['title']
TECH = "contracts on the real functions; verification conditions from /repo's SSA discharged by z3/cvc5"
checks, na = [], []
for p in props:
    c = cfg.get(p['id'])
    if c is None or p['na']:
        na.append({"property": p['id'], "reason": p['na'] or "no contract decides it yet"})
        continue
    lvl = c.get('level', 'proof')
    note = p['note'] or ("Every obligation of every function the property rests on is discharged on each run, for all inputs and iterations; "
            "the contracts are also executed on generated inputs, which only serves to show a failing input. Trusted: the verifier gover, "
            "go/ssa, the solvers, the listed assumptions in the evidence.")
    ch = {"property": p['id'], "quick_cmd": "./check.sh %s quick" % p['id'], "thorough_cmd": "./check.sh %s thorough" % p['id'],
          "technique": p['tech'] or TECH, "level": lvl, "level_note": note}
    if lvl == 'proof':
        ch["theorems"] = ["contracts/%s: Post_%s" % tuple(r.split('.', 1)) for r in c['roots']]
    checks.append(ch)
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
    "notes": "No hooks: contracts are overlaid on the packages at verification time, nothing is added to /repo. See DESIGN.md."},
    open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(props), 'properties,', len(checks), 'checks')
