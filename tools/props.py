#!/usr/bin/env python3
"""Single source of truth: writes properties.jsonl and MANIFEST.json.
   python3 tools/props.py            (run from anywhere)"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, claimed=True, na=None,
         observe=None, state=None, level="model_checking"):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None),
        _t=technique, _n=note, _c=claimed, _na=na, _l=level))
exec(open(os.path.join(ROOT, 'tools', 'props_data.py')).read())
built = {f[:-4] for f in os.listdir(os.path.join(ROOT, 'harness')) if f[:1] == 'C' and f.endswith('.cpp')}
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
checks, na = [], []
for p in P:
    if p['_c'] and p['id'] in built:
        checks.append(dict(property=p['id'], quick_cmd=f"python3 tools/check.py {p['id']} quick",
            thorough_cmd=f"python3 tools/check.py {p['id']} thorough",
            evidence_file=f"evidence/{p['id']}.json", technique=p['_t'], level=p['_l'], level_note=p['_n']))
    else:
        na.append(dict(property=p['id'], reason=p['_na'] or 'No check is built for it yet.'))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
  notes="Harnesses in harness/, driver tools/check.py; every check recompiles the sources it needs from /repo's working tree. No hooks in /repo: nondeterminism is captured by link-time interposition inside the harness executables.")
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
