#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl (run by hand after editing)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
            observe_at=observe or [], hook_needed=None)))
exec(open(os.path.join(os.path.dirname(__file__), "props_data.py")).read())
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
open(out, "w").write("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
ids = [x["id"] for x in P]; assert len(ids) == len(set(ids))
for x in P: assert len(x["title"]) <= 80, x["id"]
print(len(P), "properties")
