"""usage: add_fixed.py <property> <commit> <what failed>"""
import json
import pathlib
import sys

p = pathlib.Path(__file__).parent.parent / "known_findings.json"
k = json.loads(p.read_text())
prop, commit, what = sys.argv[1:]
k.append(dict(property=prop, status="fixed", commit=commit, what=f"fixed: property={prop} {commit} {what}"))
p.write_text(json.dumps(k, indent=1) + "\n")
