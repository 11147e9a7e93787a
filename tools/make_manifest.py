"""Writes MANIFEST.json from properties.jsonl and the check modules present."""

import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
PENDING = "no check has been built for this property yet"
REASONS = {}

TECHNIQUE = ("solver-based checking of the real code: symbolic execution of the package's own functions "
             "(instrumented from the current source on every run), assertions discharged by z3 for every value "
             "within the stated bounds, counterexamples and path witnesses replayed on the unmodified package")
NOTE = ("bounded: every path within the bounds listed per obligation in the evidence file is explored and each "
        "assertion is discharged by z3; states = paths, transitions = branch decisions")

props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines() if x.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if (ROOT / "checks" / f"{i.lower()}.py").exists() and i not in REASONS:
        checks.append(dict(
            property=i, quick_cmd=f"VERIF_TIER=quick ./run.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {i}",
            evidence_file=f"evidence/{i}.json", technique=TECHNIQUE, level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=i, reason=REASONS.get(i, PENDING)))
out = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
           notes="All checks share one engine (symx/). Run one with ./run.sh <ID>; replay a counterexample with "
                 "/opt/venv/bin/python -m symx.replay <ID> <file>. No hooks are placed in the repository.")
(ROOT / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
