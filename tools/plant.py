"""
Writes a planted bug: seeded/<id>/{patch.diff,demo.sh,meta.json}.

usage: plant.py SPEC.py      (SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO)
EDITS = [(path relative to /repo, old text, new text[, occurrence count])], DEMO = Python source.
"""
import difflib, json, pathlib, subprocess, sys

spec = {}
exec(pathlib.Path(sys.argv[1]).read_text(), spec)
out = pathlib.Path(__file__).resolve().parent.parent / "seeded" / spec["ID"]
out.mkdir(parents=True, exist_ok=True)
patch = ""
texts = {}
for path, old, new, *n in spec["EDITS"]:
    src = texts.get(path)
    if src is None:
        src = subprocess.run(["git", "-C", "/repo", "show", f"HEAD:{path}"], capture_output=True, text=True, check=True).stdout
        texts[path] = src
    want = n[0] if n else 1
    assert src.count(old) == want, (path, src.count(old), old)
    texts[path] = src.replace(old, new)
for path, new in texts.items():
    src = subprocess.run(["git", "-C", "/repo", "show", f"HEAD:{path}"], capture_output=True, text=True, check=True).stdout
    patch += "".join(difflib.unified_diff(src.splitlines(True), new.splitlines(True), f"a/{path}", f"b/{path}"))
(out / "patch.diff").write_text(patch)
demo = out / "demo.sh"
demo.write_text("#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo\nexec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
demo.chmod(0o755)
(out / "demo.py").write_text(spec["DEMO"].lstrip("\n"))
(out / "meta.json").write_text(json.dumps(dict(property=spec["PROPERTY"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]), indent=1) + "\n")
print(patch)
