"""mkseed.seed(id, prop, edits=[(file, old, new)...], demo=python source, needs, breaks)

Writes /verif/seeded/<id>/ from exact text replacements on /repo's HEAD (restored afterwards)."""
import json
import os
import subprocess

REPO, SEEDED = "/repo", "/verif/seeded"


def seed(sid, prop, edits, demo, needs, breaks):
    assert not subprocess.run(["git", "-C", REPO, "status", "--porcelain"], capture_output=True, text=True).stdout
    d = os.path.join(SEEDED, sid)
    os.makedirs(d, exist_ok=True)
    try:
        for path, old, new in edits:
            p = os.path.join(REPO, path)
            text = open(p).read()
            assert text.count(old) == 1, (sid, path, text.count(old), old)
            open(p, "w").write(text.replace(old, new))
        diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True, check=True).stdout
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."], check=True)
    assert diff
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(demo.strip() + "\n")
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\nHERE=$(cd "$(dirname "$0")" && pwd)\nexport MPLBACKEND=Agg\n'
        'exec /opt/venv/bin/python "$HERE/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", sid)
