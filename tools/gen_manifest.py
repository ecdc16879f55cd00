#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry."""
import json
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
sys.dont_write_bytecode = True
from harness.registry import CHECKS  # noqa: E402

root = Path(__file__).resolve().parent.parent
props = [json.loads(x)["id"] for x in (root / "properties.jsonl").read_text().splitlines()]
m = dict(
    version=1,
    setup_cmd="python3 tools/setup.py",
    checks=[
        dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
             evidence_file=f"evidence/{i}.json", technique=CHECKS[i].technique, level=CHECKS[i].level, level_note=CHECKS[i].note)
        for i in props if i in CHECKS
    ],
    not_applicable=[dict(property=i, reason="not built yet") for i in props if i not in CHECKS],
)
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(m["checks"]), "checks")
