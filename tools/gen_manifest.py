#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/meta.py."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.realpath(__file__)))
from meta import CHECKS, TRUST
m = dict(
    version=1,
    setup_cmd="python3 check.py --setup",
    hooks=dict(
        guard="cfg flags rtps_verif (re-exports of private modules in src/verif_hooks.rs), rtps_verif_endpoints and rtps_verif_parameter (constructors of types with private fields)",
        enable="RUSTFLAGS='--cfg rtps_verif' (C21 adds --cfg rtps_verif_endpoints, C17 adds --cfg rtps_verif_parameter); check.py does this in its own target directories under /verif/target",
        source_commits=["8b91ea9", "61f508a"]),
    checks=[dict(property=p,
                 quick_cmd=f"python3 check.py {p} --tier quick",
                 thorough_cmd=f"python3 check.py {p} --tier thorough",
                 evidence_file=f"evidence/{p}.json",
                 technique=c["technique"], level="exploration",
                 level_note=c["note"] + " " + TRUST) for p, c in sorted(CHECKS.items())],
    not_applicable=[],
    notes="All checks: python3 check.py <property>; see DESIGN.md. Known findings and fixed defects: KNOWN_FINDINGS.txt.")
with open(os.path.join(os.path.dirname(os.path.realpath(__file__)), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
