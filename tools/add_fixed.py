#!/usr/bin/env python3
"""add_fixed.py PROPERTY COMMIT TEXT: record a repaired defect in known_findings.json."""
import json, sys
p = "/verif/known_findings.json"; d = json.load(open(p)); prop, commit, text = sys.argv[1:]
d.append(dict(property=prop, status="fixed", commit=commit, entry=f"fixed: property={prop} {commit} {text}"))
open(p, "w").write(json.dumps(d, indent=1) + "\n")
