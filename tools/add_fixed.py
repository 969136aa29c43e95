#!/usr/bin/env python3
"""add_fixed.py PROP COMMIT "what failed": append a fixed entry to known_findings.jsonl."""
import json, sys
p, c, w = sys.argv[1:4]
open("/verif/known_findings.jsonl", "a").write(json.dumps(dict(status="fixed", property=p, commit=c, entry=f"fixed: property={p} {c} {w}")) + "\n")
