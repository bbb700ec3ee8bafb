#!/usr/bin/env python3
"""rewrite section 2 of DESIGN.md from claims.py and properties.jsonl"""
import json, os, re, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."); sys.path.insert(0, V)
import claims
L = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); a, b = claims.TEXT[p["id"]]
    L.append("* **%s %s** (%s). Proved: %s.%s" % (p["id"], p["title"], claims.level(p["id"]), a, " Left over: %s." % b if b else ""))
f = os.path.join(V, "DESIGN.md"); s = open(f).read()
i = s.index("## 2. Per property"); j = s.find("\n## 3.", i)
s = s[:i] + "## 2. Per property\n" + "\n".join(L) + "\n" + (s[j:] if j >= 0 else "")
open(f, "w").write(s)
