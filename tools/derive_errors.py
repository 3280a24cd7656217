#!/usr/bin/env python3
"""derive_errors.py PROPERTY LOG TYPES.RS
The explorer of derived types does not compile.  If that is because the derive macros reject, or produce rubbish for,
a type of the family, the property of that kind of type is broken: exit 1 with a VIOLATION line.  Otherwise exit 2."""
import re, os, sys
prop, log, types = sys.argv[1:4]
kinds = {"C08": ["SEQUENCE"], "C09": ["CHOICE"], "C10": ["SEQUENCE OF"], "C11": ["OPEN"], "C12": ["SEQUENCE"]}.get(prop, [])
try: src = open(types).read().split("\n")
except OSError: sys.exit(2)
text = open(log, errors="replace").read()
found, other = {}, 0
blocks = [b for b in re.split(r"\n(?=error)", "\n" + text)[1:] if not re.match(r"error: could not compile|error: aborting", b)]
# what the macros themselves report comes first; a type without codec then shows wherever it is used
own = [b for b in blocks if not b.startswith("error[")]
for block in own or blocks:
    m = re.search(r"--> \S*/types\.rs:(\d+)", block)
    if not m: other += 1; continue
    n = int(m.group(1))
    while n > 0 and not src[n - 1].startswith("// @"): n -= 1
    h = re.match(r"// @([^@]*)@ (.*)", src[n - 1]) if n else None
    if not h: other += 1; continue
    if h.group(1) == "table": continue
    found.setdefault((h.group(1), h.group(2)), block.split("\n")[0])
if other or not found: sys.exit(2)
hit = [(k, t, e) for (k, t), e in found.items() if k in kinds]
if not hit: sys.exit(2)
root = os.environ["VERIF_DIR"]
d = os.path.join(root, "work", "replay"); os.makedirs(d, exist_ok=True)
path = os.path.join(d, prop + "-derive.txt")
with open(path, "w") as f:
    for k, t, e in hit: f.write("%s %s\n  %s\n" % (k, t, e))
for k, t, e in hit[:8]:
    print("VIOLATION property=%s replay=%s" % (prop, path))
    print("  no codec is derived for %s: %s" % (t[:300], e[:200]))
import json, glob
ev = os.path.join(root, "evidence", prop + ".json")
try: j = json.load(open(ev)); j["violations"] = len(hit); json.dump(j, open(ev, "w"), indent=1)
except OSError: pass
sys.exit(1)
