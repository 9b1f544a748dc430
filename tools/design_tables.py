"""Fills the tables of DESIGN.md from known_findings.json and seeded/*/meta.json."""
import glob, json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
seen, rows = {}, []
for f in json.load(open(os.path.join(V, "known_findings.json")))["findings"]:
    c = f["commit"][:7]
    w = f.get("what") or f.get("description")
    seen.setdefault(c, [w, []])[1].append(f["property"])
fix = "\n".join(f"| {c} | {', '.join(sorted(set(ps)))}: {w} |" for c, (w, ps) in seen.items())
seeds = "\n".join(f"| {os.path.basename(os.path.dirname(m))} | {json.load(open(m))['needs']} |"
                  for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))))
for head, body in (("| commit | what failed |\n|---|---|\n", fix), ("| id | needs |\n|---|---|\n", seeds)):
    i = s.index(head) + len(head)
    j = s.index("\n\n", i)
    s = s[:i] + body + s[j:]
open(p, "w").write(s)
