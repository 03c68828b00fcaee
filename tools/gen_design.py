"""Writes DESIGN.md from the hand-written parts in design/*.md and the registry of checks."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import PROPS
props = {}
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    props[p["id"]] = p
notes = {}
cur = None
for l in open(V + "/design/notes.md"):
    if l.startswith("# "):
        cur = l[2:].strip(); notes[cur] = ""
    elif cur:
        notes[cur] += l
out = [open(V + "/design/head.md").read().rstrip() + "\n"]
out.append("## Properties, one by one\n")
for i, p in props.items():
    c = PROPS[i]
    runs = ", ".join(f"{r['variant']} ({r['quick']} cases quick / {r['thorough']} thorough)" for r in c["runs"])
    out.append(f"### {i} — {p['title']}\n")
    out.append(notes.get(i, "").strip() + "\n")
    out.append(f"- Decided by: {c['technique']}; `harness/{c['src']}`, {runs}.")
    out.append(f"- A distinct situation is {c['rule']}. Coverage: {c['note']}.")
    out.append(f"- Bounds: {'; '.join(c.get('assumptions', []))}.")
    out.append(f"- Why tests cannot: {p['why_tests_cant']}\n")
rows = {}
cm = V + "/design/catches.json"
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = os.path.basename(os.path.dirname(f)); m = json.load(open(f)); rows[d] = m
cat = json.load(open(cm)) if os.path.exists(cm) else {}
out.append("## Planted bugs and what catches them\n")
out.append("| planted bug | property | needs | caught by (quick) | missed by its own check |\n|---|---|---|---|---|")
for d, m in rows.items():
    c = cat.get(d, {})
    out.append(f"| {d} | {m['property']} | {m['needs']} | {', '.join(c.get('caught', [])) or '?'} | {c.get('history', '') or 'no'} |")
out.append("")
out.append(open(V + "/design/tail.md").read().rstrip() + "\n")
open(V + "/DESIGN.md", "w").write("\n".join(out))
