"""Writes DESIGN.md: the fixed text below, the list of repaired defects from known_findings.txt, the table of planted changes from tools/caught.txt."""
import json, pathlib, re
R = pathlib.Path(__file__).resolve().parent.parent
T = (R / "tools" / "design.txt").read_text()
kf = (R / "known_findings.txt").read_text().splitlines()
fixed = [l[7:] for l in kf if l.startswith("fixed:")]
known = [json.loads(l) for l in kf if l.startswith("{")]
fx = "\n".join("- " + re.sub(r"property=(\S+) (\S+) (.*)", r"\1 (`\2`): \3", l) for l in sorted(fixed, key=lambda l: l[1:]))
kn = "\n".join(f"- {k['property']} `{k['key']}`: {k['what']}" for k in known)
c = R / "tools" / "caught.txt"
caught = {}
if c.exists():
    for l in c.read_text().splitlines():
        i, rest = l.split(" ", 1); caught[i] = rest
rows = []
for d in sorted((R / "seeded").glob("*/meta.json")):
    m = json.loads(d.read_text()); i = d.parent.name
    rows.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {caught.get(i, '?')} |")
T = T.replace("@FIXED@", fx).replace("@NFIXED@", str(len(fixed))).replace("@KNOWN@", kn).replace("@SEEDS@", "\n".join(rows))
(R / "DESIGN.md").write_text(T)
