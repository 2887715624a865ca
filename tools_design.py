"""Keep the generated parts of DESIGN.md in step: per property the cases, their
counts, how inputs are generated and what is assumed; and the table of planted
bugs (from seeded/, with the results that are passed as a file)."""
import importlib, json, os, re, sys

sys.path.insert(0, "/verif")
text = open("/verif/DESIGN.md").read()
for i in range(1, 24):
    cid = f"C{i:02d}"
    m = importlib.import_module(f"vk.checks.{cid.lower()}")
    lines = [f"Generated: {m.RULE}", ""]
    lines.append("Cases (evaluations quick / thorough): " + ", ".join(f"{c.name} {c.quick} / {c.thorough}" for c in m.CASES) + ".")
    docs = [f"*{c.name}*: {(c.run.__doc__ or '').strip().splitlines()[0]}" for c in m.CASES if (c.run.__doc__ or "").strip()]
    if docs:
        lines += ["", "Of these: " + " ".join(docs)]
    if getattr(m, "ASSUMPTIONS", None):
        lines += ["", "Assumes: " + " ".join(m.ASSUMPTIONS)]
    block = f"<!-- {cid} -->\n" + "\n".join(lines) + f"\n<!-- /{cid} -->"
    pat = re.compile(rf"<!-- {cid} -->.*?<!-- /{cid} -->", re.S)
    if pat.search(text):
        text = pat.sub(lambda _: block, text)
    else:
        pat = re.compile(rf"(### {cid} .*?)(?=\n+### C|\n+## |\Z)", re.S)
        text = pat.sub(lambda mm: mm.group(1).rstrip() + "\n\n" + block, text, count=1)

if len(sys.argv) > 1:
    got = {}
    for line in open(sys.argv[1]):
        mm = re.match(r"(\S+)\s+(C\d\d): (\S+)(?: (\d+)s VIOLATION property=\S+ replay=\S*/C\d\d-(\S+?)\.json)?", line)
        if mm:
            got.setdefault(mm.group(1), []).append((mm.group(2), mm.group(3).strip("*"), mm.group(5)))
    rows = ["| Planted bug | Property | Needs | Caught by |", "|---|---|---|---|"]
    for d in sorted(os.listdir("/verif/seeded")):
        meta = json.load(open(f"/verif/seeded/{d}/meta.json"))
        res = ", ".join(f"{c} ({case})" if r == "CAUGHT" else f"{c}: missed" for c, r, case in got.get(d, [])) or "?"
        rows.append(f"| {d} | {meta['property']} | {meta['needs'].replace('|', '/')} | {res} |")
    block = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
    text = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: block, text, flags=re.S)
open("/verif/DESIGN.md", "w").write(text)
