#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.head.md + what is generated from the harness, seeded/ and known-findings + tools/design.tail.md."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = H + "/tools/"
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
method = {}
cur = None
for l in open(T + "design.method.md"):
    m = re.match(r"# (C\d\d)", l)
    if m:
        cur = m[1]
        method[cur] = ""
    elif cur:
        method[cur] += l


def entries(i):
    es, doc = [], []
    for l in open("%s/harness/src/%s.rs" % (H, i.lower())):
        l = l.rstrip("\n")
        m = re.match(r'pub extern "C" fn (\w+)', l)
        if l.startswith("///"):
            doc.append(l[3:].strip())
        elif m:
            d = dict(doc=" ".join(x for x in doc if not re.match(r"(variants|labels|bounds|tier|random-replay):", x)))
            for x in doc:
                k = re.match(r"(variants|labels|bounds|tier|random-replay): *(.*)", x)
                if k:
                    d[k[1]] = (d.get(k[1], "") + " " + k[2]).strip()
            es.append((m[1], d))
            doc = []
        elif not l.startswith("#["):
            doc = []
    return es


seeded = {}
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f))
    seeded.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
cost = {}
if os.path.exists(T + "cost.json"):
    cost = json.load(open(T + "cost.json"))
out = [open(T + "design.head.md").read().rstrip("\n"), "", "## Properties", ""]
for p in props:
    i = p["id"]
    out += ["### %s %s" % (i, p["title"]), "", p["statement"], "", method.get(i, "").strip(), ""]
    out += ["| entry | what it decides | bounds | builds |", "|---|---|---|---|"]
    for n, d in entries(i):
        b = d.get("variants", "dbg")
        if d.get("tier") == "thorough":
            b += " (thorough only)"
        out.append("| `%s` | %s | %s | %s |" % (n, d["doc"].replace("|", "\\|"), d.get("bounds", "").replace("|", "\\|"), b))
    out.append("")
    c = cost.get(i)
    if c:
        out += ["Quick run: %(wall)d s, %(paths)d paths, %(asserts)d assertions, %(queries)d solver queries (%(solver).1f s)." % c +
                (" Thorough run: %(wall)d s, %(paths)d paths, %(asserts)d assertions, %(queries)d queries.%(note)s" % c["thorough"] if "thorough" in c else ""), ""]
    if i in seeded:
        out.append("Planted bugs: " + ", ".join("`%s`" % n for n, _ in seeded[i]) + ".")
        out.append("")
tail = open(T + "design.tail.md").read()
rows = ["| planted change | property | what it needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(T + "caught.json")) if os.path.exists(T + "caught.json") else {}
for i in sorted(seeded):
    for n, m in seeded[i]:
        rows.append("| %s | %s | %s | %s |" % (n, i, m["needs"].replace("|", "\\|"), caught.get(n, "?")))
tail = tail.replace("@BUGS@", "\n".join(rows))
tail = tail.replace("@FIXES@", "\n".join("- " + l.strip() for l in open(H + "/known-findings.txt") if l.startswith(("fixed:", "known:"))))
out.append(tail.rstrip("\n"))
open(H + "/DESIGN.md", "w").write("\n".join(out) + "\n")
