#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md: the section on each property (from properties.jsonl and the check modules,
costs from tools/costs.json) and the table of planted changes (from seeded/*/meta.json and tools/caught.json)."""
import ast, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(pid):
    t = ast.parse(open(os.path.join(HERE, "checks", pid.lower() + ".py")).read())
    out = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "BOUNDS", "ASSUMPTIONS"):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


def main():
    cost = json.load(open(os.path.join(HERE, "tools", "costs.json")))
    caught = json.load(open(os.path.join(HERE, "tools", "caught.json")))
    sec = []
    for l in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(l)
        c = consts(p["id"])
        rule = c["RULE"]
        b = c["BOUNDS"]
        sec.append("### %s %s\n\n- Enumerated and compared: %s.\n- Bounds: quick: %s. Thorough: %s.\n- Why tests cannot: %s" % (
            p["id"], p["title"], rule.rstrip("."), b["quick"].rstrip("."), b["thorough"].rstrip("."), p["why_tests_cant"]))
        if c.get("ASSUMPTIONS"):
            sec[-1] += "\n- Assumptions: %s." % "; ".join(c["ASSUMPTIONS"]).rstrip(".")
        q, t = cost[p["id"]]
        sec[-1] += "\n- Cost: quick %s s%s on 8 cores." % (q, ", thorough %s s" % t if t else "")
    rows = ["| planted change | what it breaks | needs | caught by |", "|---|---|---|---|"]
    for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (d, m["what_it_breaks"], m["needs"], caught.get(d, "")))
    s = open(os.path.join(HERE, "DESIGN.md")).read()
    a, b = s.index("## Properties and how each is decided"), s.index("## Genuine defects found")
    s = s[:a] + "## Properties and how each is decided\n\n" + "\n\n".join(sec) + "\n\n" + s[b:]
    i = s.index("## Planted changes")
    m = re.search(r"^(SEEDTABLE|\| planted change.*?)(?=\n\n|\s*\Z)", s[i:], re.M | re.S)
    s = s[:i + m.start()] + "\n".join(rows) + s[i + m.end():].rstrip() + "\n"
    open(os.path.join(HERE, "DESIGN.md"), "w").write(s)


main()
