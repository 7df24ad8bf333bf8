"""Writes /verif/DESIGN.md from docs/design_head.md, docs/properties.md, the constants of the check modules and docs/caught.json."""
import ast, glob, json, os, re

home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(home, "properties.jsonl"))]
read = lambda p: open(os.path.join(home, "docs", p)).read()


def constants(path):
    c = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign):
            t = node.targets[0]
            pairs = zip(t.elts, node.value.elts) if isinstance(t, ast.Tuple) and isinstance(node.value, ast.Tuple) else [(t, node.value)]
            for a, b in pairs:
                try:
                    c[a.id] = ast.literal_eval(b)
                except (ValueError, AttributeError):
                    pass
    return c


own = {}
for part in re.split(r"(?m)^## ", read("properties.md"))[1:]:
    own[part[:3]] = part[3:].strip()
findings = {}
for line in open(os.path.join(home, "KNOWN_FINDINGS.txt")):
    m = re.match(r"(known|fixed): property=(C\d\d) (\S+) (.*)", line)
    if m:
        findings.setdefault(m[2], []).append((m[1], m[3], m[4].strip()))
caught = json.load(open(os.path.join(home, "docs", "caught.json")))
out = [read("design_head.md").strip(), "", "## The properties", ""]
for p in props:
    i = p["id"]
    c = constants(os.path.join(home, "checks", i.lower() + ".py"))
    out += [f"### {i} {p['title']}", "", f"*Technique.* {c['TECHNIQUE']}.", "", f"*Enumerated.* {c['RULE']}.", "", own.get(i, ""), ""]
    out += ["*Assumptions.* " + "; ".join(c["ASSUMPTIONS"]) + ".", "", "*Why the tests cannot settle it.* " + p["why_tests_cant"], ""]
    f = findings.get(i, [])
    if f:
        known = [x for x in f if x[0] == "known"]
        fixed = [x for x in f if x[0] == "fixed"]
        if fixed:
            out += ["*Defects found and repaired.* " + "; ".join(f"{x[2]} (`{x[1]}`)" for x in fixed) + ".", ""]
        if known:
            out += ["*Recorded findings (not repaired).*", ""] + [f"* `{x[1].split('=', 1)[1]}`: {x[2]}" for x in known] + [""]
out += ["## Planted bugs", "", "Each was confirmed in a scratch copy: it changes original lines, builds, passes the stable tests, and its demo tells it from the unchanged tree.", "", "| seeded | what it breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(home, "seeded", "*", "meta.json"))):
    name = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    r = caught.get(name, {})
    cell = lambda s: s.replace("|", "\\|").replace("\n", " ")
    got = ", ".join(k for k, v in r.items() if v == 1) or "-"
    missed = ", ".join(k for k, v in r.items() if v == 0)
    out.append(f"| {name} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} | {got}{' (quiet: ' + missed + ')' if missed else ''} |")
open(os.path.join(home, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len(props), "properties,", sum(1 for l in out if l.startswith("| C")), "planted bugs")
