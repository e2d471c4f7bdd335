"""Writes DESIGN.md from tools/DESIGN.tmpl.md, the headers of spec/*.tla, properties.jsonl,
known_findings.json and tools/seeded.json."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rd(p):
    with open(os.path.join(V, p), encoding="utf-8") as f:
        return f.read()


def modules():
    out = ["| module | lines | about |", "|---|---|---|"]
    for f in sorted(os.listdir(os.path.join(V, "spec"))):
        if not f.endswith(".tla"):
            continue
        s = rd("spec/" + f).split("\n")
        head = []
        for line in s[1:]:
            m = re.match(r"^(\(\*|\\\*)(.*?)(\*\))?\s*$", line)
            if not m:
                break
            t = m.group(2).strip(" *")
            if t:
                head.append(t)
            elif head:
                break
        out.append("| %s | %d | %s |" % (f[:-4], len(s), " ".join(head).replace("|", "\\|")[:260]))
    return "\n".join(out)


def seeded():
    res = json.loads(rd("tools/seeded.json"))
    out = ["| planted bug | needs | caught by |", "|---|---|---|"]
    for i in sorted(os.listdir(os.path.join(V, "seeded"))):
        meta = json.loads(rd("seeded/%s/meta.json" % i))
        r = res.get(i, {})
        out.append("| %s | %s | %s |" % (i, meta["needs"], ", ".join(r.get("caught", [])) or "**missed**"))
    return "\n".join(out)


def defects():
    k = json.loads(rd("known_findings.json"))
    return "\n".join("- " + x.replace("fixed: property=", "") for x in k["fixed"])


def props():
    texts = dict(re.findall(r"^@(C\d\d)\n(.*?)(?=^@|\Z)", rd("tools/props.md"), re.S | re.M))
    out = []
    for line in rd("properties.jsonl").split("\n"):
        if line.strip():
            p = json.loads(line)
            out.append("### %s %s\n%s" % (p["id"], p["title"], texts[p["id"]].strip()))
    return "\n\n".join(out)


t = rd("tools/DESIGN.tmpl.md")
for k, v in (("@MODULES@", modules()), ("@PROPS@", props()), ("@DEFECTS@", defects()), ("@SEEDED@", seeded())):
    t = t.replace(k, v)
with open(os.path.join(V, "DESIGN.md"), "w", encoding="utf-8") as f:
    f.write(t)
