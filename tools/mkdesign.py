"""fills the generated parts of DESIGN.md (planted-bug table, not-applicable list) from seeded/ and properties"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/")))
tab = "| planted change | caught by | breaks |\n|---|---|---|\n" + "\n".join(rows)
na = "\n".join("* **%s** %s" % (x["id"] if "id" in x else x["property"], x["reason"]) for x in json.load(open(V + "/MANIFEST.json"))["not_applicable"])
def put(s, tag, txt):
    return re.sub(r"(<!-- %s -->\n).*?(\n<!-- /%s -->)" % (tag, tag), lambda m: m.group(1) + txt + m.group(2), s, flags=re.S)
open(V + "/DESIGN.md", "w").write(put(put(s, "seeds", tab), "na", na))
