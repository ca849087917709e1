"""tools/bugtable.py: the table of planted bugs in DESIGN.md (between the markers), from seeded/*/meta.json and tools/bugnotes.json"""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(here + "/tools/bugnotes.json"))
rows = ["| change | property | caught by | what it breaks; what it needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (here, d)))
    n = notes.get(d, "")
    rows.append("| %s | %s | %s | %s Needs %s. |" % (d, m["property"], n or "the check " + m["property"], m["what_it_breaks"].rstrip(), m["needs"].rstrip(".")))
text = "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->\n"
p = here + "/DESIGN.md"
s = open(p).read()
if "<!-- bugs -->" in s: s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->\n", lambda m: text, s, flags=re.S)
else: s += text
open(p, "w").write(s)
