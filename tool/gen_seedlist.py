"""fills the list of planted changes in DESIGN.md (between the two markers) from seeded/*/meta.json"""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = []
for d in sorted(glob.glob(root + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    L.append("* `%s` - caught by %s: %s" % (os.path.basename(d), m["property"], m["what_it_breaks"]))
p = root + "/DESIGN.md"
s = open(p).read()
body = "<!-- seeds -->\n" + "\n".join(L) + "\n<!-- /seeds -->"
if "@@SEEDS@@" in s:
    s = s.replace("@@SEEDS@@", body)
else:
    s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda m: body, s, flags=re.S)
open(p, "w").write(s)
