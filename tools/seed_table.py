"""Write section 7's table of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | caught by | what it breaks | needs |", "|----|----|----|----|"]
for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {f.split('/')[-2]} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
p = ROOT + "/DESIGN.md"
s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- end seeds -->"
if "SEEDTABLE" in s:
    s = s.replace("SEEDTABLE", t)
else:
    s = re.sub(r"<!-- seeds -->.*<!-- end seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
