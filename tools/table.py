"""Writes the table of the planted bugs in DESIGN.md."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what was missed at first, and what was done about it
NOTES = {
    "sign-canonical": "missed at first (C09 and C10 saw it); the bytes which were signed are compared now",
    "verify-half": "missed at first; keys are recovered for made up signatures now",
    "kind-case": "missed at first; names differ by case now",
    "deps-package": "missed at first; types share packages and import files now",
    "key-separator": "missed at first; keys make up for names now",
}
extra = os.path.join(HERE, "tools", "notes.json")
if os.path.exists(extra):
    NOTES.update(json.load(open(extra)))
rows = []
for f in glob.glob(os.path.join(HERE, "seeded", "*", "meta.json")):
    d = json.load(open(f))
    id = f.split("/")[-2]
    rows.append((d["property"], id, d["needs"], NOTES.get(id, "")))
text = "| property | bug | needs | notes |\n|---|---|---|---|\n"
for r in sorted(rows):
    text += "| %s | %s | %s | %s |\n" % tuple(x.replace("|", "/").replace("\n", " ") for x in r)
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
begin, end = "<!-- table -->\n", "<!-- end of table -->\n"
if begin not in s:
    s = s.replace("@TABLE@", begin + end)
i, j = s.index(begin) + len(begin), s.index(end)
s = s[:i] + text + s[j:]
open(p, "w").write(s)
print(len(rows), "bugs")
