"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and
a record of check runs {"<bug>:<property>": exit code} (first argument)."""
import glob, json, os, sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
runs = {}
for key, code in json.load(open(sys.argv[1])).items():
    bug, prop = key.split(":")
    runs.setdefault(bug, {})[prop] = code
rows = ["| bug | what it breaks | shows with | caught by | quiet |", "|---|---|---|---|---|"]
for path in sorted(glob.glob(root + "/seeded/*/meta.json")):
    bug = os.path.basename(os.path.dirname(path))
    meta = json.load(open(path))
    ran = runs.get(bug, {})
    cell = lambda s: s.replace("|", "\\|").replace("\n", " ").strip()
    rows.append("| %s | %s | %s | %s | %s |" % (
        bug, cell(meta["what_it_breaks"]), cell(meta["needs"]),
        ", ".join(sorted(p for p, c in ran.items() if c == 1)) or "not run",
        ", ".join(sorted(p for p, c in ran.items() if c == 0))))
path = root + "/DESIGN.md"
text = open(path).read()
begin, end = "<!-- bugs -->\n", "<!-- /bugs -->"
head, rest = text.split(begin)
open(path, "w").write(head + begin + "\n".join(rows) + "\n" + end + rest.split(end)[1])
