"""python3 table.py /tmp/try-check.log... : the table of DESIGN.md."""
import json, os, re, sys
S = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../../seeded")
r = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) check:(\d+) (CAUGHT|MISSED) \((\d+)s\) ?(\S*)", l)
        if m: r[m[1]] = (m[3], m[4], m[5])
print("| planted | needs | quick check |\n|---|---|---|")
for i in sorted(os.listdir(S)):
    x = r.get(i); m = json.load(open(S + "/" + i + "/meta.json"))
    print("| %s | %s | %s |" % (i, m["needs"].replace("|", "/"), "not tried" if not x else "%s `%s`, %s s" % (x[0].lower(), x[2], x[1]) if x[0] == "CAUGHT" else "missed"))
