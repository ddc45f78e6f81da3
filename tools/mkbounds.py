"""Writes BOUNDS.md: every section of every check with its bound and number of cases, both tiers."""
import subprocess
out = ["# Explored spaces", "",
       "Written by tools/mkbounds.py from the harness itself (`run.sh ID TIER list`). Every case of every",
       "section is executed; a case may itself contain an inner exhaustive loop (states, widths, types).", ""]
for i in range(1, 29):
    p = "P%02d" % i
    out += ["## " + p, "", "| section | quick | thorough | bound (thorough where the tiers differ) |", "|---|---:|---:|---|"]
    rows = {}
    for t in ("quick", "thorough"):
        r = subprocess.run(["/verif/run.sh", p, t, "list"], capture_output=True, text=True, check=True).stdout
        for l in r.splitlines():
            # name (padded), count, bound
            n, rest = l[:30].strip(), l[30:].strip()
            c, b = rest.split(None, 1)
            rows.setdefault(n, {})[t] = (c, b)
    for n, r in rows.items():
        q, h = r.get("quick"), r.get("thorough")
        out.append("| %s | %s | %s | %s |" % (n, q[0] if q else "", h[0] if h else "", (h or q)[1].replace("|", "\\|")))
    out.append("")
open("/verif/BOUNDS.md", "w").write("\n".join(out))
