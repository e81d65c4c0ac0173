"""Writes the section "Seeded changes" of DESIGN.md from seeded/*/meta.json (by hand, never by a check)."""
import glob
import json
import os

rows = {}
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
out = ["## Seeded changes", "",
       "%d changes, each confirmed in a scratch copy (applies, builds, stable tests pass, demo passes without and fails with it)." % sum(map(len, rows.values())),
       "The check of the property a change breaks (first column) reports every one of them; most are reported by further checks as well (the properties overlap on purpose).",
       "Written from the properties' texts and the code; about one in six was missed by the checks at the time it was written and led to the strengthening named in the section of its property:",
       "orders of calls, second calls and resets; values in unusual representations (numpy scalars, tuples, integer arrays, non-contiguous matrices), at extreme scales, or almost equal;",
       "settings in pairs; own subclasses of every documented base class; schedules of pool threads; state of the process after a run.",
       "A change that never ends is reported by a guard that counts the CPU time of the check, so that a loaded machine does not raise an alarm.", "",
       "| property and check | change | needs | breaks |", "|---|---|---|---|"]
for p in sorted(rows):
    for name, m in rows[p]:
        out.append("| %s | %s | %s | %s |" % (p, name, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
s = open("/verif/DESIGN.md").read()
a = s.index("## Seeded changes")
b = s.find("\n## ", a + 5)
open("/verif/DESIGN.md", "w").write(s[:a] + "\n".join(out) + "\n" + (s[b:] if b > 0 else ""))
