"""para.py: inserts paragraphs into DESIGN.md: stdin has 'P: text' paragraphs and 'F: text' false alarm items, blank line separated."""
import sys
p = "/verif/DESIGN.md"
s = open(p).read()
for item in sys.stdin.read().strip().split("\n\n"):
    kind, text = item.split(": ", 1)
    if kind == "P":
        i = s.index("## False alarms met")
        s = s[:i] + text + "\n\n" + s[i:]
    else:
        i = s.index("## Planted bugs")
        s = s[:i].rstrip() + "\n- " + text + "\n\n" + s[i:]
open(p, "w").write(s)
