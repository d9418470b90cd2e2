#!/usr/bin/env python3
"""Brings the table of planted bugs in DESIGN.md up to date."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].rstrip("."), m["needs"].rstrip(".")))
path = os.path.join(HERE, "DESIGN.md")
text = open(path).read()
head = "| planted bug | property | what it breaks | needs |\n| --- | --- | --- | --- |\n"
at = text.index(head) + len(head)
end = at + re.search(r"\n\n|\Z", text[at:]).start()
text = text[:at] + "\n".join(rows) + text[end:]
text = re.sub(r"`seeded/` holds \d+ changes", "`seeded/` holds %d changes" % len(rows), text)
open(path, "w").write(text)
print(len(rows))
