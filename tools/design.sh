#!/bin/bash
# refresh the table of planted bugs in DESIGN.md
cd /verif && python3 - <<'P'
import subprocess,re
t=subprocess.run(["python3","tools/seedtable.py"],capture_output=True,text=True).stdout
s=open("DESIGN.md").read()
s=s.replace("SEEDED_TABLE\n",t) if "SEEDED_TABLE" in s else re.sub(r"\| planted change \|[\s\S]*?(?=\n\n|\Z)",lambda m:t.rstrip("\n"),s)
open("DESIGN.md","w").write(s)
P
