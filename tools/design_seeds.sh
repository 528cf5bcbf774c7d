#!/bin/bash
# refreshes the table of seeded changes in DESIGN.md
V=$(cd "$(dirname "$0")/.." && pwd)
python3 - "$V" <<'P'
import sys,subprocess,re
V=sys.argv[1];p=V+"/DESIGN.md";s=open(p).read()
t=subprocess.run(["python3",V+"/tools/seeds.py"],capture_output=True,text=True).stdout
a=s.index("## Seeded changes")
b=s.find("\n## ",a+5)
tail="" if b<0 else s[b:]
intro="""## Seeded changes

Each was written from a property's text and the code, keeps the existing tests green, and has a demonstration.  "caught by" is
the quick check that reports it.

"""
open(p,"w").write(s[:a]+intro+t+tail)
P
