"""append 'fixed:' records for fix commits of /repo not yet listed; argv: PROP grep"""
import subprocess, sys, os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p=os.path.join(R,"known_findings.jsonl")
txt=open(p).read() if os.path.exists(p) else ""
out=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout
for l in out.splitlines():
    h,s=l.split(" ",1)
    if s.startswith("fix:") and h not in txt and sys.argv[2] in s:
        txt+="fixed: property=%s %s %s\n"%(sys.argv[1],h,s[4:].strip())
open(p,"w").write(txt)
