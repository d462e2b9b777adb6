#!/usr/bin/env python3
"""mkpatch.py ID FILE <<< 'OLD\n====\nNEW' (repeat blocks separated by a line '####' [optionally '#### FILE']): writes seeded/ID/patch.diff"""
import sys,subprocess,os
R=os.environ.get("REPO","/repo"); V=os.environ.get("VERIF","/verif")
i,f=sys.argv[1],sys.argv[2]
assert not subprocess.run(["git","-C",R,"status","--porcelain"],capture_output=True,text=True).stdout
cur=f
blocks=[]
for part in ("#### "+f+"\n"+sys.stdin.read()).split("\n#### " if False else "####"):
    if not part.strip(): continue
    head,body=part.split("\n",1)
    if head.strip(): cur=head.strip()
    old,new=body.split("\n====\n")
    blocks.append((cur,old.strip("\n"),new.rstrip("\n").lstrip("\n") if new.strip() else ""))
try:
    for (p,old,new) in blocks:
        s=open(R+"/"+p).read()
        assert s.count(old)==1,(p,s.count(old),old)
        open(R+"/"+p,"w").write(s.replace(old,new))
    d=subprocess.run(["git","-C",R,"diff"],capture_output=True,text=True).stdout
    os.makedirs(f"{V}/seeded/{i}",exist_ok=True)
    open(f"{V}/seeded/{i}/patch.diff","w").write(d)
finally:
    subprocess.run(["git","-C",R,"checkout","-q","--","."])
