import json, os, subprocess, sys
BLAME_CACHE={}
MINE=set(subprocess.run("git -C /repo log --format=%H 201f378..HEAD",shell=True,capture_output=True,text=True).stdout.split())
def seed(id_, prop, edits, needs, breaks, demo):
    """edits: [(file, old, new)]"""
    d=f"/verif/seeded/{id_}"; os.makedirs(d,exist_ok=True)
    assert subprocess.run("git -C /repo status --porcelain -uno",shell=True,capture_output=True,text=True).stdout=="" 
    try:
        for f,o,n in edits:
            assert "independence_tests" not in f
            p="/repo/"+f; s=open(p).read(); assert s.count(o)==1,(id_,f,s.count(o))
            open(p,"w").write(s.replace(o,n))
        diff=subprocess.run("git -C /repo diff",shell=True,capture_output=True,text=True).stdout
    finally:
        subprocess.run("git -C /repo checkout -q -- .",shell=True)
    # lines removed must be original
    import re
    cur=None; ln=0; bad=[]
    for l in diff.splitlines():
        if l.startswith("--- a/"): cur=l[6:]
        elif l.startswith("@@"): ln=int(re.match(r"@@ -(\d+)",l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            sha=subprocess.run(f"git -C /repo blame -l -s -L {ln},{ln} HEAD -- {cur}",shell=True,capture_output=True,text=True).stdout.split()[0].lstrip("^")
            if any(m.startswith(sha) for m in MINE): bad.append(l)
            ln+=1
        elif l.startswith(" "): ln+=1
    if bad: print(id_,"TOUCHES MY LINES",bad)
    open(d+"/patch.diff","w").write(diff)
    open(d+"/demo.sh","w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d+"/demo.sh",0o755)
    open(d+"/demo.py","w").write("import os, sys\nsys.path.insert(0, os.getcwd())\n"+demo.lstrip("\n"))
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
