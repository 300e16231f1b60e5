#!/usr/bin/env python3
"""mkseed.py: creates seeded/<id> from a description: replacements in files of /repo, and a demonstration."""
import os, subprocess, json, shutil, sys
def seed(id, prop, needs, breaks, edits, kind, main, model=None):
    d = "/verif/seeded/" + id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    R = "/tmp/mkseedrepo"
    shutil.rmtree(R, ignore_errors=True)
    subprocess.run(["git","clone","-q","/repo",R], check=True)
    for f, old, new in edits:
        p = R + "/" + f; s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git","-C",R,"diff"],capture_output=True,text=True).stdout
    shutil.rmtree(R)
    open(d+"/patch.diff","w").write(diff)
    shutil.copy("/verif/tools/demo/%s.sh" % kind, d+"/demo.sh")
    open(d+"/main.go","w").write(main)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks}, open(d+"/meta.json","w"), indent=1)
    for name, text in (model or {}).items():
        p = d+"/model/"+name; os.makedirs(os.path.dirname(p), exist_ok=True); open(p,"w").write(text)
