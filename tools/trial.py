#!/usr/bin/env python3
"""trial.py FILE [id...]: applies each of the changes of the file to a copy of /repo, checks that it compiles and passes the
stable tests, and runs the checks of the given properties. Changes are (id, "bug"|"edit", properties, [(file, old, new)...]);
for bugs one of the checks should report a violation, for edits none should, nor should they be incomplete."""
import json, os, subprocess, sys, shutil, time, runpy
R = "/tmp/trial/repo"; W = "/tmp/trial/work"; V = "/tmp/trial/verif"
def sh(cmd, timeout=900):
    try: return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(cmd, 124, "", "timeout")
def main():
    trials = runpy.run_path(sys.argv[1])["TRIALS"]
    only = sys.argv[2:]
    os.makedirs("/tmp/trial", exist_ok=True)
    sh("rm -rf /tmp/trial/verif; mkdir -p %s && cd /verif && cp -a bin harness corpus KNOWN_FINDINGS.txt %s/" % (V, V))
    sh("rm -rf /tmp/trial/repo; cp -a %s %s" % (os.environ.get("TRIAL_BASE", "/repo"), R))
    t = open("/opt/vp/test.sh").read().replace("/opt/vp/work", W).replace("cd /repo", "cd " + R); open("/tmp/trial/test.sh", "w").write(t)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for id, kind, props, edits in trials:
        if only and id not in only: continue
        sh("git -C %s checkout -q -- ." % R)
        ok = True
        for f, old, new in edits:
            s = open(R + "/" + f).read()
            if s.count(old) != 1: print(id, "EDIT DOESN'T APPLY", s.count(old), repr(old[:60])); ok = False; break
            open(R + "/" + f, "w").write(s.replace(old, new))
        if not ok: continue
        b = sh(". /opt/vp/env.sh; cd %s && go build ./... && go vet ./pkg/... 2>&1 | head -3" % R)
        if b.returncode: print(id, "NOBUILD", b.stderr[:300], flush=True); continue
        sh("rm -f /tmp/trial/out.json; bash /tmp/trial/test.sh /tmp/trial/out.json", timeout=300)
        try: o = set(json.load(open("/tmp/trial/out.json"))["passed"])
        except Exception: o = set()
        if not base <= o: print(id, "TESTS FAIL", len(base - o), flush=True); continue
        t0 = time.time(); res = []; msg = ""
        for p in props.split():
            r = sh("VERIF_REPO=%s timeout 900 %s/bin/vse check %s quick" % (R, V, p), timeout=1000)
            open("/tmp/trial/%s-%s.log" % (id, p), "w").write(r.stdout + r.stderr)
            res.append("%s=%d%s" % (p, r.returncode, "i" if "INCOMPLETE" in r.stdout else ""))
            if r.returncode == 1 and kind == "bug":
                l = r.stdout.splitlines(); i = [k for k, x in enumerate(l) if x.startswith("VIOLATION")]
                msg = " ".join(l[i[0]+1:i[0]+3])[:150] if i else ""
                break
        bad = any("=0" != x[3:] for x in res) if kind == "edit" else not any(x.endswith("=1") or x.endswith("=1i") for x in res)
        print("MISSED" if bad and kind == "bug" else "ALARM" if bad else "ok", id, kind, " ".join(res), "%.0fs" % (time.time() - t0), msg, flush=True)
main()
