#!/usr/bin/env python3
"""run.py N SEED [files...]: samples N mutants of the files of /repo, keeps the ones that compile and pass the tests, and runs the
checks of the properties that are anchored in the file. Works in a copy of /repo under /tmp."""
import json, os, random, subprocess, sys, shutil, time
R = "/tmp/mutants/repo"; W = "/tmp/mutants/work"
PROPS = [
 ("pkg/names/", "P01 P02 P03"), ("pkg/concepts/", "P03 P07 P06 P02 P05 P25 P13"), ("pkg/http/", "P07 P09 P14"), ("pkg/annotations/", "P09 P25"),
 ("pkg/language/checks.go", "P08 P04 P05 P12"), ("pkg/language/reader.go", "P12 P05 P11 P04 P25 P26 P24"), ("pkg/language/errors.go", "P12 P25"),
 ("pkg/reporter/", "P12 P32"), ("pkg/generators/openapi/", "P14 P12 P09 P24"), ("pkg/openapi", "P14 P12"),
 ("pkg/generators/golang/types_calc", "P10 P13 P15"), ("pkg/generators/golang/names", "P10"), ("pkg/generators/golang/packages", "P10"),
 ("pkg/generators/golang/buffer", "P31 P12 P10"), ("pkg/generators/golang/reserved", "P10"), ("pkg/nomenclator", "P04 P07"),
 ("pkg/generators/golang/types_gen", "P13 P15 P18 P16 P31"), ("pkg/generators/golang/builders", "P15 P16 P13 P18"),
 ("pkg/generators/golang/json", "P17 P18 P20 P19 P30"), ("pkg/generators/golang/clients", "P19 P20 P21 P22 P30"),
 ("pkg/generators/golang/helpers", "P22 P17 P20 P21"), ("pkg/generators/golang/errors", "P23 P20 P31"), ("pkg/generators/golang/openapi", "P31 P12"),
 ("pkg/generators/golang/metrics", "P27"), ("pkg/generators/docs", "P28 P12"), ("pkg/markdown", "P28 P12"), ("cmd/metamodel", "P12"),
]
def props(f):
    for p, l in PROPS:
        if f.startswith(p): return l.split()
    return []
def sh(cmd, timeout=900, **kw):
    try: return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")
def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    os.makedirs("/tmp/mutants", exist_ok=True)
    shutil.rmtree("/tmp/mutants/verif", ignore_errors=True)
    sh("mkdir -p /tmp/mutants/verif && cd /verif && cp -a bin harness corpus KNOWN_FINDINGS.txt /tmp/mutants/verif/ 2>/dev/null; ls /verif")
    shutil.rmtree(R, ignore_errors=True); sh("cp -a /repo " + R)
    files = sys.argv[3:] or [f for f in sh("cd /repo && git ls-files pkg cmd").stdout.split() if f.endswith(".go") and not f.endswith("_test.go") and props(f)]
    sh("cd /verif/tools/mutate && GOFLAGS= go build -o /tmp/mutants/mutate main.go")
    for s in ("test.sh",):
        t = open("/opt/vp/" + s).read().replace("/opt/vp/work", W).replace("cd /repo", "cd " + R); open("/tmp/mutants/" + s, "w").write(t)
    all = []
    for f in files:
        l = [json.loads(x) for x in sh("cd %s && /tmp/mutants/mutate %s" % (R, f)).stdout.splitlines()]
        random.Random(seed).shuffle(l)
        all.append((f, l))
    rnd = random.Random(seed)
    # Choose files with weight proportional to the square root of the number of mutants:
    picked = []
    pools = {f: list(l) for f, l in all if l}
    while len(picked) < n and pools:
        fs = sorted(pools); w = [len(pools[f]) ** 0.5 for f in fs]
        f = rnd.choices(fs, w)[0]
        picked.append(pools[f].pop())
        if not pools[f]: del pools[f]
    log = open("/tmp/mutants/log-%d.txt" % seed, "a")
    def say(*a):
        print(*a, file=log, flush=True)
    for m in picked:
        f = m["File"]; p = R + "/" + f
        orig = open("/repo/" + f, "rb").read()
        old = orig[m["From"]:m["To"]]
        open(p, "wb").write(orig[:m["From"]] + m["New"].encode() + orig[m["To"]:])
        tag = "%s:%d %s | %s -> %s" % (f, m["Line"], m["Descr"], old.decode()[:80].replace("\n", " "), m["New"][:60])
        try:
            env = dict(os.environ, GOFLAGS="", GOPROXY="off", GOTOOLCHAIN="local")
            b = sh(". /opt/vp/env.sh; cd %s && go build ./... " % R)
            if b.returncode: say("NOBUILD", tag); continue
            sh("bash /tmp/mutants/test.sh /tmp/mutants/out.json", timeout=200)
            try: o = json.load(open("/tmp/mutants/out.json"))
            except Exception: say("TESTS", tag); continue
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            if not set(base) <= set(o["passed"]): say("TESTS", tag); continue
            t0 = time.time(); res = []
            for pr in props(f):
                r = sh("VERIF_REPO=%s /tmp/mutants/verif/bin/vse check %s quick" % (R, pr), timeout=900)
                res.append("%s=%d%s" % (pr, r.returncode, "i" if "INCOMPLETE" in r.stdout else ""))
                if r.returncode == 1: break
            say("KILLED" if r.returncode == 1 else "SURVIVED", tag, "|", " ".join(res), "%.0fs" % (time.time() - t0))
        finally:
            open(p, "wb").write(orig)
main()
