#!/usr/bin/env python3
"""Development tool: plants a bug in a scratch copy of /repo, confirms it (builds, tests pass, demonstration
passes without and fails with it) and stores it under /verif/seeded. Usage: plant.py DEFS.py [name...]"""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def script(name, wt, logs):
    s = open("/opt/vp/" + name).read().replace("/repo", wt).replace("/opt/vp/logs", logs)
    p = os.path.join(logs + "-" + name)
    open(p, "w").write(s)
    return p

def main():
    defs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    for b in defs:
        if only and b["name"] not in only:
            continue
        tmp = tempfile.mkdtemp(prefix="plant")
        wt = tmp + "/wt"
        try:
            sh(f"cp -a /repo {wt}")
            sh("git checkout -- .", cwd=wt)
            d = os.path.join(tmp, "demo"); os.mkdir(d)
            for f in ("vt.py", "mkvault.go", "demo.sh"):
                shutil.copy(f"{V}/tools/demo/{f}", d)
            open(d + "/demo.py", "w").write("from vt import *\n" + b["demo"].lstrip("\n"))
            sh(f"bash {script('build.sh', wt, tmp + '/l')}")
            r = sh(f"bash {d}/demo.sh", cwd=wt)
            if r.returncode != 0:
                print(b["name"], "REJECTED: demo fails on clean tree\n", r.stdout[-1500:]); continue
            bad = False
            for f, old, new in b["edits"]:
                p = os.path.join(wt, f); s = open(p).read()
                if s.count(old) != 1:
                    print(b["name"], f"REJECTED: {s.count(old)} matches in {f} of {old!r}"); bad = True; break
                open(p, "w").write(s.replace(old, new))
            if bad:
                continue
            sh("gofmt -w " + " ".join({f for f, _, _ in b["edits"]}), cwd=wt)
            r = sh(f"bash {script('build.sh', wt, tmp + '/l')}")
            if r.returncode != 0:
                print(b["name"], "REJECTED: does not build\n", r.stdout[-1500:]); continue
            sh(f"bash {script('test.sh', wt, tmp + '/l')} {tmp}/out.json")
            out = json.load(open(tmp + "/out.json"))
            passed = set(out.get("passed", []))
            want = set(BASE.get("stable", BASE.get("passed", [])))
            if not want <= passed:
                print(b["name"], "REJECTED: tests fail:", sorted(want - passed)[:5]); continue
            r = sh(f"bash {d}/demo.sh", cwd=wt)
            if r.returncode == 0:
                print(b["name"], "REJECTED: demo does not notice the bug"); continue
            diff = sh("git diff -- '*.go'", cwd=wt).stdout
            dst = f"{V}/seeded/{b['name']}"
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
            open(dst + "/patch.diff", "w").write(diff)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
            print(b["name"], "OK:", r.stdout.strip().splitlines()[-1][:150] if r.stdout.strip() else r.returncode)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
main()
