"""Development aid: plant one bug from a spec file in a scratch copy of /repo, confirm it and record it under seeded/.
usage: plant.py [--nocheck] SPEC.py...   SPEC defines id, property, needs, breaks, edits=[(file, old, new)], demo (python text), optional files={name:text}, demo_sh
Nothing registered in MANIFEST.json uses this."""
import json, os, shutil, subprocess, sys, tempfile
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main(path, check=True):
    ns = {}; exec(open(path).read(), ns)
    W = tempfile.mkdtemp(prefix="pl"); R = W + "/repo"; V = W + "/vp"
    try:
        sh("git clone -q /repo %s && cp -a /repo/cpp/build %s/cpp/ 2>/dev/null; rm -rf %s/cpp/build/CMakeCache.txt; cp -a /opt/vp %s" % (R, R, R, V))
        sh("sed -i 's#/repo#%s#g; s#/opt/vp#%s#g' %s/*.sh %s/*.py" % (R, V, V, V))
        d = W + "/demo"; os.makedirs(d)
        if "demo_sh" in ns: t = ns["demo_sh"]
        else:
            open(d + "/demo.py", "w").write(ns["demo"])
            t = '#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/Code\nexec timeout 250 /opt/venv/bin/python "$D/demo.py"\n'
        for n, x in ns.get("files", {}).items(): os.makedirs(os.path.dirname(d + "/" + n), exist_ok=True); open(d + "/" + n, "w").write(x)
        open(d + "/demo.sh", "w").write(t); os.chmod(d + "/demo.sh", 0o755)
        dd = W + "/demo2"; shutil.copytree(d, dd); sh("grep -rl /repo %s | xargs -r sed -i 's#/repo#%s#g'" % (dd, R))
        json.dump(dict(property=ns["property"], needs=ns["needs"], what_it_breaks=ns["breaks"]), open(d + "/meta.json", "w"), indent=1)
        ok = True; out = []
        b = sh("bash %s/build.sh" % V)
        r = sh("cd %s && bash %s/demo.sh" % (R, dd))
        out.append("demo clean rc %d %s %s" % (r.returncode, r.stdout[-300:], r.stderr[-500:])); ok &= r.returncode == 0
        for f, a, c in ns["edits"]:
            p = R + "/" + f; s = open(p).read(); assert s.count(a) == 1, (f, s.count(a), a)
            open(p, "w").write(s.replace(a, c))
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
        b = sh("bash %s/build.sh" % V)
        if b.returncode: ok = False; out.append("BUILD FAILS " + b.stderr[-500:] + b.stdout[-500:])
        sh("flock /tmp/.vptest bash %s/test.sh %s/t.json" % (V, W))
        miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(json.load(open(W + "/t.json"))["passed"])
        out.append("tests missing %s" % sorted(miss)[:5]); ok &= not miss
        r = sh("cd %s && bash %s/demo.sh" % (R, dd))
        out.append("demo patched rc %d %s %s" % (r.returncode, r.stdout[-300:], r.stderr[-300:])); ok &= r.returncode != 0
        caught = None
        if check:
            r = sh("cd /verif && VERIF_REPO=%s VERIF_SEED=1 VERIF_TIER=quick ./check %s" % (R, ns["property"]))
            out.append("CHECK rc %d %s %s" % (r.returncode, r.stdout[-500:], r.stderr[-300:])); caught = r.returncode == 1
        out.append("%s %s caught=%s" % ("CONFIRMED" if ok else "*** NOT CONFIRMED", ns["id"], caught))
        print("=====", ns["id"], "\n" + "\n".join(out), flush=True)
        if ok:
            f = "/verif/seeded/" + ns["id"]; shutil.rmtree(f, ignore_errors=True); shutil.copytree(d, f)
    finally: shutil.rmtree(W, ignore_errors=True)
for a in sys.argv[1:]:
    if a.startswith("--"): continue
    try: main(a, "--nocheck" not in sys.argv)
    except Exception as e: print("=====", a, "ERROR", repr(e)[:300], flush=True)
