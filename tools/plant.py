#!/usr/bin/env python3
"""Plants a bug: writes /verif/seeded/<id>/ from a spec file and confirms it in a scratch copy of the repository.
usage: plant.py SPEC.py [--check SECONDS]
A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], SOURCES, LIMIT, DEMO (the C++ text)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
ID = ns["ID"]
d = f"{V}/seeded/{ID}"
os.makedirs(d, exist_ok=True)
M = "/tmp/plantrepo"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
if os.path.exists(M): shutil.rmtree(M)
R = os.environ.get("PLANT_REPO", "/repo")
shutil.copytree(R, M, symlinks=True)
sh("git checkout -q -- .", cwd=M)
shutil.copytree(f"{V}/tools/demo_kit/stubs", f"{d}/stubs", dirs_exist_ok=True)
shutil.copy(f"{V}/tools/demo_kit/kit.sh", f"{d}/kit.sh")
open(f"{d}/demo.cpp", "w").write(ns["DEMO"])
open(f"{d}/demo.sh", "w").write(f'''#!/bin/bash
. "$(dirname "$0")/kit.sh"
run_demo {ns.get("LIMIT", 60)} {ns["SOURCES"]}
''')
json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
r = sh(f"bash {d}/demo.sh", cwd=M)
print("unchanged rc", r.returncode, r.stdout[-1500:])
for f, o, n in ns["EDITS"]:
    p = f"{M}/fairmq/{f}"; s = open(p).read()
    assert s.count(o) == 1, (f, s.count(o))
    open(p, "w").write(s.replace(o, n))
open(f"{d}/patch.diff", "w").write(sh("git diff", cwd=M).stdout)
for i in range(ns.get("REPEAT", 2)):
    r2 = sh(f"bash {d}/demo.sh", cwd=M)
    print("patched rc", r2.returncode, r2.stdout[-800:])
r3 = sh(f"git -C {R} apply --check {d}/patch.diff")
print("applies", r3.returncode)
ok = r.returncode == 0 and r2.returncode not in (0, 2)
if "EventManager" in open(f"{d}/patch.diff").read():
    sh("git apply --check " + d + "/patch.diff", cwd="/repo")
    sh(f"git -C /repo apply {d}/patch.diff")
    try:
        print(sh("bash /opt/vp/test.sh /tmp/plant_test.json; cat /tmp/plant_test.json").stdout[-300:])
    finally:
        sh("git -C /repo checkout -- .")
print("PLANTED" if ok else "NOT PLANTED", ID)
if "--check" in sys.argv:
    t = sys.argv[sys.argv.index("--check") + 1]
    env = dict(os.environ, VERIF_REPO=M, VERIF_BUILD="/tmp/plantbuild")
    r = sh(f"python3 {V}/check.py {ns['PROPERTY']} --time {t} --no-min", env=env)
    print("check rc", r.returncode, "\n".join(l for l in r.stdout.splitlines() if l.startswith(("VIOL", "violation", ns["PROPERTY"]))))
shutil.rmtree(M)
