#!/usr/bin/env python3
"""plant.py ID SPEC.py : write seeded/ID from a spec (PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO)."""
import sys, json, os, shutil, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
id, spec = sys.argv[1], sys.argv[2]
ns = {}
exec(open(spec).read(), ns)
d = f"{root}/seeded/{id}"
os.makedirs(d, exist_ok=True)
S = "/tmp/seedrepo"
if not os.path.isdir(S):
    subprocess.check_call(["cp", "-a", "/repo", S])
subprocess.check_call(f"cd {S} && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True)
for f, old, new in ns["EDITS"]:
    p = f"{S}/{f}"
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
diff = subprocess.check_output(["git", "-C", S, "diff"], text=True)
open(f"{d}/patch.diff", "w").write(diff)
subprocess.check_call(["git", "-C", S, "checkout", "-q", "--", "."])
demo = open(f"{root}/tools/demo/demo.sh").read()
if "FEATURES" in ns:  # the dependency line of wz_reader, after its path
    demo = demo.replace('features = ["json"]', ns["FEATURES"])
open(f"{d}/demo.sh", "w").write(demo)
os.chmod(f"{d}/demo.sh", 0o755)
shutil.copy(f"{root}/tools/demo/enc.rs", d)
for f in ns.get("FILES", []):
    shutil.copy(f, d)
open(f"{d}/demo.rs", "w").write("mod enc;\nuse enc::*;\n" + ns["DEMO"])
json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
