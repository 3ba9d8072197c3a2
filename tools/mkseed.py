#!/usr/bin/env python3
"""Developer tool: mkseed.py <dir-with spec.json + demo.cpp>: spec {id, property, needs, what_it_breaks, edits:[[file, old, new],...]}
writes seeded/<id>/ and confirms: patch applies, demo passes without / fails with the patch, stable tests pass with it."""
import json, os, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main(spec, demo_src, run_tests=True):
    assert sh("git -C /repo status --porcelain -uno").stdout.strip() == "", "dirty repo"
    d = f"{HERE}/seeded/{spec['id']}"; os.makedirs(d, exist_ok=True)
    open(d + "/demo.cpp", "w").write(demo_src)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# compiles demo.cpp against the tree in the current directory; exit 0 iff the documented behaviour holds\nset -u\nD="$(cd "$(dirname "$0")" && pwd)"\nT="$(mktemp -d)"\ntrap \'rm -rf "$T"\' EXIT\ng++-10 -std=gnu++17 -O1 -w -I "$PWD" "$D/demo.cpp" -o "$T/demo" || exit 3\ntimeout 120 "$T/demo"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["what_it_breaks"]}, open(d + "/meta.json", "w"), indent=1)
    try:
        r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
        for f, old, new in spec["edits"]:
            p = "/repo/" + f; s = open(p, newline="").read(); assert s.count(old) == 1, (f, old, s.count(old)); open(p, "w", newline="").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        r1 = sh(f"bash {d}/demo.sh", cwd="/repo")
        t = "skipped"
        if run_tests:
            b = sh("bash /opt/vp/build.sh"); o = tempfile.mktemp(suffix=".json"); sh(f"bash /opt/vp/test.sh {o}"); got = json.load(open(o)); base = json.load(open("/opt/vp/BASELINE.json"))
            t = (b.returncode, summarize(got, base)); os.unlink(o)
        checks = {}
        r = sh(f"python3 run.py {spec['property']} quick", cwd=HERE, env=dict(os.environ)); checks = (r.returncode, [l[:200] for l in r.stdout.splitlines() if "VIOLATION" in l or "choices=" in l or "ERROR" in l][:3])
    finally:
        sh("git -C /repo checkout -- .")
    print(spec["id"], "demo clean:", r0.returncode, "demo patched:", r1.returncode, (r1.stdout + r1.stderr)[:150], "tests:", t, "check:", checks)
def summarize(got, base):
    P = set(base.get("passed") or base.get("stable") or base.get("stable_pass") or []); g = set(got.get("passed") or got.get("pass") or [])
    return f"missing={sorted(P - g)}" if P else f"keys {list(base)[:5]} {list(got)[:5]}"
if __name__ == "__main__":
    d = sys.argv[1]; main(json.load(open(d + "/spec.json")), open(d + "/demo.cpp").read(), "--no-tests" not in sys.argv)
