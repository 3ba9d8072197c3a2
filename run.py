#!/usr/bin/env python3
"""usage: run.py <property-id> [quick|thorough]      decide one property
          run.py --selftest                          check the toolchain
          run.py <property-id> --replay <file>       re-execute a stored counterexample

Compiles the harness units of one property against /repo's working tree, runs every group of every unit
(exhaustively explored choice trees), aggregates the coverage into evidence/<id>.json.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; anything else: error of the check."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = shutil.which("g++-10") or "g++"
BASE = ["-std=gnu++17", "-w", "-g0", "-I", HERE + "/mc", "-I", REPO, "-I", HERE + "/acl"]
SAN = ["-O1", "-fno-ivopts", "-fsanitize=address", "-fno-omit-frame-pointer"]  # ivopts: g++-10 -O1 miscompiles ASan-instrumented loops with it
PLAIN = ["-O2"]
NPROC = os.cpu_count() or 4


def unit_opts(path):
    opts = {"flags": "", "san": "1", "tier": "quick", "limit": "400"}
    with open(path, encoding="utf-8") as f:
        for line in f:
            m = re.match(r"//\s*mc:\s*(.*)", line)
            if not m:
                break
            for k, v in re.findall(r"(\w+)=('[^']*'|\S+)", m.group(1)):
                opts[k] = v.strip("'")
    return opts


def compile_unit(src, out, extra=()):
    o = unit_opts(src)
    cmd = [CXX] + BASE + (SAN if o["san"] == "1" else PLAIN) + o["flags"].split() + list(extra) + [src, "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode, r.stderr[-3000:]


def run_group(binary, group, tier, limit, extra=()):
    env = dict(os.environ, VERIF_TIER=tier,
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=0:quarantine_size_mb=16:malloc_context_size=4:detect_container_overflow=0:hard_rss_limit_mb=7000:symbolize=0:use_sigaltstack=1",
               UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1")
    try:
        r = subprocess.run([binary, "--group", group, *extra], capture_output=True, env=env, timeout=limit)
        return r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("utf-8", "replace"), (e.stderr or b"").decode("utf-8", "replace")


FAIL = re.compile(r"^FAIL choices=(\S*)(?: in=(\S*))? msg=(.*)$", re.M)


def main():
    if sys.argv[1] == "--selftest":
        r = subprocess.run([CXX, "--version"], capture_output=True, text=True)
        print(r.stdout.splitlines()[0])
        sys.exit(0 if r.returncode == 0 else 2)
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    args = sys.argv[2:]
    if args and args[0] in ("quick", "thorough"):
        tier = args.pop(0)
    replay = None
    while args:
        a = args.pop(0)
        if a == "--replay":
            replay = json.load(open(args.pop(0)))
            tier = replay["tier"]
        elif a == "--unit":
            only = args.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    budget = 860 if tier == "quick" else 6 * 3600
    units = sorted(glob.glob(f"{HERE}/harness/{pid}/*.cpp"))
    units = [u for u in units if tier == "thorough" or unit_opts(u)["tier"] == "quick"]
    if only:
        units = [u for u in units if os.path.basename(u) == only + ".cpp"]
    if not units:
        print(f"no harness units for {pid}")
        sys.exit(2)
    known = []
    kf = HERE + "/known_findings.json"
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == pid]
    tmp = tempfile.mkdtemp(prefix=f"mc-{pid}-")
    errors, violations, results, known_hits = [], [], [], []
    try:
        if replay:
            src = f"{HERE}/harness/{pid}/{replay['unit']}.cpp"
            rc, err = compile_unit(src, tmp + "/u")
            if rc:
                print(err)
                sys.exit(2)
            extra = ("--replay", replay["choices"]) if replay["choices"] else ()
            rc, out, err = run_group(tmp + "/u", replay["group"], tier, 600, extra)
            print(out[-8000:], err[-2000:])
            sys.exit(rc if rc in (0, 1) else 2)

        pool = cf.ThreadPoolExecutor(NPROC)
        jobs = {}
        for u in units:
            out = os.path.join(tmp, os.path.basename(u)[:-4])
            jobs[pool.submit(compile_unit, u, out)] = (u, out)
        gjobs, pending = {}, set(jobs)

        def handle(u, binary, g, res, limit):
            rc, out, err = res
            name = os.path.basename(u)[:-4]
            m = FAIL.search(out)
            if rc == 0 and not m:
                for line in out.splitlines():
                    if line.startswith("RESULT "):
                        d = json.loads(line[7:])
                        d["unit"] = name
                        results.append(d)
                return
            if rc == 3:
                errors.append(f"{name}/{g}: harness error: {err.strip()[-500:]}")
                return
            if rc == "timeout":
                violations.append((u, binary, g, "", "", f"group did not finish within {limit} s (hang)"))
                return
            if m:
                violations.append((u, binary, g, m.group(1), m.group(2) or "", m.group(3) + asan(err)))
            else:
                violations.append((u, binary, g, "", "", f"process died with status {rc} {asan(err)}"))

        def asan(err):
            m = re.search(r"(ERROR: AddressSanitizer: .*|runtime error: .*|Assertion.*|terminate called.*)", err)
            return (" | " + m.group(1)[:300]) if m else ""

        while pending:
            done, pending = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
            for f in done:
                if f in jobs:
                    u, binary = jobs[f]
                    rc, err = f.result()
                    if rc:
                        errors.append(f"{os.path.basename(u)} does not compile: {err[-1500:]}")
                        continue
                    o = unit_opts(u)
                    groups = subprocess.run([binary, "--list"], capture_output=True, text=True).stdout.split()
                    limit = int(o["limit"]) if tier == "quick" else 5 * 3600
                    limit = max(60, min(limit, budget - (time.time() - t0)))
                    for g in groups:
                        gf = pool.submit(run_group, binary, g, tier, limit)
                        gjobs[gf] = (u, binary, g, limit)
                        pending.add(gf)
                else:
                    u, binary, g, limit = gjobs[f]
                    handle(u, binary, g, f.result(), limit)
        # replay before report: the same group must fail again (crash, wrong answer or hang)
        confirmed = []
        for (u, binary, g, ch, inp, msg) in violations:
            name = os.path.basename(u)[:-4]
            left = budget - (time.time() - t0)
            if confirmed and left < 200:  # one reproduced violation decides; do not run out of time on the others
                break
            extra = ("--replay", ch) if ch else ()
            rc, out, err = run_group(binary, g, tier, max(30, min(200, left)), extra)
            m = FAIL.search(out)
            if rc == 0 and not m and ch:  # failure may depend on state left by earlier executions: replay whole group
                rc, out, err = run_group(binary, g, tier, max(30, min(400, budget - (time.time() - t0))))
                m = FAIL.search(out)
            if rc == 0 and not m:
                errors.append(f"{name}/{g}: not reproducible: {msg}")
                continue
            if "AddressSanitizer" in msg:  # a memory error must also show in an unoptimised build (guards against compiler artefacts)
                b0 = binary + ".O0"
                if os.path.exists(b0) or compile_unit(u, b0, ["-O0"])[0] == 0:
                    rc, out0, err0 = run_group(b0, g, tier, max(60, min(400, budget - (time.time() - t0))), extra)
                    if rc == 0 and not FAIL.search(out0):
                        print(f"  note: {name}/{g}: sanitizer report at -O1 does not reproduce at -O0, ignored: {msg[:200]}")
                        continue
            k = next((k for k in known if k["unit"] == name and k["group"] == g and k["choices"] == ch and k["match"] in msg), None)
            if k:
                known_hits.append(k)
                continue
            confirmed.append((name, g, ch, inp, msg, out))
        for k in known_hits:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
        os.makedirs(HERE + "/evidence/replay", exist_ok=True)
        for (name, g, ch, inp, msg, out) in confirmed:
            p = f"{HERE}/evidence/replay/{pid}-{name}-{g}.json"
            json.dump({"property": pid, "unit": name, "group": g, "choices": ch, "inputs": inp, "message": msg, "tier": tier,
                       "trace": [l for l in out.splitlines() if l.strip()][-60:],
                       "how": f"python3 run.py {pid} --replay {p}"}, open(p, "w"), indent=1)
            print(f"  {name}/{g} choices=[{ch}] in=[{inp}]: {msg[:600]}")
            print(f"VIOLATION property={pid} replay={p}")
        samples = []
        for d in results:
            for s in d["samples"][-1:]:
                samples.append({"group": d["unit"] + "/" + d["group"], "execution": s})
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": sum(d["states"] for d in results), "transitions": sum(d["transitions"] for d in results),
                           "traces_validated_against_impl": sum(d["executions"] for d in results),
                           "distinct_outcomes": sum(d["outcomes"] for d in results),
                           "exhaustive": not errors and not confirmed,
                           "rule": "states: distinct nodes of the choice trees (one node per distinct history or input prefix); transitions: "
                                   "comparisons of the real code's answer with the reference model; traces: complete executions of the real code. "
                                   "No sampling: every choice tree below is enumerated to the end.",
                           "groups": [{k: d[k] for k in ("unit", "group", "states", "transitions", "executions", "outcomes", "bounds")} for d in sorted(results, key=lambda d: (d["unit"], d["group"]))],
                           "samples": samples[:40] or ["none"]},
              "assumptions": ["g++-10 -std=gnu++17 on this machine", "bounds of each group as listed", "reference models in /verif/harness and the AtCoder Library stand-in in /verif/acl are right"],
              "wall_s": round(time.time() - t0, 2), "violations": len(confirmed), "errors": errors}
        os.makedirs(HERE + "/evidence", exist_ok=True)
        if not only:
            json.dump(ev, open(f"{HERE}/evidence/{pid}.json", "w"), indent=1)
        if only or os.environ.get("MC_TIMES"):
            for d in sorted(results, key=lambda d: -d["wall"]):
                print(f"    {d['unit']}/{d['group']}: {d['wall']:.2f}s states={d['states']} transitions={d['transitions']} execs={d['executions']} outcomes={d['outcomes']}")
        for e in errors:
            print("ERROR", e)
        c = ev["coverage"]
        print(f"{pid} {tier}: {len(results)} groups, states={c['states']} transitions={c['transitions']} executions={c['traces_validated_against_impl']} wall={ev['wall_s']}s")
        sys.exit(1 if confirmed else 2 if errors else 0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
