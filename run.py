#!/usr/bin/env python3
"""Driver of the checks.

  run.py check C01 [--tier quick|thorough]   decide one property (exit 0 / 1)
  run.py replay FILE                         re-run one replay file
  run.py manifest                            rewrite MANIFEST.json from plan.py
  run.py setup                               sanity check of the toolchain

Every check compiles its harnesses from /repo's working tree into /verif/build,
runs the generators, merges the counts into evidence/<id>.json.
"""
import json, os, subprocess, sys, time, hashlib, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import plan

CXX = "g++"
COMMON = ["-std=c++17", "-O2", "-g1", "-DNDEBUG", "-fopenmp", "-w", '-DVIECUT_PATH="%s"' % REPO,
          "-I" + os.path.join(HERE, "shim"), "-I" + os.path.join(REPO, "lib"), "-I" + os.path.join(HERE, "harness")]


def compile_one(name):
    spec = plan.BIN[name]
    src = spec["src"].replace("{REPO}", REPO)
    if not os.path.isabs(src):
        src = os.path.join(HERE, src)
    out = os.path.join(BUILD, name)
    flags = list(COMMON)
    if not spec.get("app"):
        flags.append("-D_GLIBCXX_ASSERTIONS")
    flags += spec.get("flags", [])
    cmd = [spec.get("cxx", CXX)] + flags + [src, "-o", out + ".tmp"] + spec.get("libs", [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return name, p.stdout[-6000:]
    os.replace(out + ".tmp", out)
    return name, None


def build(names):
    os.makedirs(BUILD, exist_ok=True)
    todo = []
    for n in names:
        todo.append(n)
        todo += plan.BIN[n].get("needs", [])
    todo = sorted(set(todo))
    t0 = time.time()
    with ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(compile_one, todo))
    bad = [(n, e) for n, e in res if e]
    if bad:
        for n, e in bad:
            print("BUILD FAILED %s\n%s" % (n, e))
        sys.exit(2)
    return time.time() - t0


def env_for_run():
    e = dict(os.environ)
    e["OMP_WAIT_POLICY"] = "passive"
    e["OMP_DYNAMIC"] = "false"
    e["VP_APPS"] = BUILD
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=0"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=0:abort_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1"
    return e


def known_findings():
    f = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def check(prop, tier):
    spec = plan.PLAN[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    bt = build(spec["bins"])
    scratch = tempfile.mkdtemp(prefix="vp-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    replays = os.path.join(HERE, "replays")
    os.makedirs(replays, exist_ok=True)
    env = env_for_run()
    subs, notes, violation, msg = [], [], None, ""
    cap = spec.get("cap", {"quick": 150, "thorough": 700})[tier]
    try:
        # 1. listed findings and regression cases
        nknown = nreg = 0
        for k in known_findings():
            if k.get("property") != prop or k.get("status") != "known":
                continue
            case = os.path.join(HERE, k["case"])
            p = subprocess.run([os.path.join(BUILD, k["bin"]), "--replay", case, "--scratch", scratch], env=env, stdout=subprocess.PIPE, text=True)
            if p.returncode == 1:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                nknown += 1
            else:
                notes.append("listed finding no longer fails: " + k["what"])
        for case in sorted(glob.glob(os.path.join(HERE, "regress", prop, "*.case"))):
            b = None
            for line in open(case):
                if line.startswith("# bin "):
                    b = line.split()[2]
                    break
            if b not in spec["bins"]:
                continue
            nreg += 1
            hits = 0
            for _ in range(3):
                p = subprocess.run([os.path.join(BUILD, b), "--replay", case, "--scratch", scratch], env=env, stdout=subprocess.PIPE, text=True)
                if p.returncode == 1:
                    hits += 1
                else:
                    break
            if hits == 3 and violation is None:
                violation, msg = case, p.stdout.strip()
        # 2. generated search
        share = cap / max(1, len(spec["bins"]))
        for b in spec["bins"]:
            if violation:
                break
            out = os.path.join(scratch, b + ".json")
            cmd = [os.path.join(BUILD, b), "--prop", prop, "--tier", tier, "--seed", str(seed), "--out", out, "--replaydir", replays,
                   "--scratch", scratch, "--time", str(share), "--workers", str(plan.BIN[b].get("workers", 8))]
            p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if not os.path.exists(out):
                print("harness %s gave no result (rc %d)\n%s" % (b, p.returncode, p.stderr[-2000:]))
                sys.exit(2)
            r = json.load(open(out))
            for s in r["subs"]:
                s["harness"] = b
                subs.append(s)
            notes += r["notes"]
            if r["capped"]:
                notes.append("time cap reached in " + b)
            if r["violation"]:
                violation, msg = r["replay"], r["message"]
                txt = open(violation).read()
                open(violation, "w").write("# bin %s\n" % b + txt)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ev = sum(s["evaluations"] for s in subs)
    samples = []
    for s in subs:
        for x in s.pop("samples")[:2]:
            samples.append({"sub": s["name"], "case": x})
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in subs),
            "discarded": sum(s["discarded"] for s in subs),
            "known_excluded": sum(s["known"] for s in subs),
            "regression_cases": nreg,
            "rule": spec["rule"],
            "samples": samples[:24],
            "subchecks": subs,
        },
        "wall_s": round(time.time() - t0, 2), "build_s": round(bt, 2),
        "notes": notes,
        "assumptions": spec.get("assumptions", []),
        "violations": 1 if violation else 0,
        "violation_detail": {"replay": violation, "message": msg} if violation else {},
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(evidence, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    if violation:
        print(msg)
        print("VIOLATION property=%s replay=%s" % (prop, violation))
        return 1
    if ev == 0:
        print("no case was evaluated")
        return 2
    print("OK property=%s tier=%s seed=%d cases=%d nontrivial=%d known=%d wall=%.1fs" % (prop, tier, seed, ev, evidence["coverage"]["distinct_nontrivial"], nknown, time.time() - t0))
    return 0


def replay(path):
    b = None
    for line in open(path):
        if line.startswith("# bin "):
            b = line.split()[2]
    if not b:
        sub = [l.split()[1] for l in open(path) if l.startswith("sub ")][0]
        for n, s in plan.BIN.items():
            if not s.get("app") and ('"%s"' % sub) in open(os.path.join(HERE, s["src"])).read():
                b = n
    build([b])
    scratch = tempfile.mkdtemp(prefix="vp-replay-")
    try:
        return subprocess.run([os.path.join(BUILD, b), "--replay", path, "--scratch", scratch], env=env_for_run()).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def manifest():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in plan.PLAN:
            s = plan.PLAN[i]
            checks.append({"property": i,
                           "quick_cmd": "python3 run.py check %s --tier quick" % i,
                           "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
                           "evidence_file": "evidence/%s.json" % i,
                           "technique": s["technique"], "level": "exploration", "level_note": s["note"]})
        else:
            na.append({"property": i, "reason": plan.NOT_APPLICABLE.get(i, "check under construction")})
    m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the harnesses only use the public interface. See DESIGN.md."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


def setup():
    for t in [CXX]:
        subprocess.run([t, "--version"], check=True, stdout=subprocess.DEVNULL)
    os.makedirs(BUILD, exist_ok=True)
    print("ok")
    return 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "check":
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        sys.exit(check(a[1], tier))
    if a[0] == "replay":
        sys.exit(replay(a[1]))
    if a[0] == "manifest":
        manifest()
    if a[0] == "setup":
        sys.exit(setup())
