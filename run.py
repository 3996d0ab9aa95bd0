#!/usr/bin/env python3
"""Runs the check of one property:  run.py <property> [--tier quick|thorough] [--keep]
or re-runs a recorded violation:    run.py --replay <file>

Compiles the drivers the property needs from the current tree of the repository, runs them under
the sanitizers, aggregates what their monitors observed, writes evidence/<property>.json and
exits 0 (held), 1 (VIOLATION line printed) or 2 (the check itself could not give an answer)."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import PROPS, SUITE_BITS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
EVID = os.path.join(HERE, "evidence")
BASE = ["-std=c++20", "-g1", "-I" + os.path.join(REPO, "include"), "-I" + HARNESS, "-w"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
CLANG_SAN = SAN + ["-fsanitize-address-use-after-return=never"]
VARIANTS = {
    "O0": ["clang++-18", "-O0"] + BASE + CLANG_SAN,
    "O2": ["clang++-18", "-O2"] + BASE + CLANG_SAN,
    "gcc": ["g++", "-O1"] + BASE + SAN,
    # no sanitizer: run under memcheck, which tracks for every bit whether it was ever initialised
    "vg": ["clang++-18", "-O0", "-DVF_VALGRIND"] + BASE,
}
MEMCHECK = ["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--leak-check=no"]
JOBS = max(1, min(8, os.cpu_count() or 1))


def known_findings(prop):
    """Lines 'known: property=<id> group=<regex> kind=<kind> msg=<regex>' (regexes are full matches)."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) group=(\S+) kind=(\S+) msg=/(.*)/ what=(.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def compile_one(job, tmp):
    exe = os.path.join(tmp, job["name"])
    if job.get("gen"):
        # random program shapes, written by a generator of our own
        gdir = exe + ".gen"
        os.makedirs(gdir, exist_ok=True)
        with open(os.path.join(gdir, job["gen"]["out"]), "w") as f:
            subprocess.run([sys.executable, os.path.join(HARNESS, job["gen"]["script"])] + job["gen"]["args"], stdout=f, check=True)
        job["defs"] = job["defs"] + ["-I" + gdir]
    cmd = job["cc"] + job["defs"] + [os.path.join(HARNESS, job["src"]), "-o", exe]
    try:
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=job.get("timeout", 600), text=True, errors="replace")
    except subprocess.TimeoutExpired:
        return exe, "compilation timed out: " + " ".join(cmd)
    if p.returncode != 0:
        if "-DVF_NO_DETAIL" not in job["defs"] and "VF_NO_DETAIL" in open(os.path.join(HARNESS, job["src"])).read():
            # a few checks name helpers of the library's *_detail namespaces; without them the rest must still compile
            retry = dict(job, defs=job["defs"] + ["-DVF_NO_DETAIL"], gen=None)
            if compile_one(retry, tmp)[1] is None:
                job["defs"] = retry["defs"]
                return exe, None
        return exe, " ".join(cmd) + "\n" + p.stderr[:4000]
    return exe, None


def headers_compile(job, tmp):
    """Do the library headers themselves still compile (so that a rejected driver means a rejected use of the interface)?"""
    incs, todo, seen = [], [job["src"]], set()
    while todo:
        f = todo.pop()
        if f in seen or not os.path.exists(os.path.join(HARNESS, f)):
            continue
        seen.add(f)
        for line in open(os.path.join(HARNESS, f)):
            m = re.match(r'\s*#include\s*[<"]([^>"]+)[>"]', line)
            if m and m.group(1).startswith("fixed_containers/"):
                incs.append(m.group(1))
            elif m and '"' in line:
                todo.append(m.group(1))
    tu = os.path.join(tmp, job["name"] + ".headers.cpp")
    with open(tu, "w") as f:
        f.write("".join('#include "%s"\n' % i for i in sorted(set(incs))) + "int main() {}\n")
    p = subprocess.run(job["cc"] + ["-fsyntax-only", tu], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
    return p.returncode == 0


def run_one(job, exe, tmp, seed, tier, how):
    cmd = (MEMCHECK if job["variant"] == "vg" else []) + [exe, "--seed", str(seed), "--tier", tier, "--errdir", tmp, "--jobs", str(job.get("jobs", 2))]
    if how.get("suites"):
        cmd += ["--suites", ",".join(how["suites"])]
    if how.get("kinds"):
        cmd += ["--kinds", ",".join(how["kinds"])]
    if how.get("scale"):
        cmd += ["--scale", str(how["scale"])]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=3600 if tier == "thorough" else 420)
    except subprocess.TimeoutExpired:
        return {"error": "driver timed out: " + " ".join(cmd)}
    groups, summary = [], None
    for line in p.stdout.splitlines():
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if "summary" in d:
            summary = d
        elif "group" in d:
            groups.append(d)
    if p.returncode != 0 or summary is None:
        return {"error": "driver failed (exit %s): %s\n%s" % (p.returncode, " ".join(cmd), p.stderr[-2000:])}
    return {"groups": groups, "summary": summary}


def gen_for(d, part, variant, seed):
    """Shapes are drawn from 128 generator seeds, every one of which is known to give a valid program."""
    g = d.get("gen")
    if not g:
        return None
    return {"script": g["script"], "out": g["out"], "args": [str((seed % 8) * 16 + part % 8 + (8 if variant != "O0" else 0)), str(g["count"])]}


def jobs_for(prop, tier, seed):
    spec = PROPS[prop]
    variants = ["O0"] if tier == "quick" else spec.get("thorough_variants", ["O0", "O2", "gcc"])
    out = []
    if spec.get("memcheck"):
        variants = variants + ["vg"]
    for v in variants:
        for d in spec["drivers"]:
            parts = d.get("parts", [None])
            if v == "vg" and tier == "quick":
                parts = [p for p in parts if (d["src"], p) in spec["memcheck"]]
            for part in parts:
                defs = list(d.get("defs", []))
                if part is not None:
                    defs.append("-DPART=%d" % part)
                defs += d.get("variant_defs", {}).get(v, []) + d.get("tier_defs", {}).get(tier + "." + v, [])
                if d.get("seed_def"):
                    defs.append("-D%s=%d" % (d["seed_def"], seed % 1000000))
                if d.get("mask"):
                    defs.append("-DVF_SUITES=%d" % sum(SUITE_BITS[s] for s in d["mask"]))
                name = "%s.%s.%s" % (d["src"].replace(".cpp", ""), part, v)
                if d.get("tag"):
                    name += "." + d["tag"]
                out.append({"name": name, "src": d["src"], "defs": defs, "defs0": list(defs), "flags": d.get("flags", []), "cc": VARIANTS[v] + d.get("flags", []), "gen": gen_for(d, part, v, seed),
                            "runs": d.get("runs") or [{"suites": d.get("suites"), "kinds": d.get("kinds", spec.get("kinds")), "scale": 0.02 if v == "vg" else d.get("scale")}],
                            "variant": v, "part": part,
                            "twin": d.get("twin")})
    return out


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return replay(args[1])
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = PROPS[prop]
    tmp = tempfile.mkdtemp(prefix="vf_%s_" % prop)
    errors, results = [], []
    compile_failures = {}
    try:
        jobs = jobs_for(prop, tier, seed)
        seeds = [seed] if tier == "quick" else [seed + 1000 * k for k in range(3)]
        with cf.ThreadPoolExecutor(JOBS) as pool:
            def work(job):
                exe, err = compile_one(job, tmp)
                if err:
                    job["headers_ok"] = "error:" in err and headers_compile(job, tmp)
                    if job["twin"] and "error:" in err:
                        # the run-time twin tells "the constant evaluator rejects this" from "this does not compile at all"
                        job["twin_ok"] = compile_one(dict(job, name=job["name"] + ".twin", defs=[job["twin"][1] if x == job["twin"][0] else x for x in job["defs"]]), tmp)[1] is None
                    return job, None, err
                rs = []
                for s in (seeds if job["variant"] == "O0" else seeds[:1]):
                    for how in job["runs"]:
                        r = run_one(job, exe, tmp, s, tier, how)
                        r["seed"] = s
                        r["how"] = how
                        rs.append(r)
                os.unlink(exe)
                return job, rs, None
            for job, rs, err in pool.map(work, jobs):
                if err:
                    compile_failures[job["name"]] = (job, err)
                    continue
                for r in rs:
                    if "error" in r:
                        errors.append(r["error"])
                    else:
                        results.append((job, r))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    violations = []  # (job, seed, group dict, violation dict, how the driver was run)
    for name, (job, err) in compile_failures.items():
        if job.get("twin_ok"):
            violations.append((job, seed, {"group": name, "stderr": err},
                               {"kind": "CONSTEXPR", "case": 0, "msg": "rejected in constant evaluation although the run-time twin compiles: " + first_error(err), "trace": ""}, {}))
        elif job.get("headers_ok"):
            violations.append((job, seed, {"group": name, "stderr": err},
                               {"kind": "COMPILE", "case": 0, "msg": "a use of the public interface that the property covers is rejected although the headers compile: " + first_error(err), "trace": ""}, {}))
        else:
            errors.append("cannot compile %s:\n%s" % (name, err))

    cases = ops = checks = distinct = expected = 0
    suites, samples = {}, []
    for job, r in results:
        s = r["summary"]
        cases += s["cases"]; ops += s["ops"]; checks += s["checks"]
        distinct += s["distinct"] if r["seed"] == seed and job["variant"] == "O0" else 0
        expected += s["expected_aborts"]
        for g in r["groups"]:
            suites[g["suite"]] = suites.get(g["suite"], 0) + g["cases"]
            for v in g["viol"]:
                if v["kind"] == "HARNESS":
                    errors.append("harness problem in %s %s: %s\n%s" % (job["name"], g["group"], v["msg"], g.get("stderr", "")))
                else:
                    violations.append((job, r["seed"], g, v, r["how"]))
    allg = [g for _, r in results for g in r["groups"] if g.get("sample")]
    step = max(1, len(allg) // 12)
    samples = ["%s | %s" % (g["group"], g["sample"][:300]) for g in allg[::step]][:12]

    known = known_findings(prop)
    fresh, listed = [], {}
    for job, s, g, v, how in violations:
        for grp, kind, msg, what in known:
            if re.fullmatch(grp, g["group"]) and kind == v["kind"] and re.search(msg, v["msg"]):
                listed[what] = True
                break
        else:
            fresh.append((job, s, g, v, how))

    os.makedirs(EVID, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": cases, "distinct_nontrivial": distinct,
                       "rule": spec["rule"], "samples": samples or ["(no case completed)"],
                       "library_calls_observed": ops, "oracle_comparisons": checks,
                       "expected_rejections_observed": expected, "cases_per_suite": suites,
                       "driver_programs": sorted({j["name"] for j, _ in results})},
          "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for what in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if fresh:
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (prop, seed))
        with open(path, "w") as f:
            json.dump([{"property": prop, "src": j["src"], "defs": j["defs0"], "variant": j["variant"], "suites": how.get("suites"),
                        "kinds": how.get("kinds"), "scale": how.get("scale"), "seed": s, "tier": tier, "group": g["group"], "kind": v["kind"], "case": v["case"],
                        "gen": j.get("gen"), "flags": j["flags"], "msg": v["msg"], "trace": v["trace"], "stderr": g.get("stderr", "")[:4000]} for j, s, g, v, how in fresh], f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        for j, s, g, v, how in fresh[:6]:
            print("  %s %s [%s] %s | ...%s" % (j["name"], g["group"], v["kind"], v["msg"][:300], v["trace"][-200:]))
        return 1
    if errors:
        for e in errors[:4]:
            print("ERROR " + e, file=sys.stderr)
        return 2
    if cases < spec.get("min_cases", 1) or distinct == 0:
        print("ERROR the monitors observed too little (%d cases)" % cases, file=sys.stderr)
        return 2
    print("OK property=%s tier=%s cases=%d calls=%d comparisons=%d distinct=%d wall=%.1fs" % (prop, tier, cases, ops, checks, distinct, time.time() - t0))
    return 0


def first_error(err):
    for line in err.splitlines():
        if "error:" in line:
            return line.strip()[:300]
    return err[:300]


def replay(path):
    for rec in json.load(open(path)):
        tmp = tempfile.mkdtemp(prefix="vf_replay_")
        try:
            job = {"name": "replay", "src": rec["src"], "defs": rec["defs"], "cc": VARIANTS[rec["variant"]] + rec.get("flags", []), "gen": rec.get("gen")}
            exe, err = compile_one(job, tmp)
            if err:
                print(err)
                continue
            p = subprocess.run((MEMCHECK if rec["variant"] == "vg" else []) + [exe, "--scale", str(rec.get("scale") or 1), "--seed", str(rec["seed"]), "--tier", rec["tier"], "--errdir", tmp, "--group", rec["group"]], stdout=subprocess.PIPE, text=True)
            for line in p.stdout.splitlines():
                d = json.loads(line)
                for v in d.get("viol", []):
                    print("%s case %s [%s] %s\n  trace: %s\n%s" % (d["group"], v["case"], v["kind"], v["msg"], v["trace"], d.get("stderr", "")))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return 0


sys.exit(main())
