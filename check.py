#!/usr/bin/env python3
"""Runs the check of one property: builds its harness against /repo's working tree, explores, writes evidence.

  check.py C01                    as VERIF_TIER (quick or thorough) and VERIF_SEED say
  check.py C01 --tier thorough
  check.py --replay out/...json   replays a saved failure against the present tree (exit 1: it still fails)
  check.py --all                  every check, one after another (a summary line each)

exit 0: held on everything explored; exit 1 with "VIOLATION property=<id> replay=<path>": broken.
"""
import argparse, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from plan import PLAN  # noqa: E402

HARNESS = os.path.join(VERIF, "harness")
WORK = os.environ.get("VERIF_WORK", VERIF)    # elsewhere only for experiments on changed trees
BUILD = os.path.join(WORK, "build")
OUT = os.path.join(WORK, "out")
EVIDENCE = os.path.join(WORK, "evidence")

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"]
KINDS = {
    "asan": ["g++", "-O1", "-g1", *SAN],
    "plain": ["g++", "-O2"],
    "o3": ["g++", "-O3", "-march=native"],
    "tsan": ["g++", "-O1", "-g1", "-fsanitize=thread"],
    "clang": ["clang++", "-O2", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"],
    "fuzz": ["clang++", "-O1", "-g1", "-DPBT_FUZZ", "-fsanitize=fuzzer,address,undefined",
             "-fno-sanitize-recover=undefined"],
}
COMMON = ["-std=c++20", "-w", "-pthread", "-I", HARNESS]


def includes():
    inc, stub = os.path.join(REPO, "include"), os.path.join(HARNESS, "stub")
    return ["-I", inc, "-isystem", stub, f'-DREPO_INCLUDE="{inc}"', f'-DHARNESS_STUB="{stub}"']


def tree_hash():
    h = hashlib.sha256()
    root = os.path.join(REPO, "include")
    for d, dirs, files in sorted(os.walk(root)):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
    for f in sorted(os.listdir(HARNESS)):
        p = os.path.join(HARNESS, f)
        if os.path.isfile(p):
            h.update(f.encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:24]


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                          timeout=timeout, **kw)


def compile_one(src, kind, extra, tree):
    """-> (binary or None, log)"""
    key = hashlib.sha256(("|".join([src, kind, *extra, *KINDS[kind], *COMMON, tree, REPO])).encode()).hexdigest()[:20]
    variant = "." + hashlib.sha256(" ".join(extra).encode()).hexdigest()[:6] if extra else ""
    d = os.path.join(BUILD, f"{os.path.splitext(src)[0]}.{kind}{variant}")
    exe = os.path.join(d, key)
    if os.path.exists(exe):
        return exe, ""
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):    # only the newest build of a harness is kept
        try:
            os.unlink(os.path.join(d, f))
        except OSError:
            pass
    tmp = exe + f".tmp{os.getpid()}"
    cmd = [*KINDS[kind], *COMMON, *includes(), *extra, os.path.join(HARNESS, src), "-o", tmp]
    log = ""
    for _ in range(2):
        try:
            r = sh(cmd, timeout=400)
        except subprocess.TimeoutExpired:
            log = "compiler timed out"
            continue
        if r.returncode == 0:
            os.rename(tmp, exe)
            return exe, r.stdout
        log = " ".join(cmd) + "\n" + r.stdout
    return None, log


def canary(kind):
    """Does the toolchain work without the code under test?"""
    d = os.path.join(BUILD, "canary")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, "canary.cpp")
    with open(src, "w") as f:
        f.write('#include "pbt.hpp"\nchar const* const property_rule = "";\nbool const property_flaky = false;\n'
                "void known_findings() {}\nvoid property(pbt::ctx&) {}\n")
    try:
        return sh([*KINDS[kind], *COMMON, src, "-o", os.path.join(d, "canary." + kind)], timeout=200).returncode == 0
    except subprocess.TimeoutExpired:
        return False


def known_list(pid):
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3)))
    return r


def save_replay(pid, name, text):
    d = os.path.join(OUT, pid)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    with open(p, "w") as f:
        f.write(text)
    return p


def run_check(pid, tier, seed):
    t0 = time.time()
    plan = PLAN[pid]
    tree = tree_hash()
    runs = [r for r in plan["runs"] if tier in r["cases"]]
    work = os.path.join(OUT, pid, f"work.{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    violations, cov_runs, samples, labels = [], [], [], {}
    total = distinct = 0
    errors = []

    def build(r):
        return compile_one(plan.get("src") if "src" not in r else r["src"], r["build"], r.get("flags", []), tree)

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        built = list(ex.map(build, runs))
    for r, (exe, log) in zip(runs, built):
        if exe:
            continue
        if canary(r["build"]):
            p = save_replay(pid, f"compile-{r['build']}.log",
                            "The harness only uses the public interface the property is about, and it no longer "
                            "compiles against this tree.\n" + log)
            violations.append((p, "the interface this property is about does not compile"))
        else:
            errors.append("toolchain cannot build even an empty harness: " + log[-2000:])
        break
    rule = None
    if not violations and not errors:
        for idx, (r, (exe, _)) in enumerate(zip(runs, built)):
            spec = r["cases"][tier]
            s = (seed * 1000003 + idx * 7919 + 17) & ((1 << 63) - 1)
            tag = "-".join([r["build"], *(x[2:].split("=")[0] for x in r.get("flags", []) if x.startswith("-D"))])
            if r["build"] == "fuzz":
                res = run_fuzz(pid, exe, r, spec, s, work, built, runs)
            else:
                res = run_pbt(exe, r, spec, s, work, tag)
            if res is None:
                errors.append(f"{tag}: no result")
                continue
            if "violation" in res:
                name = f"replay-{tag}-{hashlib.sha256(res['violation'].encode()).hexdigest()[:10]}.json"
                doc = json.loads(res["violation"])
                doc = {"property": pid, "src": r.get("src", plan.get("src")), "build": res.get("build", r["build"]),
                       "flags": r.get("flags", []), "seed": seed, **doc}
                p = save_replay(pid, name, json.dumps(doc, indent=1))
                violations.append((p, str(doc.get("message", ""))))
            if "coverage" in res:
                cv = res["coverage"]
                total += cv.get("evaluations", 0)
                distinct += cv.get("distinct_nontrivial", 0)
                rule = rule or cv.get("rule")
                for x in cv.pop("samples", []):
                    if len(samples) < 4:
                        samples.append(f"[{tag}] {x}")
                for k, v in cv.pop("labels", {}).items():
                    labels[k] = labels.get(k, 0) + v
                cv.pop("rule", None)
                cov_runs.append({"build": tag, **cv})
            if violations:
                break
        if not violations and not errors and known_list(pid):
            exe = next(e for r, (e, _) in zip(runs, built) if r["build"] != "fuzz")
            out = sh([exe, "--known"], timeout=120).stdout
            for kid, what in known_list(pid):
                if re.search(r"^REPRODUCES " + re.escape(kid) + r"\b", out, re.M):
                    print(f"KNOWN-FINDING: property={pid} {what}")
    shutil.rmtree(work, ignore_errors=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total, "distinct_nontrivial": distinct,
            "rule": rule or "no case was run: the harness did not build",
            "samples": samples or ["none: the run stopped before a sample was taken"],
            "runs": cov_runs, "labels": labels, "repo_tree": tree,
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for p, what in violations:
        print(what[:1500])
        print(f"VIOLATION property={pid} replay={p}", flush=True)
    if violations:
        return 1
    for e in errors:
        print("ERROR:", e)
    if errors:
        return 2
    print(f"{pid}: held on {total} cases ({distinct} distinct non-trivial), {tier}, seed {seed}, {ev['wall_s']} s")
    return 0


def run_pbt(exe, r, spec, seed, work, tag):
    out = os.path.join(work, tag + ".out.json")
    fail = os.path.join(work, tag + ".fail.json")
    limit = spec.get("limit", 60)
    cmd = [exe, "--seed", str(seed), "--cases", str(spec["n"]), "--jobs", str(r.get("jobs", 8)),
           "--batch", str(r.get("batch", 200)), "--time-limit", str(limit), "--hang", str(r.get("hang", 25)),
           "--shrink-s", "40", "--out", out, "--fail-out", fail, "--workdir", work]
    try:
        p = sh(cmd, timeout=limit + 400)
    except subprocess.TimeoutExpired:
        return None
    res = {}
    if os.path.exists(out):
        with open(out) as f:
            res["coverage"] = json.load(f)
    if os.path.exists(fail):
        with open(fail) as f:
            res["violation"] = f.read()
    elif p.returncode != 0:
        sys.stderr.write(p.stdout[-3000:])
        return None
    if "coverage" not in res and "violation" not in res:
        return None
    return res


def run_fuzz(pid, exe, r, spec, seed, work, built, runs):
    """Coverage-guided search over tapes; a crash is turned back into a tape and confirmed by the plain runner."""
    procs, jobs = [], 8
    corpus = os.path.join(work, "corpus")
    os.makedirs(corpus, exist_ok=True)
    env = dict(os.environ)
    for j in range(jobs):
        art = os.path.join(work, f"art{j}-")
        cmd = [exe, corpus, f"-seed={(seed + j) % 2000000000 + 1}", f"-max_total_time={spec['s']}",
               f"-max_len={r.get('max_len', 2000)}", "-timeout=60", "-rss_limit_mb=3000", f"-artifact_prefix={art}",
               "-print_final_stats=1", "-reload=1", "-verbosity=0", "-len_control=20"]
        procs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                       errors="replace", env=env), art))
    execs = 0
    for p, _ in procs:
        try:
            o, _e = p.communicate(timeout=spec["s"] + 200)
        except subprocess.TimeoutExpired:
            p.kill()
            o, _e = p.communicate()
        m = re.search(r"stat::number_of_executed_units:\s+(\d+)", o)
        if m:
            execs += int(m.group(1))
    n_corpus = len(os.listdir(corpus))
    res = {"coverage": {"evaluations": execs, "inputs_kept_for_new_coverage": n_corpus,
                        "note": "coverage-guided; none of these is counted in distinct_nontrivial",
                        "labels": {}, "samples": []}}
    base = next(((x, e) for x, (e, _) in zip(runs, built) if x["build"] == "asan"), None) or \
        next(((x, e) for x, (e, _) in zip(runs, built) if x["build"] != "fuzz"), None)
    arts = [os.path.join(work, f) for f in sorted(os.listdir(work)) if f.startswith("art") and ("crash" in f or "timeout" in f)]
    for a in arts[:6]:
        dump, tape, fail = a + ".shm", a + ".tape", a + ".fail"
        e2 = dict(os.environ, PBT_DUMP=dump)
        try:
            sh([exe, a], timeout=120, env=e2)
        except subprocess.TimeoutExpired:
            pass
        t = sh([base[1], "--shm-to-tape", dump]).stdout
        with open(tape, "w") as f:
            f.write(t)
        try:
            sh([base[1], "--shrink-from", tape, "--fail-out", fail, "--workdir", work], timeout=400)
        except subprocess.TimeoutExpired:
            pass
        if os.path.exists(fail):
            with open(fail) as f:
                res["violation"] = f.read()
            res["build"] = base[0]["build"]
            break
        else:
            res["coverage"]["unconfirmed_crashes"] = res["coverage"].get("unconfirmed_crashes", 0) + 1
    return res


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    exe, log = compile_one(doc["src"], doc["build"], doc.get("flags", []), tree_hash())
    if not exe:
        print(log)
        return 1
    r = sh([exe, "--replay", path], timeout=600)
    print(r.stdout)
    return r.returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--setup", action="store_true", help="name the tools the checks use; fails when one is missing")
    a = ap.parse_args()
    if a.setup:
        missing = [t for t in ("g++", "clang++") if not shutil.which(t)]
        print("missing: " + " ".join(missing) if missing else "g++ and clang++ found")
        return 2 if missing else 0
    if a.replay:
        return replay(a.replay)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    ids = sorted(PLAN) if a.all else a.id
    worst = 0
    for i in ids:
        worst = max(worst, run_check(i, tier, a.seed))
    return worst


if __name__ == "__main__":
    sys.exit(main())
