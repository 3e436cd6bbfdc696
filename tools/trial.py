#!/usr/bin/env python3
"""Tries a change of xitren/patterns in a scratch copy, never in /repo.

  trial.py PATCH|SEEDED-ID ... [--tests] [--demo] [--check Cxx,Cyy] [--seed N] [--tier T] [-R]

Per patch: apply it to a copy of /repo under /tmp (reversed with -R), and then build and run the repository's tests,
the demonstration beside the patch (first without, then with the change), and the named checks (default for a seeded
change: those of its property).
"""
import argparse, json, os, re, shutil, subprocess, sys, time
VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def copy_tree(dst):
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    for d in ("include", "tests"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(dst, d))
    os.makedirs(os.path.join(dst, "cmake"))
    s = open("/opt/vp/cmake/CMakeLists.txt").read().replace("set(REPO /repo)", f"set(REPO {dst})")
    open(os.path.join(dst, "cmake", "CMakeLists.txt"), "w").write(s)


def tests(dst):
    b = os.path.join(dst, "b")
    r = sh(["cmake", "-S", os.path.join(dst, "cmake"), "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
            "-DBUILD_TESTING=ON", "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_CXX_FLAGS=-Wno-error",
            "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest"])
    if r.returncode:
        return "configure failed " + r.stdout[-500:]
    r = sh(["ninja", "-C", b, "-j4"])
    if r.returncode:
        return "BUILD FAILED " + "\n".join(x for x in r.stdout.splitlines() if "error" in x)[:800]
    r = sh(["ctest", "--test-dir", b, "-j1", "--timeout", "120", "-E", "NOT_BUILT"])
    m = re.search(r"\d+% tests passed.*", r.stdout)
    return ("tests pass: " if r.returncode == 0 else "TESTS FAIL: ") + (m.group(0) if m else r.stdout[-300:])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what", nargs="+")
    ap.add_argument("--tests", action="store_true")
    ap.add_argument("--demo", action="store_true")
    ap.add_argument("--check")
    ap.add_argument("--no-check", action="store_true")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("-R", action="store_true")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    bad = 0
    for w in a.what:
        d = os.path.join(VERIF, "seeded", w)
        patch = os.path.join(d, "patch.diff") if os.path.isdir(d) else os.path.abspath(w)
        name = w if os.path.isdir(d) else os.path.basename(os.path.dirname(patch)) + "-" + os.path.basename(patch)
        dst = f"/tmp/trial/{name}.{os.getpid()}"
        copy_tree(dst)
        say = [name]
        demo = os.path.join(os.path.dirname(patch), "demo.sh")
        if a.demo and os.path.exists(demo):
            r = sh(["bash", demo], cwd=dst, timeout=300)
            say.append(f"demo clean: {'ok' if r.returncode == 0 else 'FAILS ' + r.stdout[-400:]}")
        r = sh(["git", "apply", "--unsafe-paths", "--directory", dst, *(["-R"] if a.R else []), patch], cwd="/")
        if r.returncode:
            print(name, "DOES NOT APPLY", r.stdout[:300], flush=True)
            shutil.rmtree(dst)
            bad += 1
            continue
        if a.tests:
            say.append(tests(dst))
        if a.demo and os.path.exists(demo):
            try:
                r = sh(["bash", demo], cwd=dst, timeout=300)
                say.append(f"demo changed: {'FINE ' if r.returncode == 0 else 'fails, as it should: '}"
                           + r.stdout.strip()[-160:].replace("\n", " | "))
            except subprocess.TimeoutExpired:
                say.append("demo changed: times out")
        ids = a.check.split(",") if a.check else []
        if not ids and os.path.isdir(d):
            ids = [json.load(open(os.path.join(d, "meta.json")))["property"]]
        if a.no_check:
            ids = []
        env = dict(os.environ, VERIF_REPO=dst, VERIF_WORK=dst + "/w", VERIF_SEED=a.seed, VERIF_TIER=a.tier)
        for i in ids:
            t = time.time()
            r = sh(["python3", os.path.join(VERIF, "check.py"), i], env=env, cwd=VERIF)
            caught = r.returncode == 1 and f"VIOLATION property={i}" in r.stdout
            bad += not caught
            lines = [x for x in r.stdout.strip().splitlines() if x and not x.startswith("VIOLATION")]
            say.append(f"{i}: {'CAUGHT' if caught else 'missed' if r.returncode == 0 else 'ERROR'} {time.time() - t:.0f} s"
                       f" {(lines[0] if lines else '')[:150]}")
        print("\n   ".join(say), flush=True)
        if not a.keep:
            shutil.rmtree(dst)
    return bad


if __name__ == "__main__":
    sys.exit(main())
