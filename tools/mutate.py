#!/usr/bin/env python3
"""Mutation sweep: small textual changes of xitren/patterns in scratch copies, to see which ones no check notices.

  mutate.py FILE(relative to include/xitren) ... [--workers N] [--cases-part F] [--out LOG]

Every mutant is built into the plain build (then the asan or tsan build) of the harnesses that cover the file and run for a part of the
quick tier's cases. Survivors are listed; they are either equivalent or something to strengthen a check with.
"""
import argparse, concurrent.futures, hashlib, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.join(HERE, "..")
sys.path.insert(0, HERE)
sys.path.insert(0, VERIF)
from plan import PLAN
import check as CK

COVER = {
    "allocators/static_heap.hpp": ["C02", "C01", "C03", "C04", "C05", "C36"], "allocators/static_heap_allocator.hpp": ["C05"],
    "cache/lru.hpp": ["C06", "C07", "C29", "C33", "C34"], "cache/exceptions.hpp": ["C07"], "comm/observer.hpp": ["C08", "C10", "C09", "C29", "C32", "C34", "C36"],
    "comm/observer_static.hpp": ["C11"], "comm/values/observable.hpp": ["C12", "C13", "C10", "C14", "C36"],
    "comm/values/observed.hpp": ["C12", "C10", "C14", "C36"], "comm/mediator.hpp": ["C15", "C16", "C31", "C34"],
    "comm/pipeline_stage.hpp": ["C17", "C19", "C33", "C34"], "comm/pipeline_stage_pool.hpp": ["C18", "C19", "C33", "C34"],
    "func/argv_parser.hpp": ["C20", "C34"], "func/data.hpp": ["C21", "C22", "C23", "C24"], "func/packet.hpp": ["C23", "C24", "C25", "C36"],
    "func/fast_pimpl.hpp": ["C26", "C32", "C36"], "func/interval_event.hpp": ["C27", "C28", "C33", "C36"],
}
RULES = [(r"==", "!="), (r"!=", "=="), (r"<=", "<"), (r">=", ">"), (r"(?<![<\-=>])>(?![>=])", ">="), (r"(?<![<])<(?![<=])", "<="),
         (r"&&", "||"), (r"\|\|", "&&"), (r"\+\+", "--"), (r"--", "++"), (r"(?<=[\w)\]] )\+(?= )", "-"),
         (r"(?<=[\w)\]] )-(?= )", "+"), (r"\+=", "-="), (r"-=", "+="), (r"(?<= )\*(?= )", "+"), (r"(?<= )/(?= )", "*"), (r" % ", " / "),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"!(?=[\w(])", ""),
         (r"\bbegin\(\)", "end()"), (r"\bfront\(\)", "back()"), (r"\bback\(\)", "front()"), (r"push_front", "push_back"),
         (r"pop_back", "pop_front"), (r"std::move\((\w+)\)", r"\1"), (r"\bfetch_add\b", "fetch_sub"), (r"const&", ""),
         (r"return ", "continue; return ")]


def mutants(text):
    lines = text.split("\n")
    depth_comment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"):
            depth_comment = "*/" not in s
            continue
        if depth_comment:
            depth_comment = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "*", "template", "using ", "static_assert", "namespace", "public", "private")):
            continue
        code = l.split("//")[0]
        for pat, rep in RULES[:-1]:
            for m in re.finditer(pat, code):
                if "std::" in code[m.start():m.start() + 2]:
                    continue
                if pat in ("(?<![<\\-=>])>(?![>=])", "(?<![<])<(?![<=])") and not re.search(r"\s", code[m.start() - 1:m.start()]):
                    continue
                new = code[:m.start()] + m.expand(rep) + code[m.end():]
                yield i, new
        if s.endswith(";") and not s.startswith(("return", "auto", "const", "std::size_t ", "}", "=", "int ", "block_link")) and "{}" not in s:
            yield i, re.match(r"\s*", l).group(0) + ";"
        if re.match(r"\s*(if|while) \(.*\{$", l):
            yield i, re.sub(r"\((.*)\)( \[\[\w+\]\])? \{$", r"((\1) && false) {", l)
            if "while" not in l:
                yield i, re.sub(r"\((.*)\)( \[\[\w+\]\])? \{$", r"((\1) || true) {", l)


def build(src, kind, root, exe, flags=()):
    inc = os.path.join(root, "include")
    cmd = [*CK.KINDS[kind], *CK.COMMON, *flags, f'-DREPO_INCLUDE="{inc}"', "-I", inc, "-isystem", os.path.join(CK.HARNESS, "stub"),
           os.path.join(CK.HARNESS, src), "-o", exe]
    try:
        return subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300).returncode == 0
    except subprocess.TimeoutExpired:
        return False


def run(exe, r, part, d):
    fail = os.path.join(d, "fail.json")
    n = max(200, int(r["cases"].get("quick", {"n": 0})["n"] * part))
    cmd = [exe, "--seed", "7", "--cases", str(n), "--jobs", "2", "--batch", str(r.get("batch", 200)), "--time-limit", "60",
           "--hang", "15", "--shrink-s", "0", "--out", os.path.join(d, "o.json"), "--fail-out", fail, "--workdir", d]
    try:
        subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
    except subprocess.TimeoutExpired:
        return True
    return os.path.exists(fail)


def one(job):
    f, i, new, old, part = job
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp/trial")
    try:
        shutil.copytree("/repo/include", os.path.join(d, "include"))
        p = os.path.join(d, "include/xitren", f)
        lines = open(p).read().split("\n")
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        for kinds in (("plain",), ("asan", "tsan")):
            for c in COVER[f]:
                for r in PLAN[c]["runs"]:
                    if r["build"] not in kinds or "quick" not in r["cases"]:
                        continue
                    exe = os.path.join(d, "h")
                    if not build(PLAN[c]["src"], r["build"], d, exe, r.get("flags", ())):
                        return "nobuild", c
                    if run(exe, r, part, d):
                        return "killed", c + " " + r["build"]
        return "SURVIVED", ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+")
    ap.add_argument("--workers", type=int, default=6)
    ap.add_argument("--part", type=float, default=0.1)
    ap.add_argument("--lines")
    a = ap.parse_args()
    os.makedirs("/tmp/trial", exist_ok=True)
    for f in a.files:
        text = open(os.path.join("/repo/include/xitren", f)).read()
        lines = text.split("\n")
        seen, jobs = set(), []
        for i, new in mutants(text):
            if a.lines and not (int(a.lines.split("-")[0]) <= i + 1 <= int(a.lines.split("-")[1])):
                continue
            if new.strip() != lines[i].strip() and (i, new) not in seen:
                seen.add((i, new))
                jobs.append((f, i, new, lines[i], a.part))
        t = time.time()
        tally = {}
        with concurrent.futures.ThreadPoolExecutor(a.workers) as ex:
            for job, (res, by) in zip(jobs, ex.map(one, jobs)):
                tally[res] = tally.get(res, 0) + 1
                if res == "SURVIVED":
                    print(f"{f}:{job[1] + 1}: {job[3].strip()}  ==>  {job[2].strip()}", flush=True)
        print(f"== {f}: {len(jobs)} mutants {tally} {time.time() - t:.0f} s", flush=True)


if __name__ == "__main__":
    main()
