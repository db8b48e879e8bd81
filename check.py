#!/usr/bin/env python3
"""Builds and runs the monitors that decide one property against /repo's current working tree.

usage: check.py <property> [--thorough] [--replay FILE] [--keep] [--jobs N]
exit 0: held on everything explored; exit 1: VIOLATION printed; other: the check itself could not run.
"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shlex
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

CXX = shutil.which("clang++-18") or shutil.which("clang++")
LLD = "/usr/lib/llvm-18/bin/ld.lld"
BASE = [
    "-std=c++20", "-D_USE_MATH_DEFINES", "-DBOOST_THREAD_VERSION=5", "-DBOOST_ALLOW_DEPRECATED_HEADERS",
    "-DBOOST_GEOMETRY_INDEX_DETAIL_EXPERIMENTAL", "-DONLY_C_LOCALE=1", "-DHAS_STRING_VIEW=1", "-w",
    "-I" + VERIF + "/harness/shim", "-I" + VERIF + "/harness/common",
    "-I" + REPO + "/src/library/include", "-I" + REPO + "/src/app/include",
]
# each mode: compile and link flags
MODES = {
    # AddressSanitizer, the UBSan checks that matter for memory and arithmetic, libstdc++ assertions; asserts stay on
    "asan": ["-g1", "-fsanitize=address", "-fno-omit-frame-pointer",
             "-fsanitize=bounds,integer-divide-by-zero,return,shift-exponent,bool,enum,signed-integer-overflow",
             "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
    "plain": ["-g1"],
}
LIBS = ["-lboost_serialization", "-lboost_thread", "-lboost_chrono", "-lboost_program_options", "-lboost_system",
        "-lexpat", "-lz", "-lbz2", "-lpthread"]
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=0:detect_stack_use_after_return=0:max_malloc_fill_size=4096:malloc_fill_byte=190",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=98:second_deadlock_stack=1",
    "LC_ALL": "C.UTF-8",
}


def log(*a):
    print(*a, flush=True)


def run_cmd(cmd, timeout, cwd, env=None):
    """Runs cmd in its own process group; returns (rc, output) with rc None on timeout."""
    e = dict(os.environ)
    e.update(ENV)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out.decode("utf-8", "replace")


def version_source(build):
    """version.cpp is generated by CMake in the normal build; generate the same file here."""
    src = REPO + "/src/library/src/util/version.cpp.in"
    if not os.path.exists(src):
        return None
    text = open(src).read()
    text = re.sub(r"@[A-Za-z_]*VERSION[A-Za-z_]*@", "1.0.8", text)
    text = re.sub(r"@[A-Za-z_]+@", "0", text)
    dst = build + "/version.cpp"
    open(dst, "w").write(text)
    return dst


def compile_all(spec, build, jobs):
    mode = spec.get("mode", "asan")
    opt = spec.get("opt", "-O1")
    tasks = []
    for name, src in spec["sources"]:
        if src == "@version":
            src = version_source(build)
            if src is None:
                continue
        elif src.startswith("@"):
            src = REPO + "/" + src[1:]
        else:
            src = VERIF + "/harness/" + src
        o = build + "/" + name + ".o"
        flags = MODES[mode]
        o_flag = opt
        extra = [f.replace("@", VERIF + "/") for f in spec.get("flags", [])]
        if src.endswith("/srs.cpp"):
            o_flag = "-O0"  # epsg tables: minutes at any other level
            flags = [f for f in flags if "sanitize" not in f] if mode != "tsan" else flags
        tasks.append((name, [CXX, *BASE, *flags, o_flag, *extra, *spec.get("src_flags", {}).get(name, []),
                             "-c", src, "-o", o], o))
    objs = [t[2] for t in tasks]
    failed = []
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = {ex.submit(run_cmd, t[1], 600, build): t for t in tasks}
        for f in cf.as_completed(futs):
            rc, out = f.result()
            if rc != 0:
                failed.append((futs[f][0], out))
    if failed:
        for n, out in failed:
            log(f"BUILD-ERROR {n}:\n{out[:6000]}")
        return None
    return objs


def link(spec, objs, build):
    mode = spec.get("mode", "asan")
    exe = build + "/harness"
    cmd = [CXX, *MODES[mode], *objs, "-o", exe, *LIBS, *spec.get("libs", [])]
    if os.path.exists(LLD):
        cmd.append("--ld-path=" + LLD)
    rc, out = run_cmd(cmd, 300, build)
    if rc != 0:
        log("LINK-ERROR\n" + out[:6000])
        return None
    return exe


FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (.+?) (\S+?):(\d+)")


def crash_key(out, rc):
    m = re.search(r"Assertion [`'](.+?)' failed", out)
    if m:
        return "assertion:" + m.group(1)[:120]
    m = re.search(r"(ERROR|WARNING|SUMMARY): (AddressSanitizer|ThreadSanitizer): ([A-Za-z0-9 -]+)", out)
    kind = None
    if m:
        kind = m.group(2) + ":" + m.group(3).strip().split(" on ")[0].split(" (")[0]
    else:
        m = re.search(r"runtime error: (.+)", out)
        if m:
            kind = "UBSan:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:100]
    where = ""
    for f in FRAME.finditer(out):
        if REPO + "/src" in f.group(2):
            where = os.path.basename(f.group(2)) + ":" + re.sub(r"<.*", "", f.group(1).split("::")[-1])[:60]
            break
    if kind:
        return f"{kind}@{where}"
    if "VH-HANG" in out:
        return "hang"
    m = re.search(r"terminate called after throwing an instance of '(.+?)'", out)
    if m:
        return "terminate:" + m.group(1)
    return f"crash:rc={rc}"


def known_findings(prop):
    path = VERIF + "/known_findings.json"
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"]
            if k["property"] == prop and k.get("status") == "known"]


def is_known(v, findings):
    for k in findings:
        if k["key"] == v["key"] and (not k.get("detail_contains") or k["detail_contains"] in v["detail"]):
            return k
    return None


def run_shard(exe, prop, spec, tier, seed, shard, shards, build, timeout, extra):
    tag = f"{shard}-{abs(hash((tuple(extra), time.time())))}"
    out_file, prog = f"{build}/out-{tag}.json", f"{build}/prog-{tag}"
    scratch = tempfile.mkdtemp(prefix="scratch-", dir=build)
    cmd = [exe, "--seed", str(seed), "--tier", tier, "--shard", f"{shard}/{shards}", "--out", out_file,
           "--progress", prog, "--scratch", scratch, *extra]
    rc, out = run_cmd(cmd, timeout, scratch, spec.get("env"))
    shutil.rmtree(scratch, ignore_errors=True)
    pos = ""
    try:
        pos = open(prog, "rb").read().split(b"\0")[0].decode()
    except OSError:
        pass
    report = None
    if os.path.exists(out_file):
        try:
            report = json.load(open(out_file))
        except ValueError:
            report = None
    return rc, out, report, pos


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--scale", type=float)
    ap.add_argument("--unit", help="run only the units whose names start with this (for development)")
    a = ap.parse_args()
    start = time.time()
    prop = a.prop
    check = CHECKS[prop]
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.thorough else "quick"

    os.makedirs(VERIF + "/.build", exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    os.makedirs(VERIF + "/replays", exist_ok=True)
    build_root = tempfile.mkdtemp(prefix=prop + "-", dir=VERIF + "/.build")
    replay = json.load(open(a.replay)) if a.replay else None
    code = 2
    try:
        code = execute(a, check, prop, seed, tier, build_root, replay, start)
    finally:
        if not a.keep:
            shutil.rmtree(build_root, ignore_errors=True)
    sys.exit(code)


def execute(a, check, prop, seed, tier, build_root, replay, start):
    jobs = a.jobs
    violations, evaluations, distinct, stats, samples = [], 0, set(), {}, []
    inconclusive = []
    # all units of the property are compiled together, then run one after another
    units = [u for u in check["units"] if tier in u.get("tiers", ("quick", "thorough"))]
    if replay:
        units = [u for u in units if u["name"] == replay["unit"]]
    if a.unit:
        units = [u for u in units if u["name"].startswith(a.unit)]
    all_tasks = []
    for u in units:
        b = build_root + "/" + u["name"]
        os.makedirs(b)
        u["_build"] = b
    with cf.ThreadPoolExecutor(len(units)) as ex:
        # one pool of compile jobs per unit; the operating system balances them
        per = max(2, jobs // len(units))
        results = list(ex.map(lambda u: compile_all(u, u["_build"], per), units))
    for u, objs in zip(units, results):
        if objs is None:
            return 2
        u["_exe"] = link(u, objs, u["_build"])
        if u["_exe"] is None:
            return 2
    built = time.time() - start

    for u in units:
        if time.time() - start > 240 and any(not is_known(v, known_findings(prop)) for v in violations):
            # hangs are slow to confirm; what was found is enough for an alarm
            log(f"  unit {u['name']} is not run, violations were found before")
            continue
        crashes = 0
        shards = u.get("shards", jobs)
        timeout = u.get("timeout", {}).get(tier, 420 if tier == "quick" else 6000)
        extra = []
        rseed, rtier = seed, tier
        if replay:
            shards, rseed, rtier = 1, replay["seed"], replay["tier"]
            if replay.get("scenario"):
                extra = ["--scenario", replay["scenario"], "--case", str(replay["case"])]
        if a.scale:
            extra += ["--scale", str(a.scale)]
        with cf.ThreadPoolExecutor(u.get("parallel", jobs)) as ex:
            futs = [ex.submit(run_shard, u["_exe"], prop, u, rtier, rseed, s, shards, u["_build"], timeout, extra)
                    for s in range(shards)]
            res = [f.result() for f in futs]
        for s, (rc, out, report, pos) in enumerate(res):
            if rc is None or (rc not in (0, 3)) or report is None:
                # crash, sanitizer report, hang or timeout: attribute it to the case that was running, run it again
                scen, _, case = pos.partition(" ")
                key = "timeout" if rc is None else crash_key(out, rc)
                if crashes >= 2:
                    continue
                if scen and scen != "done" and case:
                    rc2, out2, rep2, _ = run_shard(u["_exe"], prop, u, rtier, rseed, 0, 1, u["_build"],
                                                   min(timeout, 200),
                                                   ["--scenario", scen, "--case", case])
                    again = (rc2 is None) or rc2 not in (0, 3)
                    if key.startswith("timeout") and not again:
                        rc3, out3, report, _ = run_shard(u["_exe"], prop, u, rtier, rseed, s, shards, u["_build"],
                                                         timeout, extra)
                        if rc3 in (0, 3) and report is not None:
                            rc, out = rc3, out3
                        else:
                            inconclusive.append(f"{u['name']} shard {s} timed out at {pos}")
                            continue
                    else:
                        if key.startswith("timeout") or (key.startswith("crash") and again):
                            key = crash_key(out2, rc2) if rc2 is not None else "hang"
                            out = out2
                        crashes += 1
                        violations.append({"key": key, "detail": out[-6000:], "scenario": scen,
                                           "case": int(case), "unit": u["name"]})
                        continue
                else:
                    if rc is None:
                        inconclusive.append(f"{u['name']} shard {s} timed out at {pos}")
                    else:
                        violations.append({"key": key, "detail": out[-6000:], "scenario": "", "case": 0,
                                           "unit": u["name"]})
                    continue
            for v in report["violations"]:
                v["unit"] = u["name"]
                violations.append(v)
            evaluations += report["evaluations"]
            distinct |= {u["name"] + d for d in report["distinct"]}
            for k, n in report["stats"].items():
                stats[k] = stats.get(k, 0) + n
            for scen, texts in report["samples"].items():
                if sum(1 for x in samples if x["scenario"] == scen) < 2:
                    samples += [{"scenario": scen, "case": t} for t in texts[:1]]

    findings = known_findings(prop)
    reported, seen_known = [], set()
    seen = set()
    for v in violations:
        k = is_known(v, findings)
        if k:
            seen_known.add(k["what"])
            continue
        if v["key"] in seen and len(reported) >= 4:
            continue
        seen.add(v["key"])
        reported.append(v)
    if not replay:
        # listed findings are announced on every run: they are part of what is known about this tree
        for k in findings:
            log(f"KNOWN-FINDING: property={prop} {k['what']}")

    # a monitor that observed nothing proves nothing
    missing = [n for n in check.get("must_observe", []) if stats.get(n, 0) <= 0]
    wall = time.time() - start
    if not replay:
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": check["level"],
            "coverage": {
                "evaluations": evaluations, "distinct_nontrivial": len(distinct),
                "rule": check["rule"], "samples": samples or [{"scenario": "none", "case": "no sample"}],
                "observed": stats, "build_s": round(built, 1),
                "units": [{"unit": u["name"], "instrumentation": u.get("mode", "asan")} for u in units],
                "inconclusive": inconclusive,
                "known_findings_hit": sorted(seen_known),
            },
            "assumptions": check.get("assumptions", []),
            "wall_s": round(wall, 1),
            "violations": len(reported),
        }
        json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
    log(f"{prop} {tier} seed={seed}: {evaluations} cases, {len(distinct)} distinct non-trivial, "
        f"{len(reported)} violations, build {built:.1f}s, total {wall:.1f}s")
    for k in sorted(stats):
        log(f"  observed {k} = {stats[k]}")
    for i in inconclusive:
        log("  inconclusive: " + i)
    if reported:
        for n, v in enumerate(reported[:6]):
            path = f"{VERIF}/replays/{prop}-{n}.json"
            json.dump({"property": prop, "unit": v["unit"], "seed": seed, "tier": tier, "scenario": v["scenario"],
                       "case": v["case"], "key": v["key"], "detail": v["detail"],
                       "how": f"python3 {VERIF}/check.py {prop} --replay {path}"}, open(path, "w"), indent=1)
            log(f"  [{v['key']}] {v['scenario']} #{v['case']}: {v['detail'][:1200]}")
            log(f"VIOLATION property={prop} replay={path}")
        return 1
    if replay:
        log("replay: no violation")
        return 0
    if missing:
        log("ERROR: the monitors did not observe: " + ", ".join(missing))
        return 2
    if inconclusive and evaluations == 0:
        return 2
    return 0


if __name__ == "__main__":
    main()
