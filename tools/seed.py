#!/usr/bin/env python3
"""seed.py <plants/x.py>...: writes /verif/seeded/<id>/ from a description with edits and a demonstration program."""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with the repository as working directory: exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
R=$PWD
CXX=$(command -v clang++-18 || command -v clang++ || command -v g++)
F="-std=c++20 -O0 %(flags)s -D_USE_MATH_DEFINES -DBOOST_THREAD_VERSION=5 -DBOOST_ALLOW_DEPRECATED_HEADERS -DBOOST_GEOMETRY_INDEX_DETAIL_EXPERIMENTAL -DONLY_C_LOCALE=1 -DHAS_STRING_VIEW=1 -w -I$d/shim -I$R/src/library/include -I$R/src/app/include"
objs=
n=0
for s in "$d/demo.cpp" %(sources)s; do
  n=$((n+1))
  $CXX $F -c "$s" -o "$t/$n.o" & objs="$objs $t/$n.o"
done
wait
$CXX %(flags)s $objs -o "$t/demo" -lboost_serialization -lboost_thread -lboost_chrono -lboost_program_options -lboost_system -lexpat -lz -lbz2 -lpthread || exit 98
cd "$t" && timeout %(timeout)s ./demo
'''


def main():
    scratch = "/tmp/plant/edit"
    for f in sys.argv[1:]:
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        for p in ns["PLANTS"]:
            if not os.path.isdir(scratch):
                subprocess.check_call(["git", "clone", "-q", "/repo", scratch])
            subprocess.check_call(["git", "-C", scratch, "pull", "-q"])
            subprocess.check_call(["git", "-C", scratch, "checkout", "-q", "--", "."])
            for path, old, new in p["edits"]:
                full = scratch + "/" + path
                text = open(full).read()
                if text.count(old) != 1:
                    sys.exit(f"{p['id']}: {path}: {text.count(old)} matches of {old[:60]!r}")
                open(full, "w").write(text.replace(old, new))
            d = f"{ROOT}/seeded/{p['id']}"
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", scratch, "diff"]))
            subprocess.check_call(["git", "-C", scratch, "checkout", "-q", "--", "."])
            if "demo_sh" in p:
                open(d + "/demo.sh", "w").write(p["demo_sh"])
            else:
                src = " ".join('"$R/%s"' % s for s in p.get("sources", []))
                open(d + "/demo.sh", "w").write(DEMO % dict(sources=src, flags=p.get("flags", ""),
                                                            timeout=p.get("timeout", 100)))
                open(d + "/demo.cpp", "w").write(p["demo"].lstrip("\n"))
            for shim in p.get("shims", []):
                dst = d + "/shim/" + shim
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copy(ROOT + "/harness/shim/" + shim, dst)
            for name, text in p.get("files", {}).items():
                open(d + "/" + name, "w").write(text)
            json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]},
                      open(d + "/meta.json", "w"), indent=1)
            print(p["id"])


main()
