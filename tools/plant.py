"""plant.py FILE.py [ids..]: creates seeded/<id>/ from a description and tries it out in /repo.

FILE.py defines BUGS = [dict(id, prop, edits=[(path, old, new)], demo, srcs, needs, breaks, san, shim)].
Each bug is applied in /repo, built, tested, demonstrated and checked, then undone.
"""
import json, os, shutil, subprocess, sys, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
DEMO = """#!/bin/bash
# exit 0: the property holds in this tree; non-zero: it does not. Run with cwd = the repository.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
%sclang++-18 -std=c++17 -O0 -g1 -w -include cstdint %s-I"$D/inc" -I"$T" -I. "$D/demo.cc" %s -o "$T/demo" \\
  $(pkg-config --libs absl_status absl_statusor absl_strings absl_str_format absl_span absl_any_invocable \\
    absl_btree absl_flat_hash_map absl_flat_hash_set absl_bits absl_int128 absl_synchronization absl_time) %s -lpthread || exit 3
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 100 ./demo
"""


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def main():
    spec = importlib.util.spec_from_file_location("b", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    only = sys.argv[2:]
    assert not sh("git", "-C", R, "status", "--porcelain").stdout.strip(), "dirty /repo"
    for b in m.BUGS:
        if only and b["id"] not in only:
            continue
        d = os.path.join(V, "seeded", b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.cc", "w").write(b["demo"].lstrip())
        san = "-fsanitize=address,undefined -fno-sanitize=vptr,function -fno-sanitize-recover=undefined " if b.get("san") else ""
        pre, srcs, libs = "", " ".join(b.get("srcs", [])), ""
        if b.get("shim"):
            shutil.copytree(V + "/shim/include", d + "/inc")
        if b.get("proto"):
            pre = 'protoc -I. --cpp_out="$T" mpact/sim/proto/component_data.proto || exit 3\n'
            srcs += ' "$T/mpact/sim/proto/component_data.pb.cc"'
            libs = "-lprotobuf"
        open(d + "/demo.sh", "w").write(DEMO % (pre, san, srcs, libs))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]),
                  open(d + "/meta.json", "w"), indent=1)
        r0 = sh("bash", d + "/demo.sh", cwd=R)
        try:
            for path, old, new in b["edits"]:
                t = open(R + "/" + path).read()
                assert t.count(old) >= 1, (b["id"], "no match", old)
                t = t.replace(old, new, 1)
                open(R + "/" + path, "w").write(t)
            open(d + "/patch.diff", "w").write(sh("git", "-C", R, "diff").stdout)
            rb = sh("bash", "/opt/vp/build.sh")
            sh("bash", "/opt/vp/test.sh", "/tmp/plant.json")
            o = json.load(open("/tmp/plant.json"))
            r1 = sh("bash", d + "/demo.sh", cwd=R)
            rc = sh("python3", V + "/check.py", b["prop"], cwd=V)
            verdict = "CAUGHT" if rc.returncode == 1 and "VIOLATION property=" + b["prop"] in rc.stdout else "MISSED(rc=%d)" % rc.returncode
        finally:
            sh("git", "-C", R, "checkout", "--", ".")
        ok = r0.returncode == 0 and r1.returncode not in (0, 3) and rb.returncode == 0 and len(o["passed"]) == 52
        print(b["id"], b["prop"], "valid" if ok else "INVALID demo0=%d demo1=%d build=%d passed=%d" % (
            r0.returncode, r1.returncode, rb.returncode, len(o["passed"])), verdict,
            next((l.strip()[:150] for l in rc.stdout.splitlines() if "requires" in l or "recorded" in l or "crashed" in l), ""), flush=True)
        if not ok:
            print(r0.stderr[-1500:], r1.stderr[-1500:], rb.stdout[-500:])
    sh("bash", "/opt/vp/build.sh")


main()
