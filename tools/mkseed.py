#!/usr/bin/env python3
"""mkseed.py SPEC.py: makes and confirms one planted bug. SPEC defines id, prop, needs, breaks, edits=[(file, old, new)], demo (C text), cc (compile line)."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
INC = "-I. -Iinclude -Iinclude/core -Iinclude/core/utils -Iinclude/core/platform -Iinclude/core/modal_models -Iinclude/core/threaded -Iinclude/core/federated -Iinclude/core/federated/network -Iinclude/api -Ilow_level_platform/api -Itag/api -Itrace/api -Itrace/api/types -Iversion/api -Ilogging/api -Iplatform/api -Icore -Icore/federated/RTI"
CFG = {"multi": "-DNUMBER_OF_WORKERS=4", "single": "-DLF_SINGLE_THREADED=1", "modal": "-DNUMBER_OF_WORKERS=4 -DMODAL_REACTORS=1",
       "watchdog": "-DNUMBER_OF_WORKERS=4 -DNUMBER_OF_WATCHDOGS=1", "rti": "-DSTANDALONE_RTI=1 -DFEDERATED=1",
       "enclave": "-DNUMBER_OF_WORKERS=4 -DLF_ENCLAVES=1",
       "fedc": "-DFEDERATED=1 -DNUMBER_OF_WORKERS=4 -DNUMBER_OF_FEDERATES=3 -DFEDERATE_ID=0 -DADVANCE_MESSAGE_INTERVAL=10000000 -DFEDERATED_CENTRALIZED=1 -DLF_CLOCK_SYNC=3",
       "fedd": "-DFEDERATED=1 -DNUMBER_OF_WORKERS=4 -DNUMBER_OF_FEDERATES=3 -DFEDERATE_ID=0 -DADVANCE_MESSAGE_INTERVAL=10000000 -DFEDERATED_DECENTRALIZED=1 -DLF_CLOCK_SYNC=3"}
for spec in sys.argv[1:]:
    s = {}
    exec(open(spec).read(), s)
    d = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.c", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# cwd: the repository
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 2
trap 'rm -f "$out/demo"; rmdir "$out"' EXIT
gcc -w -g -O1 -DPLATFORM_Linux -DLOG_LEVEL=1 {CFG[s["cfg"]]} {s.get("cflags", "")} {INC} "$here/demo.c" {s.get("srcs", "")} -o "$out/demo" -lpthread -lm || exit 2
timeout 60 "$out/demo"
""")
    os.chmod(d + "/demo.sh", 0o755)
    t = tempfile.mkdtemp(prefix="seed-")
    r = t + "/repo"
    try:
        shutil.copytree("/repo", r, symlinks=True)
        run = lambda c, **k: subprocess.run(c, shell=True, cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400, **k)
        p0 = run(f"bash {d}/demo.sh")
        ok = p0.returncode == 0
        print(s["id"], "clean demo rc", p0.returncode, "" if ok else p0.stdout[-1500:])
        for f, a, b in s["edits"]:
            x = open(f"{r}/{f}").read()
            assert x.count(a) == 1, (f, a, x.count(a))
            open(f"{r}/{f}", "w").write(x.replace(a, b))
        diff = subprocess.run(["git", "-C", r, "diff"], stdout=subprocess.PIPE, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        p1 = run(f"bash {d}/demo.sh")
        print(s["id"], "patched demo rc", p1.returncode, p1.stdout[-300:])
        ok = ok and p1.returncode not in (0, 2)
        if "--fast" not in sys.argv:
            # test.sh works on /repo: build and test in the copy
            e = []
            for n, a, src in (("single", "-DLF_SINGLE_THREADED=1", "."), ("multi", "-DNUMBER_OF_WORKERS=4", "."), ("rti", "-DAUTH=OFF", "core/federated/RTI")):
                q = run(f"rm -rf /{t.strip('/')}/b-{n}; cmake -S {src} -B {t}/b-{n} -G Ninja -DCMAKE_BUILD_TYPE=Debug {a} >/dev/null 2>&1; ninja -C {t}/b-{n} 2>&1 | tail -5; ctest --test-dir {t}/b-{n} -j8 --timeout 120 2>&1 | tail -15")
                m = re.search(r"(\d+)% tests passed, (\d+) tests failed out of (\d+)", q.stdout)
                e.append((n, m.group(0) if m else q.stdout[-600:]))
            q = run(f"rm -f trace/impl/lib/*.a; cmake -S . -B {t}/b-f -G Ninja -DCMAKE_BUILD_TYPE=Debug '-D_LF_FEDERATE_NAMES_COMMA_SEPARATED=\"a,b\"' -DNUMBER_OF_WORKERS=4 -DFEDERATED=1 -DNUMBER_OF_FEDERATES=2 -DFEDERATE_ID=0 -DLF_CLOCK_SYNC=3 -DADVANCE_MESSAGE_INTERVAL=10000000 -DLOG_LEVEL=4 -DFEDERATED_CENTRALIZED=1 -DMODAL_REACTORS=1 >/dev/null 2>&1; ninja -C {t}/b-f reactor-c lib 2>&1 | grep -E 'error|FAILED' | head -5")
            e.append(("fed", q.stdout.strip() or "builds"))
            print(s["id"], e)
        print(s["id"], "OK" if ok else "NOT OK")
    finally:
        shutil.rmtree(t, ignore_errors=True)
