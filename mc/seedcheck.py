#!/usr/bin/env python3
"""seedcheck.py ID [--fast] [--checks C01,C02]: confirm a planted bug of /verif/seeded in a scratch copy of /repo and see which checks catch it."""
import sys, os, json, subprocess, shutil
V = "/verif"; sid = sys.argv[1]; d = os.path.join(V, "seeded", sid); meta = json.load(open(d + "/meta.json"))
S = "/tmp/sp-" + sid
def sh(c, **kw): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def build(): return sh("cmake -S . -B _build -G Ninja -DBUILD_TESTING=ON -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_C_FLAGS='-Wno-error=format-truncation -Wno-error=unused-result' >/dev/null && ninja -C _build all $(ninja -C _build -t targets all | sed -n 's/^\\(tests\\/test_[A-Za-z0-9_]*\\): C\\(XX\\)\\?_EXECUTABLE_LINKER.*/\\1/p')", cwd=S)
shutil.rmtree(S, ignore_errors=True); sh("git -C /repo worktree prune; mkdir -p %s && git -C /repo archive HEAD | tar x -C %s" % (S, S))
fast = "--fast" in sys.argv
try:
    r = build(); assert r.returncode == 0, r.stdout[-2000:]
    r = sh("bash %s/demo.sh" % d, cwd=S, timeout=600); print("demo on clean tree:", r.returncode); 
    if r.returncode: print(r.stdout[-1500:])
    r = sh("git apply --unsafe-paths --directory=%s %s/patch.diff" % (S, d), cwd="/") if False else sh("patch -p1 < %s/patch.diff" % d, cwd=S)
    if r.returncode: print(r.stdout); sys.exit(1)
    print(sh("git -C /repo apply --check %s/patch.diff && echo applies" % d).stdout.strip())
    r = build(); print("build with patch:", r.returncode)
    if r.returncode: print(r.stdout[-3000:]); sys.exit(1)
    r = sh("bash %s/demo.sh" % d, cwd=S, timeout=600); print("demo with patch:", r.returncode, r.stdout[-300:].strip())
    if not fast:
        sh("sed -i -E -e '/^set_tests_properties\\([^ ]*(trefethen_500|mat364)\\.sms /s/ TIMEOUT \"1\" / TIMEOUT \"10\" /' -e '/^set_tests_properties\\(/s/ TIMEOUT \"1\" / TIMEOUT \"2\" /' _build/tests/CTestTestfile.cmake", cwd=S)
        r = sh("OMP_NUM_THREADS=2 OMP_WAIT_POLICY=PASSIVE OPENBLAS_NUM_THREADS=1 ctest --test-dir _build -j8 --timeout 60 -LE LongTest | grep -E \"tests passed|\\*\\*\\*\"", cwd=S); print("tests with patch:", r.stdout.strip()[-600:])
    cs = [meta["property"]]
    if "--checks" in sys.argv: cs = sys.argv[sys.argv.index("--checks") + 1].split(",")
    for c in cs:
        r = sh("SPASM_REPO=%s timeout 900 python3 mc/run.py check %s" % (S, c), cwd=V); print("check %s: exit %d %s" % (c, r.returncode, " | ".join(r.stdout.splitlines())[-500:]))
finally:
    if "--keep" not in sys.argv: shutil.rmtree(S, ignore_errors=True)
