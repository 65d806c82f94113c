#!/usr/bin/env python3
"""Build and run the model-checking harnesses.

  run.py setup                       build every harness (warms the cache)
  run.py check C14 [--tier thorough] run one check: evidence/<id>.json, exit 0 / 1 + VIOLATION line
  run.py replay <file>               replay a recorded violation
  run.py list C14                    families of a check

Everything is rebuilt from /repo's working tree; objects are cached under /verif/build by content hash.
"""
import sys, os, json, hashlib, subprocess, glob, time, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SPASM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OBJ = os.path.join(BUILD, "obj")
BIN = os.path.join(BUILD, "bin")
EVID = os.path.join(VERIF, "evidence")
SRC = os.path.join(REPO, "src")
TOOLS = os.path.join(REPO, "tools")

CDEF = ["-std=gnu99", "-fopenmp", "-w", "-g", "-U_FORTIFY_SOURCE", "-fno-builtin", "-I" + SRC]
SAN = ["-fsanitize=address,signed-integer-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
FF = ["-w", "-g", "-U_FORTIFY_SOURCE", "-std=c++11", "-I" + SRC]
CXX = ["-std=c++17", "-g", "-O1", "-Wall", "-Wno-unused", "-fopenmp", "-U_FORTIFY_SOURCE", "-I" + SRC, "-I" + HERE]

# environment functions of the library objects -> the harness' own
REDEF = ["malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "strdup", "rand", "random", "srand",
         "err", "errx", "verr", "exit", "abort", "warn", "warnx", "perror", "fprintf", "vfprintf", "fflush", "fputs", "fputc", "fwrite"]
REDEFMAP = {"__assert_fail": "mc_assert_fail", "putc": "mc_putc", "_IO_putc": "mc_IO_putc"}

# harness -> description
#   kind seq: sequential exploration under ASan; sched: controlled scheduler
HARNESS = {}
def H(pid, src, kind="seq", ffpack=False, cap=(240, 850), level="model_checking", extra=None, shards=8, note="", tech=None):
    HARNESS[pid] = dict(src=src, kind=kind, ffpack=ffpack, cap=cap, level=level, extra=extra or [], shards=shards)
exec(open(os.path.join(HERE, "harnesses.py")).read())

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        sys.stdout.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), r.stdout[-4000:]))
        sys.stdout.flush()
        os._exit(2)
    return r.stdout

def rd(p):
    with open(p, "rb") as f:
        return f.read()

_hdr = None
def headers_digest():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for d in (SRC, TOOLS):
            for p in sorted(glob.glob(d + "/*.h") + glob.glob(d + "/*.hpp") + glob.glob(d + "/*.inc")):
                h.update(p.encode()); h.update(rd(p))
        _hdr = h.digest()
    return _hdr

_mh = None
def my_headers_digest():
    global _mh
    if _mh is None:
        h = hashlib.sha256()
        for p in sorted(glob.glob(HERE + "/*.h")):
            h.update(p.encode()); h.update(rd(p))
        _mh = h.digest()
    return _mh

def compile_obj(src, cmd, post=None, mine=False):
    """compile src with cmd (list without -o/-c), cached; returns the object path"""
    h = hashlib.sha256()
    h.update(b"v4"); h.update(" ".join(cmd).encode()); h.update(src.encode()); h.update(rd(src)); h.update(headers_digest())
    if mine: h.update(my_headers_digest())
    if post: h.update(repr(post).encode())
    out = os.path.join(OBJ, h.hexdigest()[:32] + ".o")
    if os.path.exists(out):
        os.utime(out)
        return out
    os.makedirs(OBJ, exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=OBJ, suffix=".tmp.o"); os.close(fd)
    sh(cmd + ["-c", src, "-o", tmp])
    if post:
        sh(["objcopy"] + post + [tmp])
    os.rename(tmp, out)
    return out

def redef_args():
    a = []
    for f in REDEF:
        a += ["--redefine-sym", "%s=%s" % (f, REDEFMAP.get(f, "mc_" + f))]
    for k, v in REDEFMAP.items():
        if k not in REDEF:
            a += ["--redefine-sym", "%s=%s" % (k, v)]
    return a

SECT = ["--rename-section", ".data=spasmdata", "--rename-section", ".bss=spasmbss,alloc,load,contents,data",
        "--set-section-flags", ".bss=alloc,load,contents,data"]

SCHED_REDEF = []
for _f in ("memcpy", "memmove", "memset", "sched_yield", "usleep", "gettimeofday", "clock_gettime", "time"): SCHED_REDEF += ["--redefine-sym", "%s=mc_%s" % (_f, _f)]

def lib_c_sources():
    return sorted(glob.glob(SRC + "/*.c"))
def lib_cxx_sources():
    return sorted(glob.glob(SRC + "/*.cpp"))

def jobs_lib(kind, ffpack):
    j = []
    for s in lib_c_sources():
        if kind == "seq":
            j.append((s, ["gcc", "-O1"] + SAN + CDEF, redef_args()))
        elif kind == "fast":       # no shadow memory: for huge address ranges bounded by inaccessible pages
            j.append((s, ["gcc", "-O2", "-fsanitize=signed-integer-overflow", "-fno-sanitize-recover=all"] + CDEF, redef_args()))
        else:
            j.append((s, ["gcc", "-O1", "-fsanitize=thread", "-fno-omit-frame-pointer", "-fno-pie"] + CDEF, redef_args() + SCHED_REDEF + SECT))
    if ffpack:
        for s in lib_cxx_sources():
            if kind == "seq":
                j.append((s, ["g++", "-O1"] + SAN + FF, None))
            else:
                j.append((s, ["g++", "-O1"] + FF, ["--redefine-sym", "fprintf=mc_fprintf", "--redefine-sym", "fflush=mc_fflush"]))
    return j

def libkind(h): return h["kind"] if h["kind"] in ("sched", "fast") else "seq"

def build(pids, quiet=True):
    """build the binaries of the given harnesses; returns {pid: path}"""
    os.makedirs(BIN, exist_ok=True)
    todo = {}
    for pid in pids:
        h = HARNESS[pid]
        if h["kind"] == "tools":
            for k, v in tool_jobs().items(): todo[k] = v
        for (s, cmd, post) in jobs_lib(libkind(h), h["ffpack"]):
            todo[(s, tuple(cmd), tuple(post or ()))] = (s, cmd, post, False)
        rt = ["mc.cpp", "sched.cpp"] if h["kind"] == "sched" else ["mc.cpp"]
        san = {"sched": ["-DMC_SCHED"], "fast": ["-DMC_FAST"]}.get(h["kind"], ["-fsanitize=address"])
        for s in rt + [h["src"]] + h["extra"]:
            cmd = ["g++"] + san + CXX
            p = os.path.join(HERE, s)
            todo[(p, tuple(cmd), ())] = (p, cmd, None, True)
    keys = sorted(todo, key=lambda k: (not k[0].endswith("ffpack.cpp"), k))   # slowest first
    with ThreadPoolExecutor(8) as ex:
        res = dict(zip(keys, ex.map(lambda k: compile_obj(*todo[k]), keys)))
    out = {}
    def link(pid):
        h = HARNESS[pid]
        objs = []
        rt = ["mc.cpp", "sched.cpp"] if h["kind"] == "sched" else ["mc.cpp"]
        san = {"sched": ["-DMC_SCHED"], "fast": ["-DMC_FAST"]}.get(h["kind"], ["-fsanitize=address"])
        for s in rt + [h["src"]] + h["extra"]:
            cmd = ["g++"] + san + CXX
            objs.append(res[(os.path.join(HERE, s), tuple(cmd), ())])
        lib = [res[(s, tuple(cmd), tuple(post or ()))] for (s, cmd, post) in jobs_lib(libkind(h), h["ffpack"])]
        key = hashlib.sha256(("\n".join(objs + lib) + h["kind"] + str(h["ffpack"]) + "l3").encode()).hexdigest()[:24]
        exe = os.path.join(BIN, "%s-%s" % (pid, key))
        if not os.path.exists(exe):
            for old in glob.glob(os.path.join(BIN, pid + "-*")):
                os.unlink(old)
            libs = ["-lm"]
            if h["ffpack"]:
                libs = ["-lblas", "-llapack", "-lgivaro", "-lgmpxx", "-lgmp"] + libs
            arch = exe + ".a"
            if os.path.exists(arch): os.unlink(arch)
            if h["kind"] == "sched":
                sh(["g++", "-no-pie", "-o", exe + ".tmp"] + objs + ["-Wl,--start-group"] + lib_arch(arch, lib) + ["-Wl,--end-group"] + libs)
            else:
                sh(["g++"] + ([] if h["kind"] == "fast" else ["-fsanitize=address"]) + ["-fsanitize=undefined", "-o", exe + ".tmp"] + objs + lib_arch(arch, lib) + libs + ["-lgomp"])
            os.unlink(arch)
            os.rename(exe + ".tmp", exe)
        out[pid] = exe
    def lib_arch(arch, lib):
        # an archive: harnesses that do not need FFLAS-FFPACK do not pull it in
        sh(["ar", "qcs", arch] + lib)
        return [arch]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(link, pids))
    gc()
    return out

def gc():
    """keep the object cache small"""
    try:
        fs = sorted(glob.glob(OBJ + "/*.o"), key=os.path.getmtime)
        for f in fs[:-400]:
            os.unlink(f)
    except OSError:
        pass

def known_findings(pid):
    path = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                # finding: property=ID match=<regex> :: description
                rest = l.split(" ", 2)[2]
                m, _, d = rest.partition(" :: ")
                out.append((m[len("match="):], d))
    return out

def write_evidence(pid, tier, d, wall, nviol, extra_assump=()):
    os.makedirs(EVID, exist_ok=True)
    lvl = HARNESS[pid]["level"]
    cov = {"states": d["states"], "transitions": d["transitions"], "traces_validated_against_impl": d["traces"],
           "samples": d["samples"] or ["(no sample text recorded)"], "exhaustive": (not d["capped"]) and nviol == 0,
           "cases": d["cases"], "families": d["families"], "outcomes": d["outcomes"], "cap_hit": d["capped"]}
    if "sched" in d: cov["schedules"] = d["sched"]
    if lvl == "fault_enumeration":
        cov.update({"evaluations": d["cases"], "distinct_nontrivial": d["states"], "rule": d.get("rule", "every k-th allocation of every operation fails; non-trivial = the failure was delivered")})
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": lvl,
          "coverage": cov, "assumptions": list(d.get("assumptions", [])) + list(extra_assump), "wall_s": round(wall, 2), "violations": nviol}
    p = os.path.join(EVID, pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)

def check(pid, tier):
    import re
    t0 = time.time()
    h = HARNESS[pid]
    if h["kind"] == "tools":
        sys.path.insert(0, HERE)
        import tools_check
        tools_check.RUN = sys.modules["__main__"]
        d = tools_check.explore(pid, tier, build_tools(), h["cap"][1 if tier == "thorough" else 0])
    else:
        exe = build([pid])[pid]
        fd, outp = tempfile.mkstemp(prefix="mc-out-"); os.close(fd)
        cap = h["cap"][1 if tier == "thorough" else 0]
        for attempt in (1, 2):
            r = subprocess.run([exe, "--tier", tier, "--cap", str(cap), "--out", outp, "--shards", str(h["shards"])], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode in (0, 1, 4):
                d = json.load(open(outp))
            else:
                print("harness of %s ended with status %d\n%s" % (pid, r.returncode, r.stdout[-2000:]))
                os.unlink(outp); return 2
            if r.returncode != 4: break
            print("note: a failure of %s was not reproduced, exploring again: %s" % (pid, "; ".join(d["unconfirmed"])[:1500]))
        os.unlink(outp)
        if d.get("sched_error"):
            print("scheduler error: %s" % d["sched_error"]); return 2
    kf = known_findings(pid)
    new, seen = [], []
    for v in d["violations"]:
        txt = v["replay"] + " " + v["msg"]
        k = [f for f in kf if re.search(f[0], txt)]
        (seen if k else new).append((v, k))
    for k in d.get("known", []):
        pass
    for v, k in seen:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[0][1]))
    rc = 0
    if new:
        rd_ = os.path.join(EVID, "replay"); os.makedirs(rd_, exist_ok=True)
        for n, (v, _) in enumerate(new):
            rp = os.path.join(rd_, "%s-%d.json" % (pid, n))
            json.dump({"property": pid, "tier": tier, "case": v["replay"], "message": v["msg"], "description": v["desc"],
                       "how": "python3 /verif/mc/run.py replay " + rp}, open(rp, "w"), indent=1)
            print("%s: %s" % (v["replay"], v["msg"][:1500]))
            if v["desc"]: print("   case: " + v["desc"][:1500])
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc = 1
    wall = time.time() - t0
    write_evidence(pid, tier, d, wall, len(new))
    print("%s [%s]: %d cases, %d states, %d transitions, %d traces, %s, %.1f s, %d violation(s)%s" % (pid, tier, d["cases"], d["states"], d["transitions"], d["traces"],
        "CAP HIT" if d["capped"] else "complete", wall, len(new), " (+%d unconfirmed)" % len(d["unconfirmed"]) if d.get("unconfirmed") else ""))
    return rc

def main():
    cmd = sys.argv[1]
    if cmd == "setup":
        build([p for p in HARNESS if HARNESS[p]["kind"] != "tools"])
        if any(h["kind"] == "tools" for h in HARNESS.values()): build_tools()
        return 0
    if cmd == "build":
        print(build(sys.argv[2:])); return 0
    if cmd == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
        return check(sys.argv[2], tier)
    if cmd == "list":
        exe = build([sys.argv[2]])[sys.argv[2]]
        return subprocess.call([exe, "--list"] + sys.argv[3:])
    if cmd == "replay":
        d = json.load(open(sys.argv[2]))
        if HARNESS[d["property"]]["kind"] == "tools":
            sys.path.insert(0, HERE); import tools_check; tools_check.RUN = sys.modules["__main__"]
            return tools_check.replay(d, build_tools())
        exe = build([d["property"]])[d["property"]]
        return subprocess.call([exe, "--tier", d["tier"], "--replay", d["case"]])
    print(__doc__); return 2

def tool_jobs():
    return {}
def build_tools():
    """the command-line programs, from /repo's sources, with UBSan-free plain flags and the library linked statically"""
    os.makedirs(BIN, exist_ok=True)
    cflags = ["gcc", "-O1", "-g", "-w", "-std=gnu99", "-fopenmp", "-fsanitize=address,signed-integer-overflow,bounds", "-fno-sanitize-recover=all", "-I" + SRC, "-I" + TOOLS]
    jobs = [(s, cflags, None, False) for s in lib_c_sources()] + [(s, ["g++", "-O1"] + FF, None, False) for s in lib_cxx_sources()]
    tl = sorted(glob.glob(TOOLS + "/*.c"))
    jobs += [(s, cflags, None, False) for s in tl]
    jobs.sort(key=lambda j: not j[0].endswith("ffpack.cpp"))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_obj(*j), jobs))
    o = {j[0]: x for j, x in zip(jobs, objs)}
    lib = [o[s] for s in lib_c_sources() + lib_cxx_sources()]
    # helper files: those without a main function
    def has_main(p): return b" main(" in subprocess.run(["nm", p], stdout=subprocess.PIPE).stdout or b" T main" in subprocess.run(["nm", p], stdout=subprocess.PIPE).stdout
    mains = [s for s in tl if has_main(o[s])]
    helpers = [o[s] for s in tl if s not in mains]
    key = hashlib.sha256("\n".join(sorted(o.values())).encode()).hexdigest()[:24]
    d = os.path.join(BIN, "tools-" + key)
    if not os.path.exists(d):
        for old in glob.glob(os.path.join(BIN, "tools-*")): shutil.rmtree(old)
        tmp = d + ".tmp"; os.makedirs(tmp, exist_ok=True)
        sh(["ar", "qcs", tmp + "/lib.a"] + lib + helpers)
        def lk(s):
            sh(["g++", "-fsanitize=address", "-fsanitize=undefined", "-o", os.path.join(tmp, os.path.basename(s)[:-2]), o[s], tmp + "/lib.a", "-lblas", "-llapack", "-lgivaro", "-lgmpxx", "-lgmp", "-lgomp", "-lm"])
        with ThreadPoolExecutor(8) as ex: list(ex.map(lk, mains))
        os.rename(tmp, d)
    return d

if __name__ == "__main__":
    sys.exit(main())
