#!/usr/bin/env python3
"""mutate.py FILE... [--stride N] [--offset K] [--jobs J] [--out LOG]: systematic one-token changes of /repo/src/FILE, each run through the checks anchored in that file
until one reports a violation.  Survivors are listed for manual classification (equivalent, performance only, or a blind spot).  Measures the checks; it is not one of them."""
import sys, os, re, subprocess, shutil, argparse
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {"sha256.c": "C02", "spasm_prng.c": "C02", "spasm_ZZp.c": "C01", "spasm_triplet.c": "C03 C04", "spasm_io.c": "C30 C04", "spasm_transpose.c": "C05 C31", "spasm_permutation.c": "C05 C22 C31", "spasm_submatrix.c": "C05 C31",
       "spasm_spmv.c": "C06 C32", "spasm_scatter.c": "C06", "spasm_triangular.c": "C07 C08", "spasm_reach.c": "C07 C09", "spasm_pivots.c": "C09 C10 C26", "spasm_schur.c": "C11 C12 C25 C26", "spasm_ffpack.cpp": "C13",
       "spasm_echelonize.c": "C14 C15 C26", "spasm_solve.c": "C16 C25", "spasm_rref.c": "C17 C25", "spasm_kernel.c": "C18 C25", "spasm_certificate.c": "C19 C20 C21 C27", "spasm_matching.c": "C22 C23 C31", "spasm_dm.c": "C23 C31",
       "spasm_scc.c": "C24 C23 C31", "spasm_util.c": "C03 C05 C27 C31 C28 C15", "tools": "C29"}
ap = argparse.ArgumentParser(); ap.add_argument("files", nargs="+"); ap.add_argument("--stride", type=int, default=1); ap.add_argument("--offset", type=int, default=0); ap.add_argument("--jobs", type=int, default=2); ap.add_argument("--out", default="/tmp/w/mutate.log"); ap.add_argument("--list", action="store_true"); ap.add_argument("--only", default=""); ap.add_argument("--narrow", action="store_true", help="instead: every 64-bit integer declared as 32-bit, one at a time")
a = ap.parse_args()
OPS = [(r"<=", ["<"]), (r">=", [">"]), (r"(?<![<>\-])<(?![<=])", ["<="]), (r"(?<![<>\-])>(?![>=])", [">="]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"\+ 1\b", ["", "+ 2"]), (r"- 1\b", [""]),
       (r"(?<!\+)\+(?![\+=\d]) ", ["- "]), (r"(?<=[\w\)\]] )-(?= )", ["+"]), (r"\+\+", ["--"]), (r"--", ["++"]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"= 0;", ["= 1;"]), (r"= 1;", ["= 0;"]), (r"= -1;", ["= 0;"]), (r"\bcontinue;", [";"]), (r"\bbreak;", [";"]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"if \((?!.*\{$)", ["if (0 && "]), (r"(?<=[\(,] )NULL|\bNULL\b(?=\))", []), (r"!(?=\w)", [""]), (r"\* ", []), (r"->n\b", ["->m"]), (r"->m\b", ["->n"]), (r"\[i\]", ["[i - 1]"]), (r"\bn\b(?=[;\)])", ["m"]), (r"\bm\b(?=[;\)])", ["n"]), (r"\bi\b(?=\])", ["j"]), (r"\bj\b(?=\])", ["i"])]
def mutants(path):
    src = open(path).read().split("\n"); incomment = False
    for ln, l in enumerate(src):
        s = l.strip()
        if incomment:
            if "*/" in s: incomment = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: incomment = True
            continue
        code = re.sub(r"//.*$|/\*.*?\*/", "", l); code0 = re.sub(r'"[^"]*"', lambda m: '"' + "_" * (len(m.group(0)) - 2) + '"', code)
        if not s or s.startswith(("//", "*")) or "stderr" in s or "wtime" in s or "assert" in s or "#include" in s or "logging" in s or "human_format" in s or "update_after" in s and False: continue
        if s.startswith("#pragma omp"):
            yield ln, "", "pragma removed"; continue
        if s.startswith("#"): continue
        if a.narrow:
            for m in re.finditer(r"\b(i64|size_t|long long)\b(?! \*| prime)", code0):
                yield ln, l[:m.start()] + "int" + l[m.end():], "%s -> int at %d" % (s, m.start())
            continue
        for rx, reps in OPS:
            for m in re.finditer(rx, code0):
                for r in reps:
                    new = l[:m.start()] + r + l[m.end():]
                    yield ln, new, "%s -> %s" % (s, new.strip())
        if re.match(r"^\s+[\w\->\[\]\.\(\)\+\* ]+ (=|\+=|-=) [^;]*;$", code0) and not re.match(r"^\s+(const |struct |int |i64 |bool |double |char |void |u8 |u32 |u64 |spasm_\w+ |long |size_t |FILE )", code0) or re.match(r"^\s+\w+\(.*\);$", code0):
            yield ln, re.match(r"^\s*", l).group(0) + ";", "%s -> deleted" % s
import queue
free = queue.Queue()
def run(job):
    w = free.get()
    try: return run_in(w, job)
    finally: free.put(w)
def run_in(w, job):
    f, ln, new, desc, k = job; D = w + "/repo"; shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    try:
        shutil.copytree("/repo/src", D + "/src"); shutil.copytree("/repo/tools", D + "/tools")
        p = os.path.join(D, f); s = open(p).read().split("\n"); s[ln] = new; open(p, "w").write("\n".join(s))
        r = subprocess.run("gcc -std=gnu99 -w -fopenmp -fsyntax-only -I%s/src %s" % (D, p) if p.endswith(".c") else "true", shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: return None
        res = []
        checks = a.only.split() if a.only else MAP["tools" if f.startswith("tools") else os.path.basename(f)].split()
        for c in checks:
            try: r = subprocess.run(["timeout", "600", "python3", w + "/mc/run.py", "check", c], env=dict(os.environ, SPASM_REPO=D), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            except Exception as e: return "ERROR %s:%d %s (%s)" % (f, ln + 1, desc, e)
            if r.returncode == 1: return "caught %s %s:%d %s" % (c, f, ln + 1, desc)
            if r.returncode: res.append("%s:%d" % (c, r.returncode))
        return "SURVIVED %s:%d %s %s" % (f, ln + 1, desc, res or "")
    finally: shutil.rmtree(D, ignore_errors=True)
jobs = []; seen = set()
for f in a.files:
    f = f if "/" in f else "src/" + f
    for k, (ln, new, desc) in enumerate(mutants("/repo/" + f)):
        if k % a.stride == a.offset: jobs.append((f, ln, new, desc, k)) if (f, ln, new) not in seen else None; seen.add((f, ln, new))
print(len(jobs), "mutants")
if a.list: [print(j[0], j[1] + 1, j[3]) for j in jobs]; sys.exit()
out = open(a.out, "a"); n = {}
for k in range(a.jobs):
    w = "/tmp/mutate/w%d-%d" % (os.getpid(), k); shutil.rmtree(w, ignore_errors=True); os.makedirs(w)   # a private copy of the machinery: object cache and evidence are not shared
    subprocess.run("cp -a %s/mc %s/known-findings.txt %s/; mkdir -p %s/build; cp -a %s/build/obj %s/build/" % (V, V, w, w, V, w), shell=True); free.put(w)
with ThreadPoolExecutor(a.jobs) as ex:
    for r in ex.map(run, jobs):
        if r: out.write(r + "\n"); out.flush(); n[r.split()[0]] = n.get(r.split()[0], 0) + 1
while not free.empty(): shutil.rmtree(free.get(), ignore_errors=True)
print(n); out.write("# %s %s\n" % (a.files, n))
