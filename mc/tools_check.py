"""C29: exhaustive enumeration of invocations of the command-line programs, compared with a reference model.

Every case is an index of a finite family; it runs the real program(s) built from /repo and compares output, exit status and
files with a plain Python model of what the program has to deliver."""
import os, re, subprocess, tempfile, itertools, time, hashlib, shutil, sys
from multiprocessing import Pool

D = 42013
ASSUME = ["modulus: an odd prime below 2^32 (the documented domain; primality is not verified by the programs); programs without a modulus option work modulo 42013",
          "one OpenMP thread", "a status from 1 to 127 or an abort with a message counts as a failing status; memory errors never do",
          "rows without a solution are announced by a warning and their content is unspecified",
          "\"Incomplete echelonization\" on the error output (all methods disabled by options) is an announced failure"]
TOOLS = None
ENV = dict(os.environ, OMP_NUM_THREADS="1", ASAN_OPTIONS="detect_leaks=0:exitcode=99", UBSAN_OPTIONS="halt_on_error=1:exitcode=98", LC_ALL="C")

class Bad(Exception): pass
def expect(c, *a):
    if not c: raise Bad(" ".join(str(x) for x in a))

# ------------------------------------------------------------------ reference algebra: matrices are lists of rows in [0, p)
def mat(rows, p): return [[x % p for x in r] for r in rows]
def rref(A, p):
    A = [r[:] for r in A if any(r)]; m = len(A[0]) if A else 0; piv = []; r = 0
    for j in range(m):
        k = next((i for i in range(r, len(A)) if A[i][j]), None)
        if k is None: continue
        A[r], A[k] = A[k], A[r]; inv = pow(A[r][j], -1, p); A[r] = [x * inv % p for x in A[r]]
        for i in range(len(A)):
            if i != r and A[i][j]:
                c = A[i][j]; A[i] = [(x - c * y) % p for x, y in zip(A[i], A[r])]
        piv.append(j); r += 1
    return A[:r], piv
def rank(A, p): return len(rref(A, p)[0])
def mul(A, B, p, m): return [[sum(a * B[k][j] for k, a in enumerate(r)) % p for j in range(m)] for r in A]
def transpose(A, n, m): return [[A[i][j] for i in range(n)] for j in range(m)]

class M:   # a matrix with dimensions
    def __init__(self, n, m, rows): self.n, self.m, self.a = n, m, rows
    def sms(self, style=0):
        e = [(i, j, self.a[i][j]) for i in range(self.n) for j in range(self.m) if self.a[i][j]]
        if style == 1: e = e[::-1]
        if style == 3: e = [z for (i, j, x) in e for z in ((i, j, x - 7), (i, j, 7))]
        if style in (2, 4):
            return "%%MatrixMarket matrix coordinate integer general\n% comment\n" + "%d %d %d\n" % (self.n, self.m, len(e)) + "".join("%d %d %d\n" % (i + 1, j + 1, x) for i, j, x in (e if style == 2 else e[::-1]))
        return "%d %d M\n" % (self.n, self.m) + "".join("%d %d %d\n" % (i + 1, j + 1, x) for i, j, x in e) + "0 0 0\n"
    def __str__(self): return "%dx%d%s" % (self.n, self.m, self.a)

def parse_sms(t, p, what="output"):
    """strict reader of a written matrix"""
    L = t.split("\n"); expect(L and L[-1] == "", what, "does not end with a newline"); L = L[:-1]
    h = re.fullmatch(r"(\d+) (\d+) [A-Z]", L[0] if L else ""); expect(h, what, "has a bad header:", repr(L[:1])); n, m = int(h[1]), int(h[2])
    expect(L[-1].split() == ["0", "0", "0"], what, "has no end marker"); a = [[0] * m for _ in range(n)]; seen = set()
    for l in L[1:-1]:
        w = l.split(); expect(len(w) == 3 and all(re.fullmatch(r"-?\d+", z) for z in w), what, "has a malformed line", repr(l)); i, j, x = map(int, w)
        expect(1 <= i <= n and 1 <= j <= m, what, "has an entry outside the matrix", repr(l)); a[i - 1][j - 1] = (a[i - 1][j - 1] + x) % p
        expect(-p < x < p, what, "has a value that is not reduced", repr(l))
    return M(n, m, a)

# ------------------------------------------------------------------ running programs
class R: pass
def run(d, prog, args=(), stdin=b"", timeout=30):
    if isinstance(stdin, str): stdin = stdin.encode()
    r = R()
    try: q = subprocess.run([os.path.join(TOOLS, prog)] + list(args), input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=ENV, timeout=timeout)
    except subprocess.TimeoutExpired: raise Bad("%s %s does not terminate within %d s" % (prog, " ".join(args), timeout))
    r.rc, r.out, r.err = q.returncode, q.stdout.decode("latin1"), q.stderr.decode("latin1"); r.cmd = prog + " " + " ".join(args)
    expect(r.rc not in (98, 99, -11, -7, -8, -4) and "AddressSanitizer" not in r.err and "runtime error:" not in r.err, r.cmd, "has a memory error or undefined behaviour (status %d):" % r.rc, (r.err[r.err.find("ERROR"):] if "ERROR" in r.err else r.err[-400:])[:600])
    return r
def good(r): expect(r.rc == 0, r.cmd, "fails with status %d: %s" % (r.rc, r.err[-300:]))
def fails(r, why): expect(r.rc != 0, r.cmd, "succeeds although", why)

# ------------------------------------------------------------------ alphabets
def tex(*a): return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:6], "little")
def all_mats(n, m, vals): return [M(n, m, [list(v[i * m:(i + 1) * m]) for i in range(n)]) for v in itertools.product(vals, repeat=n * m)]
def empties(): return [M(n, m, [[0] * m for _ in range(n)]) for n, m in ((0, 0), (0, 3), (3, 0), (1, 1), (2, 3), (4, 2))]
def structured(t=0):
    v = []
    def mk(n, m, f): v.append(M(n, m, [[f(i, j) for j in range(m)] for i in range(n)]))
    mk(5, 9, lambda i, j: tex(i, j) % 7 - 3 if tex(j, i, 1) % 3 == 0 else 0)
    mk(9, 5, lambda i, j: tex(i, j, 2) % 7 - 3 if tex(j, i, 3) % 2 == 0 else 0)
    mk(8, 8, lambda i, j: (i + 1) * (j + 2) + (i % 2) * (j % 3))                    # dense, low rank
    mk(14, 2, lambda i, j: i * 5 + j * j + 1)                                       # tall
    mk(2, 14, lambda i, j: i * 5 + j * j + 1)                                       # wide
    mk(10, 10, lambda i, j: 1 if i == j else (2 if (i + 1) % 10 == j else 0))       # circulant
    mk(12, 12, lambda i, j: tex(i, j, 5) % 100 if abs(i - j) <= 1 else 0)
    mk(7, 7, lambda i, j: (1 if j >= i else 0) if i < 5 else (1 if j >= 3 else 0))
    mk(6, 6, lambda i, j: [[1, 1, 0, 0, 0, 0], [1, 1, 1, 0, 0, 0], [0, 0, 1, 1, 0, 0], [0, 0, 0, 1, 0, 0], [0, 0, 0, 1, 1, 1], [0, 0, 0, 0, 1, 1]][i][j])
    mk(3, 3, lambda i, j: [[70000, -70000, 5], [-42013, 42013, 0], [2147483647, -2147483648, 4294967296]][i][j])   # values far outside [0,p)
    mk(30, 30, lambda i, j: tex(i, j, 6) % 50 + 1 if tex(i, j, 7) % 12 == 0 or j == (i * 7) % 30 else 0)
    if t: mk(40, 25, lambda i, j: tex(i, j, 8) % 9 - 4 if tex(i, j, 9) % 6 == 0 else 0); mk(25, 40, lambda i, j: tex(i, j, 8) % 9 - 4 if tex(i, j, 9) % 6 == 0 else 0); mk(60, 60, lambda i, j: (i * j + 1) % 11 if (i + j) % 7 == 0 else 0)
    return v
PRIMES = [3, 257, 42013, 65537, 189812531 if False else 189812507, 2147483659, 4294967291]
ECH = [[], ["--no-low-rank-mode"], ["--no-dense-mode"], ["--no-GPLU"], ["--max-iterations", "0"], ["--max-iterations=9", "--dense-threshold=2", "--min-pivot-proportion=0"], ["--dense-threshold=-1", "--max-iterations=0", "--dense-block-size=1"],
       ["--dense-threshold=-1", "--max-iterations=0", "--dense-block-size=3", "--no-GPLU", "--no-low-rank-mode"], ["--max-aspect-ratio=0", "--max-iterations=0", "--dense-block-size=2"], ["--min-rank-ratio=1.1", "--dense-block-size=2", "--dense-threshold=-1"], ["--no-GPLU", "--no-dense-mode", "--no-low-rank-mode"]]
def mini(): return all_mats(2, 2, (0, 1, -1)) + all_mats(1, 3, (0, 2)) + all_mats(3, 1, (0, 2)) + all_mats(2, 3, (0, 1)) + all_mats(3, 2, (0, 1))
def pats3(): return all_mats(3, 3, (0, 1))
def incomplete(r): return "ncomplete echelonization" in r.err

# ------------------------------------------------------------------ families: name -> (list of cases, function)
FAM = {}
def family(name, thorough=False, note=""):
    def deco(g): FAM[name] = (g, thorough, note); return g
    return deco

def f_simple(d, prog, A, style):
    r = run(d, prog, [], A.sms(style)); good(r); X = parse_sms(r.out, D); B = mat(A.a, D)
    if prog == "transpose": W = M(A.m, A.n, transpose(B, A.n, A.m))
    elif prog == "vertical_swap": W = M(A.n, A.m, [r[::-1] for r in B])
    else:
        ri = [i for i in range(A.n) if any(B[i])]; cj = [j for j in range(A.m) if any(B[i][j] for i in range(A.n))]; W = M(len(ri), len(cj), [[B[i][j] for j in cj] for i in ri])
    expect((X.n, X.m) == (W.n, W.m), "dimensions %d x %d, expected %d x %d" % (X.n, X.m, W.n, W.m)); expect(X.a == W.a, "wrong entries:", X.a, "expected", W.a)
@family("reshape", note="transpose, vertical flip, removal of empty rows and columns x file formats")
def _(t): return [("%s, style %d, %s" % (p, s, A), f_simple, (p, A, s)) for A in empties() + mini() + structured(t) + (pats3() if t else pats3()[::5]) for p in ("transpose", "vertical_swap", "stack") for s in ((0, 2) if A.n * A.m > 9 else (0, 1, 2, 3, 4)) if not (p == "stack" and s == 3) and (t or A.n * A.m > 6 or (tex(str(A), p) + s) % 3 == 0)]

def f_rank(d, A, p, opts, style, tr):
    a = list(opts) + (["--modulus", str(p)] if p != D else []) + (["--no-transpose"] if tr else [])
    if style % 2: open(d + "/a.sms", "w").write(A.sms(style)); r = run(d, "rank", a + ["--matrix", "a.sms"])
    else: r = run(d, "rank", a, A.sms(style))
    good(r)
    if incomplete(r): expect("--no-GPLU" in opts, "echelonization is incomplete"); return
    q = re.findall(r"rank = (\d+)", r.err + r.out); expect(q, "no rank is printed"); w = rank(mat(A.a, p), p); expect(int(q[-1]) == w, "rank = %s, expected %d" % (q[-1], w))
@family("rank", note="all small matrices x moduli x echelonization options x input styles")
def _(t):
    c = []
    for k, A in enumerate(empties() + mini() + structured(t)):
        for pi, p in enumerate(PRIMES):
            for oi, o in enumerate(ECH):
                big = k >= len(empties()) + len(mini())
                if t or big and (pi + oi) % 2 == 0 or not big and (k + 3 * pi + 5 * oi) % 13 == 0: c.append(("rank %s mod %d %s" % (o, p, A), f_rank, (A, p, o, (k + pi) % 4, (k + oi) % 2)))
    return c

def cert_tokens(s): return [(m.start(), m.end()) for m in re.finditer(r"\S+", s)]
def f_cert(d, A, p, opts, tr):
    open(d + "/a.sms", "w").write(A.sms()); a = ["--matrix", "a.sms", "--modulus", str(p)]
    r = run(d, "rank", a + list(opts) + (["--no-transpose"] if tr else []) + ["--certificate", "--output", "c.txt"]); good(r)
    if incomplete(r): return None
    r = run(d, "check_cert", a + ["--certificate", "c.txt"]); expect(r.rc == 0, "honest certificate: checking ends with status %d: %s" % (r.rc, r.err[-200:])); expect(re.search(r"(?<!IN)CORRECT", r.out + r.err) and "INCORRECT" not in r.out + r.err, "honest certificate: verdict is", r.err[-60:])
    s = open(d + "/c.txt").read(); w = rank(mat(A.a, p), p); expect(int(s.split()[0]) == w, "the certificate states rank", s.split()[0], "instead of", w); return s
@family("certificates", note="rank program then checking program")
def _(t):
    c = []
    for k, A in enumerate(empties() + mini() + structured(t)):
        big = k >= len(empties()) + len(mini())
        for pi, p in enumerate(PRIMES):
            if not (t or big or (k + pi) % 4 == 0): continue
            o = ECH[(k + pi * 2) % len(ECH)]; c.append(("certificate %s mod %d %s" % (o, p, A), f_cert, (A, p, o, (k + pi) % 2)))
    return c
def f_tamper(d, A, p, kind, part, parts):
    s = f_cert(d, A, p, [], 0); T = s.split(); r_ = int(T[0]); muts = []
    if kind == "token":
        for q in range(len(T)):
            for delta in (1, -1):
                U = T[:]
                if q == 2: U[2] = ("%x" % ((int(T[2][0], 16) + delta) % 16)) + T[2][1:]
                elif 3 <= q < 3 + 2 * r_:      # positions: repeated or outside
                    o = 3 + (q - 3) // r_ * r_; lim = A.n if q < 3 + r_ else A.m
                    U[q] = str(lim) if delta == 1 else (T[o + (q - o + 1) % r_] if r_ > 1 else "-1")
                else: U[q] = str(int(T[q]) + delta)
                if U != T: muts.append(" ".join(U[:1]) + "\n" + U[1] + "\n" + U[2] + "\n" + " ".join(U[3:]) + "\n")
        muts += [s.replace("\n", "\n\n", 1)[:0] + "x" + s, s.replace(" ", " x ", 1)]
    elif kind == "cut": body = s.rstrip(); muts = [body[:k] for k in range(0, len(body)) if not (k and body[:k].split() == T)]
    # a certificate cut inside its last number may still contain a number: it is another certificate
    for z, mu in enumerate(muts):
        if z % parts != part: continue
        open(d + "/m.txt", "w").write(mu); r = run(d, "check_cert", ["--matrix", "a.sms", "--modulus", str(p), "--certificate", "m.txt"])
        fails(r, "the certificate was changed (%s %d): %r" % (kind, z, mu[:200])); expect(not re.search(r"(?<!IN)CORRECT", r.out + r.err), "a changed certificate is announced as correct: %r" % mu[:200])
@family("tampered-certificates", note="every number changed, every truncation")
def _(t): return [("tampered (%s) certificate of %s mod %d, part %d" % (k, A, p, q), f_tamper, (A, p, k, q, 4)) for A in [mini()[40], pats3()[0b101110011], structured()[0], structured()[2]] + ([structured()[8]] if t else []) for p in ((65537, 4294967291) if not t else (D, 65537, 189812507, 4294967291)) for k in ("token", "cut") for q in range(4)]
def f_cross(d, A, B, p, q):
    s = f_cert(d, A, p, [], 0); open(d + "/b.sms", "w").write(B.sms()); r = run(d, "check_cert", ["--matrix", "b.sms", "--modulus", str(q), "--certificate", "c.txt"]); fails(r, "the certificate belongs to another problem"); expect("INCORRECT" in r.out + r.err or not re.search("CORRECT", r.out + r.err), "verdict on a foreign certificate:", r.err[-60:])
@family("foreign-certificates", note="certificate of another matrix or modulus")
def _(t):
    v = [mini()[40], mini()[41], pats3()[0b101110011], pats3()[0b101110010], structured()[0], structured()[1], empties()[4], empties()[5]]
    return [("certificate of %s mod %d against %s mod %d" % (A, p, B, q), f_cross, (A, B, p, q)) for A in v for B in v for p, q in ((257, 257), (65537, 4294967291), (4294967291, 65537)) if A is not B or p != q]

def same_space(X, A, p, what):
    expect(rref(X, p)[0] == rref(A, p)[0], what, "does not span the row space")
def f_ech(d, A, p, opts, rr):
    r = run(d, "echelonize", list(opts) + ["--modulus", str(p)] + (["--rref"] if rr else []), A.sms()); good(r)
    if incomplete(r): return
    X = parse_sms(r.out, p); B = mat(A.a, p); expect(X.m == A.m, "%d columns instead of %d" % (X.m, A.m)); k = rank(B, p); expect(X.n == k, "%d rows, the rank is %d" % (X.n, k)); same_space(X.a, B, p, "the output")
    if rr:
        for i in range(k): expect(any(X.a[i][j] == 1 and all(X.a[l][j] == 0 for l in range(k) if l != i) for j in range(A.m)), "row %d has no pivot alone in its column" % (i + 1))
    else:      # a permutation of the rows and columns makes it unit upper-trapezoidal
        left = list(range(k)); ok = True
        while left:
            i = next((i for i in left if any(X.a[i][j] and all(X.a[l][j] == 0 for l in left if l != i) for j in range(A.m))), None); expect(i is not None, "the output is not in echelon form"); left.remove(i)
EOPT = [[], ["--no-greedy-pivot-search"], ["--no-low-rank-mode"], ["--dense-block-size", "2"], ["--sparsity-threshold=-1", "--dense-block-size=1"], ["--sparsity-threshold", "2"], ["--low-rank-start-weight", "2"]]
@family("echelonize", note="row echelon and reduced forms x options x moduli")
def _(t):
    c = []
    for k, A in enumerate(empties() + mini() + structured(t) + (pats3() if t else [])):
        big = k >= len(empties()) + len(mini())
        for pi, p in enumerate(PRIMES):
            for oi, o in enumerate(EOPT):
                for rr in (0, 1):
                    if t or (big and (pi + oi) % 3 == 0) or (not big and (k + 2 * pi + 3 * oi + 5 * rr) % 16 == 0): c.append(("echelonize %s%s mod %d %s" % (o, " --rref" if rr else "", p, A), f_ech, (A, p, o, rr)))
    return c

def f_kernel(d, A, p, opts, left, tofile):
    a = list(opts) + ["--modulus", str(p)] + (["--left"] if left else []) + (["--output", "k.sms"] if tofile else []); r = run(d, "kernel", a, A.sms()); good(r)
    if incomplete(r): return
    K = parse_sms(open(d + "/k.sms").read() if tofile else r.out, p); B = mat(A.a, p); n, m = A.n, A.m
    if left: B = transpose(B, n, m); n, m = m, n
    k = rank(B, p); expect((K.n, K.m) == (m - k, m), "kernel is %d x %d, expected %d x %d" % (K.n, K.m, m - k, m)); expect(rank(K.a, p) == m - k, "kernel vectors are dependent")
    for v in K.a: expect(all(sum(x * y for x, y in zip(row, v)) % p == 0 for row in B), "a vector of the output is not in the kernel")
@family("kernel", note="right and left kernels x options x moduli")
def _(t):
    c = []
    for k, A in enumerate(empties() + mini() + structured(t) + (pats3() if t else [])):
        big = k >= len(empties()) + len(mini())
        for pi, p in enumerate(PRIMES):
            for oi, o in enumerate(ECH):
                for l in (0, 1):
                    if (t and (k + pi + oi) % 2 == 0) or (big and (pi + oi + l) % 4 == 0) or (not big and (k + 2 * pi + 3 * oi + 5 * l) % 26 == 0): c.append(("kernel %s%s mod %d %s" % (o, " --left" if l else "", p, A), f_kernel, (A, p, o, l, (k + oi) % 2)))
    return c

def f_solve(d, A, B, p, opts, how):
    open(d + "/a.sms", "w").write(A.sms()); open(d + "/b.sms", "w").write(B.sms()); a = list(opts) + ["--modulus", str(p)]
    if how == 0: r = run(d, "solve", a + ["--matrix", "a.sms", "--rhs", "b.sms", "--output", "x.sms"])
    elif how == 1: r = run(d, "solve", a + ["--rhs", "b.sms"], A.sms())
    else: r = run(d, "solve", a + ["--matrix", "a.sms"], B.sms())
    good(r)
    if incomplete(r): return
    X = parse_sms(open(d + "/x.sms").read() if how == 0 else r.out, p); expect((X.n, X.m) == (B.n, A.n), "solution is %d x %d, expected %d x %d" % (X.n, X.m, B.n, A.n))
    warn = set(int(z) for z in re.findall(r"no solution for row (\d+)", r.err)); a_ = mat(A.a, p); b_ = mat(B.a, p); k = rank(a_, p)
    for i in range(B.n):
        solvable = rank(a_ + [b_[i]], p) == k; expect(solvable == (i not in warn), "row %d %s a solution but %s warning is given" % (i, "has" if solvable else "has not", "a" if i in warn else "no"))
        if solvable: expect(mul([X.a[i]], a_, p, A.m)[0] == b_[i], "row %d: x.A != b" % i)
@family("solve", note="solvable and unsolvable right-hand sides x options x moduli x ways to give the files")
def _(t):
    c = []
    for k, A in enumerate(empties() + mini() + structured(t) + (pats3() if t else [])):
        big = k >= len(empties()) + len(mini())
        for pi, p in enumerate(PRIMES):
            for oi, o in enumerate(ECH):
                if not ((t and (k + pi + oi) % 2 == 0) or (big and (pi + oi) % 3 == 0) or (not big and (k + 2 * pi + 3 * oi) % 17 == 0)): continue
                comb = [[tex(i, q, k) % 5 for i in range(A.n)] for q in range(2)]; rows = mul(comb, A.a, 10 ** 12, A.m) + [[1 if j == q else 0 for j in range(A.m)] for q in range(min(2, A.m))] + [[0] * A.m]
                c.append(("solve %s mod %d %s" % (o, p, A), f_solve, (A, M(len(rows), A.m, rows), p, o, (k + oi) % 3)))
    return c

class SM(M):
    def __str__(self): return "sized %dx%d" % (self.n, self.m)
def sized(s, wide):
    a = [[0] * 12 for _ in range(s)]
    for i in range(s):
        if i % 11 == 10: continue
        for q in range(3): a[i][(i * 5 + q * q + i // 9) % 9] = tex(i, q, s) % 999 - 499 or 1
        if i >= 4 and i % 4 == 3: a[i] = [x + 2 * y for x, y in zip(a[i - 2], a[i - 4])]
    a[s - 1][10] = 5; a[s - 2][9] = 1; a[s - 2][10] = 2
    return SM(12, s, transpose(a, s, 12)) if wide else SM(s, 12, a)
@family("sizes", note="long and wide matrices, dimensions around powers of two and batch sizes, every program")
def _(t):
    c = []
    for k, (s, w) in enumerate((s, w) for s in [31, 32, 33, 64, 65, 99, 100, 101, 128, 129, 199, 200, 201, 255, 256, 257] + ([511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2001, 4097] if t else [513, 1001, 1025]) for w in (0, 1)):
        A = sized(s, w); p = (257, 42013, 4294967291)[k % 3]; rows = mul([[tex(i, q, k) % 5 for i in range(A.n)] for q in range(3)], A.a, 10 ** 12, A.m) + [[1] * A.m]; B = M(4, A.m, rows)
        for q, prog in enumerate(("transpose", "vertical_swap", "stack")): c.append(("%s %s" % (prog, A), f_simple, (prog, A, (k + q) % 2 * 2)))
        for o in (ECH if t else [ECH[k % len(ECH)], ECH[(k + 3) % len(ECH)]]): c.append(("rank %s mod %d %s" % (o, p, A), f_rank, (A, p, o, k % 4, k // 2 % 2))); c.append(("certificate %s mod %d %s" % (o, p, A), f_cert, (A, p, o, k // 2 % 2))); c.append(("solve %s mod %d %s" % (o, p, A), f_solve, (A, B, p, o, k // 2 % 3)))
        for rr in (0, 1): c.append(("echelonize %s%s mod %d %s" % (EOPT[k % len(EOPT)], " --rref" if rr else "", p, A), f_ech, (A, p, EOPT[k % len(EOPT)], rr)))
        for left in (0, 1):
            if left == w or s <= (260 if t else 101): c.append(("kernel %s%s mod %d %s" % (ECH[k % len(ECH)], " --left" if left else "", p, A), f_kernel, (A, p, ECH[k % len(ECH)], left, k % 2)))
    return c

# ------------------------------------------------------------------ Dulmage-Mendelsohn
def coarse(A):
    n, m, a = A.n, A.m, A.a; cm = [-1] * m; rm = [-1] * n
    def aug(i, vis):
        for j in range(m):
            if a[i][j] and j not in vis:
                vis.add(j)
                if cm[j] < 0 or aug(cm[j], vis): cm[j] = i; rm[i] = j; return True
        return False
    k = sum(aug(i, set()) for i in range(n)); V = set(i for i in range(n) if rm[i] < 0); st = list(V); Vc = set()
    while st:
        i = st.pop()
        for j in range(m):
            if a[i][j] and j not in Vc:
                Vc.add(j)
                if cm[j] not in V: V.add(cm[j]); st.append(cm[j])
    Hc = set(j for j in range(m) if cm[j] < 0); st = list(Hc); H = set()
    while st:
        j = st.pop()
        for i in range(n):
            if a[i][j] and i not in H:
                H.add(i)
                if rm[i] not in Hc: Hc.add(rm[i]); st.append(rm[i])
    S = [i for i in range(n) if i not in H and i not in V]; idx = {i: z for z, i in enumerate(S)}
    R = {i: set([i]) for i in S}
    for i in S:
        st = [i]
        while st:
            x = st.pop()
            for j in range(m):
                if a[x][j] and cm[j] in idx and cm[j] not in R[i]: R[i].add(cm[j]); st.append(cm[j])
    scc = {}
    for i in S: scc.setdefault(min(z for z in S if z in R[i] and i in R[z]), []).append(i)
    return k, (len(H), len(Hc)), len(S), (len(V), len(Vc)), sorted(len(x) for x in scc.values())
def canon(A):
    """invariant of a matrix under row and column permutations: refinement colours of rows and columns"""
    rc = [0] * A.n; cc = [0] * A.m
    for _ in range(4):
        rc2 = [tex(rc[i], sorted((cc[j], A.a[i][j]) for j in range(A.m) if A.a[i][j])) for i in range(A.n)]; cc2 = [tex(cc[j], sorted((rc[i], A.a[i][j]) for i in range(A.n) if A.a[i][j])) for j in range(A.m)]; rc, cc = rc2, cc2
    return sorted(rc), sorted(cc)
def f_dm(d, A, mode):
    A = M(A.n, A.m, mat(A.a, D)); n, m = A.n, A.m; k, H, S, V, scc = coarse(A)
    if mode == 0:
        r = run(d, "dm", ["--permuted"] if n % 2 else [], A.sms()); good(r); X = parse_sms(r.out, D); expect((X.n, X.m) == (n, m), "dimensions changed"); expect(canon(X) == canon(A), "the output is not a row and column permutation of the input", X.a)
        for i in range(n):
            for j in range(m):
                if X.a[i][j]: expect(not (i >= H[0] and j < H[1]) and not (i >= H[0] + S and j < H[1] + S), "the output is not block triangular for the blocks %s, %d, %s: %s" % (H, S, V, X.a))
    elif mode == 1:
        r = run(d, "dm", ["--verbose"], A.sms()); good(r); q = re.search(r"structural rank = (\d+)", r.out); expect(q and int(q[1]) == k, "structural rank:", r.out[:40], "expected", k)
        for nm, (x, y) in (("H", H), ("S", (S, S)), ("V", V)):
            q = re.search(r"\*\) %s \((\d+) x (\d+)\)" % nm, r.out)
            if x > 0 and y > 0: expect(q and (int(q[1]), int(q[2])) == (x, y), "part %s: %s, expected %d x %d" % (nm, q and q[0], x, y))
            else: expect(not q, "part %s is announced but empty" % nm)
        big = sorted(int(z) for z in re.findall(r"SCC of size (\d+)", r.out) if z != "1"); expect(big == [z for z in scc if z > 1], "components", big, "expected", scc); one = sum(z == 1 for z in scc); q = re.search(r"plus (\d+) SCC of size 1", r.out); expect((int(q[1]) if q else 0) == one, "number of trivial components")
    else:
        mp = ["1", "0.000004", "0.00001"][mode - 2]; r = run(d, "dm", ["--image", mp], A.sms()); good(r); picture(r.out, 3, None, A)
def picture(t, mode, size, A):
    w = t.split(); expect(len(w) >= 3 and w[0] == "P%d" % mode, "not a picture of the right kind:", w[:3]); x, y = int(w[1]), int(w[2]); off = 3 if mode == 1 else 4
    if mode > 1: expect(w[3] == "255", "maximal value", w[3])
    per = 3 if mode == 3 else 1; expect(len(w) - off == x * y * per, "%d pixel values for a %d x %d picture" % (len(w) - off, x, y)); px = [int(z) for z in w[off:]]; expect(all(0 <= z <= (1 if mode == 1 else 255) for z in px), "pixel values out of range")
    if size: expect((x, y) == size, "the picture is %d x %d, expected %d x %d" % (x, y, size[0], size[1]))
    n, m = A.n, A.m; expect(x <= m and y <= n, "the picture is larger than the matrix"); expect((x > 0 and y > 0) or n == 0 or m == 0, "the picture of a non-empty matrix is empty")
    if mode < 3:
        inn = [[False] * x for _ in range(y)]
        for i in range(n):
            for j in range(m):
                if A.a[i][j]: inn[i * y // n][j * x // m] = True
        for i in range(y):
            for j in range(x): expect((px[i * x + j] == 1) == inn[i][j] if mode == 1 else (px[i * x + j] < 255) == inn[i][j], "pixel (%d,%d) does not tell whether its region has entries" % (i, j))
@family("dm", note="decomposition printed, summarised and drawn")
def _(t):
    v = empties() + mini() + structured(t) + (all_mats(3, 3, (0, 1)) + all_mats(3, 4, (0, 1))[::3] if t else pats3()); return [("dm mode %d %s" % (k, A), f_dm, (A, k)) for A in v for k in range(5) if k < 2 or (t or tex(str(A), k) % 3 == 0 or A.n * A.m == 0)]
def f_bitmap(d, A, args, size, mode):
    r = run(d, "bitmap", args, A.sms()); good(r); picture(r.out, mode, size, A)
@family("bitmap", note="pictures x size options")
def _(t):
    c = []
    for A in empties() + (mini()[::4] + structured(t) + pats3()[::37] if t else mini()[::12] + structured(t)[::2] + pats3()[::93]) + [M(6, 30, [[(i * j) % 3 for j in range(30)] for i in range(6)]), M(30, 6, [[(i * j) % 3 for j in range(6)] for i in range(30)])]:
        n, m = A.n, A.m
        for g in (0, 1):
            G = ["--gray"] if g else []
            c.append(("bitmap %s" % A, f_bitmap, (A, G, (m, n) if n * m else None, 1 + g)))
            for w in (1, 2, 5, 40):
                for h in (1, 3, 40): c.append(("bitmap -w %d -h %d %s" % (w, h, A), f_bitmap, (A, G + ["--width", str(w), "--height", str(h)], (min(w, m), min(h, n)), 1 + g)))
                # only one is given: the other keeps the proportions
                if n and m:
                    c.append(("bitmap -w %d %s" % (w, A), f_bitmap1, (A, G + ["--width", str(w)], ("w", w), 1 + g))); c.append(("bitmap -h %d %s" % (w, A), f_bitmap1, (A, G + ["--height", str(w)], ("h", w), 1 + g)))
            for mp in ("0.000001", "0.00001", "0.0001", "5"): c.append(("bitmap --mpixels %s %s" % (mp, A), f_bitmap, (A, G + ["--mpixels", mp], None, 1 + g)))
    return c
def f_bitmap1(d, A, args, given, mode):
    r = run(d, "bitmap", args, A.sms()); good(r); w = r.out.split(); x, y = int(w[1]), int(w[2]); picture(r.out, mode, None, A)
    if given[0] == "w": expect(x == min(given[1], A.m), "width %d, requested %d" % (x, given[1])); want = min(A.n, given[1] * A.n / A.m); expect(abs(y - want) <= 1, "width %d of a %d x %d matrix: height %d does not keep the proportions" % (x, A.n, A.m, y))
    else: expect(y == min(given[1], A.n), "height %d, requested %d" % (y, given[1])); want = min(A.m, given[1] * A.m / A.n); expect(abs(x - want) <= 1, "height %d of a %d x %d matrix: width %d does not keep the proportions" % (y, A.n, A.m, x))

# ------------------------------------------------------------------ invalid input
OKM = "3 3 M\n1 1 1\n2 2 5\n3 1 1\n3 3 2\n0 0 0\n"
BADM = ["", "\n", "3\n", "3 3\n1 1 1\n0 0 0\n", "-3 3 M\n0 0 0\n", "x 3 M\n0 0 0\n", "3 3 M\n", "3 3 M\n1 1 1\n", "3 3 M\n1 1 1\n2 2", "3 3 M\n1 1\n0 0 0\n", "3 3 M\n4 1 1\n0 0 0\n", "3 3 M\n1 4 1\n0 0 0\n", "3 3 M\n0 1 1\n0 0 0\n", "3 3 M\n1 a 1\n0 0 0\n", "3 3 M\n1 1 99999999999999999999\n0 0 0\n", "99999999999 3 M\n0 0 0\n", "3 3 M\n1 1 1 1\n0 0 0\n",
        "%%MatrixMarket matrix coordinate real general\n3 3 1\n1 1 1.5\n", "%%MatrixMarket matrix coordinate integer symmetric\n3 3 1\n1 1 1\n", "%%MatrixMarket matrix coordinate integer general\n", "%%MatrixMarket matrix coordinate integer general\n3 3 2\n1 1 1\n", "%%MatrixMarket matrix coordinate integer general\n3 3 1\n4 1 1\n", "%%MatrixMarket vector\n", "%%MatrixMarket matrix array integer general\n1 1\n1\n"]
STD = {"rank": [], "echelonize": [], "kernel": [], "solve": [], "transpose": [], "vertical_swap": [], "stack": [], "dm": [], "bitmap": [], "check_cert": ["--certificate", "c.txt"]}
def prep(d):
    open(d + "/a.sms", "w").write(OKM); open(d + "/b.sms", "w").write("1 3 M\n1 1 1\n0 0 0\n"); r = run(d, "rank", ["--matrix", "a.sms", "--certificate", "--output", "c.txt"]); good(r)
def f_bad(d, prog, args, stdin, why):
    prep(d); r = run(d, prog, args, stdin); fails(r, why)
@family("invalid", note="malformed matrices, options, files")
def _(t):
    c = []
    for prog in STD:
        for b in BADM + ([OKM[:k] for k in range(len(OKM) - 6)] if t or prog in ("rank", "transpose") else []):
            if prog == "bitmap" and ("9999999999999" in b or "1 1 1 1" in b or "real general" in b or "M\n1 1\n" in b): continue      # values are not read
            c.append(("%s reads %r" % (prog, b), f_bad, (prog, STD[prog] + (["--rhs", "b.sms"] if prog == "solve" else []), b, "its input is malformed")))
    for prog in ("rank", "kernel", "solve", "check_cert", "echelonize", "dm", "bitmap"):
        c.append((prog + " unknown option", f_bad, (prog, STD[prog] + ["--nonsense"], OKM, "it has no such option")))
    for prog in ("rank", "kernel", "solve", "check_cert"):
        c.append((prog + " extra argument", f_bad, (prog, STD[prog] + ["extra"], OKM, "it takes no argument"))); c.append((prog + " missing file", f_bad, (prog, STD[prog] + ["--matrix", "none.sms"], OKM, "the file does not exist")))
        c.append((prog + " missing value", f_bad, (prog, STD[prog] + ["--modulus"], OKM, "the modulus is missing")))
    for prog in ("rank", "kernel", "solve", "check_cert", "echelonize"):
        for p in ("0", "1", "-1", "-42013", "4294967296", "4294967311", "42013000000000000000000", "abc", ""):
            c.append(("%s --modulus %s" % (prog, p), f_bad, (prog, STD[prog] + ["--modulus=" + p] + (["--rhs", "b.sms"] if prog == "solve" else []), OKM, "the modulus is invalid")))
    for b in ("1 2 M\n1 1 1\n0 0 0\n", "1 4 M\n1 4 1\n0 0 0\n", "2 7 M\n1 7 1\n2 5 3\n0 0 0\n", "1 1 M\n1 1 1\n0 0 0\n", "0 5 M\n0 0 0\n"): c.append(("solve with a right-hand side %r" % b, f_bad, ("solve", ["--matrix", "a.sms"], b, "the right-hand side has the wrong number of columns")))
    for b in BADM: c.append(("solve with a right-hand side %r" % b, f_bad, ("solve", ["--matrix", "a.sms"], b, "the right-hand side is malformed")))
    c.append(("solve, no such right-hand side", f_bad, ("solve", ["--rhs", "none"], OKM, "the file does not exist"))); c.append(("check_cert, no such certificate", f_bad, ("check_cert", ["--certificate", "none"], OKM, "the file does not exist")))
    for prog, a in (("kernel", []), ("solve", ["--rhs", "b.sms"]), ("rank", ["--certificate"])): c.append((prog + " output not writable", f_bad, (prog, a + ["--output", "nodir/x"], OKM, "the output cannot be written")))
    for a in (["--width", "3", "--mpixels", "1"], ["--height", "3", "--mpixels", "1"]): c.append(("bitmap %s" % a, f_bad, ("bitmap", a, OKM, "the options exclude each other")))
    return c
def f_full(d, prog, args, inp):
    """the output device is full: the result is lost, the program must not claim success"""
    prep(d); p = subprocess.run([os.path.join(TOOLS, prog)] + args, input=inp.encode(), stdout=open("/dev/full", "wb"), stderr=subprocess.PIPE, cwd=d, env=ENV, timeout=30); expect(p.returncode != 0, prog, " ".join(args), "succeeds although its output was lost (device full)")
    expect(p.returncode not in (98, 99), prog, "memory error", p.stderr[-300:])
@family("output-lost", note="every program writing to a full device, small and large outputs")
def _(t):
    big = structured()[10].sms(); c = []
    for inp in (OKM, big, "0 0 M\n0 0 0\n"):
        for prog, a in (("transpose", []), ("vertical_swap", []), ("stack", []), ("echelonize", []), ("echelonize", ["--rref"]), ("kernel", []), ("kernel", ["--output", "/dev/full"]), ("dm", []), ("dm", ["--image", "1"]), ("bitmap", []), ("bitmap", ["--gray"]), ("dm", ["--verbose"]), ("rank", ["--certificate", "--output", "/dev/full"])):
            c.append(("%s %s to a full device" % (prog, a), f_full, (prog, a, inp)))
        c.append(("solve to a full device", f_full, ("solve", ["--matrix", "a.sms"], inp if inp == OKM else "1 3 M\n1 1 1\n0 0 0\n"))); c.append(("solve to a full file", f_full, ("solve", ["--matrix", "a.sms", "--output", "/dev/full"], "1 3 M\n1 1 1\n0 0 0\n")))
    return c

# ------------------------------------------------------------------ exploration
CASES = {}
def one(job):
    fam, k, deadline = job
    if time.time() > deadline: return (fam, k, None, "", 0, 0)
    desc, fn, args = CASES[fam][k]; d = tempfile.mkdtemp(prefix="mct-")
    try:
        fn(d, *args); return (fam, k, True, desc if k % 97 == 3 else "", 1, tex(desc))
    except Bad as e: return (fam, k, str(e), desc, 1, 0)
    except subprocess.TimeoutExpired: return (fam, k, "a program does not terminate", desc, 1, 0)
    except Exception as e: return (fam, k, "unreadable output (%s: %s)" % (type(e).__name__, e), desc, 1, 0)
    finally: shutil.rmtree(d, ignore_errors=True)
def load(tier):
    t = 1 if tier == "thorough" else 0
    for nm, (g, th, note) in FAM.items():
        if th and not t: continue
        CASES[nm] = g(t)
def explore(pid, tier, tools, cap):
    global TOOLS; TOOLS = tools; load(tier); deadline = time.time() + cap; jobs = [(f, k, deadline) for f in CASES for k in range(len(CASES[f]))]
    done = {f: 0 for f in CASES}; bad = []; samples = []; skipped = 0; states = set(); outs = {}
    with Pool(8) as pool:
        for fam, k, res, desc, n, h in pool.imap_unordered(one, jobs, chunksize=8):
            if res is None: skipped += 1; continue
            done[fam] += 1
            if res is True:
                states.add((fam, k)); outs[fam] = outs.get(fam, 0) + 1
                if desc and len(samples) < 5: samples.append("%s[%d]: %s" % (fam, k, desc[:300]))
            else: bad.append((list(CASES).index(fam), k, fam, res, desc))
            if len(bad) >= 24: pool.terminate(); break
    bad.sort(); v = []
    for _, k, fam, res, desc in bad:
        again = one((fam, k, time.time() + 300))      # confirmed by running it again
        if again[2] is not True: v.append({"replay": "%s@%d" % (fam, k), "msg": again[2], "desc": desc})
        if len(v) >= (24 if os.environ.get("ALL_VIOLATIONS") else 3): break
    n = sum(done.values())
    return {"property": pid, "states": len(states), "transitions": n, "traces": n, "cases": n, "capped": skipped > 0, "families": {f: {"size": len(CASES[f]), "done": done[f], "note": FAM[f][2]} for f in CASES}, "outcomes": outs, "samples": samples, "violations": v, "assumptions": ASSUME}
def replay(d, tools):
    global TOOLS; TOOLS = tools; load(d["tier"]); f, k = d["case"].split("@"); r = one((f, int(k), time.time() + 300)); print(r[3] or CASES[f][int(k)][0]); print("case passes" if r[2] is True else r[2]); return 0 if r[2] is True else 1
