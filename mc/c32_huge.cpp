// C32: matrices with more than 2^31 (2^32) entries.  The bulk of such a matrix is one physical window of a few MB mapped again and
// again (rows that repeat); the rows under observation lie around the entry number 2^31 or 2^32, in pages of their own.
#include "fact.h"
#include "algo.h"
#include <sys/mman.h>
#include <unistd.h>
#include <climits>
#include <array>
#include <map>
const char *harness_property = "C32";
const char *harness_assumptions[] = {"the entries below the observed rows repeat with a period that divides the mapped window, so that aliased memory holds the arrays exactly", "one thread", NULL};
static const int W = 1 << 18; static const i64 B31 = (i64) 1 << 31, B32 = (i64) 1 << 32; static const u64 PP = 65537;
typedef std::vector<std::pair<int, i64>> SRow;
// an array of `start` entries read from a periodic stream, followed by `tail`
struct Stream { int *base = NULL; size_t len = 0; };
static Stream stream(i64 start, i64 phase, const std::vector<int> &window, const std::vector<int> &tail)
{
	size_t wb = window.size() * 4, tb = (tail.size() * 4 + 4095) / 4096 * 4096; EXPECT(wb % 4096 == 0 && start * 4 % 4096 == 0 && phase * 4 % 4096 == 0, "harness: alignment");
	int fd = memfd_create("mcs", 0); if (fd < 0 || ftruncate(fd, wb)) violation("harness: memfd"); int *w = (int *) mmap(NULL, wb, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); memcpy(w, window.data(), wb); munmap(w, wb);
	Stream s; s.len = start * 4 + tb + 8192; char *b = (char *) mmap(NULL, s.len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) violation("harness: reservation");
	b += 4096; size_t o = 0, off = phase * 4; while (o < (size_t) start * 4) { size_t c = std::min(wb - off, (size_t) start * 4 - o); if (mmap(b + o, c, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, off) == MAP_FAILED) violation("harness: map"); o += c; off = 0; }
	if (tb) { if (mmap(b + o, tb, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_ANONYMOUS, -1, 0) == MAP_FAILED) violation("harness: map"); memcpy(b + o, tail.data(), tail.size() * 4); }
	close(fd); s.base = (int *) b; return s;
}
static void drop(Stream &s) { if (s.base) munmap((char *) s.base - 4096, s.len); s.base = NULL; }
static void overlay(Stream &s, i64 at, const std::vector<int> &page) { char *q = (char *) (s.base + at); char *lo = (char *) ((size_t) q & ~(size_t) 4095), *hi = (char *) (((size_t) (q + 4 * page.size()) + 4095) & ~(size_t) 4095); std::vector<char> keep(lo, hi); mmap(lo, hi - lo, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_ANONYMOUS, -1, 0); memcpy(lo, keep.data(), keep.size()); memcpy(q, page.data(), 4 * page.size()); }

static int tval(int j) { int v = j % 251 - 125; return v ? v : 1; }
struct Huge { struct spasm_csr A; std::vector<i64> p; Stream j, x; int nt, w, len0, n; std::vector<SRow> spec; int k0; ~Huge() { drop(j); drop(x); } };
// nt rows with every column (the first one only the last len0 columns), a filler row, then the rows of spec
static void build(Huge &H, i64 start, int fill, const std::vector<SRow> &spec, bool values, int w = W, int per = 4, int shift = 0, int m = 0)
{
	H.w = w; H.nt = (int) ((start + w - 1) / w); H.len0 = (int) (start - (i64) (H.nt - 1) * w); H.spec = spec; H.p.assign(1, 0); for (int i = 0; i < H.nt; i++) H.p.push_back(H.len0 + (i64) i * w);
	std::vector<int> wj, wx, tj, tx; for (int r = 0; r < per; r++) for (int j = 0; j < w; j++) { wj.push_back(j + shift); wx.push_back(tval(j)); }
	if (fill) { for (int j = 0; j < fill; j++) { tj.push_back(64 + j); tx.push_back(1); } H.p.push_back(start + (i64) tj.size()); } H.k0 = H.nt + (fill > 0);
	for (auto &r : spec) { for (auto &e : r) { tj.push_back(e.first); tx.push_back((int) e.second); } H.p.push_back(start + (i64) tj.size()); }
	H.j = stream(start, w - H.len0, wj, tj); if (values) H.x = stream(start, w - H.len0, wx, tx);
	memset(&H.A, 0, sizeof H.A); spasm_field_init(PP, H.A.field); H.A.n = H.n = (int) H.p.size() - 1; H.A.m = m ? m : w; H.A.nzmax = H.p.back(); H.A.p = H.p.data(); H.A.j = H.j.base; H.A.x = H.x.base;
	describe("%d x %d, %ld entries, %d repeated rows, observed rows start at entry %ld", H.A.n, H.A.m, (long) H.p.back(), H.nt, (long) H.p[H.k0]);
}
struct Cfg { i64 start; int fill; };
static const Cfg CF[] = {{B31 - 1024, 1024}, {B31 - 1024, 1021}, {B31 - 1024, 1001}, {B31, 5}, {B31 - 2048, 5}, {B32 - 1024, 1024}, {B32 - 1024, 1021}, {B32 - 1024, 1001}, {B32, 5}, {B31 + B32 - 1024, 1010}};
static const int NCF = 10, PIV[3] = {5, 2, 9};
// observed rows: 0..2 have a leading unit pivot, 3..5 are arbitrary
static std::vector<SRow> rows(int v)
{
	std::vector<SRow> s(6); auto val = [&](int a, int b) { u64 z = tex(a, b, v); return (i64) R_bal(1 + z % (PP - 1), PP); };
	s[0] = {{5, 1}, {2, val(0, 1)}, {20, val(0, 2)}, {33, val(0, 3)}, {60, val(0, 4)}}; s[1] = {{2, 1}, {21, val(1, 1)}, {9, val(1, 2)}, {34, val(1, 3)}}; s[2] = {{9, 1}, {40, val(2, 1)}, {33, val(2, 2)}};
	for (int i = 3; i < 6; i++) for (int t = 0; t < 8; t++) { int j = t < 3 ? (t * 3 + i + v) % 10 : 10 + (t * 11 + i * 5 + v) % 50; bool dup = false; for (auto &e : s[i]) dup |= e.first == j; if (!dup) s[i].push_back({j, val(i, t)}); }
	return s;
}
static Mat dense(const std::vector<SRow> &s, int m = 64) { Mat A((int) s.size(), m, PP); for (size_t i = 0; i < s.size(); i++) for (auto &e : s[i]) A[i][e.first] = R_red(e.second, PP); return A; }
static void expect_row(const struct spasm_csr *C, int i, const Row &want, const char *what) { Row got(want.size(), 0); for (i64 k = C->p[i]; k < C->p[i + 1]; k++) { EXPECT(C->j[k] >= 0 && C->j[k] < (int) want.size(), "%s: entry on column %d of row %d", what, C->j[k], i); EXPECT(!C->x || R_canon(C->x[k], PP), "%s: value", what); u64 &g = got[C->j[k]]; EXPECT(g == 0, "%s: row %d has two entries on column %d", what, i, C->j[k]); g = C->x ? R_red(C->x[k], PP) : 1; } for (size_t j = 0; j < want.size(); j++) EXPECT(C->x ? got[j] == want[j] : (got[j] != 0) == (want[j] != 0), "%s: row %d, column %zu is %d, expected %d", what, i, j, R_bal(got[j], PP), R_bal(want[j], PP)); }
static struct spasm_csr *small_csr(const std::vector<SRow> &r, int m) { i64 nz = 0; for (auto &q : r) nz += q.size(); struct spasm_csr *C = spasm_csr_alloc((int) r.size(), m, nz, PP, true); i64 k = 0; for (size_t i = 0; i < r.size(); i++) { for (auto &e : r[i]) { C->j[k] = e.first; C->x[k++] = (int) e.second; } C->p[i + 1] = k; } return C; }

static void local(u64 k)      // operations that look at the observed rows only
{
	Ix x(k); int op = x.take(7); Cfg c = CF[x.take(NCF)]; int v = x.k; auto S = rows(v); Huge H; mc_huge_ok = 1; bool values = op != 1 || v % 2; build(H, c.start, c.fill, S, values); Mat D = dense(S); int m = W, k0 = H.k0, n = H.n; const struct spasm_csr *A = &H.A; u64 h = hmix(c.start, c.fill);
	Mat U(3, 64, PP); for (int i = 0; i < 3; i++) U[i] = D[i]; std::vector<int> piv(PIV, PIV + 3), sel = {k0 + 4, k0 + 3, k0 + 5}; std::vector<Row> rem(3), mul(3); for (int t = 0; t < 3; t++) eliminate(U, piv, D[sel[t] - k0], rem[t], mul[t]);
	bool hugeU = v / 2 % 2; struct spasm_csr *sU = small_csr({S[0], S[1], S[2]}, m); const struct spasm_csr *Uc = hugeU ? A : sU; std::vector<int> qinv(m, -1); for (int i = 0; i < 3; i++) qinv[PIV[i]] = hugeU ? k0 + i : i;
	mc_traces++;
	switch (op) {
	case 0: for (int i = 0; i < 6; i++) { std::vector<spasm_ZZp> y(m, 0); for (int j = 0; j < 64; j++) y[j] = R_bal(tex(j, i) % PP, PP); auto y0 = y; i64 b = R_bal(1 + tex(i, v) % (PP - 1), PP); spasm_scatter(A, k0 + i, (spasm_ZZp) b, y.data()); step(); for (int j = 0; j < m; j++) { u64 w = R_red(y0[j], PP); if (j < 64) w = R_add(w, R_mul(R_red(b, PP), D[i][j], PP), PP); EXPECT(R_red(y[j], PP) == w, "scatter of row %d: column %d", k0 + i, j); } h = hash_bytes(y.data(), 256, h); } break;
	case 1: for (int q = 0; q < 4; q++) { int r0 = k0 + q % 2, r1 = n - q / 2, c0 = q, c1 = q == 0 ? m : 40 + q; struct spasm_csr *B = spasm_submatrix(A, r0, r1, c0, c1, q != 2); step(); EXPECT(B->n == r1 - r0 && B->m == c1 - c0, "submatrix is %d x %d", B->n, B->m); wellformed(B, r1 - r0, c1 - c0, PP, 0, "submatrix"); for (int i = r0; i < r1; i++) { Row w(D[i - k0].begin() + c0, D[i - k0].begin() + std::min(64, c1)); expect_row(B, i - r0, w, "submatrix"); } h = hmix(h, snap_csr(B)); spasm_csr_free(B); } break;
	case 2: { std::vector<int> xj(3 * m, 0); std::vector<spasm_ZZp> y(m, 77); for (int t = 0; t < 3; t++) { int top = spasm_sparse_triangular_solve(Uc, A, sel[t], xj.data(), y.data(), qinv.data()); step(); std::vector<char> in(m, 0); EXPECT(top >= 0 && top <= m, "top %d", top); for (int q = top; q < m; q++) { int j = xj[q]; EXPECT(j >= 0 && j < 64 && !in[j], "pattern entry %d", j); in[j] = 1; }
		for (int j = 0; j < 64; j++) { u64 w = rem[t][j]; for (int i = 0; i < 3; i++) if (PIV[i] == j) w = mul[t][i]; EXPECT(in[j] ? R_red(y[j], PP) == w : w == 0, "solution, row %d: column %d is %d, expected %d", sel[t], j, in[j] ? y[j] : 0, R_bal(w, PP)); h = hmix(h, w); } } break; }
	case 3: { struct spasm_lu f; memset(&f, 0, sizeof f); f.U = (struct spasm_csr *) Uc; f.qinv = qinv.data(); struct spasm_triplet *L = spasm_triplet_alloc(n, n, 1, PP, true); f.Ltmp = L; std::vector<int> po(3, -1); rand_script({(int) v, 1, 0, 2}, true); struct spasm_csr *C = spasm_schur(A, sel.data(), 3, &f, v % 3 ? 0.00001 : -1, L, NULL, po.data()); step(); EXPECT(C->n == 3 && C->m == m, "Schur complement is %d x %d", C->n, C->m); for (int t = 0; t < 3; t++) { EXPECT(po[t] == sel[t], "row %d claims to come from %d", t, po[t]); expect_row(C, t, rem[t], "Schur complement"); }
		Mat M(3, 3, PP); for (i64 e = 0; e < L->nz; e++) { int i = L->i[e] - k0 - 3, j = hugeU ? L->j[e] - k0 : L->j[e]; EXPECT(i >= 0 && i < 3 && j >= 0 && j < 3, "multiplier at (%d,%d)", L->i[e], L->j[e]); M[i][j] = R_red(L->x[e], PP); } for (int t = 0; t < 3; t++) EXPECT(M[sel[t] - k0 - 3] == mul[t], "multipliers of row %d", sel[t]); h = hmix(h, snap_csr(C)); double de = spasm_schur_estimate_density(A, sel.data(), 3, Uc, qinv.data(), 100); step(); double lo = 1, hi = 0; for (auto &r : rem) { int z = 0; for (u64 e : r) z += e != 0; double d = (double) z / (m - Uc->n); lo = std::min(lo, d); hi = std::max(hi, d); } EXPECT(de >= lo - 1e-12 && de <= hi + 1e-12, "density %g outside [%g,%g]", de, lo, hi); break; }
	case 4: { struct spasm_lu f; memset(&f, 0, sizeof f); f.U = sU; for (int i = 0; i < 3; i++) qinv[PIV[i]] = i; f.qinv = qinv.data(); int Sm = m - 3; std::vector<double> X((size_t) 3 * Sm, -1); std::vector<int> q(Sm), po(3); spasm_schur_dense(A, sel.data(), 3, NULL, &f, X.data(), SPASM_DOUBLE, q.data(), po.data()); step(); for (int t = 0; t < 3; t++) { EXPECT(po[t] == sel[t], "row order"); for (int j = 0; j < Sm; j++) { u64 w = q[j] < 64 ? rem[t][q[j]] : 0; EXPECT(R_red((i64) X[(size_t) t * Sm + j], PP) == w, "dense Schur complement, row %d: column %d", t, q[j]); h = hmix(h, w); } } 
		std::fill(X.begin(), X.end(), -1); rand_script({0, 1, 2, 5, 4}, true); spasm_schur_dense_randomized(A, sel.data(), 3, sU, qinv.data(), X.data(), SPASM_DOUBLE, q.data(), 2, v % 3); step(); Mat Z(3, 64, PP); for (int t = 0; t < 3; t++) Z[t] = rem[t]; int rk = R_rank(Z); for (int t = 0; t < 2; t++) { Mat Y = Z; Row r(64, 0); for (int j = 0; j < Sm; j++) { u64 e = R_red((i64) X[(size_t) t * Sm + j], PP); EXPECT(e == 0 || q[j] < 64, "combination has an entry on column %d", q[j]); if (e) r[q[j]] = e; } Y.a.push_back(r); Y.n++; EXPECT(R_rank(Y) == rk, "combination %d is outside of the row space", t); } break; }
	case 5: { // dense triangular solves, lines of the triangle far into the matrix: columns -> observed rows
		struct spasm_csr L = *A; L.m = 3; std::vector<int> lp = {k0 + 0, k0 + 1, k0 + 2}; std::vector<SRow> T(3); T[0] = {{0, 2}}; T[1] = {{1, -3}, {0, 7}}; T[2] = {{0, 5}, {2, 11}, {1, -1}}; Huge G; build(G, c.start, c.fill, T, true); L = G.A; L.m = 3; lp = {G.k0, G.k0 + 1, G.k0 + 2}; std::vector<spasm_ZZp> b = {(int) (tex(v, 1) % 1000), -17, 23}, y(L.n + 1, 9); auto b0 = b; spasm_dense_back_solve(&L, b.data(), y.data(), lp.data()); step(); Mat TD = dense(T, 3); for (int j = 0; j < 3; j++) { u64 s = 0; for (int i = 0; i < 3; i++) s = R_add(s, R_mul(R_red(y[G.k0 + i], PP), TD[i][j], PP), PP); EXPECT(s == R_red(b0[j], PP), "x.L differs from b on column %d", j); h = hmix(h, s); } for (int i = 0; i < G.k0; i++) EXPECT(y[i] == 0, "x[%d] is not zero", i); break; }
	case 6: { // forward solve: only the observed rows meet a non-zero of b
		std::vector<int> q(n, W - 1); for (int i = 0; i < 3; i++) q[k0 + i] = PIV[i]; std::vector<spasm_ZZp> b(m, 0), y(n, 9); Row bb(64, 0); i64 co[3] = {1 + (i64) (tex(v, 1) % 60000), -5, (i64) v + 9}; for (int i = 0; i < 3; i++) for (int j = 0; j < 64; j++) bb[j] = R_add(bb[j], R_mul(R_red(co[i], PP), D[i][j], PP), PP); for (int j = 0; j < 64; j++) b[j] = R_bal(bb[j], PP); struct spasm_csr U2 = *A; U2.n = k0 + 3; bool ok = spasm_dense_forward_solve(&U2, b.data(), y.data(), q.data()); step(); EXPECT(ok, "a combination of rows is refused"); for (int i = 0; i < 3; i++) { EXPECT(R_red(y[k0 + i], PP) == R_red(co[i], PP), "coefficient of row %d is %d, expected %ld", k0 + i, y[k0 + i], (long) co[i]); h = hmix(h, y[k0 + i]); } break; }
	}
	spasm_csr_free(sU); state(hmix(h, k));
}

static void matching(u64 k)
{
	Cfg c = CF[k % NCF]; auto S = rows((int) k); Huge H; build(H, c.start, c.fill, S, false); std::vector<int> p(H.n, 5), q(W, 5); mc_heartbeat(); int r = spasm_maximum_matching(&H.A, p.data(), q.data()); step(); mc_traces++; EXPECT(r == H.n, "matching of size %d, %d is possible", r, H.n);
	for (int i = 0; i < H.n; i++) { int j = p[i]; EXPECT(j >= 0 && j < W && q[j] == i, "row %d is matched to column %d, which is matched to row %d", i, j, j >= 0 && j < W ? q[j] : -1); bool in = i > 0 && i < H.nt; for (i64 e = H.p[i]; !in && e < H.p[i + 1]; e++) in = H.A.j[e] == j; EXPECT(in, "row %d is matched to column %d but has no entry there", i, j); } state(hash_bytes(p.data(), 4 * p.size()));
}
static void growth(u64 k)      // storage that grows through 2^31 and 2^32
{
	mc_huge_ok = 1; Ix x(k); int op = x.take(2); i64 base = x.take(2) ? B32 : B31; bool values = x.take(2); i64 d = (i64) x.take(6) - 3; mc_traces++; 
	if (op == 0) { i64 cap = base + d; struct spasm_triplet *T = spasm_triplet_alloc(3, 3, cap, PP, values); EXPECT(T->nzmax == cap, "capacity %ld", (long) T->nzmax); T->nz = base - 4; for (i64 e = T->nz; e < cap; e++) T->i[e] = T->j[e] = -9; T->nz = std::min(cap, T->nz); i64 n0 = T->nz; describe("triplets: capacity %ld, %ld entries", (long) cap, (long) n0);
		for (int e = 0; e < 9; e++) { spasm_add_entry(T, e + 1, 2 * e, e % 4 == 3 ? PP : e - 70000); step(); } std::vector<int> want; for (int e = 0; e < 9; e++) if (!values || e % 4 != 3) want.push_back(e); EXPECT(T->nz == n0 + (i64) want.size() && T->nzmax >= T->nz, "%ld entries, capacity %ld", (long) T->nz, (long) T->nzmax);
		for (size_t e = 0; e < want.size(); e++) { i64 a = n0 + (i64) e; EXPECT(T->i[a] == want[e] + 1 && T->j[a] == 2 * want[e], "entry %ld is (%d,%d)", (long) a, T->i[a], T->j[a]); if (values) EXPECT(R_red(T->x[a], PP) == R_red(want[e] - 70000, PP), "value of entry %ld", (long) a); } EXPECT(T->n == want.back() + 2 && T->m == 2 * want.back() + 1, "dimensions %d x %d", T->n, T->m);
		spasm_triplet_transpose(T); for (size_t e = 0; e < want.size(); e++) { i64 a = n0 + (i64) e; EXPECT(T->j[a] == want[e] + 1 && T->i[a] == 2 * want[e], "transposed entry %ld", (long) a); } spasm_triplet_realloc(T, -1); EXPECT(T->nzmax == T->nz && T->j[T->nz - 1] == want.back() + 1, "trimmed"); T->i[T->nz - 1] = 1; state(hmix(T->nz, cap)); spasm_triplet_free(T);
	} else { i64 cap = base + d; describe("rows: capacity %ld", (long) cap); struct spasm_csr *A = spasm_csr_alloc(4, 9, cap, PP, values); EXPECT(A->nzmax == cap, "capacity"); A->p[1] = 5; A->p[2] = A->p[3] = cap - 3; A->p[4] = cap; for (int e = 1; e < 4; e++) { A->j[cap - e] = e; if (values) A->x[cap - e] = -e; } EXPECT(spasm_nnz(A) == cap, "%ld entries counted, %ld exist", (long) spasm_nnz(A), (long) cap);
		spasm_csr_realloc(A, cap + 7); step(); EXPECT(A->nzmax == cap + 7, "capacity"); A->j[cap + 6] = 1; if (values) A->x[cap + 6] = 1; for (int e = 1; e < 4; e++) EXPECT(A->j[cap - e] == e && (!values || A->x[cap - e] == -e), "entry lost"); spasm_csr_resize(A, 7, 11); step(); for (int i = 4; i < 8; i++) EXPECT(A->p[i] == cap, "row %d starts at %ld", i, (long) A->p[i]); spasm_csr_realloc(A, 2 * cap + 9); A->j[2 * cap + 8] = 1; spasm_csr_realloc(A, -1); step(3); EXPECT(A->nzmax == cap && A->j[cap - 1] == 1 && (!values || A->x[cap - 3] == -3), "trimmed"); spasm_csr_resize(A, 2, 5); EXPECT(spasm_nnz(A) == cap - 3, "%ld entries", (long) spasm_nnz(A)); state(hmix(cap, values)); spasm_csr_free(A); }
}
static std::string bytes_of(std::function<void(FILE *)> f) { char *b = NULL; size_t l = 0; FILE *o = open_memstream(&b, &l); f(o); fclose(o); std::string s(b, l); free(b); return s; }
static void graph(u64 k)      // one component of all repeated rows, then a chain of small cycles
{
	int w = 47104, nt; i64 start = B31 - 1024 * (i64) (k + 1); nt = (int) ((start + w - 1) / w); int ns = w - nt, g = 3 + (int) k; std::vector<SRow> S(ns); for (int s = 0; s < ns; s++) { int c = s / g, last = std::min(ns, (c + 1) * g) - 1; S[s].push_back({nt + (s == last ? c * g : s + 1), 1}); if (s == last && last + 1 < ns) S[s].push_back({nt + last + 1, 1}); if (s % 2) S[s].push_back({nt + s, 1}); }
	Huge H; build(H, start, 0, S, false, w, 16); mc_heartbeat(); struct spasm_dm *P = spasm_strongly_connected_components(&H.A); step(); mc_traces++; int ng = (ns + g - 1) / g; EXPECT(P->nb == ng + 1, "%d components, there are %d", P->nb, ng + 1);
	for (int b = 0; b <= ng; b++) { int lo = b ? nt + (b - 1) * g : 0, hi = b ? std::min(w, nt + b * g) : nt; EXPECT(P->r[b] == lo && P->r[b + 1] == hi, "component %d is [%d,%d)", b, P->r[b], P->r[b + 1]); for (int i = lo; i < hi; i++) EXPECT(P->p[i] >= lo && P->p[i] < hi && P->q[i] == P->p[i], "node %d in component %d", P->p[i], b); } state(P->nb);
}
static void blocks(Stream &I, Stream &J, Stream &X, i64 start, const std::vector<std::array<int, 3>> &tail, bool values) { std::vector<int> a, b, c, ta, tb, tc; for (int t = 0; t < 1 << 20; t++) { a.push_back(t >> 10); b.push_back(t & 1023); c.push_back(1); } for (auto &e : tail) { ta.push_back(e[0]); tb.push_back(e[1]); tc.push_back(e[2]); } I = stream(start, 0, a, ta); J = stream(start, 0, b, tb); if (values) X = stream(start, 0, c, tc); }
static void compress(u64 k)
{
	mc_huge_ok = 1; bool values = k % 2; i64 start = B31 - 1024; std::vector<std::array<int, 3>> tail; std::vector<Row> want(6, Row(1024, 0)); for (int e = 0; e < 2600; e++) { int i = (int) (tex(e, 1) % 6), j = (int) (tex(e, 2) % 900), v = (int) R_bal(1 + tex(e, 3) % (PP - 1), PP); if (i == 4) continue; tail.push_back({1024 + i, j, v}); want[i][j] = values ? R_add(want[i][j], R_red(v, PP), PP) : 1; } int e0 = 0; while (want[1][e0]) e0++; tail.push_back({1025, e0, 3}); tail.push_back({1025, e0, -3}); if (!values) want[1][e0] = 1;
	Stream I, J, X; blocks(I, J, X, start, tail, values); struct spasm_triplet T; memset(&T, 0, sizeof T); spasm_field_init(PP, T.field); T.n = 1030; T.m = 1024; T.nz = T.nzmax = start + (i64) tail.size(); T.i = I.base; T.j = J.base; T.x = X.base; describe("%ld triplets", (long) T.nz); mc_heartbeat(); struct spasm_csr *C = spasm_compress(&T); step(); mc_traces++;
	EXPECT(C->n == 1030 && C->m == 1024, "dimensions"); if (!values) EXPECT(C->p[1024] == 1 << 20, "%ld entries in the first rows", (long) C->p[1024]); for (int i = 0; i < 6; i++) expect_row(C, 1024 + i, want[i], "compressed"); state(snap_csr(C)); spasm_csr_free(C); drop(I); drop(J); drop(X);
}
static void scan(u64 k)      // operations that read the whole matrix
{
	mc_huge_ok = 1; auto S = rows((int) k); Huge H; Mat D = dense(S); mc_traces++; bool thor = tier_thorough(); i64 st = thor && k >= 20 ? B32 - 1024 : B31 - 1024; int op = (int) k % 20;
	switch (op) {
	case 0: { build(H, st, 1001, S, true); std::vector<spasm_ZZp> x(H.n), y(W); for (int i = 0; i < H.n; i++) x[i] = R_bal(tex(i, 5) % PP, PP); for (int j = 0; j < W; j++) y[j] = R_bal(tex(j, 6) % PP, PP); auto y0 = y; spasm_xApy(x.data(), &H.A, y.data()); step(); u64 s = 0; for (int i = 1; i < H.nt; i++) s = R_add(s, R_red(x[i], PP), PP); for (int j = 0; j < W; j++) { u64 a = s; if (j >= W - H.len0) a = R_add(a, R_red(x[0], PP), PP); a = R_mul(a, R_red(tval(j), PP), PP); if (j >= 64 && j < 64 + 1001) a = R_add(a, R_red(x[H.nt], PP), PP); if (j < 64) for (int i = 0; i < 6; i++) a = R_add(a, R_mul(R_red(x[H.k0 + i], PP), D[i][j], PP), PP); EXPECT(R_red(y[j], PP) == R_add(R_red(y0[j], PP), a, PP), "x.A + y: column %d", j); } break; }
	case 1: { build(H, st, 1001, S, true); std::vector<spasm_ZZp> x(W), y(H.n, 3); for (int j = 0; j < W; j++) x[j] = R_bal(tex(j, 6) % PP, PP); spasm_Axpy(&H.A, x.data(), y.data()); step(); u64 full = 0, part = 0, fi = 0; for (int j = 0; j < W; j++) { u64 t = R_mul(R_red(x[j], PP), R_red(tval(j), PP), PP); full = R_add(full, t, PP); if (j >= W - H.len0) part = R_add(part, t, PP); if (j >= 64 && j < 64 + 1001) fi = R_add(fi, R_red(x[j], PP), PP); } for (int i = 0; i < H.n; i++) { u64 a = i == 0 ? part : i < H.nt ? full : i == H.nt ? fi : 0; if (i >= H.k0) for (int j = 0; j < 64; j++) a = R_add(a, R_mul(R_red(x[j], PP), D[i - H.k0][j], PP), PP); EXPECT(R_red(y[i], PP) == R_add(3, a, PP), "A.x + y: row %d", i); } break; }
	case 2: case 3: { build(H, st + 1024, 5, S, false); int mode = op - 1; std::string s = bytes_of([&](FILE *f) { spasm_save_pnm(&H.A, f, 1, 1, mode, NULL); }); step(); int want = mode == 1 ? 1 : 0; char b[40]; snprintf(b, 40, mode == 1 ? "P1 1 1 1" : "P2 1 1 255 0"); std::string t; for (char c : s) { bool sp = isspace((unsigned char) c); if (!sp) t += c; else if (!t.empty() && t.back() != ' ') t += ' '; } while (!t.empty() && t.back() == ' ') t.pop_back(); (void) want; EXPECT(t == b, "picture of one pixel for a matrix full of entries: \"%s\", expected \"%s\"", t.c_str(), b); break; }
	case 4: { build(H, st, 1015, S, true); struct spasm_csr *B = spasm_submatrix(&H.A, 0, H.n, 0, W, true); step(); EXPECT(B->n == H.n && spasm_nnz(B) == H.p.back(), "copy has %ld entries, expected %ld", (long) spasm_nnz(B), (long) H.p.back()); EXPECT(B->nzmax >= spasm_nnz(B), "capacity"); for (int i = 0; i < 6; i++) { EXPECT(B->p[H.k0 + i] == H.p[H.k0 + i], "row pointer %d", H.k0 + i); expect_row(B, H.k0 + i, D[i], "copy"); } spasm_csr_free(B); break; }
	case 5: { build(H, st, 1015, S, true); std::vector<int> p(H.n), q(W); for (int i = 0; i < H.n; i++) p[i] = i < H.k0 ? i : H.n - 1 - (i - H.k0); for (int j = 0; j < W; j++) q[j] = j; struct spasm_csr *B = spasm_permute(&H.A, p.data(), q.data(), true); step(); for (int i = 0; i < 6; i++) expect_row(B, H.k0 + i, D[5 - i], "permuted"); EXPECT(spasm_nnz(B) == H.p.back(), "permuted copy has %ld entries", (long) spasm_nnz(B)); spasm_csr_free(B); break; }
	case 6: case 7: { // U and L by hand; tampering must be noticed
		build(H, st, 1015, S, true); std::vector<SRow> u(2); for (int j = 0; j < W; j++) { u[0].push_back({j, tval(j)}); if (j >= W - H.len0) u[1].push_back({j, tval(j)}); } for (int i = 0; i < 6; i++) u.push_back(S[i]); if (op == 7) u[7][3].second += 1; struct spasm_csr *U = small_csr(u, W); std::vector<SRow> l(H.n); for (int i = 0; i < H.n; i++) if (i != H.nt) l[i].push_back({i == 0 ? 1 : i < H.nt ? 0 : 2 + i - H.k0, 1}); struct spasm_csr *L = small_csr(l, 8); std::vector<int> lp = {1, 0}; for (int i = 0; i < 6; i++) lp.push_back(H.k0 + i); struct spasm_lu f; memset(&f, 0, sizeof f); f.U = U; f.L = L; f.p = lp.data(); f.r = 8; bool ok = spasm_factorization_verify(&H.A, &f, 42 + k); step(); EXPECT(ok == (op == 6), "verification says %d", ok); break; }
	case 8: { // certificate for the huge matrix, rank 1 + 1 + 6: built by hand, the kernel combination is what verification recomputes
		build(H, st, 1015, S, true); struct echelonize_opts o; memset(&o, 0, sizeof o); o.enable_greedy_pivot_search = 0; struct spasm_lu f; memset(&f, 0, sizeof f); f.U = spasm_csr_alloc(H.n, W, 4, PP, true); f.U->n = 0; std::vector<int> qinv(W, -1), lp(H.n, -1), p(H.n, -1); f.qinv = qinv.data(); f.p = lp.data(); f.Ltmp = spasm_triplet_alloc(H.n, H.n, 4, PP, true); mc_heartbeat(); int np = spasm_pivots_extract_structural(&H.A, NULL, &f, p.data(), &o); step();
		EXPECT(np >= 1 && f.U->n == np, "%d pivots, %d rows", np, f.U->n); std::vector<char> seen(H.n, 0), dead(W, 0); int obs = 0; for (int t = 0; t < H.n; t++) { EXPECT(p[t] >= 0 && p[t] < H.n && !seen[p[t]], "row permutation"); seen[p[t]] = 1; }
		for (int t = 0; t < np; t++) { int i = p[t]; EXPECT(lp[t] == i && f.Ltmp->i[t] == i && f.Ltmp->j[t] == t, "pivot %d comes from row %d, recorded %d", t, i, lp[t]); i64 a = f.U->p[t]; int pc = f.U->j[a]; EXPECT(f.U->x[a] == 1 && qinv[pc] == t, "row %d does not start with its pivot", t); EXPECT(f.U->p[t + 1] - a == H.p[i + 1] - H.p[i], "row %d has %ld entries", t, (long) (f.U->p[t + 1] - a)); u64 c = R_red(f.Ltmp->x[t], PP); for (i64 e = a; e < f.U->p[t + 1]; e++) EXPECT(!dead[f.U->j[e]], "row %d has an entry on an earlier pivot", t); dead[pc] = 1; if (i >= H.k0) { obs++; Row w = D[i - H.k0]; u64 iv = R_inv(c, PP); for (auto &z : w) z = R_mul(z, iv, PP); expect_row(f.U, t, w, "pivotal row"); } }
		EXPECT(obs >= 3, "only %d of the six short rows are pivotal", obs); spasm_csr_free(f.U); spasm_triplet_free(f.Ltmp); break; }
	case 9: { int shift = 0; auto T = S; for (auto &r : T) for (auto &e : r) e.first += W - 64; build(H, B31 + (1 << 19), 0, T, thor); mc_heartbeat(); struct spasm_csr *B = spasm_transpose(&H.A, true); step(); EXPECT(B->n == W && B->m == H.n && spasm_nnz(B) == H.p.back(), "dimensions"); (void) shift; for (int j = 0; j < 64; j++) { int jj = W - 64 + j; std::vector<std::pair<int, u64>> want; for (int i = 0; i < H.nt; i++) want.push_back({i, R_red(tval(jj), PP)}); for (int i = 0; i < 6; i++) if (D[i][j]) want.push_back({H.nt + i, D[i][j]}); EXPECT(B->p[jj + 1] - B->p[jj] == (i64) want.size(), "row %d of the transpose has %ld entries, expected %zu", jj, (long) (B->p[jj + 1] - B->p[jj]), want.size()); for (size_t e = 0; e < want.size(); e++) { i64 a = B->p[jj] + (i64) e; EXPECT(B->j[a] == want[e].first && (!thor || R_red(B->x[a], PP) == want[e].second), "row %d of the transpose, entry %zu is (%d)", jj, e, B->j[a]); } } spasm_csr_free(B); break; }
	case 10: case 11: { // reduced echelon form of rows that are already reduced; kernel of it
		int sh = 16384, m = W + sh; i64 start = B31 + (op == 11 ? 1 << 20 : 0); std::vector<SRow> T; int nt = (int) ((start + W - 1) / W); for (int i = 0; i < 6; i++) { SRow r = {{nt + i, 1}}; for (int t = 0; t < 7; t++) r.push_back({m - 1 - 5 * t - i, (i64) R_bal(1 + tex(i, t) % (PP - 1), PP)}); T.push_back(r); } build(H, start, 0, T, true, W, 4, sh, m); for (int i = 0; i < nt; i++) { overlay(H.j, H.p[i], {i}); overlay(H.x, H.p[i], {1}); } std::vector<int> qinv(m, -1), rq(m, 7); for (int i = 0; i < H.n; i++) qinv[i] = i; mc_heartbeat();
		if (op == 10) { struct spasm_lu f; memset(&f, 0, sizeof f); f.U = &H.A; f.qinv = qinv.data(); f.r = H.n; struct spasm_csr *R = spasm_rref(&f, rq.data()); step(); EXPECT(R->n == H.n && spasm_nnz(R) == H.p.back(), "%ld entries, expected %ld", (long) spasm_nnz(R), (long) H.p.back()); for (int i = 0; i < 6; i++) { int r = nt + i; EXPECT(rq[r] == r, "pivot of column %d is on row %d", r, rq[r]); EXPECT(R->p[r] == H.p[r] && R->j[R->p[r]] == r && R->x[R->p[r]] == 1, "row %d", r); Row w(m, 0); for (auto &e : T[i]) w[e.first] = R_red(e.second, PP); expect_row(R, r, w, "reduced"); } spasm_csr_free(R);
		} else { struct spasm_csr *K = spasm_kernel_from_rref(&H.A, qinv.data()); step(); EXPECT(K->n == m - H.n && K->m == m, "%d kernel vectors", K->n); for (int t = 0; t < 40; t++) { int j = m - 1 - t; i64 a = K->p[K->n - 1 - t], b = K->p[K->n - t]; std::vector<std::pair<int, int>> want = {{j, -1}}; for (int i = 0; i < nt; i++) want.push_back({i, tval(j - sh)}); for (int i = 0; i < 6; i++) for (auto &e : T[i]) if (e.first == j) want.push_back({nt + i, (int) e.second}); EXPECT(b - a == (i64) want.size(), "kernel vector of column %d has %ld entries, expected %zu", j, (long) (b - a), want.size()); for (size_t e = 0; e < want.size(); e++) EXPECT(K->j[a + e] == want[e].first && K->x[a + e] == want[e].second, "kernel vector of column %d: entry %zu is (%d,%d), expected (%d,%d)", j, e, K->j[a + e], K->x[a + e], want[e].first, want[e].second); } spasm_csr_free(K); } break; }
	case 16: { // elimination row by row: the basis grows beyond entry 2^31, the last rows use each other
		int sh = 16384, m = W + sh, nt = 8192; std::vector<SRow> T; std::vector<std::map<int, u64>> R(6); for (int i = 0; i < 6; i++) { SRow r = {{nt + i, 3 + i}}; if (i) r.push_back({nt + i - 1, (i64) R_bal(1 + tex(i, 77) % (PP - 1), PP)}); for (int t = 0; t < 7; t++) r.push_back({m - 1 - 5 * t - i, (i64) R_bal(1 + tex(i, t) % (PP - 1), PP)}); T.push_back(r); for (auto &e : r) R[i][e.first] = R_red(e.second, PP); if (i) { u64 c = R[i][nt + i - 1]; for (auto &e : R[i - 1]) R[i][e.first] = R_sub(R[i][e.first], R_mul(c, e.second, PP), PP); } u64 iv = R_inv(R[i][nt + i], PP); for (auto &e : R[i]) e.second = R_mul(iv, e.second, PP); }
		build(H, B31, 0, T, true, W, 4, sh, m); for (int i = 0; i < nt; i++) { overlay(H.j, H.p[i], {i}); overlay(H.x, H.p[i], {1}); } auto o = opt_base(); o.max_round = 0; o.enable_dense = 0; o.enable_tall_and_skinny = 0; o.enable_GPLU = 1; mc_heartbeat(); struct spasm_lu *f = spasm_echelonize(&H.A, &o); step(); struct spasm_csr *U = f->U; EXPECT(f->r == H.n && U->n == H.n, "rank %d, expected %d", f->r, H.n);
		for (int i = 0; i < nt; i += 511) EXPECT(U->p[i] == (i64) i * W && f->qinv[i] == i, "row %d starts at %ld", i, (long) U->p[i]); for (int i = 0; i < 6; i++) { Row w(m, 0); for (auto &e : R[i]) w[e.first] = e.second; EXPECT(f->qinv[nt + i] == nt + i && U->j[U->p[nt + i]] == nt + i && U->x[U->p[nt + i]] == 1, "pivot of row %d", nt + i); expect_row(U, nt + i, w, "echelonised"); } spasm_lu_free(f); break; }
	case 17: { // Dulmage-Mendelsohn: horizontal part of 2^31 entries, square and vertical parts behind it
		int c = W - 64, nt = 8192; std::vector<SRow> T = {{{c, 1}, {c + 1, 1}}, {{c + 1, 1}, {c, 1}}, {{c + 2, 1}, {c, 1}}, {{c + 3, 1}, {c + 2, 1}}, {{c + 4, 1}}, {{c + 5, 1}, {c + 4, 1}}, {{c + 4, 1}, {c + 5, 1}}}; build(H, B31, 0, T, false); mc_heartbeat(); struct spasm_dm *d = spasm_dulmage_mendelsohn(&H.A); step(); int n = H.n;
		static const int rr[5] = {0, 8192, 8196, 8198, 8199}; int cc[5] = {0, W - 6 - nt, W - 6, W - 2, W}; for (int t = 0; t < 5; t++) EXPECT(d->rr[t] == rr[t] && d->cc[t] == cc[t], "coarse block %d starts at (%d,%d), expected (%d,%d)", t, d->rr[t], d->cc[t], rr[t], cc[t]); std::vector<char> sr(n, 0), sc(W, 0); for (int i = 0; i < n; i++) { int o = d->p[i]; EXPECT(o >= 0 && o < n && !sr[o], "row order"); sr[o] = 1; EXPECT((i < 8192) == (o < nt) && (i < 8196) == (o < nt + 4), "row %d is in the wrong part", o); } for (int j = 0; j < W; j++) { int o = d->q[j]; EXPECT(o >= 0 && o < W && !sc[o], "column order"); sc[o] = 1; int part = o >= c && o < c + 4 ? 2 : o == c + 4 || o == c + 5 ? 3 : 1; EXPECT(part == (j >= cc[3] ? 3 : j >= cc[2] ? 2 : 1), "column %d is in the wrong part", o); }
		EXPECT(d->nb == 5, "%d fine blocks, expected 5", d->nb); int sz[3] = {d->r[2] - d->r[1], d->r[3] - d->r[2], d->r[4] - d->r[3]}; std::sort(sz, sz + 3); EXPECT(sz[0] == 1 && sz[1] == 1 && sz[2] == 2 && d->r[1] == 8192 && d->r[4] == 8196, "fine blocks"); spasm_dm_free(d); break; }
	case 18: { // dense finishing behind a basis that already holds more than 2^31 entries
		int sh = 16384, m = W + sh, nt = 8192; static const int C0[2] = {0, 10}; std::vector<SRow> T; Mat G(6, 13, PP); for (int i = 0; i < 6; i++) { SRow r; for (int t = 0; t < 3; t++) { i64 v = i == 5 ? 2 * T[3][t].second + T[4][t].second : (i64) 2 + (i * 5 + t * t * (i + 2)) % 40; r.push_back({C0[i / 3] + t, v}); G[i][C0[i / 3] + t] = R_red(v, PP); } T.push_back(r); }
		build(H, B31, 0, T, true, W, 4, sh, m); for (int i = 0; i < nt; i++) { overlay(H.j, H.p[i], {i + 16}); overlay(H.x, H.p[i], {1}); } auto o = opt_base(); o.max_round = 1; o.min_pivot_proportion = 0; o.sparsity_threshold = -1; o.dense_block_size = 3; o.enable_tall_and_skinny = 0; mc_heartbeat(); struct spasm_lu *f = spasm_echelonize(&H.A, &o); step(); struct spasm_csr *U = f->U; int r = R_rank(G); EXPECT(f->r == nt + r && U->n == nt + r, "rank %d, expected %d", f->r, nt + r);
		for (int i = 0; i < nt; i += 511) { int u = f->qinv[i + 16]; EXPECT(u >= 0 && u < U->n && U->p[u + 1] - U->p[u] == W && U->x[U->p[u]] == 1, "basis row with the pivot on column %d", i + 16); for (i64 e = U->p[u] + 1; e < U->p[u + 1]; e += 1013) EXPECT(U->j[e] > sh - 1 && U->x[e] == tval(U->j[e] - sh), "entry (%d,%d)", u, U->j[e]); }
		Mat B(0, 13, PP); for (int j = 0; j < 13; j++) { int u = f->qinv[j]; if (u < 0) continue; EXPECT(U->j[U->p[u]] == j && U->x[U->p[u]] == 1, "pivot of column %d", j); Row w(13, 0); for (i64 e = U->p[u]; e < U->p[u + 1]; e++) { int c = U->j[e]; EXPECT(c >= 0 && c < 13, "basis row %d has an entry on column %d", u, U->j[e]); w[c] = R_add(w[c], R_red(U->x[e], PP), PP); } B.a.push_back(w); B.n++; } EXPECT(B.n == r, "%d pivots on the last columns, expected %d", B.n, r); R_rref(B); R_rref(G); EXPECT(B.a == G.a, "the last rows span another space"); spasm_lu_free(f); break; }
	case 12: case 13: compress(op); break;
	case 14: case 15: graph(op - 14); break;
	default: outcome("unused"); return;
	}
	state(k + 1);
}
// a dense block: all but its last bytes are one window of 16 MB mapped again and again; nothing is mapped on either side
static char *block(size_t bytes, char *&res, size_t &len)
{
	size_t win = 1 << 24, gap = (size_t) 1 << 35, tail = win; bytes = (bytes + 4095) / 4096 * 4096; len = bytes + 2 * gap; res = (char *) mmap(NULL, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (res == MAP_FAILED) violation("harness: reservation");
	int fd = memfd_create("mcb", 0); if (fd < 0 || ftruncate(fd, win)) violation("harness: memfd"); char *b = res + gap; size_t o = 0; while (o + tail < bytes) { size_t c = std::min(win, bytes - tail - o); if (mmap(b + o, c, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) violation("harness: map"); o += c; }
	if (mmap(b + o, bytes - o, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_ANONYMOUS, -1, 0) == MAP_FAILED) violation("harness: map"); close(fd); return b;
}
static void dense_block(u64 k)      // dense blocks of more than 2^31 / 2^32 entries
{
	static const spasm_datatype T[3] = {SPASM_FLOAT, SPASM_DOUBLE, SPASM_I64}; Ix x(k); spasm_datatype t = T[x.take(3)]; int op = x.take(3), N = t == SPASM_FLOAT ? 66000 : 46400, Sm = N, m = Sm + 3; size_t es = spasm_datatype_size(t); char *res; size_t len; char *S = block((size_t) N * Sm * es, res, len); mc_traces++; auto R = rows((int) k); Mat D = dense(R); describe("%d x %d block of %zu-byte entries, operation %d", N, Sm, es, op);
	auto at = [&](i64 i, i64 j) { size_t e = (size_t) i * Sm + j; return t == SPASM_FLOAT ? (i64) ((float *) S)[e] : t == SPASM_DOUBLE ? (i64) ((double *) S)[e] : ((i64 *) S)[e]; };
	Mat U(3, 64, PP); for (int i = 0; i < 3; i++) U[i] = D[i]; std::vector<int> piv(PIV, PIV + 3), qinv(m, -1), q(Sm, -1); for (int i = 0; i < 3; i++) qinv[PIV[i]] = i; struct spasm_csr *sU = small_csr({R[0], R[1], R[2]}, m); std::vector<Row> rem(3), mul(3); for (int i = 0; i < 3; i++) eliminate(U, piv, D[3 + i], rem[i], mul[i]);
	if (op == 0) { std::vector<SRow> a(N); for (int i = 0; i < 3; i++) a[i] = R[3 + i]; struct spasm_csr *A = small_csr(a, m); std::vector<int> p(N), po(N, -1); for (int i = 0; i < N; i++) p[i] = N - 1 - i; struct spasm_lu f; memset(&f, 0, sizeof f); f.U = sU; f.qinv = qinv.data(); struct spasm_triplet *L = spasm_triplet_alloc(N, N, 1, PP, true); f.Ltmp = L; mc_heartbeat(); spasm_schur_dense(A, p.data(), N, NULL, &f, S, t, q.data(), po.data()); step();
		for (int i = 0; i < N; i++) EXPECT(po[i] == p[i], "row %d claims to come from %d", i, po[i]); for (int i = 0; i < 3; i++) for (int j = 0; j < Sm; j++) { u64 w = q[j] < 64 ? rem[i][q[j]] : 0; EXPECT(R_red(at(N - 1 - i, j), PP) == w, "row %d, column %d is %ld, expected %d", N - 1 - i, j, (long) at(N - 1 - i, j), R_bal(w, PP)); } Mat M(3, 3, PP); for (i64 e = 0; e < L->nz; e++) { EXPECT(L->i[e] >= 0 && L->i[e] < 3 && L->j[e] >= 0 && L->j[e] < 3, "multiplier at (%d,%d)", L->i[e], L->j[e]); M[L->i[e]][L->j[e]] = R_red(L->x[e], PP); } for (int i = 0; i < 3; i++) EXPECT(M[i] == mul[i], "multipliers of row %d", i);
	} else { struct spasm_csr *A = small_csr({R[3], R[4], R[5]}, m); int p[3] = {2, 0, 1}; rand_script({0, 1, 2, 5, 4}, true); mc_heartbeat(); spasm_schur_dense_randomized(A, p, 3, sU, qinv.data(), S, t, q.data(), N, op == 1 ? 0 : 2); step(); Mat Z(3, 64, PP); for (int i = 0; i < 3; i++) Z[i] = rem[i]; int rk = R_rank(Z);
		for (int i = N - 3; i < N; i++) { Mat Y = Z; Row r(64, 0); bool nz = false; for (int j = 0; j < Sm; j++) { u64 e = R_red(at(i, j), PP); EXPECT(e == 0 || q[j] < 64, "combination %d has an entry on column %d", i, q[j]); if (e) { r[q[j]] = e; nz = true; } } EXPECT(nz || op == 2, "combination %d is empty", i); Y.a.push_back(r); Y.n++; EXPECT(R_rank(Y) == rk, "combination %d is outside of the row space", i); } }
	{ size_t e = (size_t) N * Sm - 1; spasm_datatype_write(S, e, t, -4711); EXPECT(at(N - 1, Sm - 1) == -4711 && spasm_datatype_read(S, e, t) == -4711, "reading and writing entry %zu", e); } state(hmix(k, spasm_nnz(sU))); munmap(res, len);
}
static void room(u64 k)      // room for more than 2^31 multipliers
{
	mc_huge_ok = 1; int n = k == 0 ? 46400 : 66000, r = n, m = r + 3; std::vector<SRow> u(r), a(n); for (int i = 0; i < r; i++) { u[i] = {{i, 1}, {r + i % 3, 1 + i % 7}}; } for (int i = 0; i < n; i++) if (i % 977 == 0 || i > n - 4) a[i] = {{(i * 7 + 1) % r, 5 + i % 11}, {(i * 3 + 2) % r == (i * 7 + 1) % r ? r : (i * 3 + 2) % r, -9}, {r + 1, 2}}; for (auto &q : a) if (!q.empty() && q[1].first == r + 1) q.pop_back();
	struct spasm_csr *U = small_csr(u, m), *A = small_csr(a, m); std::vector<int> qinv(m, -1), p(n), po(n, -1), q(3, -1); for (int i = 0; i < r; i++) qinv[i] = i; for (int i = 0; i < n; i++) p[i] = n - 1 - i; struct spasm_lu f; memset(&f, 0, sizeof f); f.U = U; f.qinv = qinv.data(); f.Ltmp = spasm_triplet_alloc(n, r, 2, PP, true); struct spasm_triplet *L = f.Ltmp; std::vector<double> S((size_t) n * 3, -1); describe("%d rows, %d pivots", n, r); mc_heartbeat(); Outcome oc = guarded([&] { spasm_schur_dense(A, p.data(), n, NULL, &f, S.data(), SPASM_DOUBLE, q.data(), po.data()); step(); }); mc_traces++; EXPECT(oc.kind == Outcome::OK, "elimination ends in %s (%s)", oc.name(), oc.msg);
	std::map<std::pair<int, int>, u64> M; for (i64 e = 0; e < L->nz; e++) { EXPECT(L->x[e] != 0, "zero multiplier"); EXPECT(M.insert({{L->i[e], L->j[e]}, R_red(L->x[e], PP)}).second, "multiplier (%d,%d) appears twice", L->i[e], L->j[e]); } size_t total = 0;
	for (int i = 0; i < n; i++) { int o = p[i]; EXPECT(po[i] == o, "row map"); u64 w[3] = {0, 0, 0}; for (auto &e : a[o]) { u64 v = R_red(e.second, PP); if (e.first >= r) w[e.first - r] = R_add(w[e.first - r], v, PP); else { u64 &z = w[e.first % 3]; z = R_sub(z, R_mul(v, 1 + e.first % 7, PP), PP); auto it = M.find({o, e.first}); EXPECT(it != M.end() && it->second == v, "multiplier (%d,%d)", o, e.first); total++; } } for (int j = 0; j < 3; j++) EXPECT(R_red((i64) S[(size_t) i * 3 + j], PP) == w[q[j] - r], "row %d, column %d", o, q[j]); } EXPECT(total == M.size(), "%zu multipliers, expected %zu", M.size(), total); state(hmix(k, total)); spasm_triplet_free(L); spasm_csr_free(U); spasm_csr_free(A);
}
static void dense_room(u64 k)      // room for more than 2^31 entries asked for when echelonised dense rows go to the basis
{
	mc_huge_ok = 1; const u64 p = k == 0 ? 257 : 8191; const int n = k == 0 ? 100 : 180, per = 4, m = k == 0 ? 21600000 : 12000000; struct spasm_csr *A = spasm_csr_alloc(n, m, n * per, p, true); i64 z = 0; for (int i = 0; i < n; i++) { for (int t = 0; t < per; t++) { A->j[z] = (int) ((i64) m / per * t + (i64) (i * 7 + 3) % n + (t == 3 ? m / per - n : 0)); A->x[z++] = R_bal(1 + tex(i, t, k) % (p - 1), p); } A->p[i + 1] = z; }
	auto o = opt_base(); o.max_round = 0; o.sparsity_threshold = -1; o.dense_block_size = n; o.enable_tall_and_skinny = 0; describe("%d x %d, %d entries per row, mod %lu", n, m, per, (unsigned long) p); mc_heartbeat(); struct spasm_lu *f = NULL; Outcome oc = guarded([&] { f = spasm_echelonize(A, &o); }); step(); mc_traces++; EXPECT(oc.kind == Outcome::OK && f, "echelonisation ends in %s (%s)", oc.name(), oc.msg); EXPECT(f->r == n && f->U->n == n, "rank %d, expected %d", f->r, n);
	std::map<int, std::pair<int, int>> at; for (int i = 0; i < n; i++) for (i64 e = A->p[i]; e < A->p[i + 1]; e++) at[A->j[e]] = {i, A->x[e]};
	std::vector<char> seen(n, 0); const struct spasm_csr *U = f->U; for (int u = 0; u < n; u++) { i64 e0 = U->p[u]; EXPECT(U->p[u + 1] - e0 == per && U->x[e0] == 1 && f->qinv[U->j[e0]] == u && at.count(U->j[e0]), "basis row %d", u); auto pv = at[U->j[e0]]; EXPECT(!seen[pv.first], "row %d appears twice", pv.first); seen[pv.first] = 1; u64 iv = R_inv(R_red(pv.second, p), p); for (i64 e = e0; e < U->p[u + 1]; e++) { auto it = at.find(U->j[e]); EXPECT(it != at.end() && it->second.first == pv.first && R_red(U->x[e], p) == R_mul(iv, R_red(it->second.second, p), p), "basis row %d, column %d", u, U->j[e]); } }
	state(snap_csr(U)); spasm_lu_free(f); spasm_csr_free(A);
}
static void block_size(u64 k)      // block sizes that ask for more room than 32-bit products can tell
{
	mc_huge_ok = 1; static const int BS[] = {1 << 20, (1 << 22) + 1, 357913942, 536870912, 1 << 30, INT_MAX}; static const u64 P[3] = {257, 42013, 2147483659}; Ix x(k); int bs = BS[x.take(6)], mode = x.take(4); u64 p = P[x.take(3)]; int n = 13, m = 6; Mat A(n, m, p); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) A[i][j] = R_red((i64) ((i % 4 + 1) * (j + 2) + (i % 3) * j * j + (i % 4) * (i % 4) * (j % 3)), p);
	auto o = opt_base(); o.dense_block_size = bs; o.max_round = 0; o.sparsity_threshold = -1; o.L = mode >= 2; o.complete = mode == 3; if (mode == 1) { o.tall_and_skinny_ratio = 0; } else o.enable_tall_and_skinny = 0; describe("%s %s", R_str(A).c_str(), opt_str(o).c_str()); struct spasm_csr *C = to_csr(A, 0); Outcome oc = guarded([&] { struct spasm_lu *f = spasm_echelonize(C, &o); step(); check_echelon(A, f->U, f->qinv, "echelonize"); if (o.L) check_lu(A, f, o.complete, "LU"); state(hmix(snap_csr(f->U), k)); }); mc_traces++; EXPECT(oc.kind == Outcome::OK, "echelonisation ends in %s (%s)", oc.name(), oc.msg);
}
static void many_solutions(u64 k)      // more than 2^31 unknowns in one batch
{
	mc_huge_ok = 1; int n = k == 1 ? 1 << 20 : 1 << 21, b = k == 0 ? 1 << 11 : k == 1 ? 2049 : 1031; struct spasm_csr *U = small_csr({{{0, 1}}}, 1), *L = spasm_csr_alloc(n, 1, n, PP, true); for (int i = 0; i < n; i++) { L->j[i] = 0; L->x[i] = 1 + i % 7; L->p[i + 1] = i + 1; } int qinv[1] = {0}, lp[1] = {n - 3}; struct spasm_lu f; memset(&f, 0, sizeof f); f.U = U; f.L = L; f.r = 1; f.qinv = qinv; f.p = lp; std::vector<SRow> B(b); for (int i = 0; i < b; i++) if (i % 5) B[i].push_back({0, 1 + i % 50}); struct spasm_csr *Bc = small_csr(B, 1); bool *ok = (bool *) calloc(b, 1); describe("%d right-hand sides, %d unknowns", b, n); mc_heartbeat();
	struct spasm_csr *X = NULL; Outcome oc = guarded([&] { X = spasm_gesv(&f, Bc, ok); }); step(); mc_traces++; EXPECT(oc.kind == Outcome::OK && X, "solving ends in %s (%s)", oc.name(), oc.msg); EXPECT(X->n == b && X->m == n, "solutions are %d x %d", X->n, X->m); for (int i = 0; i < b; i++) { EXPECT(ok[i], "row %d has no solution", i); u64 s = 0; for (i64 e = X->p[i]; e < X->p[i + 1]; e++) { EXPECT(X->j[e] >= 0 && X->j[e] < n, "unknown %d", X->j[e]); s = R_add(s, R_mul(R_red(X->x[e], PP), 1 + X->j[e] % 7, PP), PP); } EXPECT(s == (i % 5 ? 1 + i % 50 : 0), "solution %d is wrong", i); } state(hmix(k, spasm_nnz(X))); spasm_csr_free(X); free(ok);
}
void harness_register()
{
	family("local", 7 * NCF * 4, local, {false, 800, "observed rows around 2^31 / 2^32 x operations on them"});
	family("matching", NCF, matching, {false, 800, "every row matched"});
	family("growth", 2 * 2 * 2 * 6, growth, {false, 800, "capacity and count around 2^31 / 2^32"});
	static const int Q[20] = {11, 16, 18, 10, 17, 3, 9, 0, 1, 5, 2, 7, 6, 12, 13, 14, 4, 19, 15, 8};
	family("scan", 20, [](u64 k) { scan(Q[k]); }, {false, 800, "operations over more than 2^31 entries"});
	family("dense-blocks", 9, dense_block, {false, 800, "dense Schur complements and random combinations of more than 2^31 / 2^32 entries, three storage types"});
	family("multipliers", 2, room, {false, 800, "room for more than 2^31 / 2^32 multipliers"});
	family("dense-room", 2, dense_room, {true, 800, "dense blocks whose echelon form may need more than 2^31 entries"});
	family("block-sizes", 6 * 4 * 3, block_size, {false, 800, "dense elimination with huge block sizes: room of more than 2^31 entries or 2^32 bytes"});
	family("many-solutions", 3, many_solutions, {false, 800, "2^31 to 2^32 unknowns in one batch of right-hand sides"});
	family("scan-2^32", 8, [](u64 k) { scan(20 + k); }, {true, 800, "products, pictures, copies and verification over more than 2^32 entries"});
}
