// C04: reading and writing matrix files.
#include "algo.h"
#include "refhash.h"
#include "wfault.h"
#include <map>
#include "sweep.h"
#include "big.h"
const char *harness_property = "C04";
const char *harness_assumptions[] = {"text files without NUL bytes and with lines of at most 1022 characters (longer lines may be refused)", "text after the end of the content is reported by a warning and otherwise ignored: accepting or refusing it are both allowed, the matrix must be the one described before it",
	"values outside 64 bits, blank lines, signs written as +, and CRLF line ends may be refused or read exactly", "one thread", NULL};
// ---- what a byte string describes
struct Ref { enum { BAD, MAYBE, GOOD } k = BAD; i64 n = 0, m = 0; std::map<std::pair<i64, i64>, u64> a; std::string why; };
static std::vector<std::string> words(const std::string &l) { std::vector<std::string> t; size_t k = 0; while (k < l.size()) { while (k < l.size() && isspace((unsigned char) l[k])) k++; size_t b = k; while (k < l.size() && !isspace((unsigned char) l[k])) k++; if (k > b) t.push_back(l.substr(b, k - b)); } return t; }
// decimal integer; loose: written in an unusual but unambiguous way
static bool integer(const std::string &w, bool &neg, std::string &digits, bool &loose) { size_t q = w[0] == '-' || w[0] == '+'; neg = w[0] == '-'; if (w[0] == '+') loose = true; if (q == w.size()) return false; for (size_t z = q; z < w.size(); z++) if (!isdigit((unsigned char) w[z])) return false; digits = w.substr(q); while (digits.size() > 1 && digits[0] == '0') { digits.erase(0, 1); loose = true; } return true; }
static bool small(const std::string &w, i64 &v, bool &loose) { bool neg; std::string d; if (!integer(w, neg, d, loose) || d.size() > 10) return false; v = atoll(d.c_str()); if (neg) v = -v; return -0x7fffffffL <= v && v <= 0x7fffffffL; }
static u64 residue(const std::string &d, bool neg, u64 p) { u64 r = 0; for (char c : d) r = (u64) (((unsigned __int128) r * 10 + (c - '0')) % p); return neg && r ? p - r : r; }
static std::string lower(std::string s) { for (auto &c : s) c = tolower((unsigned char) c); return s; }
static Ref ref_read(const std::string &s, i64 prime)
{
	Ref R; bool loose = false; std::vector<std::string> L; size_t k = 0; while (k < s.size()) { size_t e = s.find('\n', k); if (e == std::string::npos) e = s.size(); L.push_back(s.substr(k, e - k)); k = e + 1; }
	auto bad = [&](const char *w) { R.k = Ref::BAD; R.why = w; return R; };
	for (auto &l : L) { if (l.size() > 1022) loose = true; if (!l.empty() && l.back() == '\r') loose = true; } if (L.empty()) return bad("empty");
	size_t l = 0; bool mm = false; i64 nnz = -1;
	if (L[0].compare(0, 14, "%%MatrixMarket") == 0) {
		mm = true; std::string h = L[0]; if (h.size() > 14 && !isspace((unsigned char) h[14])) { h.insert(14, " "); loose = true; } auto t = words(h); if (t.size() < 5) return bad("header"); if (t.size() > 5) loose = true;
		if (lower(t[1]) != "matrix" || lower(t[2]) != "coordinate" || lower(t[3]) != "integer" || lower(t[4]) != "general") return bad("kind"); l = 1; while (l < L.size() && (!L[l].empty() && L[l][0] == '%')) l++;
		while (l < L.size() && words(L[l]).empty()) { l++; loose = true; } if (l == L.size()) return bad("no dimensions"); auto d = words(L[l++]); if (d.size() != 3) return bad("dimensions"); i64 z; if (!small(d[0], R.n, loose) || !small(d[1], R.m, loose) || !small(d[2], z, loose)) return bad("dimensions"); nnz = z; if (R.n < 0 || R.m < 0 || nnz < 0) return bad("negative dimension");
	} else {
		auto t = words(L[0]); l = 1; if (t.size() < 3) return bad("header"); if (t.size() > 3) loose = true; if (!small(t[0], R.n, loose) || !small(t[1], R.m, loose) || R.n < 0 || R.m < 0) return bad("dimensions"); if (t[2] != "M") { if (prime != -1 && t[2][0] != 'M') return bad("type"); loose = true; }
	}
	if (R.n > 1000000 || R.m > 1000000) loose = true;
	u64 p = prime == -1 ? 0 : prime; i64 cnt = 0; bool end = mm && nnz == 0;
	for (; l < L.size() && !end; l++) {
		auto t = words(L[l]); if (t.empty() || (mm && L[l][0] == '%')) { loose = true; continue; }
		i64 i, j; bool neg; std::string d; if (t.size() < 3) return bad("short line"); if (!small(t[0], i, loose) || !small(t[1], j, loose)) return bad("index");
		if (prime == -1) { if (t.size() != 3 || !integer(t[2], neg, d, loose)) loose = true; if (!isdigit((unsigned char) t[2][0]) && t[2].size() < 2) return bad("value"); if (!isdigit((unsigned char) t[2][0]) && !isdigit((unsigned char) t[2][1])) return bad("value"); }
		else { if (t.size() != 3) return bad("long line"); if (!integer(t[2], neg, d, loose)) return bad("value"); if (d.size() > 18 && (d.size() > 19 || (!neg && d > "9223372036854775807") || (neg && d > "9223372036854775808"))) loose = true; }
		if (i == 0 && j == 0) { if (!mm && (prime == -1 ? atoll(t[2].c_str()) == 0 : d == "0")) { end = true; continue; } return bad("index"); }
		if (i < 1 || j < 1 || i > R.n || j > R.m) return bad("index outside the matrix"); u64 &e = R.a[{i - 1, j - 1}]; if (prime == -1) e = 1; else e = R_add(e, residue(d, neg, p), p); cnt++; if (mm && cnt == nnz) end = true;
	}
	if (!end) return bad("incomplete"); for (; l < L.size(); l++) loose = true; R.k = loose ? Ref::MAYBE : Ref::GOOD; return R;
}
struct Feed { const char *b; size_t n, pos, chunk; long fail; int eno; };
static FILE *feed(Feed *d) { cookie_io_functions_t io; memset(&io, 0, sizeof io); io.read = [](void *c, char *o, size_t k) -> ssize_t { Feed *d = (Feed *) c; if (d->fail >= 0 && d->pos >= (size_t) d->fail) { errno = d->eno; return -1; } size_t q = std::min({k, d->chunk, d->n - d->pos}); if (d->fail >= 0) q = std::min(q, (size_t) d->fail - d->pos); memcpy(o, d->b + d->pos, q); d->pos += q; return q; }; return fopencookie(d, "r", io); }
static void cmp(const struct spasm_triplet *T, const Ref &R, i64 prime, const std::string &s)
{
	EXPECT(T->n == R.n && T->m == R.m, "read as a %dx%d matrix, the file says %ldx%ld", T->n, T->m, (long) R.n, (long) R.m); EXPECT(T->nz >= 0 && T->nz <= T->nzmax, "%ld entries, capacity %ld", (long) T->nz, (long) T->nzmax); EXPECT((T->x != NULL) == (prime != -1), "values %s", T->x ? "loaded although not requested" : "not loaded"); if (prime != -1) EXPECT(T->field->p == prime, "modulus");
	std::map<std::pair<i64, i64>, u64> a; for (i64 k = 0; k < T->nz; k++) { EXPECT(T->i[k] >= 0 && T->i[k] < T->n && T->j[k] >= 0 && T->j[k] < T->m, "entry outside the matrix"); u64 &e = a[{T->i[k], T->j[k]}]; if (T->x) { EXPECT(R_canon(T->x[k], prime), "value %d is not canonical", T->x[k]); e = R_add(e, R_red(T->x[k], prime), prime); } else e = 1; }
	for (auto &e : R.a) { auto it = a.find(e.first); u64 v = it == a.end() ? 0 : it->second; EXPECT(v == e.second, "entry (%ld,%ld) read as %lu, the file says %lu mod %ld", (long) e.first.first + 1, (long) e.first.second + 1, (unsigned long) v, (unsigned long) e.second, (long) prime); }
	for (auto &e : a) if (e.second) EXPECT(R.a.count(e.first), "entry (%ld,%ld) is not in the file", (long) e.first.first + 1, (long) e.first.second + 1);
}
static void judge(const std::string &s, i64 prime, size_t chunk, long fail, bool hash, int eno = EIO)
{
	Ref R = ref_read(s, prime); if (want_sample()) { std::string e = s.substr(0, 300); describe_clear(); describe("file \"%s\" mod %ld, %zu bytes at a time%s", e.c_str(), (long) prime, chunk, fail >= 0 ? (" read error at " + std::to_string(fail)).c_str() : ""); }
	Feed d = {s.data(), s.size(), 0, chunk, fail, eno}; FILE *f = feed(&d); u8 h[32]; memset(h, 0x77, 32); struct spasm_triplet *volatile T = NULL; Outcome o = guarded([&] { T = spasm_triplet_load(f, prime, hash ? h : NULL); }); step(); fclose(f); mc_traces++;
	const char *oc; 
	if (o.kind != Outcome::OK) { EXPECT(o.reported() || o.kind == Outcome::ASSERT, "loading ended by %s (status %d): %s", o.name(), o.code, o.msg); if (fail < 0) EXPECT(R.k != Ref::GOOD, "a well-formed file is refused (%s): %s", o.msg, s.substr(0, 300).c_str()); oc = fail >= 0 ? "read error reported" : R.k == Ref::MAYBE ? "unusual file refused" : "malformed file refused"; }
	else {
		EXPECT(fail < 0 || fail > (long) s.size(), "a read error at byte %ld went unnoticed: %s", fail, s.substr(0, 300).c_str()); EXPECT(T != NULL, "no result"); EXPECT(R.k != Ref::BAD, "malformed file accepted (%s), %dx%d with %ld entries: %s", R.why.c_str(), T->n, T->m, (long) T->nz, s.substr(0, 300).c_str()); cmp(T, R, prime, s);
		if (hash) { Digest D = R_sha256((const u8 *) s.data(), s.size()); EXPECT(!memcmp(h, D.data(), 32), "reported digest is not the SHA-256 of the file"); } else for (int b = 0; b < 32; b++) EXPECT(h[b] == 0x77, "hash written although not requested"); oc = R.k == Ref::GOOD ? "read" : "unusual file read exactly"; spasm_triplet_free(T);
	}
	outcome(oc); state(hmix(hash_bytes(s.data(), s.size(), prime), hmix(o.kind, fail)));
}
static std::string sms(const Mat &A, int order, bool last = true, i64 lift = 0) { std::string s = std::to_string(A.n) + " " + std::to_string(A.m) + " M\n"; std::vector<std::string> e; for (int i = 0; i < A.n; i++) for (int j = 0; j < A.m; j++) if (A[i][j]) e.push_back(std::to_string(i + 1) + " " + std::to_string(j + 1) + " " + std::to_string(R_bal(A[i][j], A.p) + lift * (i64) A.p) + "\n"); if (order == 1) std::reverse(e.begin(), e.end()); if (order == 2 && e.size() > 1) std::swap(e[0], e[e.size() / 2]); for (auto &t : e) s += t; return s + (last ? "0 0 0\n" : "0 0 0"); }
static std::string mtx(const Mat &A, int order, int style, i64 lift = 0) { std::vector<std::string> e; for (int i = 0; i < A.n; i++) for (int j = 0; j < A.m; j++) if (A[i][j]) e.push_back(std::to_string(i + 1) + " " + std::to_string(j + 1) + " " + std::to_string(R_bal(A[i][j], A.p) + lift * (i64) A.p)); if (order == 1) std::reverse(e.begin(), e.end()); std::string s = style & 1 ? "%%MatrixMarket MATRIX Coordinate integer General\n" : "%%MatrixMarket matrix coordinate integer general\n"; if (style & 2) s += "% a comment\n%\n%%another 1 2 3\n"; s += std::to_string(A.n) + " " + std::to_string(A.m) + " " + std::to_string(e.size()) + "\n"; for (size_t k = 0; k < e.size(); k++) s += e[k] + (k + 1 == e.size() && (style & 4) ? "" : "\n"); return s; }
static const std::vector<i64> v3 = {0, 1, -1};
static const i64 LIFT[] = {0, 1, -1, 1000003, -2147483647};
static std::vector<std::string> base_files()
{
	std::vector<std::string> F; Mat A(3, 4, 42013); A[0][0] = 17; A[0][3] = 42012; A[2][1] = 20000; A[1][2] = 1; F.push_back(sms(A, 0)); F.push_back(mtx(A, 0, 0)); F.push_back(mtx(A, 1, 2 | 4)); F.push_back(sms(A, 2, false)); Mat Z(2, 3, 42013); F.push_back(sms(Z, 0)); F.push_back(mtx(Z, 0, 0)); F.push_back("2 2 M\n1 1 9223372036854775807\n2 2 -9223372036854775808\n0 0 0\n"); F.push_back("3 3 M\n1 1 5\n1 1 -5\n3 3 7\n3 3 7\n0 0 0\n"); F.push_back("0 0 M\n0 0 0\n"); F.push_back("12 15 M\n12 15 123456\n10 11 -1\n0 0 0\n"); return F;
}
static void roundtrip(const Mat &A, int ord, size_t chunk)
{
	if (want_sample()) describe("write and read back %s", R_str(A).c_str()); struct spasm_csr *C = to_csr(A, ord); u64 h0 = snap_csr(C); for (int w = 0; w < 2; w++) { char *b = NULL; size_t n = 0; FILE *f = open_memstream(&b, &n); struct spasm_triplet *T0 = NULL; if (w == 0) spasm_csr_save(C, f); else { T0 = spasm_triplet_alloc(A.n, A.m, 1, A.p, true); for (int i = 0; i < A.n; i++) for (int j = 0; j < A.m; j++) if (A[i][j]) { if (ord && A[i][j] > 1) { spasm_add_entry(T0, i, j, 1); spasm_add_entry(T0, i, j, (i64) A[i][j] - 1); } else spasm_add_entry(T0, i, j, (i64) A[i][j]); } spasm_triplet_save(T0, f); } step(); fclose(f); std::string s(b, n); free(b); Ref R = ref_read(s, A.p); EXPECT(R.k == Ref::GOOD, "the file written is not well formed (%s): %s", R.why.c_str(), s.substr(0, 400).c_str()); EXPECT(R.n == A.n && R.m == A.m, "dimensions written"); Mat B(A.n, A.m, A.p); for (auto &e : R.a) B[e.first.first][e.first.second] = e.second; EXPECT(B.a == A.a, "the file written describes another matrix: %s", s.substr(0, 400).c_str()); judge(s, A.p, chunk, -1, true); if (T0) spasm_triplet_free(T0); } EXPECT(snap_csr(C) == h0, "input modified");
}
static void long_io(u64 k)
{
	u64 p = k % 2 ? 4294967291u : 257; std::string nm; SpM S = long_mat(k / 2, p, nm); describe("write and read back %s mod %lu", nm.c_str(), (unsigned long) p); struct spasm_csr *C = sp_csr(S, k % 3); char *b = NULL; size_t n = 0; FILE *f = open_memstream(&b, &n); if (k % 2) spasm_csr_save(C, f); else { struct spasm_triplet *T = spasm_triplet_alloc(S.n, S.m, 1, p, true); for (int i = S.n; i-- > 0;) for (auto &e : S.a[i]) spasm_add_entry(T, i, e.first, (i64) e.second); spasm_triplet_save(T, f); spasm_triplet_free(T); } step(); fclose(f); std::string s(b, n); free(b);
	Ref R = ref_read(s, p); EXPECT(R.k == Ref::GOOD && R.n == S.n && R.m == S.m, "the file written is not well formed (%s)", R.why.c_str()); std::map<std::pair<i64, i64>, u64> W; for (int i = 0; i < S.n; i++) for (auto &e : S.a[i]) W[{i, e.first}] = e.second; EXPECT(R.a == W, "the file written does not hold the matrix"); judge(s, p, 1 << 16, -1, true); judge(s, -1, 4097, -1, false); spasm_csr_free(C);
}
void harness_register()
{
	static auto P = primes_class();
	static const size_t CH[] = {1, 2, 3, 5, 7, 13, 64, 1 << 20};
	for (auto nm : std::vector<std::pair<int, int>>{{1, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}}) { int n = nm.first, m = nm.second; family("wellformed-" + std::to_string(n) + "x" + std::to_string(m), ipow(3, n * m) * 12, [=](uint64_t k) { Ix x(k); int st = x.take(12); Mat A = mat_enum(n, m, 3, v3, x.k); std::string s = st < 4 ? sms(A, st % 3, st < 3, LIFT[k % 5]) : mtx(A, st % 2, st - 4, LIFT[k % 5]); for (size_t c : CH) judge(s, 3, c, -1, (k + c) & 1); judge(s, -1, 4, -1, k & 1); }, {false, 0, "all matrices, both formats, all chunk sizes, with and without values"}); }
	static std::vector<std::vector<Named>> SC; for (u64 p : P) SC.push_back(suite(p, false)); u64 nb = SC[0].size();
	family("wellformed-structured", P.size() * nb * 4, [=](uint64_t k) { Ix x(k); int st = x.take(4); auto &A = SC[x.take(P.size())][x.k].A; std::string s = st < 2 ? sms(A, st) : mtx(A, st - 2, 2); judge(s, A.p, CH[k % 8], -1, true); judge(s, -1, CH[(k + 3) % 8], -1, false); });
	static auto F = base_files();
	family("truncations", F.size() * 2, [](uint64_t k) { const std::string &s = F[k / 2]; for (size_t c = 0; c <= s.size(); c++) for (size_t ch : {(size_t) 1, (size_t) 3, (size_t) 4096}) { judge(s.substr(0, c), k % 2 ? -1 : 42013, ch, -1, true); } }, {false, 0, "every truncation point"});
	family("read-errors", F.size() * 2, [](uint64_t k) { const std::string &s = F[k / 2]; for (size_t c = 0; c <= s.size(); c++) for (size_t ch : {(size_t) 1, (size_t) 3, (size_t) 4096}) for (int e : {EIO, EISDIR, EAGAIN}) judge(s, k % 2 ? -1 : 42013, ch, (long) c, c & 1, e); }, {false, 0, "a read error at every byte offset"});
	static const char *TOK[] = {"", "x", "-", "+1", "-1", "0", "1", "2", "3", "4", "5", "99", "1.5", "1e3", "0x2", "1x", "2147483647", "2147483648", "-2147483648", "4294967297", "9223372036854775807", "9223372036854775808", "4611686018427387904", "4611686018427387905", "2305843009213693952", "1000000000000000", "4294967296", "-9223372036854775809", "18446744073709551617", "123456789012345678901234567890", "1 1", "1\n", "007", "M", "%", "i"}; static const int NT = sizeof(TOK) / sizeof(*TOK);
	family("token-replacements", F.size() * NT, [](uint64_t k) { const std::string &s = F[k / NT]; size_t b = 0; while (b < s.size()) { while (b < s.size() && isspace((unsigned char) s[b])) b++; size_t e = b; while (e < s.size() && !isspace((unsigned char) s[e])) e++; if (e > b) { std::string u = s.substr(0, b) + TOK[k % NT] + s.substr(e); judge(u, 42013, 4096, -1, true); judge(u, -1, 4096, -1, false); } b = e; } }, {false, 0, "every token of every file replaced by every odd token"});
	family("byte-replacements", F.size() * 20, [](uint64_t k) { static const char C[] = "0179-+ \n\t\rx.%Mm#,\x80/;"; std::string s = F[k / 20]; for (size_t b = 0; b < s.size(); b++) { std::string u = s; u[b] = C[k % 20]; judge(u, 42013, 4096, -1, false); u = s; u.insert(b, 1, C[k % 20]); judge(u, 42013, 7, -1, false); if (k % 20 == 0) { u = s; u.erase(b, 1); judge(u, 42013, 7, -1, true); } } }, {false, 0, "every byte replaced / inserted / deleted"});
	// every file of up to 4 lines over an alphabet of lines
	static const char *LN[] = {"2 2 M", "%%MatrixMarket matrix coordinate integer general", "% c", "2 2 1", "2 2 2", "2 2 0", "1 1 1", "2 1 -1", "0 0 0", "", "1 3 1", "1 1", "0 1 1"}; static const int NL = sizeof(LN) / sizeof(*LN);
	family("line-sequences", seq_count(NL, tier_thorough() ? 5 : 4), [](uint64_t k) { auto q = seq_get(NL, k); std::string s; for (int t : q) s += std::string(LN[t]) + "\n"; judge(s, 5, k % 2 ? 3 : 4096, -1, true); if (!s.empty()) { s.pop_back(); judge(s, k % 3 ? 5 : -1, 4096, -1, true); } }, {false, 0, "every file made of at most 4 (5) lines of an alphabet of 13, with and without final newline"});
	// kinds
	family("kinds", 6 * 6 * 6 * 6, [](uint64_t k) { static const char *W[4][6] = {{"matrix", "Matrix", "vector", "", "matrix matrix", "m"}, {"coordinate", "array", "COORDINATE", "", "coord", "coordinates"}, {"integer", "real", "pattern", "complex", "Integer", ""}, {"general", "symmetric", "hermitian", "skew-symmetric", "GENERAL", ""}}; Ix x(k); std::string s = "%%MatrixMarket"; for (int t = 0; t < 4; t++) s += std::string(" ") + W[t][x.take(6)]; s += "\n2 2 1\n1 2 3\n"; judge(s, 101, 4096, -1, true); judge(s, -1, 4096, -1, true); }, {false, 0, "all combinations of header words"});
	family("sms-types", 256, [](uint64_t k) { if (k == 0 || k == '\n') return; std::string s = std::string("2 2 ") + (char) k + "\n1 2 3\n0 0 0\n"; judge(s, 101, 4096, -1, true); judge(s, -1, 4096, -1, true); });
	family("long-lines", 60, [](uint64_t k) { int len = k < 30 ? 1000 + k : 2030 + k; for (int where = 0; where < 8; where++) { std::string pad(len, where == 3 ? '0' : ' '), s; if (where == 0) s = "2 2 M" + pad.substr(5) + "\n1 1 1\n0 0 0\n"; if (where == 1) s = "%%MatrixMarket matrix coordinate integer general\n%" + std::string(len - 1, 'c') + "\n2 2 1\n1 1 1\n"; if (where == 2) s = "2 2 M\n1 1 1" + pad.substr(5) + "\n0 0 0\n"; if (where == 3) s = "2 2 M\n1 1 " + pad.substr(5) + "1\n0 0 0\n"; if (where == 4) s = "2 2 M\n1 1 1" + pad.substr(5) + "2 2 7\n0 0 0\n"; if (where == 5) s = "2 2 M" + pad.substr(5) + "2 2 7\n1 1 1\n0 0 0\n"; if (where == 6) s = "2 2 M\n1 1 1" + pad.substr(5) + "0 0 0\n"; if (where == 7) s = "%%MatrixMarket matrix coordinate integer general\n2 2 2\n1 1 1" + pad.substr(5) + "2 2 7\n"; for (size_t c : {(size_t) 1, (size_t) 100, (size_t) 1 << 16}) judge(s, 101, c, -1, true); } }, {false, 0, "lines around the buffer size"});
	// write and read back
	family("roundtrip-structured", P.size() * nb * 3, [=](uint64_t k) { Ix x(k); int ord = x.take(3); auto &A = SC[x.take(P.size())][x.k].A; roundtrip(A, ord, CH[k % 8]); });
	family("roundtrip-pattern", 512 * 2, [](uint64_t k) { Mat A(3, 3, 3); for (int i = 0; i < 9; i++) A[i / 3][i % 3] = k / 2 >> i & 1; char *b = NULL; size_t n = 0; FILE *f = open_memstream(&b, &n); if (k & 1) { struct spasm_csr *C = to_csr(A, 0, false); spasm_csr_save(C, f); } else { struct spasm_triplet *T = spasm_triplet_alloc(3, 3, 1, 3, false); for (int i = 0; i < 9; i++) if (A[i / 3][i % 3]) spasm_add_entry(T, i / 3, i % 3, 1); spasm_triplet_save(T, f); } step(); fclose(f); std::string s(b, n); free(b); Ref R = ref_read(s, 3); EXPECT(R.k == Ref::GOOD, "pattern file written badly: %s", s.c_str()); for (int i = 0; i < 9; i++) EXPECT((R.a.count({i / 3, i % 3}) ? R.a[{i / 3, i % 3}] : 0) == A[i / 3][i % 3], "pattern file wrong: %s", s.c_str()); judge(s, -1, 5, -1, true); });
	static const std::vector<u64> WP = {3, 42013, 4294967291ull};
	family("write-errors", WP.size() * nb * 2, [=](uint64_t k) { u64 p = WP[k / 2 / nb]; static std::map<u64, std::vector<Named>> M; if (!M.count(p)) M[p] = suite(p, false); auto &A = M[p][k / 2 % nb].A; if (A.n * A.m > 80) return; if (k % 2 == 0) { struct spasm_csr *C = to_csr(A, 0); write_faults("spasm_csr_save", [&](FILE *f) { spasm_csr_save(C, f); }); spasm_csr_free(C); } else { struct spasm_triplet *T = spasm_triplet_alloc(A.n, A.m, 1, p, true); for (int i = 0; i < A.n; i++) for (int j = 0; j < A.m; j++) if (A[i][j]) spasm_add_entry(T, i, j, (i64) A[i][j]); write_faults("spasm_triplet_save", [&](FILE *f) { spasm_triplet_save(T, f); }); spasm_triplet_free(T); } }, {false, 0, "a stream failing at every byte, for ever or once, unbuffered and buffered"});
	static auto SL = sweep_list(tier_thorough() ? 4097 : 2049, tier_thorough() ? 257 : 65); u64 nsl = SL.size();
	family("sizes", nsl * 2, [=](uint64_t k) { auto &z = SL[k % nsl]; Mat A = sweep_mat(z.shape, z.size, k & 1 ? 4294967291u : 257); if (k < nsl) roundtrip(A, k % 3, CH[k % 8]); else { std::string s = k % 2 ? sms(A, k / 2 % 2) : mtx(A, k / 2 % 2, 2); judge(s, A.p, CH[k % 8], -1, true); judge(s, -1, CH[(k + 3) % 8], -1, false); } }, {false, 0, "dimensions around powers of two and block sizes"});
	family("long", long_count() * 2, long_io, {false, 60, "dimensions beyond 2^15 and 2^16 (thorough: 2^17 to 2^20), linear references"});
}
