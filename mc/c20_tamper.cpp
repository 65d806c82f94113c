// C20: tampered, mismatched, truncated and malformed certificates.
#include "cert.h"
const char *harness_property = "C20";
const char *harness_assumptions[] = {"soundness of the underlying interactive proof (error at most 1/p per identity for a challenge the prover cannot influence) is the paper's, not checked here: what is checked is that acceptance implies that digest, modulus, index ranges and both identities hold", "one thread", NULL};
static void judge(const Mat &A, struct spasm_csr *C, const u8 *hash, const Cert &c, const char *what)
{
	CertBuf b(c); bool ref = cert_ref(A, hash, c), got = spasm_certificate_rank_verify(C, hash, &b.c); step(); mc_traces++;
	if (got && !ref) { describe(" matrix %s certificate %s (%s)", R_str(A).c_str(), cert_str(c).c_str(), what); violation("accepted although a requirement fails (%s): %s", what, cert_str(c).c_str()); }
	state(hmix(hash_bytes(cert_str(c).data(), cert_str(c).size()), got)); outcome(got ? "accepted, identities hold" : ref ? "refused, identities hold" : "refused");
}
static Cert honest(const Mat &A, struct spasm_csr *C, const Digest &D, int comp) { struct echelonize_opts o = opt_base(); o.L = 1; o.complete = comp; struct spasm_lu *f = spasm_echelonize(C, &o); struct spasm_rank_certificate *c = spasm_certificate_rank_create(C, D.data(), f); step(2); Cert q = cert_get(c); spasm_lu_free(f); return q; }
// every single-field mutation over an alphabet, every wrong rank, other digests and moduli
static void mutate(const Mat &A, const Digest &D, int comp)
{
	u64 p = A.p; i64 h = p / 2; if (want_sample()) describe("mutations of the certificate of %s", R_str(A).c_str()); struct spasm_csr *C = to_csr(A); Cert c = honest(A, C, D, comp); EXPECT(cert_ref(A, D.data(), c), "honest certificate does not satisfy its identities"); judge(A, C, D.data(), c, "honest");
	for (int b = 0; b < 32; b++) for (int bit = 0; bit < 8; bit++) { Cert m = c; m.hash[b] ^= 1 << bit; judge(A, C, D.data(), m, "digest of the certificate"); Digest E = D; E[b] ^= 1 << bit; judge(A, C, E.data(), c, "digest presented"); if (bit == b % 8) judge(A, C, m.hash, m, "both digests"); }
	for (i64 q : {(i64) 0, (i64) 1, (i64) p + 1, (i64) p - 1, -(i64) p, (i64) p + (1L << 32), (i64) 2 * (i64) p, (i64) 65537, (i64) 3}) { Cert m = c; m.prime = q; judge(A, C, D.data(), m, "modulus"); }
	std::vector<i64> ia = {-1, A.n, A.n + 1, A.m, 0x7fffffff, -0x80000000L}, va = {0, 1, -1, h, -h, h + 1, (i64) p, 0x7fffffff, -0x80000000L, 2}; for (int t = 0; t <= std::max(A.n, A.m) && t < 6; t++) ia.push_back(t);
	for (int k = 0; k < c.r; k++) {
		for (i64 v : ia) { Cert m = c; m.i[k] = v; judge(A, C, D.data(), m, "row index"); m = c; m.j[k] = v; judge(A, C, D.data(), m, "column index"); }
		for (i64 v : va) for (int rel = 0; rel < 2; rel++) { Cert m = c; i64 w = rel ? m.x[k] + v : v; if (w >= -0x80000000L && w <= 0x7fffffff) { m.x[k] = w; judge(A, C, D.data(), m, "x"); } m = c; w = rel ? m.y[k] + v : v; if (w >= -0x80000000L && w <= 0x7fffffff) { m.y[k] = w; judge(A, C, D.data(), m, "y"); } }
		Cert m = c; m.i.erase(m.i.begin() + k); m.j.erase(m.j.begin() + k); m.x.erase(m.x.begin() + k); m.y.erase(m.y.begin() + k); m.r--; judge(A, C, D.data(), m, "smaller rank");
		for (int l = 0; l < k; l++) { m = c; std::swap(m.i[k], m.i[l]); judge(A, C, D.data(), m, "swapped rows"); m = c; std::swap(m.j[k], m.j[l]); judge(A, C, D.data(), m, "swapped columns"); m = c; std::swap(m.x[k], m.x[l]); judge(A, C, D.data(), m, "swapped x"); m = c; std::swap(m.y[k], m.y[l]); judge(A, C, D.data(), m, "swapped y"); }
	}
	for (int i = 0; i < std::min(A.n, 5); i++) for (int j = 0; j < std::min(A.m, 5); j++) for (i64 x : {0L, 1L, h}) for (i64 y : {0L, 1L, -h}) { Cert m = c; m.r++; m.i.push_back(i); m.j.push_back(j); m.x.push_back(x); m.y.push_back(y); judge(A, C, D.data(), m, "larger rank"); }
	for (i64 r : {0L, -1L, -0x80000000L}) { Cert m = c; m.r = r; judge(A, C, D.data(), m, "rank"); }
	// same certificate against other matrices
	for (int i = 0; i < std::min(A.n, 6); i++) for (int j = 0; j < std::min(A.m, 6); j++) for (u64 v : {(u64) 1, p - 1}) { Mat B = A; B[i][j] = R_add(B[i][j], v, p); struct spasm_csr *CB = to_csr(B); judge(B, CB, D.data(), c, "another matrix"); spasm_csr_free(CB); }
	if (A.n > 1) { Mat B = A; std::swap(B.a[0], B.a[A.n - 1]); struct spasm_csr *CB = to_csr(B); judge(B, CB, D.data(), c, "permuted matrix"); B = A; B.a.pop_back(); B.n--; CB = to_csr(B); judge(B, CB, D.data(), c, "matrix with a row less"); }
	{ Mat B = R_transpose(A); struct spasm_csr *CB = to_csr(B); judge(B, CB, D.data(), c, "transposed matrix"); }
	{ u64 p2 = p == 3 ? 5 : 3; Mat B = A; B.p = p2; for (auto &r : B.a) for (auto &v : r) v %= p2; struct spasm_csr *CB = to_csr(B); judge(B, CB, D.data(), c, "another modulus"); }
}
// the stored form: every truncation, read errors, corrupted tokens
static void loads(const std::string &s, const Cert *same, const char *what, size_t chunk, long fail)
{
	Cert got, want; int ok = cert_load(s, got, chunk, fail); mc_traces++; bool wf = cert_parse(s, want);
	if (ok) { if (same) EXPECT(got == *same, "%s: accepted as a different certificate %s", what, cert_str(got).c_str()); else { EXPECT(wf, "%s: malformed certificate accepted: %s", what, s.c_str()); EXPECT(got == want, "%s: read as %s, the file says %s", what, cert_str(got).c_str(), cert_str(want).c_str()); } }
	outcome(ok ? "file accepted" : wf && fail < 0 ? "file refused, well formed" : "file refused"); state(hmix(hash_bytes(s.data(), s.size()), hmix(ok, fail)));
}
static void stored(const Mat &A, const Digest &D, int comp)
{
	struct spasm_csr *C = to_csr(A); Cert c = honest(A, C, D, comp); CertBuf b(c); std::string s = cert_save(&b.c); if (want_sample()) describe("stored certificate of %s: %s", R_str(A).c_str(), s.c_str());
	for (size_t k = 0; k <= s.size(); k++) { std::string t = s.substr(0, k); loads(t, &c, "truncated", k % 2 ? 1 : 1000, -1); loads(s, &c, "read error", k % 3 + 1, (long) k); }
	// tokens
	std::vector<std::pair<size_t, size_t>> tk; size_t k = 0; while (k < s.size()) { while (k < s.size() && isspace((unsigned char) s[k])) k++; size_t e = k; while (e < s.size() && !isspace((unsigned char) s[e])) e++; if (e > k) tk.push_back({k, e}); k = e; }
	for (size_t t = 0; t < tk.size(); t++) for (const char *w : {"", "x", "-", "1x", "0x1", "1.5", "99999999999999999999", "4294967296", "2147483648", "-2147483649", "-1", "0", "1", "2", "7", "1000000", "12ab", "\"", "1e3"}) { std::string u = s.substr(0, tk[t].first) + w + s.substr(tk[t].second); loads(u, NULL, "corrupted token", 1000, -1); }
	for (size_t q = tk[2].first; q < tk[2].second; q += 7) for (char ch : {'g', ' ', '-', 'x', '\n', 'A', '\x80'}) { std::string u = s; u[q] = ch; loads(u, NULL, "corrupted digest", 1000, -1); }
	for (const char *w : {"5", "x", "0 0 0 0", "\n\n7\n"}) loads(s + w, NULL, "trailing text", 1000, -1); loads("", NULL, "empty", 1, -1); loads(s.substr(0, tk[2].second) + "00" + s.substr(tk[2].second), NULL, "long digest", 100, -1);
}
static const std::vector<i64> v3 = {0, 1, -1};
static void long_tamper(u64 k)
{
	u64 p = (u64[]){65537, 4294967291u, 257}[k % 3]; std::string nm; SpM S = long_mat(k, p, nm); describe("tampering with the certificate of %s mod %lu", nm.c_str(), (unsigned long) p); struct spasm_csr *C = sp_csr(S, k % 3); struct echelonize_opts o = opt_base(); o.L = 1; o.complete = k % 2; struct spasm_lu *f = spasm_echelonize(C, &o); Digest D = digest((int) k + 5); struct spasm_rank_certificate *cc = spasm_certificate_rank_create(C, D.data(), f); step(2); Cert c = cert_get(cc); spasm_lu_free(f); EXPECT(cert_ref(S, D.data(), c), "honest certificate does not satisfy its identities");
	auto test = [&](const Cert &q, const SpM &B, struct spasm_csr *CB, const char *what) { CertBuf b(q); bool got = spasm_certificate_rank_verify(CB, D.data(), &b.c); step(); mc_traces++; EXPECT(!got || cert_ref(B, D.data(), q), "accepted although a requirement fails (%s)", what); outcome(got ? "accepted, identities hold" : "refused"); };
	test(c, S, C, "honest");
	for (i64 t : {(i64) 0, c.r / 3, (i64) 32767, (i64) 32768, c.r - 2, c.r - 1}) if (t < c.r) { Cert m = c; m.x[t] += m.x[t] > 0 ? -1 : 1; test(m, S, C, "x"); m = c; m.y[t] += m.y[t] > 0 ? -1 : 1; test(m, S, C, "y"); m = c; m.i[t] = (m.i[t] + 1) % S.n; test(m, S, C, "row index"); m = c; m.j[t] = (m.j[t] + 1) % S.m; test(m, S, C, "column index"); m = c; m.i[t] ^= 65536; test(m, S, C, "row index"); m = c; m.j[t] = S.m; test(m, S, C, "column index"); m = c; m.i[t] = S.n; test(m, S, C, "row index"); m = c; m.i.erase(m.i.begin() + t); m.j.erase(m.j.begin() + t); m.x.erase(m.x.begin() + t); m.y.erase(m.y.begin() + t); m.r--; test(m, S, C, "smaller rank"); }
	for (int i : {0, 32767, 32768, S.n - 1}) { SpM B = S; B.put(i, sc(i, S.m, 3), 1); struct spasm_csr *CB = sp_csr(B, 0); test(c, B, CB, "another matrix"); spasm_csr_free(CB); }
	spasm_csr_free(C);
}
void harness_register()
{
	// every certificate of a tiny world
	static std::vector<Cert> W; for (int r = 0; r <= 2; r++) for (u64 k = 0; k < ipow(2 * 2 * 3 * 3, r); k++) { Ix x(k); Cert c; c.r = r; c.prime = 3; for (int t = 0; t < r; t++) { c.i.push_back(x.take(2)); c.j.push_back(x.take(2)); c.x.push_back((i64) x.take(3) - 1); c.y.push_back((i64) x.take(3) - 1); } W.push_back(c); }
	family("every-certificate-2x2-mod3", 81 * 6, [](uint64_t k) { Ix x(k); Digest D = digest(x.take(6)); Mat A = mat_enum(2, 2, 3, v3, x.k); struct spasm_csr *C = to_csr(A); describe("all %zu certificates against %s", W.size(), R_str(A).c_str()); for (auto c : W) { memcpy(c.hash, D.data(), 32); judge(A, C, D.data(), c, "enumerated"); } }, {false, 0, "all certificates with r <= 2 against all 2x2 matrices mod 3"});
	family("mutations-mod3-2x2", 81, [](uint64_t k) { mutate(mat_enum(2, 2, 3, v3, k), digest(k), k % 2); });
	family("mutations-mod3-3x2", 729, [](uint64_t k) { mutate(mat_enum(3, 2, 3, v3, k), digest(k), k % 2); }, {true});
	family("mutations-mod3-2x3", 729, [](uint64_t k) { mutate(mat_enum(2, 3, 3, v3, k), digest(k), k % 2); }, {true});
	static auto P = primes_all(); static std::vector<std::vector<Named>> SP; for (u64 p : P) SP.push_back(suite(p, false)); u64 nb = SP[0].size();
	static auto PC = primes_class(); static std::vector<std::vector<Named>> SC; for (u64 p : PC) SC.push_back(suite(p, false));
	family("mutations-structured", PC.size() * nb, [=](uint64_t k) { Ix x(k); auto &A = SC[x.take(PC.size())][x.k]; mutate(A.A, digest(k), k % 2); });
	family("mutations-all-primes", P.size() * nb, [=](uint64_t k) { Ix x(k); auto &A = SP[x.take(P.size())][x.k]; mutate(A.A, digest(k), k % 2); }, {true});
	family("stored-mod3-2x2", 81, [](uint64_t k) { stored(mat_enum(2, 2, 3, v3, k), digest(k), k % 2); });
	family("stored-structured", PC.size() * nb, [=](uint64_t k) { Ix x(k); auto &A = SC[x.take(PC.size())][x.k]; stored(A.A, digest(k), k % 2); }, {false, 0, "every truncation point, every read-error offset, every token corruption"});
	family("long", long_count(), long_tamper, {false, 60, "dimensions beyond 2^15 and 2^16 (thorough: 2^17 to 2^20), linear references"});
}
