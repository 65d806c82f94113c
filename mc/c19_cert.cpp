// C19: honest certificates.
#include "cert.h"
#include "wfault.h"
#include "sweep.h"
#include "big.h"
const char *harness_property = "C19";
const char *harness_assumptions[] = {"one thread", NULL};
static void one(const Mat &A, struct echelonize_opts o, int order, const std::vector<int> &rnd, int complete, const Digest &D, const char *nm)
{
	if (want_sample()) describe("%s %s %s digest %02x%02x..", nm, R_str(A).c_str(), opt_str(o).c_str(), D[0], D[1]);
	o.L = 1; o.complete = complete; if (!o.enable_GPLU && !(o.enable_dense && o.sparsity_threshold < 0)) o.enable_GPLU = 1;
	struct spasm_csr *C = to_csr(A, order); u64 h0 = snap_csr(C); rand_script(rnd, true); struct spasm_lu *f = spasm_echelonize(C, &o); step(); u64 hf = hmix(snap_csr(f->L), hmix(snap_csr(f->U), hash_bytes(f->p, f->r * 4)));
	int rk = R_rank(A); EXPECT(f->r == rk, "wrong rank");
	Digest D2 = D; struct spasm_rank_certificate *c = spasm_certificate_rank_create(C, D2.data(), f); step(); EXPECT(D2 == D, "digest modified");
	EXPECT(c->r == rk, "certificate states rank %d, true rank %d", c->r, rk); EXPECT((u64) c->prime == A.p, "certificate modulus %ld", (long) c->prime); EXPECT(!memcmp(c->hash, D.data(), 32), "certificate digest");
	Cert q = cert_get(c); bool v = spasm_certificate_rank_verify(C, D.data(), c); step(); EXPECT(v, "honest certificate refused: %s", cert_str(q).c_str()); EXPECT(cert_ref(A, D.data(), q), "the certificate does not satisfy its identities: %s", cert_str(q).c_str()); EXPECT(cert_get(c) == q, "verification modified the certificate");
	std::string s = cert_save(c); EXPECT(cert_get(c) == q, "saving modified the certificate"); Cert l; int ok = cert_load(s, l); EXPECT(ok, "a saved certificate is refused when read: %s", s.c_str()); EXPECT(l == q, "a certificate changes when saved and read back: %s -> %s", cert_str(q).c_str(), cert_str(l).c_str());
	ok = cert_load(s, l, 1); EXPECT(ok && l == q, "a certificate changes when read byte by byte"); CertBuf b(l); EXPECT(spasm_certificate_rank_verify(C, D.data(), &b.c), "a stored certificate is refused"); step(); mc_traces++;
	// the order of entries within rows is no part of the matrix
	struct spasm_csr *C2 = to_csr(A, (order + 1) % 3); EXPECT(spasm_certificate_rank_verify(C2, D.data(), &b.c), "refused against the same matrix stored in another order"); step();
	EXPECT(snap_csr(C) == h0, "the matrix was modified"); EXPECT(hmix(snap_csr(f->L), hmix(snap_csr(f->U), hash_bytes(f->p, f->r * 4))) == hf, "the factorisation was modified"); state(hash_bytes(s.data(), s.size())); { char t[32]; snprintf(t, 32, "rank %d", rk > 6 ? 7 : rk); outcome(t); } spasm_lu_free(f); spasm_csr_free(C);
}
static const std::vector<i64> v3 = {0, 1, -1};
void harness_register()
{
	static auto OS = option_sets(true); u64 no = OS.size();
	for (auto nm : std::vector<std::pair<int, int>>{{0, 0}, {0, 2}, {2, 0}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 4}, {4, 1}}) { int n = nm.first, m = nm.second; family("all-mod3-" + std::to_string(n) + "x" + std::to_string(m), ipow(3, n * m) * no * 4, [=](uint64_t k) { Ix x(k); auto &o = OS[x.take(no)]; int d = x.take(4); one(mat_enum(n, m, 3, v3, x.k), o.o, k % 3, RANDS[k % RANDS.size()], (k / 5) % 2, digest(d), o.name); }, {false, 0, "all matrices x option sets x digests"}); }
	for (auto nm : std::vector<std::pair<int, int>>{{2, 3}, {3, 2}}) { int n = nm.first, m = nm.second; family("all-mod3-" + std::to_string(n) + "x" + std::to_string(m), ipow(3, n * m) * no, [=](uint64_t k) { Ix x(k); auto &o = OS[x.take(no)]; one(mat_enum(n, m, 3, v3, x.k), o.o, k % 3, RANDS[k % RANDS.size()], (k / 5) % 2, digest(k % 50), o.name); }); }
	family("all-mod3-3x3", ipow(3, 9), [=](uint64_t k) { auto &o = OS[k * 7 % no]; one(mat_enum(3, 3, 3, v3, k), o.o, k % 3, RANDS[k % RANDS.size()], k % 2, digest(k % 100), o.name); });
	family("digests", 2000, [=](uint64_t k) { u64 p = (u64[]){3, 257, 65537, 2147483659, 4294967291}[k % 5]; auto S = suite(p, false); auto &A = S[6 + k / 5 % 12]; one(A.A, opt_base(), 0, {}, k % 2, digest((int) k + 3), A.name.c_str()); });
	family("all-mod3-3x3-all-options", ipow(3, 9) * no, [=](uint64_t k) { Ix x(k); auto &o = OS[x.take(no)]; one(mat_enum(3, 3, 3, v3, x.k), o.o, k % 3, RANDS[k % RANDS.size()], k % 2, digest(k % 1000), o.name); }, {true});
	static auto P = primes_all(); static std::vector<std::vector<Named>> SP; for (u64 p : P) SP.push_back(suite(p, true)); u64 nb = SP[0].size();
	family("structured-x-primes", P.size() * nb * no, [=](uint64_t k) { Ix x(k); auto &o = OS[x.take(no)]; auto &A = SP[x.take(P.size())][x.k]; one(A.A, o.o, k % 3, RANDS[k % RANDS.size()], (k / 17) % 2, digest(k % 40), A.name.c_str()); });
	family("write-errors", 6 * 9, [=](uint64_t k) { u64 p = (u64[]){3, 257, 4294967291}[k % 3]; Mat A(4, 4, p); int r = k / 3 % 5; for (int i = 0; i < r; i++) { A[i][(i + k) % 4] = 1 + i % (p - 1); } struct spasm_csr *C = to_csr(A, 0); auto o = opt_base(); o.L = 1; struct spasm_lu *f = spasm_echelonize(C, &o); Digest D = digest((int) k + 5); struct spasm_rank_certificate *c = spasm_certificate_rank_create(C, D.data(), f); write_faults("spasm_rank_certificate_save", [&](FILE *g) { spasm_rank_certificate_save(c, g); }); spasm_lu_free(f); spasm_csr_free(C); }, {false, 0, "a stream failing at every byte"});
	static auto SL = sweep_list(tier_thorough() ? 4097 : 1025, tier_thorough() ? 257 : 129); u64 nsl = SL.size(); static const u64 SP_[3] = {257, 65537, 4294967291u};
	family("sizes", nsl * (tier_thorough() ? no : 3), [=](uint64_t k) { Ix x(k); auto &z = SL[x.take(nsl)]; auto &o = OS[(tier_thorough() ? x.k : x.k * 5 + k) % no]; one(sweep_mat(z.shape, z.size, SP_[(k + x.k) % 3]), o.o, k % 3, RANDS[k % RANDS.size()], k % 2, digest(k % 40), z.name.c_str()); }, {false, 0, "dimensions around powers of two, block sizes and batch sizes"});
	family("long", long_count(), [=](uint64_t k) { u64 p = (u64[]){257, 65537, 4294967291u}[k % 3]; std::string nm; SpM S = long_mat(k, p, nm); auto o = OS[(u64[]){0, 2}[k % 2]]; o.o.L = 1; o.o.complete = k % 2; describe("%s mod %lu %s", nm.c_str(), (unsigned long) p, o.name); int r = sp_ech(S).rank(); struct spasm_csr *C = sp_csr(S, k % 3); struct spasm_lu *f = spasm_echelonize(C, &o.o); step(); Digest D = digest((int) k + 3); struct spasm_rank_certificate *c = spasm_certificate_rank_create(C, D.data(), f); step(); EXPECT(c->r == r, "certificate states rank %d, true rank %d", c->r, r); Cert q = cert_get(c); EXPECT(spasm_certificate_rank_verify(C, D.data(), c), "honest certificate refused"); step();
		RefPrng g(D.data(), p, 0); Row v(S.n, 0); for (int t = 0; t < r; t++) v[c->i[t]] = R_red(c->x[t], p); Row w = sp_vecmat(v, S); for (int t = 0; t < r; t++) EXPECT(w[c->j[t]] == g.elt(), "first identity fails at %d", t); std::vector<char> pv(S.n, 0); for (int t = 0; t < r; t++) { v[c->i[t]] = R_red(c->y[t], p); pv[c->i[t]] = 1; } for (int i = 0; i < S.n; i++) if (!pv[i]) v[i] = g.elt(); w = sp_vecmat(v, S); for (u64 z : w) EXPECT(z == 0, "second identity fails");
		std::string s = cert_save(c); Cert l; EXPECT(cert_load(s, l) && l == q, "a certificate changes when saved and read back"); mc_traces++; state(hash_bytes(s.data(), s.size())); spasm_lu_free(f); spasm_csr_free(C); }, {false, 60, "dimensions beyond 2^15 and 2^16 (thorough: 2^17 to 2^20), linear references"});
}
