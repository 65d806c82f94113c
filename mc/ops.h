// A library of public operations with hashable results; shared by C27 (failing memory) and C28 (histories).
#pragma once
#include "algo.h"
#include "fact.h"
#include "cert.h"
#include <memory>
extern "C" { void mc_free(void *); void *mc_malloc(size_t); }

// the result of an operation: parts that can be hashed again at any later time, and given back
struct Res {
	std::vector<std::function<u64()>> parts; std::vector<std::function<void()>> del; bool freed = false;
	u64 hash() const { u64 h = 5; for (auto &p : parts) h = hmix(h, p()); return h; }
	void release() { if (freed) return; freed = true; for (auto &d : del) d(); }
	void val(u64 v) { parts.push_back([v] { return v; }); }
	void csr(struct spasm_csr *A) { EXPECT(A != NULL, "missing result"); parts.push_back([A] { return snap_csr(A); }); del.push_back([A] { spasm_csr_free(A); }); }
	void ints(int *p, int n) { parts.push_back([p, n] { return hash_bytes(p, n * sizeof(int)); }); del.push_back([p] { mc_free(p); }); }
	void lu(struct spasm_lu *f) { parts.push_back([f] { u64 h = f->r; h = hmix(h, snap_csr(f->U)); h = hash_bytes(f->qinv, f->U->m * sizeof(int), h); if (f->L) { h = hmix(hmix(h, f->complete), snap_csr(f->L)); h = hash_bytes(f->p, f->r * sizeof(int), h); } return h; }); del.push_back([f] { spasm_lu_free(f); }); }
	void dm(struct spasm_dm *d, int n, int m) { parts.push_back([d, n, m] { u64 h = hash_bytes(d->p, n * sizeof(int)); h = hash_bytes(d->q, m * sizeof(int), h); h = hmix(h, d->nb); if (d->nb) { h = hash_bytes(d->r, (d->nb + 1) * sizeof(int), h); h = hash_bytes(d->c, (d->nb + 1) * sizeof(int), h); } h = hash_bytes(d->rr, sizeof d->rr, h); return hash_bytes(d->cc, sizeof d->cc, h); }); del.push_back([d] { spasm_dm_free(d); }); }
	void str(const std::string &s) { val(hash_bytes(s.data(), s.size())); }
	template <class T> void vec(const std::vector<T> &v) { val(hash_bytes(v.data(), v.size() * sizeof(T))); }
};
struct World { Mat A; struct spasm_csr *C; Mat B; struct spasm_csr *CB; Row b; std::vector<spasm_ZZp> x, y, bb; std::vector<int> p, q; std::string sms, mm; u8 hash[32]; u64 snap; struct spasm_triplet *T; int id;
	u64 now() const { u64 h = hmix(snap_csr(C), snap_csr(CB)); h = hash_bytes(x.data(), x.size() * 4, h); h = hash_bytes(y.data(), y.size() * 4, h); h = hash_bytes(bb.data(), bb.size() * 4, h); h = hash_bytes(p.data(), p.size() * 4, h); h = hash_bytes(q.data(), q.size() * 4, h); h = hash_bytes(T->i, T->nz * 4, h); h = hash_bytes(T->j, T->nz * 4, h); h = hash_bytes(T->x, T->nz * 4, h); return hash_bytes(hash, 32, h); } };
struct Op { const char *name; std::function<void(const World &, Res &)> run; };

inline std::unique_ptr<World> world(int id, const Mat &A)
{
	auto w = std::make_unique<World>(); w->id = id; w->A = A; u64 p = A.p; int n = A.n, m = A.m; w->C = to_csr(A, id % 3);
	w->x.reserve(n + 1); w->y.reserve(m + 1); w->bb.reserve(m + 1); w->B = Mat(2, m, p); for (int k = 0; k < 2; k++) { Row y(n); for (int i = 0; i < n; i++) y[i] = tex(i, k, id) % p; w->B[k] = R_vecmat(y, A); } if (m) w->B[1][m / 2] = R_add(w->B[1][m / 2], 1, p); w->CB = to_csr(w->B);
	for (int i = 0; i < n; i++) w->x.push_back(R_bal(tex(i, 3, id) % p, p)); for (int j = 0; j < m; j++) { w->y.push_back(R_bal(tex(j, 4, id) % p, p)); w->bb.push_back(R_bal(w->B[0][j], p)); }
	w->p = perm_get(n, tex(n, id)); w->q = perm_get(m, tex(m, id + 9)); for (int k = 0; k < 32; k++) w->hash[k] = tex(k, id);
	w->T = spasm_triplet_alloc(n, m, 1, p, true); std::string e; int nz = 0;
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (A[i][j]) { spasm_add_entry(w->T, i, j, R_bal(A[i][j], p)); e += std::to_string(i + 1) + " " + std::to_string(j + 1) + " " + std::to_string(R_bal(A[i][j], p)) + "\n"; nz++; }
	w->sms = std::to_string(n) + " " + std::to_string(m) + " M\n" + e + "0 0 0\n"; w->mm = "%%MatrixMarket matrix coordinate integer general\n%c\n" + std::to_string(n) + " " + std::to_string(m) + " " + std::to_string(nz) + "\n" + e;
	w->snap = w->now(); return w;
}
// duplicate of a triplet owned by the operation
inline struct spasm_triplet *tri_copy(const World &w) { struct spasm_triplet *T = spasm_triplet_alloc(w.A.n, w.A.m, 1, w.A.p, true); for (i64 k = 0; k < w.T->nz; k++) { spasm_add_entry(T, w.T->i[k], w.T->j[k], w.T->x[k]); if (k % 2) { spasm_add_entry(T, w.T->i[k], w.T->j[k], 5); spasm_add_entry(T, w.T->i[k], w.T->j[k], -5); } } return T; }
inline void tri_res(Res &r, struct spasm_triplet *T) { r.parts.push_back([T] { u64 h = hmix(hmix(T->n, T->m), T->nz); h = hash_bytes(T->i, T->nz * 4, h); h = hash_bytes(T->j, T->nz * 4, h); if (T->x) h = hash_bytes(T->x, T->nz * 4, h); return h; }); r.del.push_back([T] { spasm_triplet_free(T); }); }
template <class F> inline std::string written(F f) { char *b = NULL; size_t n = 0; FILE *o = open_memstream(&b, &n); f(o); step(); fclose(o); std::string s(b, n); free(b); return s; }
inline struct spasm_lu *ech(const World &w, int kind)
{
	struct echelonize_opts o = opt_base();
	switch (kind) { case 1: o.max_round = 0; o.enable_dense = 0; o.enable_tall_and_skinny = 0; break; case 2: o.max_round = 0; o.sparsity_threshold = -1; o.dense_block_size = 2; o.enable_tall_and_skinny = 0; break;
		case 3: o.tall_and_skinny_ratio = 0; o.sparsity_threshold = -1; o.dense_block_size = 2; break; case 4: o.L = 1; o.max_round = 1; o.sparsity_threshold = 2; o.min_pivot_proportion = 0; break; case 5: o.L = o.complete = 1; break;
		case 6: o.L = o.complete = 1; o.max_round = 0; o.sparsity_threshold = -1; o.dense_block_size = 2; break; case 7: o.max_round = 9; o.sparsity_threshold = 2; o.min_pivot_proportion = 0; break; case 8: o.enable_greedy_pivot_search = 0; break; }
	struct spasm_lu *f = spasm_echelonize(w.C, &o); step(); return f;
}
inline std::vector<Op> ops()
{
	std::vector<Op> v;
	#define OP(nm, ...) v.push_back({nm, [](const World &w, Res &r) { int n = w.A.n, m = w.A.m; u64 p = w.A.p; (void) n; (void) m; (void) p; __VA_ARGS__; step(); }})
	OP("transpose", r.csr(spasm_transpose(w.C, 1)));
	OP("transpose-pattern", r.csr(spasm_transpose(w.C, 0)));
	OP("permute", r.csr(spasm_permute(w.C, w.p.data(), w.q.data(), 1)));
	OP("submatrix", r.csr(spasm_submatrix(w.C, n / 4, n, m / 3, m, 1)));
	OP("resize", struct spasm_csr *S = spasm_submatrix(w.C, 0, n, 0, m, 1); spasm_csr_resize(S, n + 2, m + 1); spasm_csr_realloc(S, -1); r.csr(S));
	OP("inverse-permutation", r.ints(spasm_pinv(w.p.data(), n), n));
	OP("random-permutation", r.ints(spasm_random_permutation(n + 2), n + 2));
	OP("permute-vectors", std::vector<spasm_ZZp> a(n + 1), b(n + 1); spasm_pvec(w.p.data(), w.x.data(), a.data(), n); spasm_ipvec(w.p.data(), w.x.data(), b.data(), n); r.vec(a); r.vec(b); std::vector<int> z = w.q; std::vector<int> pp = perm_get(m, 1); spasm_range_pvec(z.data(), 0, m, pp.data()); r.vec(z));
	OP("compress", struct spasm_triplet *T = tri_copy(w); r.csr(spasm_compress(T)); tri_res(r, T));
	OP("triplet-transpose", struct spasm_triplet *T = tri_copy(w); spasm_triplet_transpose(T); tri_res(r, T));
	OP("load-sms", Feed d = {w.sms.data(), w.sms.size(), 0, 7, -1}; FILE *f = feed(&d); u8 h[32]; struct spasm_triplet *T = spasm_triplet_load(f, p, h); fclose(f); r.val(hash_bytes(h, 32)); tri_res(r, T));
	OP("load-mm", Feed d = {w.mm.data(), w.mm.size(), 0, 1000, -1}; FILE *f = feed(&d); struct spasm_triplet *T = spasm_triplet_load(f, p, NULL); fclose(f); tri_res(r, T));
	OP("load-pattern", Feed d = {w.sms.data(), w.sms.size(), 0, 1000, -1}; FILE *f = feed(&d); struct spasm_triplet *T = spasm_triplet_load(f, -1, NULL); fclose(f); tri_res(r, T));
	OP("save", r.str(written([&](FILE *f) { spasm_csr_save(w.C, f); })); r.str(written([&](FILE *f) { spasm_triplet_save(w.T, f); })));
	OP("picture", if (n && m && w.T->nz) { r.str(written([&](FILE *f) { spasm_save_pnm(w.C, f, 3, 2, 1, NULL); })); r.str(written([&](FILE *f) { spasm_save_pnm(w.C, f, 100, 100, 2, NULL); })); struct spasm_dm *D = spasm_dulmage_mendelsohn(w.C); int *qi = spasm_pinv(D->q, m); struct spasm_csr *B = spasm_permute(w.C, D->p, qi, 0); r.ints(qi, m); r.str(written([&](FILE *f) { spasm_save_pnm(B, f, 4, 4, 3, D); })); r.csr(B); r.dm(D, n, m); });
	OP("vector-matrix", std::vector<spasm_ZZp> y = w.y; spasm_xApy(w.x.data(), w.C, y.data()); r.vec(y));
	OP("matrix-vector", std::vector<spasm_ZZp> x = w.x; spasm_Axpy(w.C, w.y.data(), x.data()); r.vec(x));
	OP("scatter", std::vector<spasm_ZZp> y = w.y; for (int i = 0; i < n; i++) spasm_scatter(w.C, i, w.x[i], y.data()); r.vec(y));
	OP("echelonize", r.lu(ech(w, 0)));
	OP("echelonize-sparse", r.lu(ech(w, 1)));
	OP("echelonize-dense", r.lu(ech(w, 2)));
	OP("echelonize-tall", r.lu(ech(w, 3)));
	OP("LU-partial", r.lu(ech(w, 4)));
	OP("LU", r.lu(ech(w, 5)));
	OP("LU-dense", r.lu(ech(w, 6)));
	OP("echelonize-rounds", r.lu(ech(w, 7)));
	OP("echelonize-nogreedy", r.lu(ech(w, 8)));
	OP("rref", struct spasm_lu *f = ech(w, 1); int *q = (int *) spasm_malloc((m + 1) * sizeof(int)); r.csr(spasm_rref(f, q)); r.ints(q, m); r.lu(f));
	OP("kernel", struct spasm_lu *f = ech(w, 0); r.csr(spasm_kernel(f)); r.lu(f));
	OP("kernel-from-rref", struct spasm_lu *f = ech(w, 2); int *q = (int *) spasm_malloc((m + 1) * sizeof(int)); struct spasm_csr *R = spasm_rref(f, q); r.csr(spasm_kernel_from_rref(R, q)); r.csr(R); r.ints(q, m); r.lu(f));
	OP("solve", struct spasm_lu *f = ech(w, 5); std::vector<spasm_ZZp> x(n + 1), b = w.bb; bool ok = spasm_solve(f, b.data(), x.data()); x.resize(n); r.val(ok); if (ok) r.vec(x); if (m) { b[m - 1] = spasm_ZZp_add(w.C->field, b[m - 1], 1); r.val(spasm_solve(f, b.data(), x.data())); } r.lu(f));
	OP("gesv", struct spasm_lu *f = ech(w, 6); bool ok[2]; r.csr(spasm_gesv(f, w.CB, ok)); r.val(ok[0] * 2 + ok[1]); r.lu(f));
	OP("certificate", struct spasm_lu *f = ech(w, 4); struct spasm_rank_certificate *c = spasm_certificate_rank_create(w.C, w.hash, f); r.val(spasm_certificate_rank_verify(w.C, w.hash, c)); std::string s = cert_save(c); r.str(s); Feed d = {s.data(), s.size(), 0, 9, -1}; FILE *g = feed(&d); struct spasm_rank_certificate c2; bool ok = spasm_rank_certificate_load(g, &c2); fclose(g); r.val(ok); auto drop = [](struct spasm_rank_certificate &z) { mc_free(z.i); mc_free(z.j); mc_free(z.x); mc_free(z.y); }; if (ok) { r.val(spasm_certificate_rank_verify(w.C, w.hash, &c2)); drop(c2); } r.del.push_back([c, drop] { drop(*c); mc_free(c); }); r.lu(f));
	OP("verify-factorisation", struct spasm_lu *f = ech(w, 5); for (u64 s = 0; s < 3; s++) r.val(spasm_factorization_verify(w.C, f, s)); r.lu(f));
	OP("matching", int *a = (int *) spasm_malloc((n + 1) * sizeof(int)); int *b = (int *) spasm_malloc((m + 1) * sizeof(int)); r.val(spasm_maximum_matching(w.C, a, b)); a[n] = b[m] = 0; r.ints(a, n); r.ints(b, m));
	OP("dulmage-mendelsohn", r.dm(spasm_dulmage_mendelsohn(w.C), n, m));
	OP("components", int k = std::min(n, m); struct spasm_csr *S = spasm_submatrix(w.C, 0, k, 0, k, 0); r.dm(spasm_strongly_connected_components(S), k, k); r.csr(S));
	OP("pivots-schur", Mat Up(0, m, p); auto F = std::make_shared<Fact>(); make_fact(*F, Up, {}, n, false, 0, 0, n); int *rp = (int *) spasm_malloc((n + 1) * sizeof(int)); struct echelonize_opts o = opt_base(); int k = spasm_pivots_extract_structural(w.C, NULL, &F->f, rp, &o); rp[n] = 0; r.val(k); std::vector<int> po(n - k); r.csr(spasm_schur(w.C, rp + k, n - k, &F->f, -1, NULL, NULL, po.data())); r.vec(po);
		int Sm = m - k; std::vector<int> q(Sm + 1, 0); std::vector<double> S((n + 3) * (Sm + 1), 0); spasm_schur_dense(w.C, rp + k, n - k, NULL, &F->f, S.data(), SPASM_DOUBLE, q.data(), po.data()); r.vec(S); r.vec(q); if (n > k) { spasm_schur_dense_randomized(w.C, rp + k, n - k, F->f.U, F->f.qinv, S.data(), SPASM_DOUBLE, q.data(), 3, 2); r.vec(S); } r.csr(F->U); r.ints(rp, n));
	OP("sha256-prng", spasm_sha256_ctx c; u8 d[32]; spasm_SHA256_init(&c); spasm_SHA256_update(&c, w.sms.data(), w.sms.size()); spasm_SHA256_final(d, &c); r.val(hash_bytes(d, 32)); spasm_prng_ctx g; spasm_prng_seed(d, p, 7, &g); std::vector<spasm_ZZp> z; for (int k = 0; k < 20; k++) z.push_back(spasm_prng_ZZp(&g)); r.vec(z));
	OP("field", spasm_field F; spasm_field_init(p, F); std::vector<spasm_ZZp> z; for (int k = 1; k < 20; k++) { spasm_ZZp a = spasm_ZZp_init(F, (i64) k * 123456789123LL + 1); if (!a) a = 1; z.push_back(a); z.push_back(spasm_ZZp_inverse(F, a)); z.push_back(spasm_ZZp_mul(F, a, z[z.size() / 2])); z.push_back(spasm_ZZp_axpy(F, a, z[0], z[1])); } r.vec(z));
	OP("small-inverses", std::vector<spasm_ZZp> z; for (int a : {2, -2, 3, 7, -7, 3, -2, 2}) { z.push_back(spasm_ZZp_inverse(w.C->field, spasm_ZZp_init(w.C->field, a))); z.push_back(spasm_ZZp_mul(w.C->field, 2, z.back())); z.push_back(spasm_ZZp_axpy(w.C->field, z.back(), 1, 2));} r.vec(z));
	OP("certificate-refused", struct spasm_lu *f = ech(w, 5); struct spasm_rank_certificate *c = spasm_certificate_rank_create(w.C, w.hash, f); auto drop = [](struct spasm_rank_certificate &z) { mc_free(z.i); mc_free(z.j); mc_free(z.x); mc_free(z.y); }; auto v = [&] { r.val(spasm_certificate_rank_verify(w.C, w.hash, c)); }; c->hash[31] ^= 1; v(); c->hash[31] ^= 1; c->prime += 2; v(); c->prime -= 2; int rk = c->r; c->r = -1; v(); c->r = rk; if (rk) { int z = c->i[rk - 1]; c->i[rk - 1] = n; v(); c->i[rk - 1] = -1; v(); c->i[rk - 1] = z; z = c->j[0]; c->j[0] = m; v(); c->j[0] = z; spasm_ZZp x = c->x[0]; c->x[0] = x == 0; v(); c->x[0] = x; x = c->y[rk - 1]; c->y[rk - 1] = x == 0; v(); c->y[rk - 1] = x; c->r = rk - 1; v(); c->r = rk; } v();
		std::string s = cert_save(c); for (size_t k = 0; k <= s.size(); k += k > 10 ? 3 + s.size() / 12 : 1) { std::string t = s.substr(0, k); if (k % 2) t += " x"; Feed d = {t.data(), t.size(), 0, 9, -1}; FILE *g = feed(&d); struct spasm_rank_certificate c2; bool ok = spasm_rank_certificate_load(g, &c2); fclose(g); r.val(ok); if (ok) drop(c2); } { std::string t = s + "5"; Feed d = {t.data(), t.size(), 0, 100, -1}; FILE *g = feed(&d); struct spasm_rank_certificate c2; bool ok = spasm_rank_certificate_load(g, &c2); fclose(g); r.val(ok); if (ok) drop(c2); } r.del.push_back([c, drop] { drop(*c); mc_free(c); }); r.lu(f));
	OP("verify-wrong-factorisation", struct spasm_lu *f = ech(w, 6); for (i64 *q = f->L->p, k = 0; k < q[f->L->n]; k += 2) { spasm_ZZp x = f->L->x[k]; f->L->x[k] = spasm_ZZp_add(w.C->field, x, 1); for (u64 s = 0; s < 2; s++) r.val(spasm_factorization_verify(w.C, f, s)); f->L->x[k] = x; } r.lu(f));
	OP("gesv-mixed", struct spasm_lu *f = ech(w, 5); int N = 2 * n + 3; struct spasm_triplet *T = spasm_triplet_alloc(N, m, 1, p, true); for (int i = 0; i < N; i++) for (int j = 0; j < m; j++) { i64 x = i < n ? R_bal(w.A[i][j], p) : i == 2 * n + 1 ? 0 : i == N - 1 ? (j == m / 2) : (n ? R_bal(w.A[i % n][j], p) : 0) + (j == i % m && i % 3 == 0); spasm_add_entry(T, i, j, x); } struct spasm_csr *B = spasm_compress(T); spasm_triplet_free(T); std::vector<char> okv(N + 1, 0); bool *ok = (bool *) okv.data(); r.csr(spasm_gesv(f, B, ok)); r.vec(okv); r.csr(B); r.lu(f));
	OP("matching-relabelled", std::vector<int> a(n + 1), b(m + 1); r.val(spasm_maximum_matching(w.C, a.data(), b.data())); int *qi = spasm_pinv(w.q.data(), m), *pi = spasm_pinv(w.p.data(), n); r.ints(spasm_permute_row_matching(n, a.data(), w.p.data(), qi), n); r.ints(spasm_permute_column_matching(m, b.data(), pi, w.q.data()), m); r.ints(qi, m); r.ints(pi, n));
	OP("density", Mat Up(0, m, p); auto F = std::make_shared<Fact>(); make_fact(*F, Up, {}, n, false, 0, 0, n); int *rp = (int *) spasm_malloc((n + 1) * sizeof(int)); struct echelonize_opts o = opt_base(); int k = spasm_pivots_extract_structural(w.C, NULL, &F->f, rp, &o); rp[n] = 0; double d = spasm_schur_estimate_density(w.C, rp + k, n - k, F->f.U, F->qinv.data(), 20); r.val((u64) (d * 1e9)); std::vector<int> xj(3 * m + 1, 0); std::vector<spasm_ZZp> x(m + 1, 0); for (int i = 0; i < n; i++) { r.val(spasm_sparse_triangular_solve(F->f.U, w.C, i, xj.data(), x.data(), F->qinv.data())); r.vec(xj); r.vec(x); } r.csr(F->U); r.ints(rp, n));
	OP("dense-elimination", for (auto dt : {SPASM_DOUBLE, SPASM_FLOAT, SPASM_I64}) { if (dt == SPASM_FLOAT && p > 2047) continue; if (dt == SPASM_DOUBLE && p > 189812507) continue; for (int lu = 0; lu < 2; lu++) { std::vector<u64> S(n * m + 1, 0); std::vector<size_t> P(n + 1, 0), Q(m + 1, 0); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) spasm_datatype_write(S.data(), i * m + j, dt, R_bal(w.A[i][j], p)); if (n && m) r.val(lu ? spasm_ffpack_LU(p, n, m, S.data(), m, dt, P.data(), Q.data()) : spasm_ffpack_rref(p, n, m, S.data(), m, dt, Q.data())); if (lu) r.vec(S); r.vec(Q); } });
	OP("prng-simple", spasm_prng_ctx g, h; spasm_prng_seed_simple(p, 5 + n, m, &g); spasm_prng_seed_simple(p, 5 + n, m + 1, &h); std::vector<u32> z; for (int k = 0; k < 40; k++) { z.push_back(spasm_prng_u32(&g)); z.push_back(spasm_prng_ZZp(&h)); if (k % 3 == 0) z.push_back(spasm_prng_ZZp(&g)); } r.vec(z));
	#undef OP
	return v;
}
// matrices of the worlds: same sizes with other moduli, same moduli with other sizes, dependent rows, larger ones, empty ones
inline std::vector<Mat> world_mats(bool more)
{
	std::vector<Mat> v; auto mk = [&](std::vector<const char *> rows, u64 p, int c) { Mat A(rows.size(), strlen(rows[0]), p); for (int i = 0; i < A.n; i++) for (int j = 0; j < A.m; j++) if (rows[i][j] == 'x') A[i][j] = 1 + tex(i, j, c) % (p - 1); v.push_back(A); };
	mk({"x..x.", ".xx.x", "x.x..", "..xxx"}, 101, 1); mk({".xx..", "x...x", "xxxx.", "x.x.x"}, 65537, 2); mk({"x.x.x..", "..x...x", "x.....x", ".x.xx..", "x.x....", "xx.x..x"}, 101, 3); mk({"x.", "xx", ".x"}, 4294967291u, 4);
	{ Mat &A = v[0]; for (int j = 0; j < 5; j++) A[3][j] = R_add(A[0][j], A[1][j], 101); }
	mk({"x..x.", ".xx.x", "x.x..", "..xxx"}, 103, 1); for (int t : {0, 4}) { Mat &A = v[t]; for (int i = 0; i < 3; i++) for (int j = 0; j < 5; j++) if (A[i][j]) A[i][j] = 2; for (int j = 0; j < 5; j++) A[3][j] = R_add(A[0][j], A[1][j], A.p); }      // the same integers modulo two primes
	if (more) { v.push_back(Mat(0, 3, 101)); v.push_back(Mat(3, 3, 257)); mk({"x....x", ".x..x.", "..xx..", "x.x...", ".x.x..", "....xx", "xxxxxx", "x....x", ".x..x."}, 189812507, 5); Mat A(13, 3, 42013); for (int i = 0; i < 13; i++) for (int j = 0; j < 3; j++) A[i][j] = (i % 2 + 1) * (j + 1 + (i == 12)); v.push_back(A); }
	return v;
}
