// rank certificates: construction, reference verification, reference parser
#pragma once
#include "algo.h"
#include "refhash.h"
#include "big.h"
struct Cert { i64 r = 0; i64 prime = 0; u8 hash[32]; std::vector<i64> i, j, x, y; bool operator==(const Cert &o) const { return r == o.r && prime == o.prime && !memcmp(hash, o.hash, 32) && i == o.i && j == o.j && x == o.x && y == o.y; } };
inline Cert cert_get(const struct spasm_rank_certificate *c) { Cert o; o.r = c->r; o.prime = c->prime; memcpy(o.hash, c->hash, 32); EXPECT(c->r >= 0 && c->r < 1000000, "certificate states rank %d", c->r); for (int k = 0; k < c->r; k++) { o.i.push_back(c->i[k]); o.j.push_back(c->j[k]); o.x.push_back(c->x[k]); o.y.push_back(c->y[k]); } return o; }
struct CertBuf { struct spasm_rank_certificate c; std::vector<int> i, j; std::vector<spasm_ZZp> x, y; CertBuf(const Cert &o) { c.r = (int) o.r; c.prime = o.prime; memcpy(c.hash, o.hash, 32); i.reserve(1); j.reserve(1); x.reserve(1); y.reserve(1); i.assign(o.i.begin(), o.i.end()); j.assign(o.j.begin(), o.j.end()); x.assign(o.x.begin(), o.x.end()); y.assign(o.y.begin(), o.y.end()); c.i = i.data(); c.j = j.data(); c.x = x.data(); c.y = y.data(); } };
inline std::string cert_str(const Cert &c) { std::string s = "r=" + std::to_string(c.r) + " p=" + std::to_string(c.prime); auto v = [&](const char *n, const std::vector<i64> &a) { s += std::string(" ") + n + "=("; for (i64 t : a) s += std::to_string(t) + ","; s += ")"; }; v("i", c.i); v("j", c.j); v("x", c.x); v("y", c.y); return s; }
// both identities for the challenge derived from the digest
inline Row any_vecmat(const Row &x, const Mat &A) { return R_vecmat(x, A); }
inline Row any_vecmat(const Row &x, const SpM &A) { return sp_vecmat(x, A); }
template <class M> inline bool cert_ref(const M &A, const u8 *hash, const Cert &c)
{
	u64 p = A.p; if (memcmp(hash, c.hash, 32) || (u64) c.prime != p || c.r < 0) return false;
	for (int k = 0; k < c.r; k++) if (c.i[k] < 0 || c.i[k] >= A.n || c.j[k] < 0 || c.j[k] >= A.m) return false;
	RefPrng g(c.hash, p, 0); Row v(A.n, 0); std::vector<char> piv(A.n, 0); for (int k = 0; k < c.r; k++) v[c.i[k]] = R_red(c.x[k], p);
	Row w = any_vecmat(v, A); for (int k = 0; k < c.r; k++) if (w[c.j[k]] != g.elt()) return false;
	for (int k = 0; k < c.r; k++) { v[c.i[k]] = R_red(c.y[k], p); piv[c.i[k]] = 1; }
	for (int i = 0; i < A.n; i++) if (!piv[i]) v[i] = g.elt();
	w = any_vecmat(v, A); for (u64 z : w) if (z) return false; return true;
}
inline std::string cert_save(const struct spasm_rank_certificate *c) { char *b = NULL; size_t n = 0; FILE *f = open_memstream(&b, &n); spasm_rank_certificate_save(c, f); step(); fclose(f); std::string s(b, n); free(b); return s; }
// grammar of the stored form: decimal rank, modulus, 64 hexadecimal digits, 4r decimal numbers, separated by white space
inline bool cert_parse(const std::string &s, Cert &c)
{
	std::vector<std::string> t; size_t k = 0; while (k < s.size()) { while (k < s.size() && isspace((unsigned char) s[k])) k++; size_t b = k; while (k < s.size() && !isspace((unsigned char) s[k])) k++; if (k > b) t.push_back(s.substr(b, k - b)); }
	auto num = [](const std::string &w, i64 lo, i64 hi, i64 &v) { size_t q = (w[0] == '-' || w[0] == '+'); if (q == w.size() || w.size() > 18) return false; for (size_t z = q; z < w.size(); z++) if (!isdigit((unsigned char) w[z])) return false; v = atoll(w.c_str()); return lo <= v && v <= hi; };
	if (t.size() < 3 || !num(t[0], 0, 0x7fffffff, c.r) || !num(t[1], 0, 0xffffffffL, c.prime) || t[2].size() != 64) return false;
	for (int b = 0; b < 32; b++) { char h[3] = {t[2][2 * b], t[2][2 * b + 1], 0}; if (!isxdigit((unsigned char) h[0]) || !isxdigit((unsigned char) h[1])) return false; c.hash[b] = strtoul(h, NULL, 16); }
	if (t.size() != 3 + 4 * (size_t) c.r) return false; std::vector<i64> *w[4] = {&c.i, &c.j, &c.x, &c.y}; for (auto q : w) q->clear();
	for (int q = 0; q < 4; q++) for (int z = 0; z < c.r; z++) { i64 v; if (!num(t[3 + q * c.r + z], -0x80000000L, 0x7fffffff, v)) return false; w[q]->push_back(v); } return true;
}
// a stream that delivers `chunk` bytes at a time and optionally fails at offset `fail`
struct Feed { const char *b; size_t n, pos, chunk; long fail; };
inline FILE *feed(Feed *d) { cookie_io_functions_t io; memset(&io, 0, sizeof io); io.read = [](void *c, char *o, size_t k) -> ssize_t { Feed *d = (Feed *) c; if (d->fail >= 0 && d->pos >= (size_t) d->fail) { errno = EIO; return -1; } size_t q = std::min({k, d->chunk, d->n - d->pos}); if (d->fail >= 0) q = std::min(q, (size_t) d->fail - d->pos); memcpy(o, d->b + d->pos, q); d->pos += q; return q; }; return fopencookie(d, "r", io); }
// load: returns 1 accepted, 0 refused (either verdict or reported error)
inline int cert_load(const std::string &s, Cert &out, size_t chunk = 1 << 20, long fail = -1)
{
	Feed d = {s.data(), s.size(), 0, chunk, fail}; struct spasm_rank_certificate c; memset(&c, 0x5a, sizeof c); volatile bool ok = false;
	FILE *f = feed(&d); Outcome o = guarded([&] { ok = spasm_rank_certificate_load(f, &c); }); step(); fclose(f);
	if (o.kind != Outcome::OK) { EXPECT(o.reported(), "loading ended by %s: %s", o.name(), o.msg); return 0; } if (!ok) return 0; out = cert_get(&c); return 1;
}
inline Digest digest(int k) { Digest d; for (int b = 0; b < 32; b++) d[b] = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? (u8) (b * 7 + 1) : (u8) tex(b, k); return d; }
