#pragma once
/*
	Frame of every monitor process: option parsing, seeded generators, conversion
	between library objects and reference values, verdict and coverage recording.

	Process protocol (read by ../check.py)
	  exit 0   ran to the end; failed oracles are listed in the --out JSON
	  exit 70  the harness itself failed (never a verdict)
	  other    the library ended or crashed the process: a violation
	--progress FILE is a shared mapping holding the label and number of the case
	being executed, so that a crash can be attributed and replayed.
*/
#ifndef MIE_ATE_USE_GMP
#define MIE_ATE_USE_GMP
#endif
#include "bn.h"
#include "ref.hpp"
#include <map>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>

// what the monitor itself needs; once a deviation is on record it stands, whatever it does to the rest of the run
#define HARNESS_REQUIRE(c) do { if (!(c)) mon::harnessStop(__FILE__, __LINE__, #c); } while (0)
namespace mon { inline void harnessStop(const char *file, int line, const char *what); }

namespace mon {

typedef uint64_t u64;
using ref::Z;

struct Rng {
	u64 s;
	explicit Rng(u64 seed = 1) : s(seed) {}
	u64 next() { u64 z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
	u64 u(u64 n) { return n ? next() % n : 0; }
	bool coin() { return next() >> 63; }
	Z bits(unsigned n) { // uniform in [0, 2^n)
		unsigned w = (n + 63) / 64; std::vector<u64> v(w ? w : 1);
		for (size_t i = 0; i < v.size(); i++) v[i] = next();
		Z r; mpz_import(r.get_mpz_t(), v.size(), -1, 8, 0, 0, &v[0]);
		mpz_fdiv_r_2exp(r.get_mpz_t(), r.get_mpz_t(), n); return r;
	}
	Z below(const Z& m) { return ref::zmod(bits(mpz_sizeinbase(m.get_mpz_t(), 2) + 64), m); }
};

class HashSet { // open addressing, grows; counts distinct 64-bit hashes
	std::vector<u64> t; size_t n;
	void grow() { std::vector<u64> o(t.size() * 2, 0); o.swap(t); n = 0; for (size_t i = 0; i < o.size(); i++) if (o[i]) add(o[i]); }
public:
	HashSet() : t(1 << 12, 0), n(0) {}
	bool add(u64 h) {
		if (!h) h = 1;
		if (n * 10 > t.size() * 6) grow();
		size_t m = t.size() - 1, i = (h * 0x9e3779b97f4a7c15ULL >> 17) & m;
		while (t[i]) { if (t[i] == h) return false; i = (i + 1) & m; }
		t[i] = h; n++; return true;
	}
	size_t size() const { return n; }
};

inline u64 hmix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 33); }
inline u64 hbytes(const void *p, size_t n, u64 h = 0x1234) {
	const unsigned char *c = (const unsigned char *)p;
	for (; n >= 8; n -= 8, c += 8) { u64 v; memcpy(&v, c, 8); h = hmix(h, v); }
	u64 v = n; for (size_t i = 0; i < n; i++) v = v << 8 | c[i];
	return hmix(h, v);
}
inline u64 hstr(const std::string& s, u64 h = 7) { return hbytes(s.data(), s.size(), h); }

inline std::string jesc(const std::string& s) {
	std::string o;
	for (size_t i = 0; i < s.size(); i++) {
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c >= 127) { char b[8]; sprintf(b, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o;
}

struct Progress { u64 caseNo; u64 rng; char label[112]; };

struct Fail { std::string key, detail; u64 caseNo; };

struct Ctx {
	u64 seed, scale; int mode, mulx, b; std::string tier, opt;
	Rng g;
	u64 evals; HashSet distinct;
	std::map<std::string, u64> counters;
	std::vector<std::string> samples;
	std::vector<Fail> fails; u64 nfails;
	std::map<std::string, u64> failKeys;
	Progress *prog; Progress dummy;
	std::string outPath;
	u64 maxFails;
	u64 caseNo;
	Ctx() : seed(1), scale(100), mode(-1), mulx(1), b(0), tier("quick"), g(1), evals(0), nfails(0), prog(&dummy), maxFails(12), caseNo(0) { memset(&dummy, 0, sizeof dummy); }
	bool thorough() const { return tier == "thorough"; }
	u64 n(u64 base) const { u64 k = base * scale / 100; return k ? k : 1; } // scale is in percent
	void begin(const char *label) {
		caseNo++; prog->caseNo = caseNo; prog->rng = g.s;
		if (strncmp(prog->label, label, sizeof prog->label) != 0) { strncpy(prog->label, label, sizeof(prog->label) - 1); }
	}
	// one oracle decision; h identifies the input
	void eval(u64 h, bool nontrivial = true) { evals++; if (nontrivial) distinct.add(h); }
	u64& ctr(const std::string& k) { return counters[k]; }
	bool wantSample() { return samples.size() < 6 || (samples.size() < 12 && g.u(997) == 0); }
	void sample(const std::string& s) { if (samples.size() < 12) samples.push_back(s.size() > 900 ? s.substr(0, 900) + "..." : s); }
	void fail(const std::string& key, const std::string& detail) {
		nfails++;
		u64& k = failKeys[key];
		if (k++ < 3 && fails.size() < 40) { Fail f; f.key = key; f.detail = detail.substr(0, 3000); f.caseNo = caseNo; fails.push_back(f); fprintf(stderr, "FAIL %s: %s\n", key.c_str(), f.detail.c_str()); }
		if (nfails >= 2000) { write(); _exit(0); }
	}
	void write() {
		FILE *fp = outPath.empty() ? stdout : fopen(outPath.c_str(), "w");
		HARNESS_REQUIRE(fp);
		fprintf(fp, "{\"evaluations\": %llu, \"distinct\": %llu, \"cases\": %llu, \"nfails\": %llu,\n \"counters\": {", (unsigned long long)evals, (unsigned long long)distinct.size(), (unsigned long long)caseNo, (unsigned long long)nfails);
		const char *sep = "";
		for (std::map<std::string, u64>::iterator i = counters.begin(); i != counters.end(); ++i) { fprintf(fp, "%s\"%s\": %llu", sep, jesc(i->first).c_str(), (unsigned long long)i->second); sep = ", "; }
		fprintf(fp, "},\n \"samples\": ["); sep = "";
		for (size_t i = 0; i < samples.size(); i++) { fprintf(fp, "%s\"%s\"", sep, jesc(samples[i]).c_str()); sep = ",\n  "; }
		fprintf(fp, "],\n \"fails\": ["); sep = "";
		for (size_t i = 0; i < fails.size(); i++) { fprintf(fp, "%s{\"key\": \"%s\", \"case\": %llu, \"detail\": \"%s\"}", sep, jesc(fails[i].key).c_str(), (unsigned long long)fails[i].caseNo, jesc(fails[i].detail).c_str()); sep = ",\n  "; }
		fprintf(fp, "]}\n");
		if (fp != stdout) fclose(fp); else fflush(fp);
	}
};

// key and detail are only built when the oracle fails
#define CHECK(c, cond, key, detail) do { if (!(cond)) { std::ostringstream os_; os_ << std::hex << detail; (c).fail((key), os_.str()); } } while (0)

// ------------------------------------------------------------ library <-> reference
using bn::Fp; using bn::Fp2; using bn::Fp6; using bn::Fp12; using bn::Ec1; using bn::Ec2;
typedef mie::Unit Unit;

inline Fp rawFp(const u64 *v) { return Fp((const Unit *)v); }
inline Fp mk(const ref::F1& a) { ref::F1 m = ref::toMont(a); return rawFp((const u64 *)m.v); }
inline Fp2 mk(const ref::F2& a) { return Fp2(mk(a.a), mk(a.b)); }
inline Fp6 mk6(const ref::F12& a) { return Fp6(mk(a.c[0]), mk(a.c[2]), mk(a.c[4])); }
inline Fp12 mk(const ref::F12& a) { return Fp12(Fp6(mk(a.c[0]), mk(a.c[2]), mk(a.c[4])), Fp6(mk(a.c[1]), mk(a.c[3]), mk(a.c[5]))); }

inline void limbs(u64 v[4], const Fp& x) { for (int i = 0; i < 4; i++) v[i] = x[i]; }
inline bool canon(const Fp& x) { mp_limb_t v[4]; limbs((u64 *)v, x); return mpn_cmp(v, ref::C().pl, 4) < 0; }
inline bool canon(const Fp2& x) { return canon(x.a_) && canon(x.b_); }
inline bool canon(const Fp6& x) { return canon(x.a_) && canon(x.b_) && canon(x.c_); }
inline bool canon(const Fp12& x) { return canon(x.a_) && canon(x.b_); }
inline ref::F1 val(const Fp& x) { u64 v[4]; limbs(v, x); return ref::fromMontRaw(v); }
inline ref::F2 val(const Fp2& x) { return ref::F2(val(x.a_), val(x.b_)); }
inline ref::F12 val(const Fp6& x) { ref::F12 r; r.c[0] = val(x.a_); r.c[2] = val(x.b_); r.c[4] = val(x.c_); return r; }
inline ref::F12 val(const Fp12& x) {
	ref::F12 r; r.c[0] = val(x.a_.a_); r.c[2] = val(x.a_.b_); r.c[4] = val(x.a_.c_);
	r.c[1] = val(x.b_.a_); r.c[3] = val(x.b_.b_); r.c[5] = val(x.b_.c_); return r;
}
// exact: value and reduced representation
inline bool same(const Fp& x, const ref::F1& a) { u64 v[4]; limbs(v, x); ref::F1 m = ref::toMont(a); return memcmp(v, m.v, 32) == 0; }
inline bool same(const Fp2& x, const ref::F2& a) { return same(x.a_, a.a) && same(x.b_, a.b); }
inline bool same(const Fp6& x, const ref::F12& a) { return same(x.a_, a.c[0]) && same(x.b_, a.c[2]) && same(x.c_, a.c[4]); }
inline bool same(const Fp12& x, const ref::F12& a) {
	return same(x.a_.a_, a.c[0]) && same(x.a_.b_, a.c[2]) && same(x.a_.c_, a.c[4])
		&& same(x.b_.a_, a.c[1]) && same(x.b_.b_, a.c[3]) && same(x.b_.c_, a.c[5]);
}
inline std::string rawStr(const Fp& x) { char b[80]; sprintf(b, "%016llx%016llx%016llx%016llx", (unsigned long long)x[3], (unsigned long long)x[2], (unsigned long long)x[1], (unsigned long long)x[0]); return b; }
inline std::string rawStr(const Fp2& x) { return "[" + rawStr(x.a_) + "," + rawStr(x.b_) + "]"; }
inline std::string rawStr(const Fp6& x) { return "[" + rawStr(x.a_) + rawStr(x.b_) + rawStr(x.c_) + "]"; }
inline std::string rawStr(const Fp12& x) { return "[" + rawStr(x.a_) + rawStr(x.b_) + "]"; }
inline u64 hv(const ref::F1& a, u64 h = 1) { return hbytes(a.v, 32, h); }
inline u64 hv(const ref::F2& a, u64 h = 2) { return hv(a.b, hv(a.a, h)); }
inline u64 hv(const ref::F12& a, u64 h = 3) { for (int i = 0; i < 6; i++) h = hv(a.c[i], h); return h; }
inline u64 hz(const Z& z, u64 h = 5) { h = hmix(h, sgn(z)); for (size_t i = 0, n = mpz_size(z.get_mpz_t()); i < n; i++) h = hmix(h, mpz_getlimbn(z.get_mpz_t(), i)); return h; }
template<class F> u64 hv(const ref::Pt<F>& P, u64 h = 4) { return P.inf ? hmix(h, 99) : hv(P.y, hv(P.x, h)); }

template<unsigned N> inline Z toZ(const u64 (&v)[N]) { Z r; mpz_import(r.get_mpz_t(), N, -1, 8, 0, 0, v); return r; }
inline Z toZ(const mie::Vuint& x) { Z r = 0; for (size_t i = x.size(); i-- > 0;) { r <<= 64; u64 w = x[i]; Z t; mpz_import(t.get_mpz_t(), 1, -1, 8, 0, 0, &w); r += t; } return r; }
inline Z toZ(const mie::Vsint& x) { Z r = toZ(x.get()); return x.isNegative() ? Z(-r) : r; }
inline mie::Vuint toV(const Z& z) {
	u64 w[64]; size_t n = 0; memset(w, 0, sizeof w);
	HARNESS_REQUIRE(z >= 0 && mpz_size(z.get_mpz_t()) <= 64);
	mpz_export(w, &n, -1, 8, 0, 0, z.get_mpz_t());
	mie::Vuint v; v.set((const Unit *)w, n ? n : 1); return v;
}
inline mie::Vsint toVs(const Z& z) { mie::Vsint v(toV(abs(z))); return z < 0 ? -v : v; }

template<class F, class L> bool samePt(const L *p, const ref::Pt<F>& P) {
	if (!canon(p[2])) return false;
	F z = val(p[2]);
	if (z.isZero()) return P.inf; // coordinates of infinity are not looked at
	if (P.inf || !canon(p[0]) || !canon(p[1])) return false;
	F zz = z * z;
	return val(p[0]) == P.x * zz && val(p[1]) == P.y * zz * z;
}
inline bool samePt(const Ec1& p, const ref::P1& P) { return samePt(p.p, P); }
inline bool samePt(const Ec2& p, const ref::P2& P) { return samePt(p.p, P); }
template<class E> std::string rawPt(const E& p) { return "(" + rawStr(p.p[0]) + "," + rawStr(p.p[1]) + "," + rawStr(p.p[2]) + ")"; }

// ------------------------------------------------------------ generators
struct Gen {
	Ctx& c; Rng& g;
	explicit Gen(Ctx& c_) : c(c_), g(c_.g) {}
	u64 edgeLimb() {
		switch (g.u(8)) {
		case 0: return 0; case 1: return ~0ULL; case 2: return 1; case 3: return 1ULL << 63;
		case 4: return ref::C().pl[g.u(4)] + g.u(3) - 1; case 5: return 1ULL << g.u(64);
		case 6: return (1ULL << g.u(64)) - 1; default: return g.next();
		}
	}
	Z edgeInt(unsigned maxBits) { // integers of every length with special limb patterns
		unsigned nl = 1 + (unsigned)g.u((maxBits + 63) / 64); Z r;
		switch (g.u(6)) {
		case 0: r = g.bits(1 + (unsigned)g.u(maxBits)); break;
		case 1: r = (Z(1) << g.u(maxBits)) + (long)g.u(5) - 2; break;
		case 2: { r = 0; for (unsigned i = 0; i < nl; i++) { u64 w = edgeLimb(); Z t; mpz_import(t.get_mpz_t(), 1, -1, 8, 0, 0, &w); r = (r << 64) + t; } break; }
		case 3: r = (long)g.u(20); break;
		case 4: { unsigned a = (unsigned)g.u(maxBits), b = (unsigned)g.u(maxBits); Z x = Z(1) << a, y = Z(1) << b; r = x - y; break; } // a run of ones
		default: r = g.bits(maxBits); break;
		}
		r = abs(r);
		mpz_fdiv_r_2exp(r.get_mpz_t(), r.get_mpz_t(), maxBits);
		return r;
	}
	ref::F1 f1() { // base-field value; canonical or Montgomery form is special
		const Z& p = ref::C().p; Z v;
		switch (g.u(10)) {
		case 0: case 1: case 2: return ref::F1(g.below(p));
		case 3: v = Z((long)g.u(9)) - 4; break;
		case 4: v = (Z(1) << g.u(255)) + (long)g.u(3) - 1; break;
		case 5: v = (p >> g.u(8)) + (long)g.u(5) - 2; break;
		case 6: v = -(Z(1) << g.u(255)) + (long)g.u(3) - 1; break;
		default: { v = 0; for (int i = 0; i < 4; i++) { u64 w = edgeLimb(); Z t; mpz_import(t.get_mpz_t(), 1, -1, 8, 0, 0, &w); v = (v << 64) + t; } }
		}
		v = ref::zmod(v, p);
		if (g.coin()) { mp_limb_t raw[4] = { 0, 0, 0, 0 }; size_t n; mpz_export(raw, &n, -1, 8, 0, 0, v.get_mpz_t()); return ref::fromMontRaw((u64 *)raw); }
		return ref::F1(v);
	}
	ref::F1 f1nz() { for (;;) { ref::F1 a = f1(); if (!a.isZero()) return a; } }
	ref::F1 rel(const ref::F1& a) { // a value related to a
		switch (g.u(8)) {
		case 0: return a; case 1: return -a; case 2: return a + ref::F1(1); case 3: return -a - ref::F1(1);
		case 4: return ref::fromMontRaw((const u64 *)ref::F1(1).v) - a; // raw sum is p + 1
		case 5: return a + ref::fromMontRaw((const u64 *)ref::F1(1).v);
		case 6: return ref::inv(a); default: return a + a;
		}
	}
	void pair(ref::F1& x, ref::F1& y) { x = f1(); y = g.u(3) ? f1() : rel(x); if (g.u(6) == 0) std::swap(x, y); }
	// y such that the Montgomery product has a special raw value
	ref::F1 forResult(const ref::F1& x, const ref::F1& want) { return x.isZero() ? f1() : want * ref::inv(x); }
	ref::F2 f2() {
		switch (g.u(10)) {
		case 0: return ref::F2(f1(), ref::F1()); case 1: return ref::F2(ref::F1(), f1());
		case 2: { ref::F1 a = f1(); return ref::F2(a, a); } case 3: { ref::F1 a = f1(); return ref::F2(a, -a); }
		case 4: { ref::F1 m = maxRaw(); return ref::F2(g.coin() ? m : f1(), g.coin() ? m : f1()); }
		case 5: { ref::F1 a = f1(); return ref::F2(a, rel(a)); }
		default: return ref::F2(f1(), f1());
		}
	}
	ref::F1 maxRaw() { mp_limb_t raw[4]; mpn_sub_1(raw, ref::C().pl, 4, 1); return ref::fromMontRaw((u64 *)raw); } // Montgomery form p - 1
	ref::F2 f2nz() { for (;;) { ref::F2 a = f2(); if (!a.isZero()) return a; } }
	ref::F2 rel(const ref::F2& a) {
		switch (g.u(6)) { case 0: return a; case 1: return -a; case 2: return ref::conj(a); case 3: return ref::inv(a); case 4: return a + ref::F2(1L); default: return ref::F2(rel(a.a), a.b); }
	}
	ref::F12 f12(int step = 1) { // step 2: degree-6 subfield (even powers of w)
		ref::F12 r; unsigned k = (unsigned)g.u(10);
		ref::F1 m = maxRaw(); ref::F2 s = f2();
		for (int i = 0; i < 6; i += step) {
			switch (k) {
			case 0: r.c[i] = g.u(3) ? ref::F2() : f2(); break;            // sparse
			case 1: r.c[i] = ref::F2(g.u(4) ? m : f1(), g.u(4) ? m : f1()); break; // near the maximum
			case 2: r.c[i] = s; break;                                     // equal coefficients
			case 3: r.c[i] = g.coin() ? s : -s; break;
			case 4: r.c[i] = ref::F2(ref::F1((long)g.u(3)), ref::F1((long)g.u(3))); break;
			case 5: r.c[i] = ref::F2(m, m); break;
			default: r.c[i] = f2(); break;
			}
		}
		if (k == 6 && step == 1) for (int i = 1; i < 6; i++) if (g.u(2)) r.c[i] = ref::F2(); // towards a subfield
		return r;
	}
	ref::F12 f12nz(int step = 1) { for (;;) { ref::F12 a = f12(step); if (!a.isZero()) return a; } }
	ref::F12 cyc() { return ref::easyPart(f12nz()); } // element of the cyclotomic subgroup
	// ---- points
	ref::P1 p1() {
		for (;;) {
			ref::F1 x = g.u(4) ? ref::F1(g.below(ref::C().p)) : f1(), y;
			if (g.u(64) == 0) x = ref::F1();
			if (ref::sqrt(y, x * x * x + ref::B1())) return ref::P1(x, g.coin() ? y : -y);
		}
	}
	ref::P2 p2any() { // any point of the twist (usually outside the subgroup)
		for (;;) {
			ref::F2 x = g.u(4) ? ref::F2(ref::F1(g.below(ref::C().p)), ref::F1(g.below(ref::C().p))) : f2(), y;
			if (g.u(64) == 0) x = ref::F2();
			if (ref::sqrt(y, x * x * x + ref::BT())) return ref::P2(x, g.coin() ? y : -y);
		}
	}
	ref::P2 p2sub() { for (;;) { ref::P2 q = ref::mul(p2any(), Z(2 * ref::C().p - ref::C().r)); if (!q.inf) return q; } }
	template<class F> F zscale();
	// library representation of P with a chosen projective scale
	template<class E, class F> void rep(E& e, const ref::Pt<F>& P, int kind = -1) {
		if (kind < 0) kind = (int)g.u(6);
		if (P.inf) {
			if (kind % 3 == 0) e.clear();
			else { e.p[0] = mk(scaleVal((F *)0)); e.p[1] = mk(scaleVal((F *)0)); e.p[2].clear(); }
			return;
		}
		F z = kind < 2 ? F(1L) : kind == 2 ? F(-1L) : scaleVal((F *)0);
		if (kind == 5 && g.u(4) == 0 && !P.x.isZero()) { F s; if (ref::sqrt(s, z * ref::inv(P.x)) && !s.isZero()) z = s; } // a special value in X instead of Z
		F zz = z * z;
		e.p[0] = mk(P.x * zz); e.p[1] = mk(P.y * zz * z); e.p[2] = mk(z);
	}
	ref::F1 scaleVal(ref::F1 *) { return f1nz(); }
	ref::F2 scaleVal(ref::F2 *) { return f2nz(); }
	Z scalar(unsigned maxBits = 512) {
		const Z& r = ref::C().r; const Z& p = ref::C().p;
		switch (g.u(14)) {
		case 0: return (long)g.u(17); case 1: return r + (long)g.u(5) - 2; case 2: return p + (long)g.u(5) - 2;
		case 3: return r * (long)(1 + g.u(5)) + (long)g.u(3) - 1; case 4: return r / 2 + (long)g.u(3) - 1;
		case 5: return (Z(1) << g.u(maxBits)) + (g.coin() ? 1 : 0);
		case 6: { Z t = 0; for (unsigned i = 0; i < maxBits / 64; i++) { u64 w = g.u(3) ? 0 : edgeLimb(); Z q; mpz_import(q.get_mpz_t(), 1, -1, 8, 0, 0, &w); t = (t << 64) + q; } return t; }
		case 7: return edgeInt(maxBits); case 8: return edgeInt(256); case 9: return g.bits(64); case 10: return g.bits(32);
		default: return g.below(r);
		}
	}
};

// a pool of subgroup points with known discrete logarithms to one generator, cheap to draw from
template<class F> struct Pool {
	std::vector<ref::Pt<F> > pts; std::vector<Z> logs; ref::Pt<F> gen;
	void build(Rng& g, const ref::Pt<F>& G, size_t n) {
		gen = G; pts.clear(); logs.clear(); Z k = g.below(ref::C().r); ref::Pt<F> P = ref::mul(G, k), D = ref::mul(G, Z(g.below(ref::C().r)));
		Z step; (void)D;
		step = g.below(ref::C().r); D = ref::mul(G, step);
		for (size_t i = 0; i < n; i++) { pts.push_back(P); logs.push_back(k); P = ref::add(P, D); k = ref::zmod(k + step, ref::C().r); if (i % 5 == 3) { P = ref::dbl(P); k = ref::zmod(2 * k, ref::C().r); } }
	}
};

// fills an output object (made of field elements or their products) with junk no result depends on
template<class T> T& smear(T& t) { static thread_local Rng g(97); u64 *w = (u64 *)(void *)&t; for (size_t i = 0; i < sizeof t / 8; i++) w[i] = g.next() >> (i % 4 == 3 ? 3 : 0); return t; }

inline Ctx *& mainCtx() { static Ctx *c = 0; return c; }
inline pid_t& mainPid() { static pid_t p = 0; return p; }
inline void harnessStop(const char *file, int line, const char *what)
{
	if (mainCtx() && mainCtx()->nfails > 0 && getpid() == mainPid()) { fprintf(stderr, "not continued: %s:%d %s\n", file, line, what); mainCtx()->write(); _exit(0); }
	fprintf(stderr, "HARNESS-ERROR %s:%d %s\n", file, line, what); exit(70);
}

inline u64 parseU(const char *s) { return strtoull(s, 0, 0); }

} // mon

void suite(mon::Ctx& c);

#ifndef MON_NO_MAIN
#ifdef BN_SUPPORT_SNARK
inline bn::CurveParam curveOf(int b) { return b == 82 ? bn::CurveSNARK2 : bn::CurveSNARK1; }
inline void refSetup(int b) { ref::setup("4965661367192848881", b == 82 ? 82 : 3, 9, 1, true); }
#else
inline bn::CurveParam curveOf(int) { return bn::CurveFp254BNb; }
inline void refSetup(int) { ref::setup("-4647714815446351873", 2, 1, 1, false); }
#endif

int main(int argc, char **argv)
{
	mon::Ctx c; mon::mainCtx() = &c; mon::mainPid() = getpid();
	for (int i = 1; i + 1 < argc; i += 2) {
		std::string a = argv[i]; const char *v = argv[i + 1];
		if (a == "--seed") c.seed = mon::parseU(v); else if (a == "--scale") c.scale = mon::parseU(v);
		else if (a == "--mode") c.mode = atoi(v); else if (a == "--mulx") c.mulx = atoi(v); else if (a == "--b") c.b = atoi(v);
		else if (a == "--tier") c.tier = v; else if (a == "--out") c.outPath = v; else if (a == "--opt") c.opt = v;
		else if (a == "--progress") {
			int fd = open(v, O_RDWR | O_CREAT, 0644); HARNESS_REQUIRE(fd >= 0 && ftruncate(fd, 4096) == 0);
			void *m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); HARNESS_REQUIRE(m != MAP_FAILED); c.prog = (mon::Progress *)m;
		} else { fprintf(stderr, "HARNESS-ERROR option %s\n", a.c_str()); return 70; }
	}
	c.g = mon::Rng(c.seed * 0x9e3779b97f4a7c15ULL + 12345);
	refSetup(c.b);
#ifndef MON_NO_INIT
	c.begin("Param::init");
	bn::Param::init(curveOf(c.b), c.mode, c.mulx != 0);
#endif
	try {
		suite(c);
	} catch (std::exception& e) {
		c.fail(std::string("exception@") + c.prog->label, std::string("unexpected exception: ") + e.what());
	}
	c.begin("end");
	c.write();
	return 0;
}
#endif
