#pragma once
/*
	Catalogue of library operations for K01, K03, T01, M01.

	Every entry performs one public operation on inputs of an Env (chosen by i, j, k),
	with the output object filled with junk beforehand, and returns a hash of the
	result. The hash may depend on the input values only: not on the junk, on what ran
	before, on the thread, on code-generation options or on build flags.
	Does not depend on GMP; with MIE_ATE_USE_GMP the GMP interfaces are added.
*/
#include "bn.h"
#include <string>
#include <vector>
#include <string.h>
#include <stdlib.h>
#ifdef OPS_VALGRIND
#include <valgrind/memcheck.h>
#endif

namespace ops {
using namespace bn;
using mie::Vuint; using mie::Vsint; using mie::Unit;
typedef uint64_t u64;

inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 33); }
struct Rnd { u64 s; explicit Rnd(u64 x) : s(x) {} u64 next() { u64 z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); } u64 u(u64 n) { return next() % n; } };

#ifdef OPS_VALGRIND
static u64 undefinedResults; static const char *current_;
inline void defined(const void *p, size_t n) { if (VALGRIND_CHECK_MEM_IS_DEFINED(p, n)) { undefinedResults++; } }
#else
inline void defined(const void *, size_t) {}
#endif
inline u64 hraw(const void *p, size_t n, u64 h) { defined(p, n); const unsigned char *c = (const unsigned char *)p; for (; n >= 8; n -= 8, c += 8) { u64 v; memcpy(&v, c, 8); h = mix(h, v); } for (; n; n--) h = mix(h, *c++); return h; }
inline u64 H(const Fp& x, u64 h = 1) { return hraw(&x, 32, h); }
inline u64 H(const Fp2& x, u64 h = 1) { return H(x.b_, H(x.a_, h)); }
inline u64 H(const Fp6& x, u64 h = 1) { return H(x.c_, H(x.b_, H(x.a_, h))); }
inline u64 H(const Fp12& x, u64 h = 1) { return H(x.b_, H(x.a_, h)); }
inline u64 H(const FpDbl& x, u64 h = 1) { return hraw(&x, 64, h); }
inline u64 H(const Fp2Dbl& x, u64 h = 1) { return H(x.b_, H(x.a_, h)); }
inline u64 H(const Fp6Dbl& x, u64 h = 1) { return H(x.c_, H(x.b_, H(x.a_, h))); }
inline u64 H(const Vuint& x, u64 h = 1) { size_t n = x.size(); h = mix(h, n); for (size_t i = 0; i < n; i++) { u64 v = x[i]; defined(&v, 8); h = mix(h, v); } return h; }
inline u64 H(const Vsint& x, u64 h = 1) { return H(x.get(), mix(h, x.isNegative())); }
template<class T> u64 H(const mie::ZmZ<Vuint, T>& x, u64 h = 1) { return H(x.get(), h); }
inline u64 H(bool b, u64 h = 1) { return mix(h, b ? 3 : 5); }
inline u64 H(int v, u64 h = 1) { return mix(h, (u64)(long long)v); }
inline u64 H(u64 v, u64 h = 1) { return mix(h, v); }
inline u64 H(const std::string& s, u64 h = 1) { return hraw(s.data(), s.size(), mix(h, s.size())); }
template<class T> u64 H(const EcT<T>& P, u64 h = 1) { // the group element
	EcT<T> q = P; q.normalize(); if (q.isZero()) return mix(h, 7); return H(q.p[1], H(q.p[0], h));
}
template<class T> u64 H3(const T *p, u64 h = 1) { return H(p[2], H(p[1], H(p[0], h))); } // all three coordinates
inline u64 H(const std::vector<Fp6>& v, u64 h = 1) { h = mix(h, v.size()); for (size_t i = 0; i < v.size(); i++) h = H(v[i], h); return h; }

struct TagO {}; typedef mie::ZmZ<Vuint, TagO> ZO;

enum { NF = 10, NP_ = 6, NS = 10 };
struct Plain { // no pointers inside
	Fp f[NF]; Fp nz[NF]; FpDbl d[NF]; Fp2 f2[NF]; Fp2 nz2[NF]; Fp2Dbl d2[NF]; Fp6 f6[NF]; Fp12 f12[NF]; Fp12 cyc[NF];
	Ec1 g1[NP_]; Ec1 j1[NP_]; Ec2 g2[NP_]; Ec2 j2[NP_]; Ec2 tw[NP_];
	Vuint s[NS]; Vuint big[NS]; Vsint v[NS]; ZO z[NS]; int n[NS];
};
inline size_t plainSize(const Plain& e) { return (const char *)&e.n[NS] - (const char *)&e; } // without tail padding
struct Env : Plain {
	std::string dec[NS], hexs[NS], ft[NF], f2t[NF], f12t[NF], p1t[NP_], p2t[NP_]; std::vector<Fp6> co[NP_];
#ifdef MIE_ATE_USE_GMP
	mpz_class m[NS];
#endif
	u64 hash() const { // values and representations of everything except the lazily normalised points
		u64 h = 1; for (int i = 0; i < NF; i++) h = H(cyc[i], H(f12[i], H(f6[i], H(d2[i], H(nz2[i], H(f2[i], H(d[i], H(nz[i], H(f[i], h)))))))));
		for (int i = 0; i < NP_; i++) h = H(co[i], H3(tw[i].p, H3(g2[i].p, H3(g1[i].p, h))));
		for (int i = 0; i < NP_; i++) h = H3(j2[i].p, H3(j1[i].p, h));
		for (int i = 0; i < NS; i++) h = H(z[i], H(v[i], H(big[i], H(s[i], mix(h, (u64)n[i])))));
		for (int i = 0; i < NS; i++) h = H(hexs[i], H(dec[i], h));
		for (int i = 0; i < NF; i++) h = H(f12t[i], H(f2t[i], H(ft[i], h))); for (int i = 0; i < NP_; i++) h = H(p2t[i], H(p1t[i], h));
#ifdef MIE_ATE_USE_GMP
		for (int i = 0; i < NS; i++) h = H(m[i].get_str(), h);
#endif
		return h;
	}
};

inline void rawFp(Fp& x, Rnd& g) // any canonical representation, made without the library
{
#ifdef BN_SUPPORT_SNARK
	static const u64 p[4] = { 0x3c208c16d87cfd47ULL, 0x97816a916871ca8dULL, 0xb85045b68181585dULL, 0x30644e72e131a029ULL };
#else
	static const u64 p[4] = { 0xa700000000000013ULL, 0x6121000000000013ULL, 0xba344d8000000008ULL, 0x2523648240000001ULL };
#endif
	u64 v[4]; int k = (int)g.u(7);
	for (int i = 0; i < 4; i++) { u64 t = g.next(); v[i] = k == 0 ? (g.u(2) ? 0 : ~0ULL) : k == 1 ? (t % 3 == 0 ? p[i] : t % 3 == 1 ? p[i] - 1 : 0) : t; }
	if (k == 2) { v[1] = v[2] = v[3] = 0; v[0] = g.u(4); } if (k == 3) { for (int i = 0; i < 4; i++) v[i] = p[i]; v[0] -= 1 + g.u(4); }
	v[3] &= ~0ULL >> 2;
	for (int i = 3; i >= 0; i--) { if (v[i] < p[i]) break; if (v[i] > p[i] || i == 0) { v[3] = p[3] - 1; break; } }
	for (int i = 0; i < 4; i++) x[i] = v[i];
}
inline void rawFp2(Fp2& x, Rnd& g) { rawFp(x.a_, g); rawFp(x.b_, g); }
inline void rawFp6(Fp6& x, Rnd& g) { rawFp2(x.a_, g); rawFp2(x.b_, g); rawFp2(x.c_, g); }
inline void rawFp12(Fp12& x, Rnd& g) { rawFp6(x.a_, g); rawFp6(x.b_, g); }
inline void rawV(Vuint& x, Rnd& g, size_t maxLimbs) { Unit w[16]; size_t n = 1 + g.u(maxLimbs); int k = (int)g.u(4); for (size_t i = 0; i < n; i++) { u64 t = g.next(); w[i] = k == 0 ? (t & 1 ? 0 : ~0ULL) : k == 1 ? (t & 3 ? 0 : 1ULL << (t >> 58)) : t; } if (k == 3) { n = 1; w[0] = g.u(5); } x.set(w, n); }
template<class T> std::string str(const T& x, bool hex = false) { std::ostringstream os; if (hex) os << std::hex; os << x; return os.str(); }

inline void bases(Ec1& P, Ec2& Q, Ec2& T)
{
#ifdef BN_SUPPORT_SNARK
	if (Param::b == 82) {
		P.set(Fp(-1), Fp(9));
		Q.set(Fp2(Fp("9837037083253841687079162837942880700382338052836505281393125281708338115316"), Fp("15049152375734635090276611067318362668553429757910437452188316739223833019735")), Fp2(Fp("2428035174887085731578123568172736579784521562175755700244490348322094534049"), Fp("4190565819980493985917753942123344325321483799063567270296249408578787913196")));
		T.set(Fp2(Fp("14521169143402893204907165750691956062642752275264515171158741488186701489997"), Fp("16440257939614887282530848814262986204064267155340672422961575716626177076729")), Fp2(Fp("9698529284736229311526163094550944060470866918112012682837572422924970474713"), Fp("21241228590217327186016412681971507363435872165516415727331709179463019853616")));
	} else {
		P.set(Fp(1), Fp(2));
		Q.set(Fp2(Fp("0x1dfb312eb81dc8621fd424ed59465ac6886f0d9ecb7f6eec829b13b7cea4a40f"), Fp("0xfce2f7eef51f62c9bf410cbec3d11b31257b781d93d2273b054b14ab7044739")), Fp2(Fp("0x1e551648e19d1051cca87a3d680cf4f45dbc57259e78aa890b330f121676ffdf"), Fp("0xf031ab518f879fda6fcc06d3ae6e54764ba0941cb1f7ee82a5d564f18f7800c")));
		T.set(Fp2(Fp("0x2e67157159e5c639cf63e9cfb74492d9eb2022850278edf8ed84884a014afa37"), Fp("0x23693a783ee06943b7e1d5a4b4dd408b0fbb6989b2199c88a3ea410161718b46")), Fp2(Fp("0x5a3ad8fd42a3c3f971ecc782c06041a504ba2cee5fed5812096e6cd4d01fcdf"), Fp("0x2d5a739bd7c04cb9a38cda21dcd7b256abe8796e22d68303164e3769f9599ac4")));
	}
#else
	P.set(Fp(-1), Fp(1));
	Q.set(Fp2(Fp("1080951464861835177978502553920543268883142169428199124157801111089446205421"), Fp("11901819926584091020913294979371727170419152073138710249494239639590839701509")), Fp2(Fp("7551614532583515915293031925011789425255368566893577144607818068182282757852"), Fp("6099752057758771451361227608187511605993158236939911334868214315616464050529")));
	T.set(Fp2(Fp("4365127793537077356339924300507855367631725181665388330370521666189057098778"), Fp("14372098067479991931669232442027976878169532508374055860528840370895304958624")), Fp2(Fp("6802796325368321316969025292120945874604609294182650562022535702087777390268"), Fp("8250917661611571613739106829672659721812997288753624578493577714952725939419")));
#endif
}
template<class T> void scale(EcT<T>& out, const EcT<T>& P, const T& z) { T zz = z * z; out.p[0] = P.p[0] * zz; out.p[1] = P.p[1] * zz * z; out.p[2] = P.p[2] * z; }

// inputs 5, 7, 9 share parts with 4, 6, 8: results kept under part of their operands show
inline void top(Fp& y, const Fp& x) { y = x; if (x[3]) y[3] = x[3] - 1; else y[0] = x[0] ^ 2; }
inline void low(Fp& y, const Fp& x) { y = x; if (x[0]) y[0] = x[0] - 1; else y[0] = 5; }
inline void relate(Env& e, int i)
{
	const int h = i - 1; const Fp6 t = e.f12[i].a_;
	if (i == 5) { Fp::neg(e.f[i], e.f[h]); Fp::neg(e.nz[i], e.nz[h]); e.f2[i] = e.f2[h]; Fp::neg(e.f2[i].b_, e.f2[h].b_); e.nz2[i] = e.nz2[h]; Fp::neg(e.nz2[i].b_, e.nz2[h].b_); e.f6[i].a_ = e.f6[h].a_; e.f6[i].b_ = e.f6[h].b_; e.f12[i] = e.f12[h]; Fp6::neg(e.f12[i].b_, e.f12[h].b_); e.cyc[i] = e.cyc[h]; Fp6::neg(e.cyc[i].b_, e.cyc[h].b_); for (int k = 0; k < 4; k++) e.d[i][k] = e.d[h][k]; e.d2[i].a_ = e.d2[h].a_; }
	else if (i == 7) { top(e.f[i], e.f[h]); top(e.nz[i], e.nz[h]); e.f2[i].a_ = e.f2[h].a_; e.nz2[i].b_ = e.nz2[h].b_; if (e.nz2[i].isZero()) e.nz2[i].a_ = Fp(1); e.f6[i].b_ = e.f6[h].b_; e.f6[i].c_ = e.f6[h].c_; e.f12[i].a_ = e.f12[h].a_; e.cyc[h].Frobenius2(e.cyc[i]); for (int k = 4; k < 8; k++) e.d[i][k] = e.d[h][k]; e.d2[i].b_ = e.d2[h].b_; }
	else { low(e.f[i], e.f[h]); low(e.nz[i], e.nz[h]); if (e.nz[i].isZero()) e.nz[i] = Fp(1); e.f2[i].b_ = e.f2[h].b_; e.nz2[i].a_ = e.nz2[h].a_; if (e.nz2[i].isZero()) e.nz2[i].b_ = Fp(1); e.f6[i].a_ = e.f6[h].a_; e.f6[i].c_ = e.f6[h].c_; e.f12[i].b_ = e.f12[h].b_; e.f12[i].a_ = t; e.cyc[h].Frobenius3(e.cyc[i]); e.d[i] = e.d[h]; e.d[i][0] ^= 1; e.d2[i] = e.d2[h]; e.d2[i].b_[1] ^= 2; }
}
inline Fp omega() { const Vuint q = (Param::p - 1) / 3; for (int k = 2;; k++) { const Fp w = mie::power(Fp(k), q); if (w != Fp(1)) return w; } }
inline Vuint relateV(const Vuint& x, int i) { Unit w[16]; size_t n = x.size(); for (size_t k = 0; k < n; k++) w[k] = x[k]; if (i == 5) { w[n - 1] ^= 4; if (!w[n - 1]) w[n - 1] = 1; } else if (i == 7) w[0] ^= 4; else w[n / 2] ^= 1ULL << 40; Vuint r; r.set(w, n); return r; }

inline void build(Env& e, u64 seed)
{
	Rnd g(seed * 0x9e3779b97f4a7c15ULL + 77);
	for (int i = 0; i < NF; i++) {
		rawFp(e.f[i], g); do rawFp(e.nz[i], g); while (e.nz[i].isZero()); rawFp2(e.f2[i], g); do rawFp2(e.nz2[i], g); while (e.nz2[i].isZero()); rawFp6(e.f6[i], g); do rawFp12(e.f12[i], g); while (e.f12[i].a_.isZero() || e.f12[i].b_.isZero());
		for (int t = 0; t < 3; t++) { FpDbl& x = t == 0 ? e.d[i] : t == 1 ? e.d2[i].a_ : e.d2[i].b_; Fp hi; rawFp(hi, g); for (int k = 0; k < 4; k++) { x[k] = g.u(3) ? g.next() : g.u(2) ? 0 : ~0ULL; x[4 + k] = hi[k]; } }
		if (i < 3) e.cyc[i] = e.f12[i]; else { Fp12 t = e.f12[i]; t.mapToCyclo(e.cyc[i]); } if (i == 0) e.cyc[i] = Fp12(1); if (i == 1 || i == 2) { Fp12 t = e.f12[i]; t.mapToCyclo(e.cyc[i]); }
		if (i >= 5 && (i & 1)) relate(e, i);
		e.ft[i] = str(e.f[i], i & 1); e.f2t[i] = str(e.f2[i], i & 2); e.f12t[i] = str(e.f12[i], i & 1);
	}
	Ec1 P; Ec2 Q, T; bases(P, Q, T);
	for (int i = 0; i < NP_; i++) {
		if (i == 0) { e.g1[i].clear(); e.g2[i].clear(); e.tw[i].clear(); e.j1[i].p[0] = e.nz[1]; e.j1[i].p[1] = e.nz[2]; e.j1[i].p[2].clear(); e.j2[i].p[0] = e.nz2[1]; e.j2[i].p[1] = e.nz2[2]; e.j2[i].p[2].clear(); }
		else {
			Vuint a; rawV(a, g, 4); a += 1; a += 0; Vuint b; rawV(b, g, 4); b += 3;
			if (i == 1) { e.g1[i] = P; e.g2[i] = Q; e.tw[i] = T; } else { e.g1[i] = P * a; e.g2[i] = Q * b; e.tw[i] = T * a; if (i == 3) { Ec1::neg(e.g1[i], e.g1[2]); Ec2::neg(e.g2[i], e.g2[2]); } }
			if (i == 5) { const Fp w = omega(); e.g1[i] = e.g1[4]; e.g2[i] = e.g2[4]; e.tw[i] = e.tw[4]; e.g1[i].p[0] *= w; Fp2::mul_Fp_0(e.g2[i].p[0], e.g2[4].p[0], w); Fp2::mul_Fp_0(e.tw[i].p[0], e.tw[4].p[0], w); e.nz[i] = e.nz[4]; e.nz2[i] = e.nz2[4]; }
			e.g1[i].normalize(); e.g2[i].normalize(); e.tw[i].normalize(); scale(e.j1[i], e.g1[i], e.nz[i]); scale(e.j2[i], e.g2[i], e.nz2[i]);
		}
		e.p1t[i] = str(e.g1[i]); e.p2t[i] = str(e.g2[i]);
	}
	for (int i = 0; i < NP_; i++) if (i) { Fp2 q[3]; components::precomputeG2(e.co[i], q, e.g2[i].p); }
	ZO::setModulo(Param::r);
	for (int i = 0; i < NS; i++) {
		rawV(e.s[i], g, 4); rawV(e.big[i], g, 8); Vuint t; rawV(t, g, 4); e.v[i] = i & 1 ? -Vsint(t) : Vsint(t); Vuint u; rawV(u, g, 4); if (i >= 5 && (i & 1)) { e.s[i] = relateV(e.s[i - 1], i); e.big[i] = relateV(e.big[i - 1], i); e.v[i] = i == 5 ? -e.v[4] : Vsint(relateV(e.v[i - 1].get(), i)); } e.z[i] = ZO(u); if (i == 5) e.z[i] = -e.z[4]; e.n[i] = i == 0 ? 0 : i == 1 ? 1 : i == 2 ? -1 : i == 3 ? -2147483647 - 1 : i == 4 ? 2147483647 : i == 5 ? 2 : i == 6 ? 3 : (int)(uint32_t)g.next();
		e.dec[i] = e.s[i].toString(); e.hexs[i] = e.s[i].toString(16);
#ifdef MIE_ATE_USE_GMP
		e.m[i] = mpz_class(e.s[i].toString()); if (i % 3 == 2) e.m[i] = -e.m[i];
#endif
	}
}

// to hand an Env to a process in which no operation has run yet
inline void putS(std::string& o, const std::string& s) { const u64 n = s.size(); o.append((const char *)&n, 8); o += s; }
inline std::string getS(const char *& p) { u64 n; memcpy(&n, p, 8); p += 8; std::string s(p, (size_t)n); p += n; return s; }
inline std::string freeze(const Env& e)
{
	std::string o((const char *)static_cast<const Plain *>(&e), plainSize(e));
	for (int i = 0; i < NS; i++) { putS(o, e.dec[i]); putS(o, e.hexs[i]); }
	for (int i = 0; i < NF; i++) { putS(o, e.ft[i]); putS(o, e.f2t[i]); putS(o, e.f12t[i]); }
	for (int i = 0; i < NP_; i++) { putS(o, e.p1t[i]); putS(o, e.p2t[i]); putS(o, e.co[i].empty() ? std::string() : std::string((const char *)&e.co[i][0], e.co[i].size() * sizeof(Fp6))); }
#ifdef MIE_ATE_USE_GMP
	for (int i = 0; i < NS; i++) putS(o, e.m[i].get_str());
#endif
	return o;
}
inline void thaw(Env& e, const std::string& o)
{
	ZO::setModulo(Param::r);
	const char *p = o.data(); memcpy((void *)static_cast<Plain *>(&e), p, plainSize(e)); p += plainSize(e);
	for (int i = 0; i < NS; i++) { e.dec[i] = getS(p); e.hexs[i] = getS(p); }
	for (int i = 0; i < NF; i++) { e.ft[i] = getS(p); e.f2t[i] = getS(p); e.f12t[i] = getS(p); }
	for (int i = 0; i < NP_; i++) { e.p1t[i] = getS(p); e.p2t[i] = getS(p); const std::string s = getS(p); e.co[i].resize(s.size() / sizeof(Fp6)); if (!s.empty()) memcpy((void *)&e.co[i][0], s.data(), s.size()); }
#ifdef MIE_ATE_USE_GMP
	for (int i = 0; i < NS; i++) e.m[i] = mpz_class(getS(p));
#endif
}

// output objects filled with junk
inline void fillJunk(void *p, size_t n, u64 junk) {
#ifdef OPS_VALGRIND
	(void)junk; VALGRIND_MAKE_MEM_UNDEFINED(p, n);
#else
	unsigned char *c = (unsigned char *)p; for (size_t i = 0; i < n; i++) { c[i] = (unsigned char)(junk >> (8 * (i & 7))); if (i % 8 == 7) junk = junk * 6364136223846793005ULL + 1; }
#endif
}
#ifdef OPS_BOX
/* every input is a heap block of its own, of exactly its size, and so is every output; limbs behind a big
   integer's size are marked undefined: ASan and memcheck see what the C++ and the generated code touch */
static std::vector<void *> boxes_;
template<class T> const T& box(const T& v) { void *p = malloc(sizeof(T)); memcpy(p, (const void *)&v, sizeof(T)); boxes_.push_back(p); return *(const T *)p; }
inline const std::string& box(const std::string& v) { return v; }
inline const std::vector<Fp6>& box(const std::vector<Fp6>& v) { return v; }
#ifdef MIE_ATE_USE_GMP
inline const mpz_class& box(const mpz_class& v) { return v; }
#endif
inline void tail_(const Vuint& v) {
#ifdef OPS_VALGRIND
	const size_t n = v.size(), cap = (MIE_ZM_VUINT_BIT_LEN + 63) / 64; if (n < cap) VALGRIND_MAKE_MEM_UNDEFINED(&v[0] + n, (cap - n) * 8);
#else
	(void)v;
#endif
}
inline const Vuint& box(const Vuint& v) { const Vuint& r = box<Vuint>(v); tail_(r); return r; }
inline const Vsint& box(const Vsint& v) { const Vsint& r = box<Vsint>(v); tail_(r.get()); return r; }
inline const ZO& box(const ZO& v) { const ZO& r = box<ZO>(v); tail_(r.get()); return r; }
inline void unbox() { for (size_t i = 0; i < boxes_.size(); i++) free(boxes_[i]); boxes_.clear(); }
template<class T> struct Out { T& val_; explicit Out(u64 junk) : val_(*(T *)malloc(sizeof(T))) { fillJunk((void*)&val_, sizeof(T), junk); } ~Out() { free((void *)&val_); } private: Out(const Out&); };
#else
#define box(x) (x)
template<class T> struct Out { T val_; explicit Out(u64 junk) { fillJunk((void*)&val_, sizeof val_, junk); } };
#endif
inline void usedV(Vuint& v, u64 junk) { Unit w[8]; for (int i = 0; i < 8; i++) { w[i] = junk | 1; junk = junk * 6364136223846793005ULL + 1; } v.set(w, 1 + junk % 8); if (junk & 16) v.set(w, 1 + (junk >> 8) % 4); } // a valid value, old limbs behind it
#ifdef OPS_BOX
template<> struct Out<Vuint> { Vuint& val_; explicit Out(u64 junk) : val_(*new Vuint()) { usedV(val_, junk); tail_(val_); } ~Out() { delete &val_; } };
#else
template<> struct Out<Vuint> { Vuint val_; explicit Out(u64 junk) { usedV(val_, junk); } };
#endif
template<> struct Out<Vsint> { Vsint val_; explicit Out(u64 junk) { Vuint v; usedV(v, junk); val_ = Vsint(v); if (junk & 1) val_ = -val_; } };
template<> struct Out<ZO> { ZO val_; explicit Out(u64 junk) { Vuint v; usedV(v, junk); val_ = ZO(v); } };
template<> struct Out<bool> { bool val_; explicit Out(u64 junk) { val_ = (junk & 1) != 0; } };
#ifdef MIE_ATE_USE_GMP
template<> struct Out<mpz_class> { mpz_class val_; explicit Out(u64 junk) { val_ = (unsigned long)junk; } };
#endif

typedef u64 (*Fn)(const Env& e, unsigned i, unsigned j, unsigned k, u64 junk);
struct Op { const char *name; Fn fn; int cost; }; // cost: about microseconds
#define OPDEF(id, body) static u64 op_##id(const Env& e, unsigned i, unsigned j, unsigned k, u64 junk) { (void)e; (void)i; (void)j; (void)k; (void)junk; body }
#define O_(T, nm) Out<T> nm##_o(junk); T& nm = nm##_o.val_;
#define F_(a) box(e.a[i % NF])
#define FJ(a) box(e.a[j % NF])
#define S_(a) box(e.a[i % NS])
#define SJ(a) box(e.a[j % NS])
#define P_(a) box(e.a[i % NP_])
#define PJ(a) box(e.a[j % NP_])

// ---- base field
OPDEF(Fp_add, { O_(Fp, z) Fp::add(z, F_(f), FJ(f)); return H(z); })
OPDEF(Fp_sub, { O_(Fp, z) Fp::sub(z, F_(f), FJ(f)); return H(z); })
OPDEF(Fp_mul, { O_(Fp, z) Fp::mul(z, F_(f), FJ(f)); return H(z); })
OPDEF(Fp_mulSelf, { Fp z = F_(f); Fp::mul(z, z, z); return H(z); })
OPDEF(Fp_square, { O_(Fp, z) Fp::square(z, F_(f)); return H(z); })
OPDEF(Fp_neg, { O_(Fp, z) Fp::neg(z, F_(f)); return H(z); })
OPDEF(Fp_inv, { O_(Fp, z) Fp::inv(z, F_(nz)); return H(z); })
OPDEF(Fp_div, { O_(Fp, z) z = F_(f) / FJ(nz); return H(z); })
OPDEF(Fp_divBy2, { O_(Fp, z) Fp::divBy2(z, F_(f)); return H(z); })
OPDEF(Fp_divBy4, { O_(Fp, z) Fp::divBy4(z, F_(f)); return H(z); })
OPDEF(Fp_power, { O_(Fp, z) z = mie::power(F_(f), SJ(s)); return H(z); })
OPDEF(Fp_sqrt, { O_(Fp, z) Fp q; Fp::square(q, F_(f)); bool b = Fp::squareRoot(z, q); u64 h = H(b); if (b) h = H(z, h); O_(Fp, w) bool b2 = Fp::squareRoot(w, FJ(f)); h = H(b2, h); if (b2) h = H(w, h); return h; })
OPDEF(Fp_int, { O_(Fp, z) z = S_(n); return H(z); })
OPDEF(Fp_addInt, { O_(Fp, z) z = F_(f) + SJ(n); return H(z); })
OPDEF(ints, { u64 h = 1; for (int k = -20; k <= 20; k++) { O_(Fp, z) z = k; O_(Fp, y) y.set(k); h = H(F_(f) == k, H(z == k, H(Fp(k), H(y, H(z, h))))); } for (int k = 0; k < 12; k++) { h = H(Vuint(k), H(Vsint(-k), H(Fp12(k), H(Fp6(k), H(Fp2(k), h))))); O_(ZO, z) z = k; h = H(z, h); } return h; })
OPDEF(intOps, { u64 h = 1; for (int k = 1; k <= 12; k++) { const Fp& x = F_(f); h = H(x / k, H(x * k, H(x - k, H(x + k, h)))); Fp y = x; y += k; y *= k; y -= k; y /= k; h = H(y, h); Vuint v = S_(s); v += k; v *= k; h = H(v / k, H(v % k, h)); v -= k; h = H(v, h); } return h; })
OPDEF(powInt, { u64 h = 1; for (int k = 0; k <= 9; k++) h = H(mie::power(F_(f2), k), H(mie::power(F_(f), k), h)); O_(Fp, z) z = mie::power(F_(f), SJ(n) & 0x7fffffff); return H(z, h); })
OPDEF(isOne, { Fp12 a = F_(f12); const Fp12 b = FJ(f12); u64 h = H(a == b, H(a != b, H(a.isZero(), H(F_(f6) == FJ(f6), H(F_(f2) == FJ(f2), H(F_(f2) != FJ(f2), H(F_(f2).isZero(), H(F_(f6).isZero())))))))); a.clear(); return H(a == Fp12(0), H(a.isZero(), h)); })
OPDEF(Fp_get, { Vuint v = F_(f).get(); return H(F_(f).isOdd(), H(F_(f).getLow(), H(v))); })
OPDEF(Fp_setVuint, { O_(Fp, z) z.set(F_(f).get()); return H(z); })
OPDEF(Fp_str, { return H(F_(f).toString(16), H(F_(f).toString())); })
OPDEF(Fp_parse, { O_(Fp, z) z.set(F_(ft)); return H(z); })
OPDEF(Fp_compare, { return H(F_(f) == FJ(f), H(F_(f) < FJ(f), H(F_(f).isZero(), H(Fp::compare(F_(f), FJ(f)) > 0)))); })
OPDEF(Fp_mont, { O_(Fp, z) Fp::fromMont(z, F_(f)); u64 h = H(z); O_(Fp, w) Fp::toMont(w, FJ(f)); return H(w, h); })
// ---- double width
OPDEF(Dbl_mul, { O_(FpDbl, z) FpDbl::mul(z, F_(f), FJ(f)); return H(z); })
OPDEF(Dbl_mod, { O_(Fp, z) FpDbl::mod(z, F_(d)); return H(z); })
OPDEF(Dbl_add, { O_(FpDbl, z) FpDbl::add(z, F_(d), FJ(d)); O_(Fp, w) FpDbl::mod(w, z); return H(w); })
OPDEF(Dbl_sub, { O_(FpDbl, z) FpDbl::sub(z, F_(d), FJ(d)); O_(Fp, w) FpDbl::mod(w, z); return H(w); })
OPDEF(Dbl_neg, { O_(FpDbl, z) FpDbl::neg(z, F_(d)); O_(Fp, w) FpDbl::mod(w, z); return H(w); })
OPDEF(Fp2Dbl_mul, { O_(Fp2Dbl, z) Fp2Dbl::mulOpt2(z, F_(f2), FJ(f2)); O_(Fp2, w) Fp2Dbl::mod(w, z); return H(w); })
OPDEF(Fp2Dbl_mul1, { O_(Fp2Dbl, z) Fp2Dbl::mulOpt1(z, F_(f2), FJ(f2)); O_(Fp2, w) Fp2Dbl::mod(w, z); return H(w); })
OPDEF(Fp2Dbl_square, { O_(Fp2Dbl, z) Fp2Dbl::square(z, F_(f2)); O_(Fp2, w) Fp2Dbl::mod(w, z); return H(w); })
OPDEF(Fp2Dbl_addsub, { O_(Fp2Dbl, z) Fp2Dbl::add(z, F_(d2), FJ(d2)); O_(Fp2, w) Fp2Dbl::mod(w, z); u64 h = H(w); Fp2Dbl::sub(z, F_(d2), FJ(d2)); Fp2Dbl::mod(w, z); h = H(w, h); Fp2Dbl::neg(z, F_(d2)); Fp2Dbl::mod(w, z); return H(w, h); })
OPDEF(Fp2Dbl_mul_xi, { O_(Fp2Dbl, z) Fp2Dbl::mul_xi(z, F_(d2)); O_(Fp2, w) Fp2Dbl::mod(w, z); return H(w); })
OPDEF(Fp6Dbl_mul, { O_(Fp6Dbl, z) Fp6Dbl::mul(z, F_(f6), FJ(f6)); O_(Fp6, w) Fp6Dbl::mod(w, z); return H(w); })
// ---- degree 2
OPDEF(Fp2_add, { O_(Fp2, z) Fp2::add(z, F_(f2), FJ(f2)); return H(z); })
OPDEF(Fp2_sub, { O_(Fp2, z) Fp2::sub(z, F_(f2), FJ(f2)); return H(z); })
OPDEF(Fp2_mul, { O_(Fp2, z) Fp2::mul(z, F_(f2), FJ(f2)); return H(z); })
OPDEF(Fp2_mulInPlace, { Fp2 z = F_(f2); z *= FJ(f2); Fp2 y = FJ(f2); y *= y; return H(y, H(z)); })
OPDEF(Fp2_square, { O_(Fp2, z) Fp2::square(z, F_(f2)); return H(z); })
OPDEF(Fp2_neg, { O_(Fp2, z) Fp2::neg(z, F_(f2)); return H(z); })
OPDEF(Fp2_inverse, { Fp2 z = F_(nz2); z.inverse(); return H(z); })
OPDEF(Fp2_div, { O_(Fp2, z) Fp2 t = FJ(nz2); t.inverse(); Fp2::mul(z, F_(f2), t); return H(z); })
OPDEF(Fp2_mul_xi, { O_(Fp2, z) Fp2::mul_xi(z, F_(f2)); return H(z); })
OPDEF(Fp2_mul_Fp, { O_(Fp2, z) Fp2::mul_Fp_0(z, F_(f2), FJ(f)); Fp2 w = F_(f2); Fp2::mul_Fp_1(w, FJ(f)); return H(w, H(z)); })
OPDEF(Fp2_divBy2, { O_(Fp2, z) Fp2::divBy2(z, F_(f2)); u64 h = H(z); Fp2::divBy4(z, F_(f2)); return H(z, h); })
OPDEF(Fp2_power, { O_(Fp2, z) z = mie::power(F_(f2), SJ(s)); return H(z); })
OPDEF(Fp2_text, { O_(Fp2, z) z.set(F_(f2t)); return H(z, H(FJ(f2).toString(16), H(FJ(f2).toString()))); })
// ---- degree 6 and 12
OPDEF(Fp6_add, { O_(Fp6, z) Fp6::add(z, F_(f6), FJ(f6)); return H(z); })
OPDEF(Fp6_sub, { O_(Fp6, z) Fp6::sub(z, F_(f6), FJ(f6)); return H(z); })
OPDEF(Fp6_neg, { O_(Fp6, z) Fp6::neg(z, F_(f6)); return H(z); })
OPDEF(Fp6_mul, { O_(Fp6, z) Fp6::mul(z, F_(f6), FJ(f6)); return H(z); })
OPDEF(Fp6_square, { O_(Fp6, z) Fp6::square(z, F_(f6)); return H(z); })
OPDEF(Fp6_inverse, { Fp6 z = F_(f12).a_; z.inverse(); return H(z); })
OPDEF(Fp12_add, { O_(Fp12, z) Fp12::add(z, F_(f12), FJ(f12)); return H(z); })
OPDEF(Fp12_sub, { O_(Fp12, z) Fp12::sub(z, F_(f12), FJ(f12)); return H(z); })
OPDEF(Fp12_mul, { O_(Fp12, z) Fp12::mul(z, F_(f12), FJ(f12)); return H(z); })
OPDEF(Fp12_square, { Fp12 z = F_(f12); Fp12::square(z); return H(z); })
OPDEF(Fp12_inverse, { Fp12 z = F_(f12); z.inverse(); return H(z); })
OPDEF(Fp12_frob, { O_(Fp12, z) F_(f12).Frobenius(z); u64 h = H(z); O_(Fp12, w) F_(f12).Frobenius2(w); h = H(w, h); O_(Fp12, y) F_(f12).Frobenius3(y); return H(y, h); })
OPDEF(Fp12_sqru, { Fp12 z = F_(cyc); z.sqru(); O_(Fp12, w) Fp12 c = FJ(cyc); c.sqru(w); return H(w, H(z)); })
OPDEF(Fp12_mapToCyclo, { Fp12 x = F_(f12); O_(Fp12, z) x.mapToCyclo(z); return H(z); })
OPDEF(Fp12_final_exp, { Fp12 z = F_(f12); z.final_exp(); return H(z); })
OPDEF(Fp12_power, { O_(Fp12, z) z = mie::power(F_(f12), SJ(s)); return H(z); })
OPDEF(Fp12_text, { O_(Fp12, z) std::istringstream is(F_(f12t)); is >> z; return H(str(FJ(f12), j & 1), H(z)); })
OPDEF(mul_Fp2_024, { Fp12 z = F_(f12); Fp12Dbl::mul_Fp2_024(z, FJ(f6)); return H(z); })
OPDEF(mul_024_024, { O_(Fp12, z) Fp12Dbl::mul_Fp2_024_Fp2_024(z, F_(f6), FJ(f6)); return H(z); })
#ifdef BN_SUPPORT_SNARK
OPDEF(pow_neg_t, { O_(Fp12, z) Fp12::pow_neg_t(z, F_(cyc)); return H(z); })
#else
OPDEF(fixed_power, { O_(Fp12, z) Compress::fixed_power(z, F_(cyc)); return H(z); })
OPDEF(square_n, { O_(Fp12, z) Compress c(z, F_(cyc)); Compress::square_n(c, 1 + j % 7); c.decompress(); return H(z); })
#endif
// ---- points
OPDEF(Ec1_add, { O_(Ec1, z) Ec1::add(z, P_(g1), PJ(g1)); return H(z); })
OPDEF(Ec1_addJac, { O_(Ec1, z) Ec1::add(z, P_(j1), PJ(j1)); return H(z); })
OPDEF(Ec1_sub, { O_(Ec1, z) Ec1::sub(z, P_(j1), PJ(g1)); return H(z); })
OPDEF(Ec1_dbl, { O_(Ec1, z) Ec1::dbl(z, P_(j1)); return H(z); })
OPDEF(Ec1_neg, { O_(Ec1, z) Ec1::neg(z, P_(j1)); return H(z); })
OPDEF(Ec1_mul, { O_(Ec1, z) Ec1::mul(z, P_(g1), SJ(s)); return H(z); })
OPDEF(Ec1_mulInt, { O_(Ec1, z) Ec1::mul(z, P_(j1), SJ(n)); return H(z); })
OPDEF(Ec1_normalize, { Ec1 z = P_(j1); z.normalize(); return z.isZero() ? 7 : H3(z.p); })
OPDEF(Ec1_valid, { Ec1 z = P_(j1); bool b = z.isValid(); z.p[j % 2] += 1; return H(z.isValid(), H(b, H(P_(g1).isValid()))); })
OPDEF(Ec1_eq, { Ec1 z = P_(j1); return H(z == PJ(g1), H(P_(g1) == PJ(g1), H(P_(g1) != PJ(g1)))); })
OPDEF(Ec1_text, { O_(Ec1, z) std::istringstream is(P_(p1t)); is >> z; return H(str(PJ(g1)), H(z)); })
OPDEF(Ec2_add, { O_(Ec2, z) Ec2::add(z, P_(g2), PJ(g2)); return H(z); })
OPDEF(Ec2_addJac, { O_(Ec2, z) Ec2::add(z, P_(j2), PJ(j2)); return H(z); })
OPDEF(Ec2_addTwist, { O_(Ec2, z) Ec2::add(z, P_(tw), PJ(g2)); return H(z); })
OPDEF(Ec2_sub, { O_(Ec2, z) Ec2::sub(z, P_(j2), PJ(g2)); return H(z); })
OPDEF(Ec2_dbl, { O_(Ec2, z) Ec2::dbl(z, P_(j2)); return H(z); })
OPDEF(Ec2_neg, { O_(Ec2, z) Ec2::neg(z, P_(j2)); return H(z); })
OPDEF(Ec2_mul, { O_(Ec2, z) Ec2::mul(z, P_(g2), SJ(s)); return H(z); })
OPDEF(Ec2_mulInt, { O_(Ec2, z) Ec2::mul(z, P_(j2), SJ(n)); return H(z); })
OPDEF(Ec_small, { u64 h = 1; for (int k = -3; k <= 5; k++) { O_(Ec1, z) Ec1::mul(z, P_(g1), k); O_(Ec2, w) Ec2::mul(w, P_(g2), k); h = H(w, H(z, h)); } return h; })
OPDEF(Ec_set, { Ec1 z; Ec2 w; if (i % NP_ == 0) i = 1; if (j % NP_ == 0) j = 2; z.set(P_(g1).p[0], P_(g1).p[1]); w.set(PJ(g2).p[0], PJ(g2).p[1]); Ec1 z2(P_(j1).p[0], P_(j1).p[1], P_(j1).p[2]); Ec2 w2(PJ(j2).p[0], PJ(j2).p[1], PJ(j2).p[2]); u64 h = H(w2, H(z2, H(w, H(z)))); z.clear(); w.clear(); return H(z.isZero(), H(w.isZero(), h)); })
OPDEF(Ec2_normalize, { Ec2 z = P_(j2); z.normalize(); return z.isZero() ? 7 : H3(z.p); })
OPDEF(Ec2_valid, { Ec2 z = P_(j2); bool b = z.isValid(); z.p[j % 2] += 1; return H(z.isValid(), H(b, H(P_(tw).isValid()))); })
OPDEF(Ec2_eq, { Ec2 z = P_(j2); return H(z == PJ(g2), H(P_(g2) == PJ(g2), H(P_(tw) != PJ(g2)))); })
OPDEF(Ec2_text, { O_(Ec2, z) std::istringstream is(P_(p2t)); is >> z; return H(str(PJ(g2)), H(z)); })
OPDEF(frobTwist, { if (i % NP_ == 0) i = 1; O_(Ec2, z) ecop::FrobEndOnTwist_1(z.p, P_(tw).p); u64 h = H(z.p[1], H(z.p[0])); ecop::FrobEndOnTwist_2(z.p, P_(tw).p); h = H(z.p[1], H(z.p[0], h)); ecop::FrobEndOnTwist_8(z.p, P_(g2).p); return H(z.p[1], H(z.p[0], h)); })
// ---- pairing
OPDEF(pairing, { O_(Fp12, z) opt_atePairing(z, P_(g2), PJ(g1)); return H(z); })
OPDEF(pairingJac, { O_(Fp12, z) opt_atePairingJac<Fp>(z, P_(j2).p, PJ(j1).p); return H(z); })
OPDEF(precompute, { if (i % NP_ == 0) i = 1; std::vector<Fp6> co(junk % 3); Out<Ec2> q(junk); components::precomputeG2(co, q.val_.p, (j & 1) ? P_(j2).p : P_(g2).p); return H(co, H(q.val_.p[1], H(q.val_.p[0]))); })
OPDEF(millerLoop, { if (i % NP_ == 0) i = 1; if (j % NP_ == 0) j = 2; O_(Fp12, z) components::millerLoop(z, P_(co), PJ(g1).p); z.final_exp(); return H(z); })
OPDEF(millerLoop2, { if (i % NP_ == 0) i = 1; if (j % NP_ == 0) j = 2; if (k % NP_ == 0) k = 3; O_(Fp12, z) components::millerLoop2(z, P_(co), PJ(g1).p, e.co[k % NP_], P_(g1).p); z.final_exp(); return H(z); })
// ---- integers
OPDEF(V_add, { O_(Vuint, z) Vuint::add(z, S_(s), SJ(s)); return H(z); })
OPDEF(V_sub, { O_(Vuint, z) const Vuint& x = S_(s); const Vuint& y = SJ(s); if (x < y) Vuint::sub(z, y, x); else Vuint::sub(z, x, y); return H(z); })
OPDEF(V_mul, { O_(Vuint, z) Vuint::mul(z, S_(s), SJ(s)); return H(z); })
OPDEF(V_div, { O_(Vuint, q) O_(Vuint, r) if (SJ(s).isZero()) return 1; Vuint::div(&q, r, S_(big), SJ(s)); return H(r, H(q)); })
OPDEF(V_shl, { O_(Vuint, z) Vuint::shl(z, S_(s), j % 250); return H(z); })
OPDEF(V_shr, { O_(Vuint, z) Vuint::shr(z, S_(big), j * 7 % 530); return H(z); })
OPDEF(V_inPlace, { Vuint z = S_(s); z += SJ(s); z *= SJ(s).size() < 4 ? SJ(s) : Vuint(3); z <<= 3; z >>= (size_t)(j % 70); if (!SJ(s).isZero()) z %= SJ(s); return H(z); })
OPDEF(V_text, { O_(Vuint, z) z.set(S_(dec)); O_(Vuint, w) w.set(SJ(hexs)); return H(S_(big).toString(16), H(S_(big).toString(), H(w, H(z)))); })
OPDEF(V_bits, { return H((u64)S_(big).bitLen(), H(S_(big).testBit(j % 512), H(S_(big).isZero(), H(S_(s) < SJ(s), H(S_(s) == SJ(s)))))); })
OPDEF(Vs_arith, { O_(Vsint, z) Vsint::add(z, S_(v), SJ(v)); u64 h = H(z); Vsint::sub(z, S_(v), SJ(v)); h = H(z, h); Vsint::mul(z, S_(v), SJ(v)); return H(z, h); })
OPDEF(Vs_div, { O_(Vsint, q) O_(Vsint, r) if (SJ(v).isZero()) return 1; Vsint::div(&q, r, S_(v), SJ(v)); return H(S_(v) / SJ(v), H(S_(v) % SJ(v), H(r, H(q)))); })
OPDEF(Vs_misc, { O_(Vsint, z) Vsint::neg(z, S_(v)); u64 h = H(z); z = Vsint(SJ(n)); h = H(z, h); z = S_(v) << (j % 200); return H(S_(v).toString(), H(S_(v) < SJ(v), H(z, h))); })
OPDEF(Z_arith, { O_(ZO, z) ZO::add(z, S_(z), SJ(z)); u64 h = H(z); ZO::sub(z, S_(z), SJ(z)); h = H(z, h); ZO::mul(z, S_(z), SJ(z)); h = H(z, h); ZO::neg(z, S_(z)); return H(z, h); })
OPDEF(Z_inv, { O_(ZO, z) if (S_(z).isZero()) return 1; ZO::inv(z, S_(z)); return H(SJ(z) / S_(z), H(z)); })
OPDEF(Z_power, { O_(ZO, z) z = mie::power(S_(z), SJ(s)); return H(z); })
OPDEF(Z_make, { O_(ZO, z) z.set(S_(n)); u64 h = H(z); z.set(SJ(dec)); h = H(z, h); z = ZO(S_(big)); return H(z.toString(), H(z, h)); })
// ---- further interfaces
inline const char *badText(unsigned i) { static const char *const bad[] = { "", "x", "0x", "-", "12z", "0xg", "[1,", "1_2", "[1,2", "1__", " ", "-0x" }; return bad[i % 12]; }
OPDEF(Fp2_C, { O_(Fp2, z) Fp2::addC(z, F_(f2), FJ(f2)); u64 h = H(z); Fp2::subC(z, F_(f2), FJ(f2)); h = H(z, h); Fp2::mulC(z, F_(f2), FJ(f2)); h = H(z, h); Fp2::squareC(z, F_(f2)); h = H(z, h); Fp2::mul_xiC(z, F_(f2)); h = H(z, h); Fp2::divBy2C(z, F_(f2)); return H(z, h); })
OPDEF(Fp6_C, { O_(Fp6, z) Fp6::addC(z, F_(f6), FJ(f6)); u64 h = H(z); Fp6::subC(z, F_(f6), FJ(f6)); h = H(z, h); Fp6::mulC(z, F_(f6), FJ(f6)); return H(z, h); })
OPDEF(Fp12_C, { O_(Fp12, z) Fp12::mulC(z, F_(f12), FJ(f12)); u64 h = H(z); Fp12 y = FJ(f12); Fp12::squareC(y); return H(y, h); })
OPDEF(Fp12_neg, { O_(Fp12, z) Fp12::neg(z, F_(f12)); Fp12 y = F_(f12); y += FJ(f12); u64 h = H(y, H(z)); y -= F_(f12); y *= FJ(f12); return H(F_(f12) + FJ(f12), H(F_(f12) - FJ(f12), H(F_(f12) * FJ(f12), H(y, h)))); })
OPDEF(Fp6_text, { const std::string t = str(F_(f6), j & 1); O_(Fp6, z) std::istringstream is(t); is >> z; return H(t, H(z)); })
OPDEF(hexText, { const std::string t = str(F_(f2), true) + " " + str(FJ(f), true) + " " + S_(big).toString(16) + " " + str(SJ(v), true); std::istringstream is(t); is >> std::hex; O_(Fp2, x) O_(Fp, y) O_(Vuint, v) O_(Vsint, w) is >> x >> y >> v >> w; return H(t, H(w, H(v, H(y, H(x, (u64)(is.fail() ? 3 : 1)))))); })
OPDEF(decText, { std::ostringstream os; os << S_(big) << " " << SJ(v) << "\n" << F_(f) << " " << FJ(f2); std::istringstream is(os.str()); O_(Fp2, x) O_(Fp, y) O_(Vuint, v) O_(Vsint, w) is >> v >> w >> y >> x; O_(ZO, z) z.set(S_(z).toString()); return H(os.str(), H(w, H(v, H(y, H(x, H(z, (u64)(is.fail() ? 3 : 1))))))); })
OPDEF(V_words, { const Vuint& b = S_(big); uint32_t w[20]; size_t n = 0; for (size_t q = 0; q < b.size() && n + 2 <= 20; q++) { w[n++] = (uint32_t)b[q]; w[n++] = (uint32_t)(b[q] >> 32); } if (j & 1 && n > 1) n--; O_(Vuint, z) z.set(w, n); O_(Vuint, y) y.set(&b[0], b.size()); O_(Vsint, v) v.set(&b[0], b.size()); O_(ZO, t) t.set(w, n < 7 ? n : 7); return H(t, H(v, H(y, H(z)))); })
OPDEF(V_div1, { Vuint q = S_(big); const Unit d = SJ(s)[0] | 1; const Unit r = Vuint::div1(&q, S_(big), d); Vuint v = S_(big); const Vuint alt(d); const Vuint& dv = SJ(big).isZero() || SJ(big).size() > 7 ? alt : SJ(big); v /= dv; Vuint m = S_(big); m %= dv; return H(m, H(v, H((u64)r, H(q)))); })
OPDEF(V_power, { O_(Vuint, z) z = mie::power(Vuint(j % 9), (int)(i % 9) + 3); return H(z); })
OPDEF(Vs_text, { O_(Vsint, z) z.set(S_(v).toString()); O_(Vsint, y) y.set(SJ(v).toString(16), 16); O_(Vsint, x) x.set(SJ(dec)); O_(Vsint, w) w.fromStr(S_(hexs), 16); return H(w, H(x, H(y, H(z)))); })
OPDEF(Vs_shift, { Vsint a = S_(v); a <<= (int)(j % 150); if (!a.isNegative()) a >>= (int)(k % 150); Vsint b = SJ(v); b += SJ(n); b *= 3; b -= S_(n); return H(b < a, H(b == a, H(b, H(a)))); })
OPDEF(Ec_sizes, { const size_t n = (size_t)(S_(s)[0] >> (j % 60)); O_(Ec1, z) Ec1::mul(z, P_(g1), n); O_(Ec2, w) Ec2::mul(w, PJ(g2), n); Ec1 a = P_(j1); a *= SJ(n); Ec2 b = PJ(j2); b *= SJ(n) & 255; return H(b, H(a, H(w, H(z)))); })
OPDEF(Ec_ops, { Ec1 a = P_(j1); a += PJ(g1); u64 h = H(a); a -= P_(g1); h = H(a, h); Ec2 b = P_(j2); b += PJ(tw); h = H(b, h); b -= PJ(g2); h = H(b, h); return H(P_(tw) - PJ(j2), H(P_(j2) + PJ(g2), H(P_(j1) - PJ(g1), H(P_(g1) + PJ(j1), H(b, h))))); })
OPDEF(ecop_, { O_(Ec1, a) ecop::ECAdd(a.p, P_(j1).p, PJ(g1).p); u64 h = H(a); ecop::ECDouble(a.p, P_(j1).p); h = H(a, h); O_(Ec2, b) ecop::ECAdd(b.p, P_(j2).p, PJ(tw).p); h = H(b, h); ecop::ECDouble(b.p, P_(j2).p); h = H(b, h); ecop::NormalizeJac(a.p, P_(j1).p); ecop::NormalizeJac(b.p, P_(j2).p); return H(b, H(a, h)); })
OPDEF(Fp_pow2, { O_(Fp, z) z = mie::power(F_(f), (size_t)SJ(s)[0]); const Fp12 y = mie::power(F_(cyc), SJ(n) & 0xffff); return H(mie::power(F_(f6), S_(n) & 31), H(y, H(z))); })
OPDEF(throwing, { u64 h = 1; const std::string t = badText(i); O_(Fp, a) O_(Fp2, b) O_(Vuint, v) O_(Ec1, p) O_(Ec2, q) try { a.set(t); h = mix(h, 1); } catch (std::exception&) { h = mix(h, 2); } try { b.set(t); h = mix(h, 1); } catch (std::exception&) { h = mix(h, 2); }
	try { v.set(t); h = mix(h, 1); } catch (std::exception&) { h = mix(h, 2); } try { std::istringstream is(t); is >> p; h = mix(h, is ? 1 : 3); } catch (std::exception&) { h = mix(h, 2); } try { std::istringstream is(t); is >> q; h = mix(h, is ? 1 : 3); } catch (std::exception&) { h = mix(h, 2); }
	try { h = H(FJ(f) / Fp(0), h); } catch (std::exception&) { h = mix(h, 4); } return h; })
#ifdef MIE_ATE_USE_GMP
OPDEF(gmp_power, { O_(Fp, z) const mpz_class a = abs(SJ(m)); z = mie::power(F_(f), a); return H(z); })
OPDEF(gmp_mul, { O_(Ec1, z) Ec1::mul(z, P_(g1), SJ(m)); return H(z); })
OPDEF(gmp_mul2, { O_(Ec2, z) Ec2::mul(z, P_(g2), SJ(m)); return H(z); })
OPDEF(gmp_convert, { O_(mpz_class, z) Fp::toMpz(z, F_(f)); O_(Fp, w) Fp::fromMpz(w, z); return H(z.get_str(), H(w)); })
#endif

#define R_(id, cost) { #id, op_##id, cost },
static const Op table[] = {
	R_(Fp_add, 1) R_(Fp_sub, 1) R_(Fp_mul, 1) R_(Fp_mulSelf, 1) R_(Fp_square, 1) R_(Fp_neg, 1) R_(Fp_inv, 2) R_(Fp_div, 2) R_(Fp_divBy2, 1) R_(Fp_divBy4, 1) R_(Fp_power, 10) R_(Fp_sqrt, 20) R_(Fp_int, 1) R_(Fp_addInt, 1) R_(ints, 6) R_(intOps, 60) R_(powInt, 15) R_(isOne, 1) R_(Fp_get, 1) R_(Fp_setVuint, 2) R_(Fp_str, 3) R_(Fp_parse, 3) R_(Fp_compare, 1) R_(Fp_mont, 1)
	R_(Dbl_mul, 1) R_(Dbl_mod, 1) R_(Dbl_add, 1) R_(Dbl_sub, 1) R_(Dbl_neg, 1) R_(Fp2Dbl_mul, 1) R_(Fp2Dbl_mul1, 1) R_(Fp2Dbl_square, 1) R_(Fp2Dbl_addsub, 1) R_(Fp2Dbl_mul_xi, 1) R_(Fp6Dbl_mul, 1)
	R_(Fp2_add, 1) R_(Fp2_sub, 1) R_(Fp2_mul, 1) R_(Fp2_mulInPlace, 1) R_(Fp2_square, 1) R_(Fp2_neg, 1) R_(Fp2_inverse, 3) R_(Fp2_div, 3) R_(Fp2_mul_xi, 1) R_(Fp2_mul_Fp, 1) R_(Fp2_divBy2, 1) R_(Fp2_power, 30) R_(Fp2_text, 8)
	R_(Fp6_add, 1) R_(Fp6_sub, 1) R_(Fp6_neg, 1) R_(Fp6_mul, 1) R_(Fp6_square, 1) R_(Fp6_inverse, 4) R_(Fp12_add, 1) R_(Fp12_sub, 1) R_(Fp12_mul, 2) R_(Fp12_square, 2) R_(Fp12_inverse, 6) R_(Fp12_frob, 2) R_(Fp12_sqru, 2) R_(Fp12_mapToCyclo, 10) R_(Fp12_final_exp, 200) R_(Fp12_power, 400) R_(Fp12_text, 40) R_(mul_Fp2_024, 2) R_(mul_024_024, 2)
#ifdef BN_SUPPORT_SNARK
	R_(pow_neg_t, 60)
#else
	R_(fixed_power, 60) R_(square_n, 5)
#endif
	R_(Ec1_add, 4) R_(Ec1_addJac, 4) R_(Ec1_sub, 4) R_(Ec1_dbl, 4) R_(Ec1_neg, 4) R_(Ec1_mul, 100) R_(Ec1_mulInt, 20) R_(Ec1_normalize, 4) R_(Ec1_valid, 2) R_(Ec1_eq, 4) R_(Ec1_text, 6)
	R_(Ec2_add, 6) R_(Ec2_addJac, 6) R_(Ec2_addTwist, 6) R_(Ec2_sub, 6) R_(Ec2_dbl, 6) R_(Ec2_neg, 6) R_(Ec2_mul, 250) R_(Ec2_mulInt, 40) R_(Ec_small, 60) R_(Ec_set, 8) R_(Ec2_normalize, 6) R_(Ec2_valid, 3) R_(Ec2_eq, 6) R_(Ec2_text, 12) R_(frobTwist, 3)
	R_(pairing, 500) R_(pairingJac, 500) R_(precompute, 200) R_(millerLoop, 400) R_(millerLoop2, 500)
	R_(V_add, 1) R_(V_sub, 1) R_(V_mul, 1) R_(V_div, 1) R_(V_shl, 1) R_(V_shr, 1) R_(V_inPlace, 1) R_(V_text, 4) R_(V_bits, 1) R_(Vs_arith, 1) R_(Vs_div, 1) R_(Vs_misc, 2) R_(Z_arith, 1) R_(Z_inv, 20) R_(Z_power, 100) R_(Z_make, 3)
	R_(Fp2_C, 2) R_(Fp6_C, 2) R_(Fp12_C, 4) R_(Fp12_neg, 4) R_(Fp6_text, 20) R_(hexText, 20) R_(decText, 20) R_(V_words, 1) R_(V_div1, 1) R_(V_power, 1) R_(Vs_text, 4) R_(Vs_shift, 1) R_(Ec_sizes, 60) R_(Ec_ops, 20) R_(ecop_, 10) R_(Fp_pow2, 60) R_(throwing, 30)
#ifdef MIE_ATE_USE_GMP
	R_(gmp_power, 10) R_(gmp_mul, 100) R_(gmp_mul2, 250) R_(gmp_convert, 2)
#endif
};
enum { NOPS = sizeof(table) / sizeof(table[0]) };

#ifndef OPS_BOX
#undef box
#endif
} // ops
