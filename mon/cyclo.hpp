// Elements of the cyclotomic subgroup with a chosen coefficient: points of the group on rational curves, found by polynomial root finding
#pragma once
#include "common.hpp"
namespace mon {
typedef std::vector<ref::F2> Poly; // over Fp2, lowest coefficient first
inline void pTrim(Poly& a) { while (!a.empty() && a.back().isZero()) a.pop_back(); }
inline void pMod(Poly& a, const Poly& m) { // m is monic
	pTrim(a); while (a.size() >= m.size()) { const ref::F2 k = a.back(); const size_t d = a.size() - m.size(); for (size_t i = 0; i < m.size(); i++) a[i + d] = a[i + d] - k * m[i]; pTrim(a); }
}
inline Poly pMonic(Poly a) { pTrim(a); if (!a.empty()) { const ref::F2 k = ref::inv(a.back()); for (size_t i = 0; i < a.size(); i++) a[i] = a[i] * k; } return a; }
inline Poly pMul(const Poly& a, const Poly& b, const Poly& m) { Poly r(a.size() + b.size()); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] = r[i + j] + a[i] * b[j]; pMod(r, m); return r; }
inline Poly pPow(const Poly& a, const Z& e, const Poly& m) { Poly r(1, ref::F2(1L)); pMod(r, m); for (size_t i = mpz_sizeinbase(e.get_mpz_t(), 2); i-- > 0;) { r = pMul(r, r, m); if (mpz_tstbit(e.get_mpz_t(), i)) r = pMul(r, a, m); } return r; }
inline Poly pGcd(Poly a, Poly b) { a = pMonic(a); b = pMonic(b); while (!b.empty()) { pMod(a, b); std::swap(a, b); b = pMonic(b); } return a; }
// a root in Fp2, if there is one
inline bool pRoot(ref::F2& t, const Poly& f0, Gen& G)
{
	Poly f = pMonic(f0); if (f.size() < 2) return false; const Z q = ref::C().p * ref::C().p;
	Poly T(2); T[1] = ref::F2(1L); if (f.size() > 2) { Poly h = pPow(T, q, f); if (h.size() < 2) h.resize(2); h[1] = h[1] - ref::F2(1L); f = pGcd(h, f); }
	for (int k = 0; f.size() > 2 && k < 60; k++) { // split the product of linear factors
		Poly s = T; s[0] = ref::F2(G.c.g.u(2) ? G.f1() : ref::F1((long)G.c.g.u(1000)), ref::F1((long)G.c.g.next())); Poly h = pPow(s, Z((q - 1) / 2), f); if (h.empty()) h.resize(1); h[0] = h[0] - ref::F2(1L);
		Poly g = pGcd(h, f); if (g.size() > 1 && g.size() < f.size()) f = g;
	}
	if (f.size() != 2) return false; t = -f[0]; return true;
}
typedef std::vector<ref::F12> Poly12;
inline Poly12 pMul12(const Poly12& a, const Poly12& b) { Poly12 r(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] = r[i + j] + a[i] * b[j]; return r; }
// x in the cyclotomic subgroup, x != 1, with coefficient i (of w^i) equal to s
inline bool cycloWith(ref::F12& x, int i, const ref::F2& s, Gen& G)
{
	using ref::F12; F12 a, b; for (int k = 0; k < 6; k++) { a.c[k] = ref::F2(ref::F1(G.g.below(ref::C().p)), ref::F1(G.g.below(ref::C().p))); b.c[k] = ref::F2(ref::F1(G.g.below(ref::C().p)), ref::F1(G.g.below(ref::C().p))); }
	Poly12 l[6]; for (int j = 0; j < 6; j++) { l[j].push_back(a); l[j].push_back(b); a = ref::frob2(a); b = ref::frob2(b); } // f^(q^j), f = a + b t
	const Poly12 m = pMul12(pMul12(l[2], l[3]), pMul12(l[4], l[5])), n = pMul12(m, pMul12(l[3], l[4])), d = pMul12(m, pMul12(l[0], l[1])); // f^((q^3 - 1)(q + 1)) = n / d
	Poly p(7); for (int k = 0; k < 7; k++) { for (int j = 1; j < 6; j++) REF_REQUIRE(d[k].c[j].isZero()); p[k] = n[k].c[i] - s * d[k].c[0]; }
	ref::F2 t; if (!pRoot(t, p, G)) return false;
	F12 f; for (int k = 0; k < 6; k++) f.c[k] = l[0][0].c[k] + l[0][1].c[k] * t; if (f.isZero()) return false;
	x = ref::easyPart(f); return x.c[i] == s && x != F12(1L);
}
// y with y^(2^k) = x in the cyclotomic subgroup
inline ref::F12 cycloRoot(const ref::F12& x, unsigned k) { const Z p2 = ref::C().p * ref::C().p, phi = p2 * p2 - p2 + 1; Z e; mpz_powm_ui(e.get_mpz_t(), ref::zinv(Z(2), phi).get_mpz_t(), k, phi.get_mpz_t()); return ref::pow(x, e); }
// f with easyPart(f) = x
inline ref::F12 easyRoot(const ref::F12& x) { const Z p2 = ref::C().p * ref::C().p, phi = p2 * p2 - p2 + 1; return ref::conj6(ref::pow(x, ref::zinv(Z(ref::zmod(Z(2 * (p2 + 1)), phi)), phi))); }
} // mon
