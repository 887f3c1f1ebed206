#pragma once
/*
	Independent reference for everything the monitors compare against.

	It shares no code with the library: base-field values are canonical (not
	Montgomery) 4-limb integers handled by GMP's mpn layer, the degree-12 field is
	plain polynomials in w over Fp2 modulo w^6 - xi, points are affine, and the
	pairing is the textbook optimal ate pairing.  All curve constants are derived
	here from z, b and xi, never read from the library.
*/
#include <gmp.h>
#include <gmpxx.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <string>
#include <vector>

namespace ref {

typedef mpz_class Z;

inline void die(const char *msg) { fprintf(stderr, "HARNESS-ERROR ref: %s\n", msg); exit(70); }
#define REF_REQUIRE(c) do { if (!(c)) ::ref::die("self check: " #c); } while (0)

struct Curve {
	Z z, p, r, t, largest_c, Rmont, Rinv, R512, c_final, hard[4], hardExp;
	mp_limb_t pl[4];
	int b, xi_a, xi_b;
	bool snark;
};
inline Curve& C() { static Curve c; return c; }

inline Z zmod(const Z& x, const Z& m) { Z r; mpz_fdiv_r(r.get_mpz_t(), x.get_mpz_t(), m.get_mpz_t()); return r; }
inline Z zpow(const Z& b, const Z& e, const Z& m) { Z r; mpz_powm(r.get_mpz_t(), b.get_mpz_t(), e.get_mpz_t(), m.get_mpz_t()); return r; }
inline Z zinv(const Z& b, const Z& m) { Z r; if (!mpz_invert(r.get_mpz_t(), b.get_mpz_t(), m.get_mpz_t())) return 0; return r; }

struct F1 {
	mp_limb_t v[4];
	F1() { v[0] = v[1] = v[2] = v[3] = 0; }
	F1(long x) {
		if (x >= 0) { v[0] = x; v[1] = v[2] = v[3] = 0; }
		else { mp_limb_t m[4] = { (mp_limb_t)0 - (mp_limb_t)x, 0, 0, 0 }; mpn_sub_n(v, C().pl, m, 4); }
	}
	explicit F1(const Z& x) {
		Z t = zmod(x, C().p);
		memset(v, 0, sizeof v);
		size_t n; mpz_export(v, &n, -1, 8, 0, 0, t.get_mpz_t());
	}
	Z z() const { Z r; mpz_import(r.get_mpz_t(), 4, -1, 8, 0, 0, v); return r; }
	bool isZero() const { return (v[0] | v[1] | v[2] | v[3]) == 0; }
	bool operator==(const F1& o) const { return memcmp(v, o.v, 32) == 0; }
	bool operator!=(const F1& o) const { return !(*this == o); }
	bool odd() const { return v[0] & 1; }
	std::string str() const { return z().get_str(16); }
};
inline F1 operator+(const F1& a, const F1& b) {
	F1 r; mp_limb_t c = mpn_add_n(r.v, a.v, b.v, 4);
	if (c || mpn_cmp(r.v, C().pl, 4) >= 0) mpn_sub_n(r.v, r.v, C().pl, 4);
	return r;
}
inline F1 operator-(const F1& a, const F1& b) {
	F1 r; if (mpn_sub_n(r.v, a.v, b.v, 4)) mpn_add_n(r.v, r.v, C().pl, 4);
	return r;
}
inline F1 operator-(const F1& a) { return F1() - a; }
inline F1 red8(const mp_limb_t *t) { mp_limb_t q[5]; F1 r; mpn_tdiv_qr(q, r.v, 0, t, 8, C().pl, 4); return r; }
inline F1 operator*(const F1& a, const F1& b) { mp_limb_t t[8]; mpn_mul_n(t, a.v, b.v, 4); return red8(t); }
inline F1 sqr(const F1& a) { return a * a; }
inline F1 inv(const F1& a) {
	mpz_t x, p, r; mpz_roinit_n(x, a.v, 4); mpz_roinit_n(p, C().pl, 4);
	F1 o; if (a.isZero()) return o;
	mpz_init(r); mpz_invert(r, x, p); size_t n; mpz_export(o.v, &n, -1, 8, 0, 0, r); mpz_clear(r);
	return o;
}
inline F1 pow(const F1& a, const Z& e) { return F1(zpow(a.z(), e, C().p)); }
inline bool sqrt(F1& y, const F1& x) { F1 s = pow(x, (C().p + 1) / 4); if (s * s != x) return false; y = s; return true; }
// raw Montgomery limbs <-> value
inline F1 fromMontRaw(const uint64_t *raw) {
	static const F1 ri(C().Rinv); // one curve prime per process
	F1 a; memcpy(a.v, raw, 32); return a * ri;
}
inline F1 toMont(const F1& a) { static const F1 rm(C().Rmont); return a * rm; }

struct F2 {
	F1 a, b;
	F2() {}
	F2(long x) : a(x) {}
	F2(const F1& x) : a(x) {}
	F2(const F1& x, const F1& y) : a(x), b(y) {}
	bool isZero() const { return a.isZero() && b.isZero(); }
	bool operator==(const F2& o) const { return a == o.a && b == o.b; }
	bool operator!=(const F2& o) const { return !(*this == o); }
	std::string str() const { return "[" + a.str() + "," + b.str() + "]"; }
};
inline F2 operator+(const F2& x, const F2& y) { return F2(x.a + y.a, x.b + y.b); }
inline F2 operator-(const F2& x, const F2& y) { return F2(x.a - y.a, x.b - y.b); }
inline F2 operator-(const F2& x) { return F2(-x.a, -x.b); }
inline F2 operator*(const F2& x, const F2& y) { return F2(x.a * y.a - x.b * y.b, x.a * y.b + x.b * y.a); }
inline F2 operator*(const F2& x, const F1& y) { return F2(x.a * y, x.b * y); }
inline F2 sqr(const F2& a) { return a * a; }
inline F2 conj(const F2& x) { return F2(x.a, -x.b); }
inline F2 inv(const F2& x) { F1 n = inv(x.a * x.a + x.b * x.b); return F2(x.a * n, -(x.b * n)); }
inline F2& XI() { static F2 x; return x; }
inline F2& BT() { static F2 x; return x; } // b / xi
inline F1& B1() { static F1 x; return x; }
template<class F> F powT(const F& x, const Z& e) {
	F r(1L); size_t n = mpz_sizeinbase(e.get_mpz_t(), 2);
	if (e == 0) return r;
	for (size_t i = n; i-- > 0;) { r = r * r; if (mpz_tstbit(e.get_mpz_t(), i)) r = r * x; }
	return r;
}
inline bool sqrt(F2& y, const F2& w) {
	if (w.isZero()) { y = F2(); return true; }
	F1 half = inv(F1(2)), s, ra;
	if (w.b.isZero()) {
		if (sqrt(ra, w.a)) { y = F2(ra); return true; }
		if (sqrt(ra, -w.a)) { y = F2(F1(), ra); return true; } // (ra u)^2 = -ra^2
		return false;
	}
	if (!sqrt(s, w.a * w.a + w.b * w.b)) return false;
	if (!sqrt(ra, (w.a + s) * half) && !sqrt(ra, (w.a - s) * half)) return false;
	y = F2(ra, w.b * inv(ra + ra));
	return y * y == w;
}

struct F12 {
	F2 c[6]; // sum c[k] w^k
	F12() {}
	F12(long x) { c[0] = F2(x); }
	explicit F12(const F2& x) { c[0] = x; }
	bool operator==(const F12& o) const { for (int i = 0; i < 6; i++) if (c[i] != o.c[i]) return false; return true; }
	bool operator!=(const F12& o) const { return !(*this == o); }
	bool isZero() const { for (int i = 0; i < 6; i++) if (!c[i].isZero()) return false; return true; }
	std::string str() const { std::string s; for (int i = 0; i < 6; i++) s += c[i].str(); return s; }
};
inline F12 operator+(const F12& x, const F12& y) { F12 r; for (int i = 0; i < 6; i++) r.c[i] = x.c[i] + y.c[i]; return r; }
inline F12 operator-(const F12& x, const F12& y) { F12 r; for (int i = 0; i < 6; i++) r.c[i] = x.c[i] - y.c[i]; return r; }
inline F12 operator-(const F12& x) { F12 r; for (int i = 0; i < 6; i++) r.c[i] = -x.c[i]; return r; }
inline F12 operator*(const F12& x, const F12& y) {
	F2 t[11];
	bool zx[6], zy[6];
	for (int i = 0; i < 6; i++) { zx[i] = x.c[i].isZero(); zy[i] = y.c[i].isZero(); }
	for (int i = 0; i < 6; i++) if (!zx[i]) for (int j = 0; j < 6; j++) if (!zy[j]) t[i + j] = t[i + j] + x.c[i] * y.c[j];
	F12 r;
	for (int i = 0; i < 6; i++) r.c[i] = i + 6 < 11 ? t[i] + t[i + 6] * XI() : t[i];
	return r;
}
inline F2 *gammaTbl() { static F2 g[6]; return g; }      // xi^(k(p-1)/6)
inline F1 *omegaTbl() { static F1 g[6]; return g; }      // xi^(k(p^2-1)/6), in Fp
inline F12 frob(const F12& x) { F12 r; for (int k = 0; k < 6; k++) r.c[k] = conj(x.c[k]) * gammaTbl()[k]; return r; }
inline F12 frob2(const F12& x) { F12 r; for (int k = 0; k < 6; k++) r.c[k] = x.c[k] * omegaTbl()[k]; return r; }
inline F12 frobN(const F12& x, int n) { F12 r = x; for (; n >= 2; n -= 2) r = frob2(r); if (n) r = frob(r); return r; }
inline F12 conj6(const F12& x) { F12 r = x; for (int k = 1; k < 6; k += 2) r.c[k] = -r.c[k]; return r; }
inline F12 inv(const F12& x) {
	F12 f = frob2(x), m = f;
	for (int i = 2; i <= 5; i++) { f = frob2(f); m = m * f; }
	F12 n = m * x; // norm to Fp2
	F2 ni = inv(n.c[0]);
	F12 r; for (int i = 0; i < 6; i++) r.c[i] = m.c[i] * ni;
	return r;
}
inline F12 pow(const F12& x, const Z& e) { return powT(x, e); }
inline F2 pow(const F2& x, const Z& e) { return powT(x, e); }
// power of an element of the cyclotomic subgroup: negative exponents by conjugation
inline F12 powCyc(const F12& x, const Z& e) { return e < 0 ? powT(conj6(x), Z(-e)) : powT(x, e); }

// ---------------------------------------------------------------- curves
template<class F> struct Pt {
	F x, y; bool inf;
	Pt() : inf(true) {}
	Pt(const F& x_, const F& y_) : x(x_), y(y_), inf(false) {}
	bool operator==(const Pt& o) const { return inf ? o.inf : (!o.inf && x == o.x && y == o.y); }
	bool operator!=(const Pt& o) const { return !(*this == o); }
	std::string str() const { return inf ? "inf" : "(" + x.str() + ";" + y.str() + ")"; }
};
typedef Pt<F1> P1;
typedef Pt<F2> P2;
inline const F1& coefB(const F1&) { return B1(); }
inline const F2& coefB(const F2&) { return BT(); }
template<class F> bool onCurve(const Pt<F>& P) { return P.inf || P.y * P.y == P.x * P.x * P.x + coefB(P.x); }
template<class F> Pt<F> neg(const Pt<F>& P) { return P.inf ? P : Pt<F>(P.x, -P.y); }
template<class F> Pt<F> dbl(const Pt<F>& P) {
	if (P.inf || P.y.isZero()) return Pt<F>();
	F x2 = P.x * P.x, l = (x2 + x2 + x2) * inv(P.y + P.y);
	F x = l * l - P.x - P.x;
	return Pt<F>(x, l * (P.x - x) - P.y);
}
template<class F> Pt<F> add(const Pt<F>& P, const Pt<F>& Q) {
	if (P.inf) return Q;
	if (Q.inf) return P;
	if (P.x == Q.x) return P.y == Q.y ? dbl(P) : Pt<F>();
	F l = (Q.y - P.y) * inv(Q.x - P.x);
	F x = l * l - P.x - Q.x;
	return Pt<F>(x, l * (P.x - x) - P.y);
}
template<class F> Pt<F> mul(const Pt<F>& P, const Z& n) {
	if (n < 0) return mul(neg(P), Z(-n));
	Pt<F> r;
	for (size_t i = n == 0 ? 0 : mpz_sizeinbase(n.get_mpz_t(), 2); i-- > 0;) {
		r = dbl(r);
		if (mpz_tstbit(n.get_mpz_t(), i)) r = add(r, P);
	}
	return r;
}
// Frobenius carried to the twist: untwist, p-power, twist back
inline P2 twFrob(const P2& Q) { return Q.inf ? Q : P2(conj(Q.x) * gammaTbl()[2], conj(Q.y) * gammaTbl()[3]); }

// ---------------------------------------------------------------- pairing
inline F12 line(const F2& lam, const P2& T, const P1& P) {
	// untwist (x,y) -> (x w^2, y w^3); slope lam*w; value at P
	F12 l; l.c[0] = F2(P.y); l.c[1] = -(lam * P.x); l.c[3] = lam * T.x - T.y; return l;
}
inline F12 vline(const P2& T, const P1& P) { F12 l; l.c[0] = F2(P.x); l.c[2] = -T.x; return l; }
inline F12 stepDbl(P2& T, const P1& P) {
	F2 x2 = T.x * T.x, l = (x2 + x2 + x2) * inv(T.y + T.y);
	F12 r = line(l, T, P); T = dbl(T); return r;
}
inline F12 stepAdd(P2& T, const P2& Q, const P1& P) {
	if (T.x == Q.x) {
		if (T.y == Q.y) return stepDbl(T, P);
		F12 r = vline(T, P); T = P2(); return r;
	}
	F2 l = (Q.y - T.y) * inv(Q.x - T.x);
	F12 r = line(l, T, P); T = add(T, Q); return r;
}
inline F12 miller(const P2& Q, const P1& P) {
	Z n = abs(C().largest_c);
	F12 f(1L); P2 T = Q;
	for (size_t i = mpz_sizeinbase(n.get_mpz_t(), 2) - 1; i-- > 0;) {
		f = f * f; f = f * stepDbl(T, P);
		if (mpz_tstbit(n.get_mpz_t(), i)) f = f * stepAdd(T, Q, P);
	}
	if (C().largest_c < 0) { f = conj6(f); T = neg(T); } // conj6 = inverse up to the final exponentiation
	P2 Q1 = twFrob(Q), Q2 = neg(twFrob(Q1));
	f = f * stepAdd(T, Q1, P);
	f = f * stepAdd(T, Q2, P);
	return f;
}
inline F12 easyPart(const F12& f) { F12 g = conj6(f) * inv(f); return frob2(g) * g; }
// f^((p^12-1)/r * c)
inline F12 finalExp(const F12& f) {
	F12 g = easyPart(f), base[4], tbl[16];
	for (int i = 0; i < 4; i++) { base[i] = frobN(g, i); if (C().hard[i] < 0) base[i] = conj6(base[i]); }
	tbl[0] = F12(1L);
	for (int m = 1; m < 16; m++) { int lo = 0; while (!((m >> lo) & 1)) lo++; tbl[m] = tbl[m & (m - 1)] * base[lo]; }
	F12 r(1L); size_t n = 0;
	Z e[4];
	for (int i = 0; i < 4; i++) { e[i] = abs(C().hard[i]); size_t k = mpz_sizeinbase(e[i].get_mpz_t(), 2); if (k > n) n = k; }
	for (size_t j = n; j-- > 0;) {
		r = r * r;
		int m = 0; for (int i = 0; i < 4; i++) if (mpz_tstbit(e[i].get_mpz_t(), j)) m |= 1 << i;
		if (m) r = r * tbl[m];
	}
	return r;
}
// the same, by one plain exponentiation with the whole exponent of the hard part (slow)
inline F12 finalExpPlain(const F12& f) { return powCyc(easyPart(f), C().hardExp); }
inline F12 pairing(const P2& Q, const P1& P) { if (Q.inf || P.inf) return F12(1L); return finalExp(miller(Q, P)); }

// ---------------------------------------------------------------- setup
inline void setup(const char *zstr, int b, int xi_a, int xi_b, bool snark) {
	Curve& c = C();
	c.z = Z(zstr); c.b = b; c.xi_a = xi_a; c.xi_b = xi_b; c.snark = snark;
	Z z = c.z;
	c.p = 36 * z * z * z * z + 36 * z * z * z + 24 * z * z + 6 * z + 1;
	c.r = 36 * z * z * z * z + 36 * z * z * z + 18 * z * z + 6 * z + 1;
	c.t = 6 * z * z + 1;
	c.largest_c = 6 * z + 2;
	memset(c.pl, 0, sizeof c.pl); size_t n; mpz_export(c.pl, &n, -1, 8, 0, 0, c.p.get_mpz_t());
	REF_REQUIRE(n == 4);
	c.Rmont = zmod(Z(1) << 256, c.p); c.Rinv = zinv(c.Rmont, c.p);
	XI() = F2(F1((long)xi_a), F1((long)xi_b)); B1() = F1((long)b); BT() = F2(F1((long)b)) * inv(XI());
	F2 g = pow(XI(), (c.p - 1) / 6), g2 = pow(XI(), (c.p * c.p - 1) / 6);
	REF_REQUIRE(g2.b.isZero());
	gammaTbl()[0] = F2(1L); omegaTbl()[0] = F1(1L);
	for (int i = 1; i < 6; i++) { gammaTbl()[i] = gammaTbl()[i - 1] * g; omegaTbl()[i] = omegaTbl()[i - 1] * g2.a; }
	c.hard[0] = 12 * z * z * z + 12 * z * z + 6 * z + 1;
	c.hard[1] = 12 * z * z * z + 6 * z * z + 4 * z;
	c.hard[2] = 12 * z * z * z + 6 * z * z + 6 * z;
	c.hard[3] = 12 * z * z * z + 6 * z * z + 4 * z - 1;
	c.c_final = 2 * z * (6 * z * z + 3 * z + 1);
	Z p2 = c.p * c.p, phi = p2 * p2 - p2 + 1;
	REF_REQUIRE(phi % c.r == 0);
	c.hardExp = phi / c.r * c.c_final;
	REF_REQUIRE(c.hard[0] + c.hard[1] * c.p + c.hard[2] * p2 + c.hard[3] * p2 * c.p == c.hardExp);
	REF_REQUIRE(mpz_probab_prime_p(c.p.get_mpz_t(), 20) && mpz_probab_prime_p(c.r.get_mpz_t(), 20));
	REF_REQUIRE(c.p % 4 == 3);
}
// expensive consistency checks of the reference itself (run once per suite that uses it)
inline void selfCheck() {
	Curve& c = C();
	F12 x; for (int i = 0; i < 6; i++) x.c[i] = F2(F1(Z(zpow(3, 1000 + i, c.p))), F1(Z(zpow(5, 1000 + i, c.p))));
	REF_REQUIRE(frob(x) == pow(x, c.p));
	REF_REQUIRE(frob2(x) == frob(frob(x)));
	REF_REQUIRE(x * inv(x) == F12(1L));
	REF_REQUIRE(finalExp(x) == finalExpPlain(x));
	REF_REQUIRE(pow(finalExp(x), c.r) == F12(1L));
}
} // ref
