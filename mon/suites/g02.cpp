// G02: scalar multiplication
#include "../common.hpp"
#include <limits.h>
using namespace mon;
using ref::Pt;

template<class F> Pt<F> mulFast(const Pt<F>& P, const Z& n) { // Jacobian in the reference field: independent of the library, quicker than affine
	if (P.inf || n == 0) return Pt<F>();
	Pt<F> B = n < 0 ? ref::neg(P) : P; Z e = abs(n); F X, Y, Zc; bool inf = true;
	for (size_t i = mpz_sizeinbase(e.get_mpz_t(), 2); i-- > 0;) {
		if (!inf) { F a = X * X, b = Y * Y, d = X * b, m = a + a + a; d = d + d; d = d + d; F z3 = Y * Zc; F x3 = m * m - d - d, b2 = b * b; b2 = b2 + b2; b2 = b2 + b2; b2 = b2 + b2; Y = m * (d - x3) - b2; X = x3; Zc = z3 + z3; if (Zc.isZero()) inf = true; }
		if (mpz_tstbit(e.get_mpz_t(), i)) {
			if (inf) { X = B.x; Y = B.y; Zc = F(1L); inf = false; }
			else {
				F zz = Zc * Zc, u = B.x * zz, s = B.y * zz * Zc, h = u - X, r = s - Y;
				if (h.isZero()) { if (!r.isZero()) { inf = true; continue; } Pt<F> D = ref::dbl(B); X = D.x; Y = D.y; Zc = F(1L); continue; }
				F hh = h * h, hhh = hh * h, v = X * hh, x3 = r * r - hhh - v - v; Y = r * (v - x3) - Y * hhh; X = x3; Zc = Zc * h;
			}
		}
	}
	if (inf) return Pt<F>();
	F zi = ref::inv(Zc), z2 = zi * zi; return Pt<F>(X * z2, Y * z2 * zi);
}

static ref::P1 anyPt(Gen& G, ref::F1 *) { return G.p1(); }
static ref::P2 anyPt(Gen& G, ref::F2 *) { return G.c.g.u(4) ? G.p2sub() : G.p2any(); }

template<class E, class F, class N> void check(Ctx& c, Gen& G, const Pt<F>& P, const Z& n, const N& s, const char *grp, const char *type)
{
	std::string nm = std::string(grp) + " * " + type; c.begin(nm.c_str());
	Pt<F> want = mulFast(P, n); E a, z; G.template rep<E, F>(a, P); const E a0 = a; smear(z.p);
	int form = (int)c.g.u(5);
	switch (form) {
	case 0: E::mul(z, a, s); break; case 1: z = a * s; break; case 2: z = a; z *= s; break; case 3: z = a; E::mul(z, z, s); break; default: bn::ecop::ScalarMult(z.p, a.p, s);
	}
	CHECK(c, samePt(z, want), nm, nm << " form=" << form << " n=" << n.get_str(16) << " P=" << P.str() << " rep=" << rawPt(a0) << " got=" << rawPt(z) << " want=" << want.str());
	CHECK(c, memcmp(a.p, a0.p, sizeof a.p) == 0, nm + ":input", "point changed n=" << n);
	c.eval(hv(P, hz(n, hstr(nm))), !P.inf && abs(n) > 1); c.ctr(nm)++; if (want.inf && !P.inf && n != 0) c.ctr("non-trivial infinity")++; if (n < 0) c.ctr("negative scalar")++;
	if (c.wantSample()) c.sample(nm + " n=" + n.get_str(16) + " P=" + P.str());
}

template<class E, class F> void group(Ctx& c, Gen& G, std::vector<Pt<F> >& pool, const char *grp, u64 i)
{
	Pt<F> P; if (c.g.u(16)) { if (c.g.u(5) == 0) pool[c.g.u(pool.size())] = ref::add(pool[c.g.u(pool.size())], pool[c.g.u(pool.size())]); P = pool[c.g.u(pool.size())]; }
	{ // big scalars: the same value through every type
		Z n = G.scalar(c.g.u(8) ? 320 : 512); if (c.g.u(24) == 0) n = ref::C().r * 2 * (2 * ref::C().p - ref::C().r) + (long)c.g.u(3); // order of the whole twist is r(2p-r)
		if (c.g.u(3)) check<E, F>(c, G, P, n, toV(n), grp, "Vuint");
		if (c.g.u(3)) { Z m = c.g.coin() ? Z(-n) : n; check<E, F>(c, G, P, m, mpz_class(m), grp, "mpz_class"); }
	}
	{
		static const int edge[] = { 0, 1, 2, 3, -1, -2, -3, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 65536, -65536, 0x55555555 };
		int n = c.g.u(3) ? (int)c.g.next() >> c.g.u(31) : edge[c.g.u(14)];
		if (i % 2) check<E, F>(c, G, P, Z((long)n), n, grp, "int");
		size_t m; switch (c.g.u(4)) { case 0: m = G.edgeLimb(); break; case 1: m = c.g.u(5); break; default: m = c.g.next() >> c.g.u(64); }
		Z zm; mpz_import(zm.get_mpz_t(), 1, -1, 8, 0, 0, &m);
		if (i % 2 == 0) check<E, F>(c, G, P, zm, m, grp, "size_t");
	}
	if (i % 64 == 3) { // scalars longer than any order, only for the unbounded type
		Z n = c.g.bits(700 + (unsigned)c.g.u(1500)); if (c.g.coin()) n = -n; check<E, F>(c, G, P, n, mpz_class(n), grp, "long mpz_class");
	}
	if (i % 64 == 7) { // order of the subgroup
		const Z& r = ref::C().r; Pt<F> Q = P; if (sizeof(F) == sizeof(ref::F2)) Q = mulFast(P, Z(2 * ref::C().p - r));
		for (int d = -2; d <= 2; d++) { check<E, F>(c, G, Q, Z(r + d), toV(r + d), grp, "Vuint near r"); check<E, F>(c, G, Q, Z(-r + d), mpz_class(-r + d), grp, "mpz near -r"); }
		E e; G.template rep<E, F>(e, Q); CHECK(c, (e * toV(r)).isZero(), std::string(grp) + " order", "r*P is not infinity " << Q.str());
	}
}

void suite(Ctx& c)
{
	Gen G(c); std::vector<ref::P1> a; std::vector<ref::P2> b;
	for (int i = 0; i < 10; i++) { a.push_back(anyPt(G, (ref::F1 *)0)); b.push_back(anyPt(G, (ref::F2 *)0)); }
	for (int i = 0; i < 6; i++) { Z n = G.scalar(300); HARNESS_REQUIRE(mulFast(a[i], n) == ref::mul(a[i], n) && mulFast(b[i], n) == ref::mul(b[i], n)); }
	for (u64 i = 0, n = c.n(500); i < n; i++) { group<Ec1>(c, G, a, "G1", i); if (i % 3 == 0) group<Ec2>(c, G, b, "G2", i / 3); }
}
