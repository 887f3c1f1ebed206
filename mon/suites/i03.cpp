// I03: rings of integers modulo m
#include "../common.hpp"
#include <limits.h>
using namespace mon;
using mie::Vuint;

static const unsigned CAP = (MIE_ZM_VUINT_BIT_LEN + 63) / 64;
static size_t nl(const Z& z) { size_t n = mpz_size(z.get_mpz_t()); return n ? n : 1; }
static std::string hex(const Z& z) { return z.get_str(16); }
struct T1 {}; struct T2 {}; struct T3 {};
template<class R> bool is(const R& v, const Z& z) { const Vuint& g = v.get(); return g.size() >= 1 && g.size() <= CAP && (g.size() == 1 || g[g.size() - 1] != 0) && toZ(g) == z && v.isZero() == (z == 0) && v.toString(10) == z.get_str(10); }
static Z NM[3]; // the moduli in force
static bool NP[3];

static Z modulus(Ctx& c, Gen& G, bool& prime)
{
	static const char *pr[] = { "2", "3", "5", "7", "65537", "4294967291", "4294967311", "18446744073709551557", "18446744073709551629", "170141183460469231731687303715884105727", "57896044618658097711785492504343953926634992332820282019728792003956564819949", "115792089237316195423570985008687907853269984665640564039457584007913129639747" };
	Z m; prime = true;
	switch (c.g.u(6)) {
	case 0: return Z(pr[c.g.u(12)]);
	case 1: return ref::C().r; case 2: return ref::C().p;
	case 3: { unsigned b = 2 + (unsigned)c.g.u(64 * (CAP / 2) - 2); m = c.g.bits(b) | (Z(1) << (b - 1)); mpz_nextprime(m.get_mpz_t(), m.get_mpz_t()); if (nl(m) > CAP / 2) m = 2; return m; }
	default: prime = false; m = c.g.coin() ? G.edgeInt(64 * (CAP / 2)) : c.g.bits(2 + (unsigned)c.g.u(64 * (CAP / 2) - 2)); if (m < 2) m = 2 + (long)c.g.u(4); prime = mpz_probab_prime_p(m.get_mpz_t(), 15) != 0; return m;
	}
}
static Z elem(Ctx& c, Gen& G, const Z& m)
{
	Z x; switch (c.g.u(6)) { case 0: x = (long)c.g.u(4); break; case 1: x = m - 1 - (long)c.g.u(3); break; case 2: x = m / 2 + (long)c.g.u(3) - 1; break; case 3: x = G.edgeInt(64 * (CAP / 2)); break; default: x = c.g.below(m); } return ref::zmod(x, m);
}
template<class R> R build(Ctx& c, Gen& G, const Z& z, const Z& m) // a ring element from any number congruent to z
{
	Z w = z; if (c.g.u(3) == 0) { w = z + m * c.g.bits(1 + (unsigned)c.g.u(60)); if (nl(w) >= CAP) w = z; }
	u64 b[64]; memset(b, 0, sizeof b); size_t n; mpz_export(b, &n, -1, 8, 0, 0, w.get_mpz_t()); if (!n) n = 1; R v(c.g.coin() ? 1 : 0);
	if (w <= INT_MAX && c.g.coin()) { int i = (int)w.get_si(); if (c.g.coin()) return R(i); v.set(i); return v; }
	if (w != 0 && w < m && m - w <= Z(INT_MAX) + 1 && c.g.coin()) { int i = (int)Z(w - m).get_si(); if (c.g.coin()) return R(i); v = i; return v; }
	switch (c.g.u(7)) { case 0: return R(toV(w)); case 1: v.set(toV(w)); return v; case 2: return R(w.get_str(10)); case 3: v.set("0x" + w.get_str(16)); return v; case 4: v.set((const uint64_t *)b, n); return v; case 5: v.set((const uint32_t *)b, 2 * n); return v; default: { R u(toV(w)); v.set(u); return v; } }
}
#define OP(name, v, want) { Z w_ = (want); CHECK(c, is(v, w_), name, name " m=" << hex(m) << " x=" << hex(x) << " y=" << hex(y) << " got " << hex(toZ((v).get())) << " want " << hex(w_)); c.eval(hz(m, hz(x, hz(y, hstr(name)))), x > 1 && y > 1); c.ctr(name)++; }
#define BOOL(name, ok) { CHECK(c, ok, name, name " m=" << hex(m) << " x=" << hex(x) << " y=" << hex(y)); c.eval(hz(m, hz(x, hz(y, hstr(name))))); c.ctr(name)++; }

template<class R> void ops(Ctx& c, Gen& G, const Z& m, bool prime)
{
	c.begin("ZmZ"); CHECK(c, toZ(R::getModulo()) == m, "getModulo", "modulus " << hex(m) << " reads as " << hex(toZ(R::getModulo())));
	Z x = elem(c, G, m), y; switch (c.g.u(4)) { case 0: y = x; break; case 1: y = ref::zmod(-x, m); break; case 2: y = ref::zmod(1 - x, m); break; default: y = elem(c, G, m); }
	R a = build<R>(c, G, x, m), b = build<R>(c, G, y, m), z = build<R>(c, G, elem(c, G, m), m), t;
	OP("construct", a, x) OP("construct", b, y)
	switch (c.g.u(5)) { case 0: R::add(z, a, b); break; case 1: z = a + b; break; case 2: z = a; z += b; break; case 3: z = b; R::add(z, a, z); break; default: z = a; R::add(z, z, b); } OP("add", z, ref::zmod(x + y, m))
	switch (c.g.u(5)) { case 0: R::sub(z, a, b); break; case 1: z = a - b; break; case 2: z = a; z -= b; break; case 3: z = b; R::sub(z, a, z); break; default: z = a; R::sub(z, z, b); } OP("sub", z, ref::zmod(x - y, m))
	switch (c.g.u(5)) { case 0: R::mul(z, a, b); break; case 1: z = a * b; break; case 2: z = a; z *= b; break; case 3: z = b; R::mul(z, a, z); break; default: z = a; R::mul(z, z, b); } OP("mul", z, ref::zmod(x * y, m))
	z = a; z += z; OP("add self", z, ref::zmod(x + x, m)) z = a; z -= z; OP("sub self", z, Z(0)) z = a; z *= z; OP("square", z, ref::zmod(x * x, m)) R::mul(z, a, a); OP("square", z, ref::zmod(x * x, m))
	R::neg(z, a); OP("neg", z, ref::zmod(-x, m)) z = a; R::neg(z, z); OP("neg in place", z, ref::zmod(-x, m)) OP("operator-", -a, ref::zmod(-x, m))
	int s = cmp(x, y); BOOL("compare", (a == b) == (s == 0) && (a != b) == (s != 0) && (a < b) == (s < 0) && (a > b) == (s > 0) && (a <= b) == (s <= 0) && (a >= b) == (s >= 0))
	OP("input", a, x) OP("input", b, y)
	if (prime) {
		if (x != 0) { Z iv = ref::zinv(x, m); R::inv(z, a); OP("inv", z, iv) z = a; R::inv(z, z); OP("inv in place", z, iv) z = a; z.inverse(); OP("inverse", z, iv) z *= a; OP("x * 1/x", z, Z(m == 1 ? 0 : 1)) }
		if (y != 0) { z = a / b; OP("div", z, ref::zmod(x * ref::zinv(y, m), m)) z = a; z /= b; OP("div", z, ref::zmod(x * ref::zinv(y, m), m)) OP("input", b, y) }
		c.ctr("prime modulus")++;
	} else c.ctr("composite modulus")++;
	{ // native integers as operands
		int i; switch (c.g.u(4)) { case 0: i = (int)c.g.u(5); break; case 1: i = INT_MAX - (int)c.g.u(2); break; default: i = (int)(c.g.next() >> (33 + c.g.u(30))); }
		Z zi((long)i); if (c.g.coin() && m > zi) { zi = -zi; i = -i; if (i == -INT_MAX && m > Z(INT_MAX) && c.g.coin()) { i = INT_MIN; zi = (long)i; } }
		y = zi; R w(i); OP("from int", w, ref::zmod(zi, m)) w = a + i; OP("+ int", w, ref::zmod(x + zi, m)) w = a * i; OP("* int", w, ref::zmod(x * zi, m)) w = a; w -= i; OP("-= int", w, ref::zmod(x - zi, m)) w.clear(); OP("clear", w, Z(0))
		if (m <= Z(INT_MAX)) { R v(-(int)m.get_si()); OP("from -m", v, Z(0)) if (m > 1) { R u(1 - (int)m.get_si()); OP("from 1-m", u, ref::zmod(Z(1), m)) } }
	}
	if (c.g.u(8) == 0) { Z e = G.scalar(200); y = e; R v = mie::power(a, toV(e)); Z w; mpz_powm(w.get_mpz_t(), x.get_mpz_t(), e.get_mpz_t(), m.get_mpz_t()); OP("power", v, e == 0 ? ref::zmod(Z(1), m) : w) }
	{ std::ostringstream os; os << a; BOOL("print", os.str() == x.get_str(10)) for (size_t i = 0; i < nl(x); i++) CHECK(c, a[i] == (i < mpz_size(x.get_mpz_t()) ? mpz_getlimbn(x.get_mpz_t(), i) : 0), "words", "word " << i << " of " << hex(x)); CHECK(c, a.size() == nl(x), "words", "size"); }
	if (c.wantSample()) c.sample("m=" + hex(m) + " x=" + hex(x) + " y=" + hex(y));
}

void suite(Ctx& c)
{
	Gen G(c); typedef mie::ZmZ<Vuint, T1> R1; typedef mie::ZmZ<Vuint, T2> R2; typedef mie::ZmZ<Vuint, T3> R3;
	for (int k = 0; k < 3; k++) NM[k] = modulus(c, G, NP[k]);
	R1::setModulo(toV(NM[0])); R2::setModulo(toV(NM[1])); R3::setModulo(toV(NM[2]));
	for (u64 i = 0, n = c.n(3000); i < n; i++) {
		if (i % 4 == 0) { // change one ring; elements of the others stay as they are
			Z x2 = elem(c, G, NM[1]), x3 = elem(c, G, NM[2]); R2 a2(toV(x2)); R3 a3(toV(x3)); int k = (int)c.g.u(3); c.begin("setModulo");
			if (k == 0) { NM[0] = modulus(c, G, NP[0]); R1::setModulo(toV(NM[0])); } else if (k == 1) { NM[1] = modulus(c, G, NP[1]); R2::setModulo(toV(NM[1])); } else { NM[2] = modulus(c, G, NP[2]); R3::setModulo(toV(NM[2])); }
			if (k != 1) CHECK(c, is(a2, x2) && is(R2(a2 * a2), ref::zmod(x2 * x2, NM[1])), "independent rings", "changing ring " << k << " changed ring 1");
			if (k != 2) CHECK(c, is(a3, x3) && is(R3(a3 * a3), ref::zmod(x3 * x3, NM[2])), "independent rings", "changing ring " << k << " changed ring 2");
			CHECK(c, toZ(R1::getModulo()) == NM[0] && toZ(R2::getModulo()) == NM[1] && toZ(R3::getModulo()) == NM[2], "independent moduli", "after changing ring " << k); c.ctr("setModulo")++; c.eval(hz(NM[k], k));
		}
		ops<R1>(c, G, NM[0], NP[0]); ops<R2>(c, G, NM[1], NP[1]); ops<R3>(c, G, NM[2], NP[2]);
	}
}
