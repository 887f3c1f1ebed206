// F06: native integers, big integers and numerals to field elements and back
#include "../common.hpp"
#include <limits.h>
using namespace mon;
typedef ref::F1 R;

static Z P_() { return ref::C().p; }
static int anInt(Ctx& c)
{
	switch (c.g.u(8)) {
	case 0: return (int)c.g.u(9) - 4; case 1: return INT_MIN + (int)c.g.u(3); case 2: return INT_MAX - (int)c.g.u(3);
	case 3: return (int)((1u << c.g.u(31)) + (unsigned)c.g.u(3) - 1); case 4: return -(int)((1u << c.g.u(31)) - (unsigned)c.g.u(3));
	default: { int v = (int)(uint32_t)(c.g.next() >> 32 >> c.g.u(31)); return c.g.coin() ? v : (int)(0u - (unsigned)v); }
	}
}
#define IS(name, v, w) { R w_ = (w); CHECK(c, mon::same(v, w_), name, name " i=" << std::dec << i << " x=" << x.str() << " got=" << rawStr(v) << " want=" << w_.str()); c.eval(hv(x, hmix(hstr(name), (u64)(int64_t)i)), i != 0); c.ctr(name)++; }
#define YES(name, ok) { CHECK(c, ok, name, name " i=" << std::dec << i << " x=" << x.str()); c.eval(hv(x, hmix(hstr(name), (u64)(int64_t)i)), i != 0); c.ctr(name)++; }

static void ints(Ctx& c, Gen& G)
{
	const int i = anInt(c); const R e = R(Z((long)i)); R x = G.f1(); if (c.g.u(4) == 0) x = e; if (c.g.u(8) == 0) x = -e;
	const Fp a = mk(x); Fp z = mk(G.f1());
	c.begin("Fp(int)"); IS("Fp(int)", Fp(i), e)
	z.set(i); IS("set(int)", z, e) z = mk(G.f1()); z = i; IS("= int", z, e)
	c.begin("Fp op int");
	IS("+ int", a + i, x + e) IS("- int", a - i, x - e) IS("* int", a * i, x * e) IS("int +", i + a, e + x) IS("int -", i - a, e - x) IS("int *", i * a, e * x)
	z = a; z += i; IS("+= int", z, x + e) z = a; z -= i; IS("-= int", z, x - e) z = a; z *= i; IS("*= int", z, x * e)
	if (i != 0) { IS("/ int", a / i, x * ref::inv(e)) z = a; z /= i; IS("/= int", z, x * ref::inv(e)) }
	if (!x.isZero()) IS("int /", i / a, e * ref::inv(x))
	YES("== int", (a == i) == (x == e) && (a != i) == !(x == e) && (i == a) == (x == e))
	YES("read back", toZ(Fp(i).get()) == ref::zmod(Z((long)i), P_()))
	Fp::mul(z, a, i); IS("mul(int)", z, x * e) Fp::add(z, i, i); IS("add(int,int)", z, e + e)
	YES("input", mon::same(a, x))
	// larger fields
	c.begin("Fp2(int)"); YES("Fp2(int)", mon::same(Fp2(i), ref::F2(e, R()))) YES("Fp6(int)", mon::same(Fp6(i), ref::F12(ref::F2(e, R())))) YES("Fp12(int)", mon::same(Fp12(i), ref::F12(ref::F2(e, R()))))
	{
		ref::F2 y = G.f2(), f(e, R()); Fp2 b = mk(y), w; w = b + i; YES("Fp2 + int", mon::same(w, y + f)) w = b * i; YES("Fp2 * int", mon::same(w, y * f)) w = b - i; YES("Fp2 - int", mon::same(w, y - f)) w = b; w *= i; YES("Fp2 *= int", mon::same(w, y * f))
		w = Fp2(i, -(i / 2)); YES("Fp2(int,int)", mon::same(w, ref::F2(e, -R(Z((long)(i / 2)))))) YES("Fp2 == int", (b == i) == (y == f))
		if (c.g.u(8) == 0) { ref::F12 t = G.f12(), ff(f); Fp12 u = mk(t), v; v = u + i; YES("Fp12 + int", mon::same(v, t + ff)) v = u * i; YES("Fp12 * int", mon::same(v, t * ff)) v = i; YES("Fp12 = int", mon::same(v, ff)) v = u; v -= i; YES("Fp12 -= int", mon::same(v, t - ff)) }
	}
	if (c.wantSample()) { std::ostringstream os; os << "i=" << i << " x=" << x.str(); c.sample(os.str()); }
}
#undef IS
#undef YES
#define IS(name, v, w) { R w_ = (w); CHECK(c, mon::same(v, w_), name, name " v=" << n.get_str(16) << " got=" << rawStr(v) << " want=" << w_.str()); c.eval(hz(n, hstr(name)), n > 1); c.ctr(name)++; }
#define YES(name, ok) { CHECK(c, ok, name, name " v=" << n.get_str(16)); c.eval(hz(n, hstr(name)), n > 1); c.ctr(name)++; }

static void bigs(Ctx& c, Gen& G)
{
	const Z& p = P_(); Z n; R x = G.f1();
	switch (c.g.u(6)) { case 0: n = p - 1 - (long)c.g.u(4); break; case 1: n = ref::zmod(G.edgeInt(256), p); break; case 2: n = G.edgeInt(1 + (unsigned)c.g.u(253)); break; case 3: n = (long)c.g.u(5); break; default: n = x.z(); }
	x = R(n); c.begin("Fp(Vuint)"); const mie::Vuint v = toV(n); Fp z = mk(G.f1());
	IS("Fp(Vuint)", Fp(v), x) z.set(v); IS("set(Vuint)", z, x) z = v; IS("= Vuint", z, x)
	YES("Vuint input", toZ(v) == n)
	c.begin("Fp(string)"); IS("Fp(dec)", Fp(n.get_str(10)), x) IS("Fp(hex)", Fp("0x" + n.get_str(16)), x) z.set(n.get_str(10)); IS("set(dec)", z, x) z.set("0x" + n.get_str(16)); IS("set(hex)", z, x)
	const Fp a = mk(x); c.begin("Fp::get");
	mie::Vuint g = a.get(); YES("get", toZ(g) == n && g == v && (g.size() == 1 || g[g.size() - 1] != 0) && g < Fp::getModulo())
	IS("Fp(get)", Fp(a.get()), x) YES("get input", mon::same(a, x))
	c.begin("getLow"); u64 low = 0; { Z t = n & Z("0xffffffffffffffff"); low = mpz_get_ui(t.get_mpz_t()); } YES("getLow", a.getLow() == low) YES("isOdd", a.isOdd() == ((low & 1) != 0))
	c.begin("Mont"); { Fp t, u; Fp::fromMont(t, a); u64 l[4]; limbs(l, t); YES("fromMont", toZ(l) == n) Fp::toMont(u, t); IS("toMont", u, x) t = a; Fp::fromMont(t, t); Fp::toMont(t, t); IS("fromMont, toMont in place", t, x) }
	c.begin("mpz"); { mpz_class m = 12345; Fp::toMpz(m, a); Fp b = mk(G.f1()); Fp::fromMpz(b, m); IS("toMpz, fromMpz", b, x) YES("toMpz canonical", m >= 0 && m < p && (m == 0) == x.isZero()) Fp d; Fp::fromMpz(d, n); mpz_class k; Fp::toMpz(k, d); YES("fromMpz, toMpz", k == n) YES("mpz input", mon::same(a, x)) }
	c.begin("setDirect"); { Fp t = mk(G.f1()); Fp::setDirect(t, v); u64 l[4]; limbs(l, t); YES("setDirect", toZ(l) == n)
		Fp::Dbl d; for (int i = 0; i < 8; i++) d[i] = ~0ULL; Fp::Dbl::setDirect(d, v); YES("Dbl::setDirect", toZ(d.getDirect()) == n) Z w = n * p + c.g.below(p); d.setDirect(toV(w)); YES("Dbl::setDirect", toZ(d.getDirect()) == w) d.clear(); YES("Dbl::clear", toZ(d.getDirect()) == 0) }
	{ Fp t = a; t.clear(); YES("clear", t.isZero() && mon::same(t, R())) }
	c.begin("getDirectP"); { int k = (int)c.g.u(7); u64 l[4]; limbs(l, Fp::getDirectP(k)); Z kp = p * k; /* 6p of the SNARK prime does not fit 256 bits */ YES("getDirectP", mpz_sizeinbase(kp.get_mpz_t(), 2) > 256 || toZ(l) == kp) YES("getModulo", toZ(Fp::getModulo()) == p && Fp::getModulo() == bn::Param::p) Z m; mpz_ui_pow_ui(m.get_mpz_t(), 2, 256); YES("getMontgomeryR", toZ(Fp::getMontgomeryR()) == ref::zmod(m, p)) }
	if (c.wantSample()) c.sample("v=" + n.get_str(16));
}

void suite(Ctx& c)
{
	Gen G(c);
	// every int near the interesting edges, exhaustively, before the sampled ones
	for (long k = -3000; k <= 3000; k++) { Z n(k); c.begin("small int"); IS("small int", Fp((int)k), R(n)) }
	for (int s = 0; s < 32; s++) for (long d = -3; d <= 3; d++) for (int sg = -1; sg <= 1; sg += 2) { long k = sg * ((1L << s) + d); if (k < INT_MIN || k > INT_MAX) continue; Z n(k); c.begin("int edge"); IS("int edge", Fp((int)k), R(n)) CHECK(c, toZ(Fp((int)k).get()) == ref::zmod(n, P_()), "int edge", k); }
	for (u64 i = 0, n = c.n(10000); i < n; i++) { ints(c, G); bigs(c, G); }
}
