// F02: exponentiation and the base-field square root
#include "../common.hpp"
using namespace mon;
typedef ref::F1 R;

struct TagA {}; struct TagB {};
typedef mie::ZmZ<mie::Vuint, TagA> ZA;

template<class L, class S> struct Show { static std::string s(const L& x) { return rawStr(x); } };
static std::string lstr(const Fp& x) { return rawStr(x); }
static std::string lstr(const Fp2& x) { return rawStr(x); }
static std::string lstr(const Fp6& x) { return rawStr(x); }
static std::string lstr(const Fp12& x) { return rawStr(x); }
static std::string lstr(const ZA& x) { return toZ(x.get()).get_str(16); }
static bool same(const ZA& x, const Z& v) { return toZ(x.get()) == v; }

template<class L, class S, class W> void one(Ctx& c, const char *nm, const char *ty, const L& x, const S& e, const Z& ez, const W& want, u64 h)
{
	c.begin(nm);
	L x0 = x, z;
	S e0 = e;
	z = mie::power(x, e);
	using mon::same;
	CHECK(c, same(z, want), std::string("power ") + nm + " " + ty, "exponent=" << ez.get_str(16) << " base=" << lstr(x0) << " got=" << lstr(z));
	CHECK(c, lstr(x0) == lstr(x) && e0 == e, std::string("power input ") + nm, "input changed");
	c.eval(hmix(hz(ez, h), ty[0]), ez > 1);
	c.ctr(std::string("type ") + ty)++;
	char b[24]; sprintf(b, "bits<=%04u", (unsigned)((mpz_sizeinbase(ez.get_mpz_t(), 2) + 63) / 64 * 64)); c.ctr(b)++;
}
// all supported types that can hold e
template<class L, class W> void all(Ctx& c, const char *nm, const L& x, const Z& e, const W& want, u64 h)
{
	size_t bits = mpz_sizeinbase(e.get_mpz_t(), 2);
	one(c, nm, "mpz_class", x, mpz_class(e), e, want, h);
	if (bits <= 448) one(c, nm, "Vuint", x, toV(e), e, want, h);
	if (bits <= 64) one(c, nm, "size_t", x, (size_t)mpz_get_ui(e.get_mpz_t()), e, want, h);
	if (bits <= 31) one(c, nm, "int", x, (int)mpz_get_ui(e.get_mpz_t()), e, want, h);
}
template<class L> void negative(Ctx& c, const char *nm, const L& x, const Z& e)
{
	c.begin("negative exponent");
	bool thrown = false;
	try { L z = mie::power(x, mpz_class(e)); (void)z; } catch (std::exception&) { thrown = true; }
	CHECK(c, thrown, std::string("negative exponent accepted ") + nm, "mpz_class exponent " << e.get_str());
	if (e >= -Z("2147483648")) {
		thrown = false;
		try { L z = mie::power(x, (int)mpz_get_si(e.get_mpz_t())); (void)z; } catch (std::exception&) { thrown = true; }
		CHECK(c, thrown, std::string("negative exponent accepted ") + nm, "int exponent " << e.get_str());
	}
	c.eval(hz(e, hstr(nm))); c.ctr("negative")++;
}
static Z expo(Ctx& c, Gen& G, unsigned maxBits)
{
	switch (c.g.u(12)) {
	case 0: return G.scalar(maxBits);
	case 1: return c.g.bits(31); case 2: return (Z(1) << 31) - 1; case 3: return (Z(1) << 64) - 1 - (long)c.g.u(3); case 4: return (Z(1) << 63) + (long)c.g.u(3) - 1;
	case 5: return c.g.bits(64); case 6: return ref::C().p - (long)c.g.u(3); case 7: return c.g.u(70);
	case 8: return (Z(1) << (64 * (1 + c.g.u(maxBits / 64 - 1)))) + (long)c.g.u(3) - 1;
	case 9: return c.g.bits(maxBits);
	default: return G.edgeInt(maxBits);
	}
}
void suite(Ctx& c)
{
	Gen G(c);
	for (u64 i = 0; i < c.n(1500); i++) {
		R x = G.f1(); Z e = expo(c, G, c.g.u(6) ? 448 : 1600);
		all(c, "Fp", mk(x), e, ref::pow(x, e), hv(x));
		if (i % 32 == 0) negative(c, "Fp", mk(x), -e - 1);
		if (c.wantSample()) c.sample("Fp base=" + x.str() + " exponent=" + e.get_str(16));
	}
	for (u64 i = 0; i < c.n(400); i++) {
		ref::F2 x = G.f2(); Z e = expo(c, G, c.g.u(6) ? 448 : 1000);
		all(c, "Fp2", mk(x), e, ref::pow(x, e), hv(x));
		if (i % 32 == 0) negative(c, "Fp2", mk(x), -e - 1);
	}
	for (u64 i = 0; i < c.n(40); i++) {
		ref::F12 x = G.f12(2); Z e = expo(c, G, 320);
		all(c, "Fp6", mk6(x), e, ref::pow(x, e), hv(x));
		if (i % 8 == 0) negative(c, "Fp6", mk6(x), -e - 1);
		x = G.f12(); e = expo(c, G, 320);
		all(c, "Fp12", mk(x), e, ref::pow(x, e), hv(x));
		if (i % 8 == 0) negative(c, "Fp12", mk(x), -e - 1);
	}
	// modular rings, prime and composite
	for (u64 i = 0; i < c.n(300); i++) {
		Z m;
		switch (c.g.u(6)) {
		case 0: m = 2 + c.g.u(30); break; case 1: m = ref::C().r; break; case 2: m = (Z(1) << (1 + c.g.u(255))); break;
		default: m = G.edgeInt(256) + 2; break;
		}
		ZA::setModulo(toV(m));
		for (int k = 0; k < 4; k++) {
			Z x = k ? ref::zmod(G.edgeInt(256), m) : Z(m - 1), e = expo(c, G, 448);
			ZA a; a.set(toV(x));
			all(c, "ZmZ", a, e, ref::zpow(x, e, m), hz(x, hz(m)));
			if (i % 32 == 0) negative(c, "ZmZ", a, -e - 1);
		}
	}
	// square roots
	for (u64 i = 0; i < c.n(4000); i++) {
		R x = G.f1(); if (c.g.u(3) == 0) x = x * x; else if (c.g.u(3) == 0) x = -(x * x);
		c.begin("squareRoot");
		Fp a = mk(x), y = mk(G.f1()), y0 = y; (void)y0;
		R s; bool want = ref::sqrt(s, x), got = Fp::squareRoot(y, a);
		CHECK(c, got == want, "squareRoot success", "x=" << x.str() << " want " << want);
		CHECK(c, mon::same(a, x), "squareRoot input", "x=" << x.str());
		if (got) { CHECK(c, canon(y) && val(y) * val(y) == x, "squareRoot value", "x=" << x.str() << " got " << rawStr(y)); }
		bool got2 = Fp::squareRoot(a, a);
		CHECK(c, got2 == want && (got2 ? val(a) * val(a) == x : mon::same(a, x)), "squareRoot in place", "x=" << x.str());
		c.ctr(want ? "squares" : "non-squares")++;
		c.eval(hv(x, 77), !x.isZero());
	}
}
