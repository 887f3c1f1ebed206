// F05: Frobenius maps, cyclotomic squaring, compressed powers, final exponentiation
#include "../cyclo.hpp"
using namespace mon;
using ref::F12;

static void frobs(Ctx& c, Gen& G)
{
	F12 x = G.f12(); Fp12 X = mk(x), Z = mk(G.f12()); const Fp12 X0 = X;
	#define FR(name, n) { c.begin("Fp12::" #name); X.name(Z); CHECK(c, same(Z, ref::frobN(x, n)), #name, "x=" << x.str() << " got=" << rawStr(Z)); CHECK(c, same(X, x), #name ":input", "changed x=" << x.str()); \
		Fp12 Y = X; Y.name(Y); CHECK(c, same(Y, ref::frobN(x, n)), #name " in place", "x=" << x.str() << " got=" << rawStr(Y)); c.eval(hv(x, n), !x.isZero()); c.ctr(#name)++; }
	FR(Frobenius, 1) FR(Frobenius2, 2) FR(Frobenius3, 3)
}

static F12 special(Ctx& c, Gen& G) // elements whose image in the cyclotomic subgroup is often special
{
	F12 x;
	switch (c.g.u(27)) {
	case 0: return F12(1L);
	case 1: return F12(-1L);
	case 2: return F12(ref::F2(G.f1nz()));
	case 3: return F12(G.f2nz());
	case 4: return G.f12nz(2);                                       // in the degree-6 subfield
	case 5: x.c[0] = G.f2(); x.c[3] = G.f2nz(); return x;              // in the degree-4 subfield
	case 6: x.c[c.g.u(6)] = G.f2nz(); return x;                        // a monomial
	case 7: x.c[0] = G.f2nz(); x.c[1] = G.f2(); x.c[3] = G.f2(); return x; // a line value
	case 8: { ref::F12 y = G.f12nz(); return y * ref::inv(ref::conj6(y)); } // norm 1 over the degree-6 subfield
	default: return G.f12nz();
	}
}

static void cycloOne(Ctx& c, Gen& G, u64 i, const F12& x);
static void cyclo(Ctx& c, Gen& G, u64 i)
{
	F12 f = special(c, G), e = ref::easyPart(f); u64 h = hv(f);
	{ Fp12 F = mk(f), Z = mk(G.f12()); c.begin("mapToCyclo"); F.mapToCyclo(Z); CHECK(c, same(Z, e), "mapToCyclo", "f=" << f.str() << " got=" << rawStr(Z)); c.eval(hmix(h, 1)); c.ctr("mapToCyclo")++; if (e == F12(1L)) c.ctr("trivial cyclotomic image")++; }
	F12 x = e; if (c.g.u(3) == 0) x = ref::conj6(x); if (c.g.u(8) == 0) x = ref::frob(x);
	cycloOne(c, G, i, x);
}
static void cycloOne(Ctx& c, Gen& G, u64 i, const F12& x)
{
	const u64 hx = hv(x);
	{
		F12 w = x * x; Fp12 X = mk(x), Z = mk(G.f12());
		c.begin("sqru(out)"); X.sqru(Z); CHECK(c, same(Z, w), "sqru(out)", "x=" << x.str() << " got=" << rawStr(Z)); CHECK(c, same(X, x), "sqru:input", "changed");
		c.begin("sqru"); X.sqru(); CHECK(c, same(X, w), "sqru", "x=" << x.str() << " got=" << rawStr(X)); c.eval(hmix(hx, 2)); c.ctr("sqru")++;
		int n = (int)c.g.u(c.g.u(10) ? 8 : 70); for (int k = 0; k < n; k++) { X.sqru(); w = w * w; }
		CHECK(c, same(X, w), "sqru repeated", "x=" << x.str() << " n=" << n + 1); c.eval(hmix(hx, 3 + n));
		Fp12 Y = mk(x); X.sqru(X); (void)Y; CHECK(c, same(X, w * w), "sqru(self)", "x=" << x.str());
	}
#ifndef BN_SUPPORT_SNARK
	{
		typedef bn::CompressT<Fp2> Compress;
		int n = 1 + (int)c.g.u(c.g.u(4) ? 6 : 66); Fp12 Z = mk(G.f12()), X = mk(x); F12 w = x; for (int k = 0; k < n; k++) w = w * w;
		c.begin("Compress::square_n"); { Compress t(Z, X); Compress::square_n(t, n); t.decompress(); } CHECK(c, same(Z, w), "Compress square_n", "x=" << x.str() << " n=" << n << " got=" << rawStr(Z)); CHECK(c, same(X, x), "Compress:input", "changed"); c.eval(hmix(hx, 500 + n)); c.ctr("compressed squarings") += n;
		if (i % 2 == 0) { // another pure power with the generated and the portable routine
			Fp12 Z2 = mk(G.f12()); Compress t(Z2, X); Compress::square_nC(t, n); t.decompress(); CHECK(c, same(Z2, w), "Compress square_nC", "x=" << x.str() << " n=" << n); c.eval(hmix(hx, 600 + n));
		}
		c.begin("Compress::fixed_power"); Fp12 Q = mk(G.f12()); Compress::fixed_power(Q, X); F12 q = ref::pow(x, abs(ref::C().z)); CHECK(c, same(Q, q), "fixed_power", "x=" << x.str() << " got=" << rawStr(Q)); CHECK(c, same(X, x), "fixed_power:input", "changed"); c.eval(hmix(hx, 4)); c.ctr("fixed_power")++;
	}
#else
	{
		c.begin("pow_neg_t"); Fp12 X = mk(x), Q = mk(G.f12()); Fp12::pow_neg_t(Q, X); F12 q = ref::powCyc(x, Z(-ref::C().z)); CHECK(c, same(Q, q), "pow_neg_t", "x=" << x.str() << " got=" << rawStr(Q)); CHECK(c, same(X, x), "pow_neg_t:input", "changed"); c.eval(hmix(hx, 4)); c.ctr("pow_neg_t")++;
	}
#endif
	(void)i;
}

static void fexp(Ctx& c, Gen& G, u64 i)
{
	F12 f = i < 3 ? F12(i == 0 ? 1L : i == 1 ? -1L : 2L) : special(c, G);
	if (c.g.u(12) == 0) f = ref::easyPart(f);
	F12 w = ref::finalExp(f); Fp12 F = mk(f);
	c.begin("final_exp"); F.final_exp(); CHECK(c, same(F, w), "final_exp", "f=" << f.str() << " got=" << rawStr(F) << " want=" << w.str());
	c.eval(hv(f, 77), w != F12(1L)); c.ctr("final_exp")++; if (w == F12(1L)) c.ctr("final_exp = 1")++;
	if (i % 16 == 5) { c.begin("final_exp order"); Fp12 t = mie::power(F, toV(ref::C().r)); CHECK(c, t == Fp12(1), "order r", "f=" << f.str()); CHECK(c, ref::pow(w, ref::C().r) == F12(1L), "order r (reference)", f.str()); c.ctr("order r")++; c.eval(hv(f, 78)); }
	if (i % 16 == 9) { c.begin("final_exp multiplicative"); F12 g = special(c, G); Fp12 A = mk(g), B = mk(f * g); A.final_exp(); B.final_exp(); Fp12 AB; Fp12::mul(AB, A, F); CHECK(c, AB == B, "final_exp multiplicative", "f=" << f.str() << " g=" << g.str()); c.eval(hv(f * g, 79)); }
	if (i == 7) { Fp12 t = mk(ref::finalExpPlain(f)); CHECK(c, t == F, "final_exp plain exponent", f.str()); }
	if (c.wantSample()) c.sample("final_exp(" + f.str().substr(0, 200) + "...)");
}

// elements whose compressed form, or that of one of their 2^k-th powers, has a chosen coefficient (0 mostly): every branch of the decompression
static void chosen(Ctx& c, Gen& G, u64 i)
{
	F12 x; const int k = (int)(i % 3 == 0 ? 1 : c.g.u(6)); const ref::F2 s = i % 3 == 0 || c.g.coin() ? ref::F2() : G.f2(); c.begin("chosen coefficient"); int tries = 0; while (!cycloWith(x, k, s, G)) { if (++tries > 60) { c.ctr("no element with the chosen coefficient")++; return; } }
	c.ctr(s.isZero() ? "cyclotomic elements with coefficient 0 of w^" + std::string(1, (char)('0' + k)) : std::string("cyclotomic elements with a chosen coefficient"))++;
	cycloOne(c, G, 0, x);
	const unsigned st[] = { 1, 55, 62, 54, 7, 63 }; const unsigned q = st[(i / 3) % 6]; const F12 y = cycloRoot(x, q);
	if (i % 32 == 0) { F12 t = y; for (unsigned j = 0; j < q; j++) t = t * t; REF_REQUIRE(t == x); }
	cycloOne(c, G, 1, y);
#ifndef BN_SUPPORT_SNARK
	{ typedef bn::CompressT<Fp2> Compress; c.begin("Compress::square_n"); Fp12 Z = mk(G.f12()), X = mk(y); { Compress t(Z, X); Compress::square_n(t, q); t.decompress(); } CHECK(c, same(Z, x), "Compress square_n to a chosen coefficient", "x=" << y.str() << " n=" << q << " got=" << rawStr(Z)); c.eval(hmix(hv(y), q)); }
#endif
	const F12 g = easyRoot(i % 2 ? y : x); REF_REQUIRE(ref::easyPart(g) == (i % 2 ? y : x)); F12 w = ref::finalExp(g); Fp12 F = mk(g); c.begin("final_exp"); F.final_exp(); CHECK(c, same(F, w), "final_exp through a chosen coefficient", "f=" << g.str() << " got=" << rawStr(F)); c.eval(hv(g, 80)); c.ctr("final_exp")++;
}

void suite(Ctx& c)
{
	Gen G(c); c.begin("self check"); ref::selfCheck();
	for (u64 i = 0, n = c.n(4000); i < n; i++) frobs(c, G);
	for (u64 i = 0, n = c.n(150); i < n; i++) cyclo(c, G, i);
	for (u64 i = 0, n = c.n(200); i < n; i++) fexp(c, G, i);
	for (u64 i = 0, n = c.n(18); i < n; i++) chosen(c, G, i);
}
