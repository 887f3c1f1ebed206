// F04: double-width values and lazy reduction
#include "../common.hpp"
using namespace mon;
using bn::FpDbl; using bn::Fp2Dbl; using bn::Fp6Dbl; using bn::Fp12Dbl;

static Z PN, P;
static Z dz(const FpDbl& d) { Z r; u64 v[8]; for (int i = 0; i < 8; i++) v[i] = d[i]; mpz_import(r.get_mpz_t(), 8, -1, 8, 0, 0, v); return r; }
static FpDbl zd(const Z& z) { FpDbl d; u64 w[16]; memset(w, 0, sizeof w); size_t n = 0; HARNESS_REQUIRE(z >= 0 && mpz_sizeinbase(z.get_mpz_t(), 2) <= 512); mpz_export(w, &n, -1, 8, 0, 0, z.get_mpz_t()); for (int i = 0; i < 8; i++) d[i] = w[i]; return d; }
static Z rawz(const Fp& x) { Z r; u64 v[4]; limbs(v, x); mpz_import(r.get_mpz_t(), 4, -1, 8, 0, 0, v); return r; }
static Fp zraw(const Z& z) { u64 w[8]; memset(w, 0, sizeof w); size_t n; HARNESS_REQUIRE(z >= 0 && mpz_sizeinbase(z.get_mpz_t(), 2) <= 256); mpz_export(w, &n, -1, 8, 0, 0, z.get_mpz_t()); return rawFp(w); }
static bool cong(const Z& a, const Z& b) { return ref::zmod(a - b, P) == 0; }
static Z redc(const Z& d) { return ref::zmod(d * ref::C().Rinv, P); }

static Z edgeDbl(Ctx& c, Gen& G) // in [0, pN)
{
	switch (c.g.u(12)) {
	case 0: return (long)c.g.u(4); case 1: return PN - 1 - (long)c.g.u(4); case 2: return (Z(1) << c.g.u(509));
	case 3: return ref::zmod((P << (unsigned)c.g.u(256)) + (long)c.g.u(3) - 1, PN);
	case 4: { Z hi = G.edgeInt(256), lo = G.edgeInt(256); return ref::zmod((hi << 256) + lo, PN); }
	case 5: { Z lo = G.edgeInt(256); return ref::zmod(((P - 1 - (long)c.g.u(2)) << 256) + lo, PN); }
	case 6: { Z hi = c.g.below(P); return hi << 256; }                 // low half zero
	case 7: return c.g.bits(256);                                       // high half zero
	case 8: { Z a = rawz(mk(G.f1())), b = rawz(mk(G.f1())); return a * b; } // a product
	case 9: { Z t = (c.g.bits(64) << (unsigned)(64 * c.g.u(8))); return ref::zmod(t, PN); } // one limb
	default: return c.g.below(PN);
	}
}
static std::string hex(const Z& z) { return z.get_str(16); }

static void one(Ctx& c, Gen& G, u64 i)
{
	Z x = edgeDbl(c, G), y = edgeDbl(c, G);
	switch (c.g.u(10)) { case 0: y = x; break; case 1: y = ref::zmod(PN - x, PN); break; case 2: y = ref::zmod(PN - x - 1, PN); break; case 3: y = ref::zmod(x + 1, PN); break; }
	FpDbl a = zd(x), b = zd(y), z; Fp f;
	const int al = (int)c.g.u(4);
	#define DOP(name, CALL, WANT, RANGE) { c.begin(name); FpDbl A = a, B = b, R; smear(R); bool inOk = true; \
		FpDbl &X = A, &Y = B; FpDbl *Zp = al == 0 ? &R : al == 1 ? &A : al == 2 ? &B : &R; { FpDbl& ZZ = *Zp; CALL; } \
		if (Zp != &A) inOk = dz(A) == x; if (Zp != &B) inOk = inOk && dz(B) == y; \
		Z got = dz(*Zp), want = WANT; CHECK(c, cong(got, want), name, name << " not congruent: x=" << hex(x) << " y=" << hex(y) << " alias=" << al << " got=" << hex(got)); \
		if (RANGE) CHECK(c, got >= 0 && got < PN, std::string(name) + " range", name << " x=" << hex(x) << " y=" << hex(y) << " alias=" << al << " got=" << hex(got)); \
		CHECK(c, inOk, std::string(name) + ":input", "operand changed"); c.eval(hz(x, hz(y, hstr(name)))); c.ctr(name)++; }
	DOP("FpDbl::add", FpDbl::add(ZZ, X, Y), x + y, true)
	DOP("FpDbl::sub", FpDbl::sub(ZZ, X, Y), x - y, true)
	if (i % 2) DOP("FpDbl operator+=", if (&ZZ == &X) X += Y; else ZZ = X + Y, x + y, true)
	if (i % 2 == 0) DOP("FpDbl operator-=", if (&ZZ == &X) X -= Y; else ZZ = X - Y, x - y, true)
	{ // exact in the integers
		c.begin("FpDbl::addNC"); smear(z); FpDbl::addNC(z, a, b); CHECK(c, dz(z) == x + y, "FpDbl::addNC", "x=" << hex(x) << " y=" << hex(y));
		FpDbl t = a; FpDbl::addNC(t, t, b); CHECK(c, dz(t) == x + y, "FpDbl::addNC", "in place x=" << hex(x) << " y=" << hex(y));
		Z hi = x > y ? x : y, lo = x > y ? y : x; FpDbl h = zd(hi), l = zd(lo);
		c.begin("FpDbl::subNC"); smear(z); FpDbl::subNC(z, h, l); CHECK(c, dz(z) == hi - lo, "FpDbl::subNC", "x=" << hex(hi) << " y=" << hex(lo));
		t = h; FpDbl::subNC(t, t, l); CHECK(c, dz(t) == hi - lo, "FpDbl::subNC", "in place x=" << hex(hi) << " y=" << hex(lo)); c.eval(hz(x, hz(y, 1))); c.eval(hz(x, hz(y, 2)));
	}
	{ c.begin("FpDbl::neg"); FpDbl t = a; smear(z); FpDbl::neg(z, a); Z got = dz(z); CHECK(c, cong(got, -x) && got < PN, "FpDbl::neg", "x=" << hex(x) << " got=" << hex(got)); CHECK(c, dz(a) == x, "FpDbl::neg:input", "changed"); FpDbl::neg(t, t); CHECK(c, dz(t) == got, "FpDbl::neg", "in place x=" << hex(x)); if (i % 8 == 0) { FpDbl o = -a; CHECK(c, cong(dz(o), -x) && dz(o) < PN, "FpDbl operator-", "x=" << hex(x)); } c.eval(hz(x, 3)); c.ctr("FpDbl::neg")++; }
	{ c.begin("FpDbl::mod"); smear(f); FpDbl::mod(f, a); CHECK(c, rawz(f) == redc(x), "FpDbl::mod", "x=" << hex(x) << " got=" << rawStr(f) << " want=" << hex(redc(x))); CHECK(c, dz(a) == x, "FpDbl::mod:input", "changed"); c.eval(hz(x, 4)); c.ctr("FpDbl::mod")++; }
	{ int s = FpDbl::compare(a, b); CHECK(c, (s == 0) == (x == y) && (s > 0) == (x > y) && (a == b) == (x == y) && (a != b) == (x != y), "FpDbl compare", "x=" << hex(x) << " y=" << hex(y)); CHECK(c, toZ(a.getDirect()) == x, "FpDbl::getDirect", hex(x)); FpDbl d; d.setDirect(toV(x)); CHECK(c, dz(d) == x, "FpDbl::setDirect", hex(x)); }
	ref::F1 u, v; G.pair(u, v); Fp fu = mk(u), fv = mk(v); Z ru = rawz(fu), rv = rawz(fv);
	{ c.begin("FpDbl::mul"); smear(z); FpDbl::mul(z, fu, fv); CHECK(c, dz(z) == ru * rv, "FpDbl::mul", "u=" << u.str() << " v=" << v.str() << " got=" << hex(dz(z))); smear(f); FpDbl::mod(f, z); CHECK(c, same(f, u * v), "mod(mul)", "u=" << u.str() << " v=" << v.str()); c.eval(hv(u, hv(v))); c.ctr("FpDbl::mul")++;
	  Fp s, t; smear(s); Fp::addNC(s, fu, fv); CHECK(c, rawz(s) == ru + rv, "Fp::addNC", "u=" << u.str() << " v=" << v.str()); const Z& h = ru > rv ? ru : rv; const Z& l = ru > rv ? rv : ru; Fp::subNC(t, zraw(h), zraw(l)); CHECK(c, rawz(t) == h - l, "Fp::subNC", "u=" << u.str() << " v=" << v.str());
	  FpDbl::mul(z, s, s); CHECK(c, dz(z) == (ru + rv) * (ru + rv), "FpDbl::mul of sums", "u=" << u.str() << " v=" << v.str());
	  Fp q; smear(q); Fp::shr1(q, fu); CHECK(c, rawz(q) == (ru >> 1), "Fp::shr1", u.str()); smear(q); Fp::shr2(q, fu); CHECK(c, rawz(q) == (ru >> 2), "Fp::shr2", u.str()); c.eval(hv(u, hv(v, 7))); }
	{ c.begin("FpDbl::subOpt1"); FpDbl m, n; Fp fw = mk(G.f1()); FpDbl::mul(m, fu, fv); FpDbl::mul(n, fw, fw); smear(z); FpDbl::subOpt1(z, m, n); Z got = dz(z), want = dz(m) - dz(n); CHECK(c, cong(got, want) && got < PN, "FpDbl::subOpt1", "got=" << hex(got)); c.eval(hz(got)); c.ctr("FpDbl::subOpt1")++; }
	if (c.wantSample()) c.sample("FpDbl x=" + hex(x) + " y=" + hex(y));
}
struct D2 { Z a, b; };
static D2 rd(const Fp2Dbl& d) { D2 r; r.a = dz(d.a_); r.b = dz(d.b_); return r; }
static Fp2Dbl wr(const Z& a, const Z& b) { return Fp2Dbl(zd(a), zd(b)); }
static bool inR(const D2& d) { return d.a >= 0 && d.a < PN && d.b >= 0 && d.b < PN; }
static bool sameMod(const D2& d, const ref::F2& want) { return redc(d.a) == ref::zmod(want.a.z() * ref::C().Rmont, P) && redc(d.b) == ref::zmod(want.b.z() * ref::C().Rmont, P); }
static std::string ds(const D2& d) { return hex(d.a) + "," + hex(d.b); }
// the element a double-width value stands for
static ref::F2 meaning(const Z& a, const Z& b) { Z ri = ref::C().Rinv; return ref::F2(ref::F1(Z(redc(a) * ri)), ref::F1(Z(redc(b) * ri))); }

static void two(Ctx& c, Gen& G, u64 i)
{
	Z xa = edgeDbl(c, G), xb = edgeDbl(c, G), ya = edgeDbl(c, G), yb = edgeDbl(c, G);
	if (c.g.u(6) == 0) { xa = 0; } if (c.g.u(6) == 0) xb = 0; if (c.g.u(8) == 0) { ya = xa; yb = xb; }
	ref::F2 X = meaning(xa, xb), Y = meaning(ya, yb);
	Fp2Dbl x = wr(xa, xb), y = wr(ya, yb), z; Fp2 f;
	std::string in = "x=" + hex(xa) + "," + hex(xb) + " y=" + hex(ya) + "," + hex(yb);
	#define TWO(name, CALL, WANT) { c.begin(name); smear(z); CALL; D2 g = rd(z); CHECK(c, sameMod(g, WANT), name, in << " got=" << ds(g)); CHECK(c, inR(g), std::string(name) + " range", in << " got=" << ds(g)); D2 gx = rd(x), gy = rd(y); CHECK(c, gx.a == xa && gx.b == xb && gy.a == ya && gy.b == yb, std::string(name) + ":input", "operand changed"); c.eval(hz(xa, hz(xb, hz(ya, hstr(name))))); c.ctr(name)++; }
	TWO("Fp2Dbl::add", Fp2Dbl::add(z, x, y), X + Y) TWO("Fp2Dbl::sub", Fp2Dbl::sub(z, x, y), X - Y) TWO("Fp2Dbl::neg", Fp2Dbl::neg(z, x), -X)
	TWO("Fp2Dbl::mul_xi", Fp2Dbl::mul_xi(z, x), X * ref::XI())
	switch (i % 4) {
	case 0: TWO("Fp2Dbl::addC", Fp2Dbl::addC(z, x, y), X + Y) TWO("Fp2Dbl::subC", Fp2Dbl::subC(z, x, y), X - Y) break;
	case 1: TWO("Fp2Dbl::negC", Fp2Dbl::negC(z, x), -X) TWO("Fp2Dbl::mul_xiC", Fp2Dbl::mul_xiC(z, x), X * ref::XI()) break;
	case 2: TWO("Fp2Dbl +=", z = x; z += y, X + Y) TWO("Fp2Dbl -=", z = x; z -= y, X - Y) break;
	default: TWO("Fp2Dbl::add in place", z = x; Fp2Dbl::add(z, z, y), X + Y) TWO("Fp2Dbl::sub in place", z = y; Fp2Dbl::sub(z, x, z), X - Y) break;
	}
	{ c.begin("Fp2Dbl::addNC"); smear(z); Fp2Dbl::addNC(z, x, y); D2 g = rd(z); CHECK(c, g.a == xa + ya && g.b == xb + yb, "Fp2Dbl::addNC", in);
	  Fp2Dbl s = z; smear(z); Fp2Dbl::subNC(z, s, y); g = rd(z); CHECK(c, g.a == xa && g.b == xb, "Fp2Dbl::subNC", in); c.eval(hz(xa, hz(yb))); }
	{ c.begin("Fp2Dbl::mod"); smear(f); Fp2Dbl::mod(f, x); CHECK(c, same(f, X), "Fp2Dbl::mod", in << " got=" << rawStr(f)); if (i % 4 == 0) { smear(f); Fp2Dbl::modC(f, x); CHECK(c, same(f, X), "Fp2Dbl::modC", in); } c.eval(hz(xa, hz(xb))); c.ctr("Fp2Dbl::mod")++; }
	// products of field elements
	ref::F2 u = G.f2(), v = c.g.u(4) ? G.f2() : G.rel(u); Fp2 fu = mk(u), fv = mk(v);
	in = "u=" + u.str() + " v=" + v.str();
	#define PROD(name, CALL, WANT) { c.begin(name); smear(z); CALL; D2 g = rd(z); CHECK(c, sameMod(g, WANT), name, in << " got=" << ds(g)); CHECK(c, inR(g), std::string(name) + " range", in << " got=" << ds(g)); smear(f); Fp2Dbl::mod(f, z); CHECK(c, same(f, WANT), std::string("mod of ") + name, in << " got=" << rawStr(f)); CHECK(c, same(fu, u) && same(fv, v), std::string(name) + ":input", in); c.eval(hv(u, hv(v, hstr(name)))); c.ctr(name)++; }
	PROD("Fp2Dbl::mulOpt1", Fp2Dbl::mulOpt1(z, fu, fv), u * v) PROD("Fp2Dbl::mulOpt2", Fp2Dbl::mulOpt2(z, fu, fv), u * v) PROD("Fp2Dbl::square", Fp2Dbl::square(z, fu), u * u)
	if (i % 3 == 0) { PROD("Fp2Dbl::mulOpt1C", Fp2Dbl::mulOpt1C(z, fu, fv), u * v) }
	if (i % 3 == 1) { PROD("Fp2Dbl::mulOpt2C", Fp2Dbl::mulOpt2C(z, fu, fv), u * v) }
	if (i % 3 == 2) { PROD("Fp2Dbl::squareC", Fp2Dbl::squareC(z, fu), u * u) }
	if (c.wantSample()) c.sample("Fp2 products " + in);
}
static void six(Ctx& c, Gen& G, u64 i)
{
	ref::F12 u = G.f12(2), v = c.g.u(5) ? G.f12(2) : u, s = G.f12(2); Fp6 fu = mk6(u), fv = mk6(v), f; ref::F12 w = u * v;
	std::string in = "u=" + u.str() + " v=" + v.str();
	Fp6Dbl z, t; 
	for (int k = 0; k < 2; k++) {
		if (k && i % 3) break;
		c.begin(k ? "Fp6Dbl::mulC" : "Fp6Dbl::mul");
		smear(z); smear(f); if (k) Fp6Dbl::mulC(z, fu, fv); else Fp6Dbl::mul(z, fu, fv);
		D2 a = rd(z.a_), b = rd(z.b_), d = rd(z.c_);
		CHECK(c, sameMod(a, w.c[0]) && sameMod(b, w.c[2]) && sameMod(d, w.c[4]), c.prog->label, in);
		CHECK(c, inR(a) && inR(b) && inR(d), std::string(c.prog->label) + " range", in << " got=" << ds(a) << ";" << ds(b) << ";" << ds(d));
		CHECK(c, same(fu, u) && same(fv, v), std::string(c.prog->label) + ":input", in);
		Fp6Dbl::mod(f, z); CHECK(c, same(f, w), std::string("mod of ") + c.prog->label, in << " got=" << rawStr(f));
		c.eval(hv(u, hv(v, k))); c.ctr(c.prog->label)++;
	}
	// linear combinations of products stay exact
	Fp6 fs = mk6(s); Fp6Dbl::mul(t, fs, fv); ref::F12 w2 = s * v; Fp6Dbl r;
	c.begin("Fp6Dbl add/sub/neg");
	smear(r); Fp6Dbl::add(r, z, t); smear(f); Fp6Dbl::mod(f, r); CHECK(c, same(f, w + w2), "Fp6Dbl::add", in);
	smear(r); Fp6Dbl::sub(r, z, t); smear(f); Fp6Dbl::mod(f, r); CHECK(c, same(f, w - w2), "Fp6Dbl::sub", in);
	smear(r); Fp6Dbl::neg(r, z); smear(f); Fp6Dbl::mod(f, r); CHECK(c, same(f, -w), "Fp6Dbl::neg", in);
	c.eval(hv(s, hv(v))); c.ctr("Fp6Dbl linear")++;
	ref::F12 x = G.f12(), y = G.f12(); Fp6Dbl T0, T1; 
	c.begin("Fp12Dbl"); ref::F12 lo, hi; for (int k = 0; k < 6; k += 2) { lo.c[k] = x.c[k]; hi.c[k] = x.c[k + 1]; }
	Fp12Dbl A, B, R; Fp6Dbl::mul(A.a_, mk6(lo), fv); Fp6Dbl::mul(A.b_, mk6(hi), fv); Fp6Dbl::mul(B.a_, fu, fv); Fp6Dbl::mul(B.b_, mk6(lo), mk6(lo));
	ref::F12 wa = lo * v, wb = hi * v, va = w, vb = lo * lo; Fp12 F;
	ref::F12 mw; mw.c[1] = ref::F2(1L);
	smear(R); Fp12Dbl::add(R, A, B); smear(F); Fp12Dbl::mod(F, R); CHECK(c, same(F, wa + va + (wb + vb) * mw), "Fp12Dbl::add", in);
	smear(R); Fp12Dbl::sub(R, A, B); smear(F); Fp12Dbl::mod(F, R); CHECK(c, same(F, wa - va + (wb - vb) * mw), "Fp12Dbl::sub", in);
	smear(R); Fp12Dbl::neg(R, A); smear(F); Fp12Dbl::mod(F, R); CHECK(c, same(F, -(wa + wb * mw)), "Fp12Dbl::neg", in);
	c.eval(hv(x, hv(y))); c.ctr("Fp12Dbl linear")++;
}
// the largest operands the multiplications are used with: sums of two elements
static void sums(Ctx& c, Gen& G)
{
	ref::F2 a = G.f2(), b = G.f2(), d = G.f2(), e = G.f2(); if (c.g.u(3) == 0) { a = b = d = e = ref::F2(G.maxRaw(), G.maxRaw()); }
	Fp2 s, t, f; Fp2::addNC(s, mk(a), mk(b)); Fp2::addNC(t, mk(d), mk(e)); Fp2Dbl z;
	c.begin("mulOpt2 of sums"); smear(z); Fp2Dbl::mulOpt2(z, s, t);
	ref::F2 w = (a + b) * (d + e); D2 g = rd(z); // the second half is only reduced after the subtraction that follows in Karatsuba
	CHECK(c, sameMod(g, w), "mulOpt2 of sums", "a=" << a.str() << " b=" << b.str() << " d=" << d.str() << " e=" << e.str());
	CHECK(c, g.a < PN, "mulOpt2 of sums range", "got=" << ds(g)); c.eval(hv(a, hv(b, hv(d)))); c.ctr("mulOpt2 of sums")++;
}
void suite(Ctx& c)
{
	P = ref::C().p; PN = P << 256; Gen G(c);
	for (u64 i = 0; i < c.n(20000); i++) { one(c, G, i); two(c, G, i); sums(c, G); if (i % 8 == 0) six(c, G, i / 8); }
}
