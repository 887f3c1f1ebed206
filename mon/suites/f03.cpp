// F03: arithmetic of the extension tower
#include "../common.hpp"
using namespace mon;

static Fp6 m6(const ref::F12& a) { return mk6(a); }
struct T2 { typedef Fp2 L; typedef ref::F2 R; static L mkv(const R& a) { return mk(a); } static const char *nm() { return "Fp2::"; } };
struct T6 { typedef Fp6 L; typedef ref::F12 R; static L mkv(const R& a) { return m6(a); } static const char *nm() { return "Fp6::"; } };
struct T12 { typedef Fp12 L; typedef ref::F12 R; static L mkv(const R& a) { return mk(a); } static const char *nm() { return "Fp12::"; } };

template<class T> void chk(Ctx& c, const char *op, const typename T::L& got, const typename T::R& want, const typename T::R& x, const typename T::R& y, int al)
{
	CHECK(c, same(got, want), std::string(T::nm()) + op, op << " x=" << x.str() << " y=" << y.str() << " alias=" << al << " want=" << want.str() << " gotRaw=" << rawStr(got));
}
// al: 0 distinct, 1 z == x, 2 z == y
template<class T, class OP> void bin(Ctx& c, const char *op, OP f, const typename T::R& x, const typename T::R& y, const typename T::R& want, int al)
{
	c.begin(op);
	typename T::L a = T::mkv(x), b = T::mkv(y), z; smear(z);
	if (al == 0) { f(z, a, b); CHECK(c, same(a, x) && same(b, y), std::string(T::nm()) + op + ":input", op << " changed an input"); chk<T>(c, op, z, want, x, y, 0); }
	else if (al == 1) { f(a, a, b); CHECK(c, same(b, y), std::string(T::nm()) + op + ":input", op << " changed y"); chk<T>(c, op, a, want, x, y, 1); }
	else { f(b, a, b); CHECK(c, same(a, x), std::string(T::nm()) + op + ":input", op << " changed x"); chk<T>(c, op, b, want, x, y, 2); }
	c.eval(hmix(hv(y, hv(x)), hstr(op, al)), !x.isZero() && !y.isZero()); c.ctr(std::string(T::nm()) + op)++;
}
template<class T, class OP> void un(Ctx& c, const char *op, OP f, const typename T::R& x, const typename T::R& want, bool inPlace = true)
{
	c.begin(op);
	typename T::L a = T::mkv(x), z; smear(z);
	f(z, a); CHECK(c, same(a, x), std::string(T::nm()) + op + ":input", op << " changed its input");
	chk<T>(c, op, z, want, x, x, 0);
	if (inPlace) { f(a, a); chk<T>(c, op, a, want, x, x, 1); }
	c.eval(hmix(hv(x), hstr(op)), !x.isZero()); c.ctr(std::string(T::nm()) + op)++;
}
#define BIN(NAME, T, EXPR) static void NAME(T& z, const T& x, const T& y) { EXPR; }
#define UN(NAME, T, EXPR) static void NAME(T& z, const T& x) { EXPR; }
BIN(add2, Fp2, Fp2::add(z, x, y)) BIN(sub2, Fp2, Fp2::sub(z, x, y)) BIN(mul2, Fp2, Fp2::mul(z, x, y))
BIN(add2c, Fp2, Fp2::addC(z, x, y)) BIN(sub2c, Fp2, Fp2::subC(z, x, y)) BIN(mul2c, Fp2, Fp2::mulC(z, x, y))
BIN(addo, Fp2, z = x + y) BIN(subo, Fp2, z = x - y) BIN(mulo, Fp2, z = x * y)
BIN(adda, Fp2, Fp2 t = x; t += y; z = t) BIN(suba, Fp2, Fp2 t = x; t -= y; z = t) BIN(mula, Fp2, if (&z == &x) z *= y; else { Fp2 t = x; t *= y; z = t; })
UN(neg2, Fp2, Fp2::neg(z, x)) UN(sqr2, Fp2, Fp2::square(z, x)) UN(sqr2c, Fp2, Fp2::squareC(z, x)) UN(xi2, Fp2, Fp2::mul_xi(z, x)) UN(xi2c, Fp2, Fp2::mul_xiC(z, x))
UN(half2, Fp2, Fp2::divBy2(z, x)) UN(half2c, Fp2, Fp2::divBy2C(z, x)) UN(quart2, Fp2, Fp2::divBy4(z, x)) UN(inv2, Fp2, if (&z != &x) z = x; z.inverse()) UN(mulx2, Fp2, if (&z != &x) z = x; z.mul_x()) UN(nego, Fp2, z = -x)
BIN(add6, Fp6, Fp6::add(z, x, y)) BIN(sub6, Fp6, Fp6::sub(z, x, y)) BIN(mul6, Fp6, Fp6::mul(z, x, y)) BIN(mul6c, Fp6, Fp6::mulC(z, x, y))
BIN(mul6o, Fp6, z = x * y) BIN(mul6a, Fp6, if (&z == &x) z *= y; else { z = x; z *= y; }) BIN(add6o, Fp6, z = x + y) BIN(sub6o, Fp6, z = x - y)
BIN(add6c, Fp6, Fp6::addC(z, x, y)) BIN(sub6c, Fp6, Fp6::subC(z, x, y))
UN(neg6, Fp6, Fp6::neg(z, x)) UN(sqr6, Fp6, Fp6::square(z, x)) UN(inv6, Fp6, if (&z != &x) z = x; z.inverse()) UN(neg6o, Fp6, z = -x)
BIN(add12, Fp12, Fp12::add(z, x, y)) BIN(sub12, Fp12, Fp12::sub(z, x, y)) BIN(mul12, Fp12, Fp12::mul(z, x, y)) BIN(mul12c, Fp12, Fp12::mulC(z, x, y))
BIN(mul12o, Fp12, z = x * y) BIN(mul12a, Fp12, if (&z == &x) z *= y; else { z = x; z *= y; }) BIN(add12o, Fp12, z = x + y) BIN(sub12o, Fp12, z = x - y)
UN(neg12, Fp12, Fp12::neg(z, x)) UN(sqr12, Fp12, if (&z != &x) z = x; Fp12::square(z)) UN(sqr12c, Fp12, if (&z != &x) z = x; Fp12::squareC(z)) UN(inv12, Fp12, if (&z != &x) z = x; z.inverse())

static ref::F1 H() { static ref::F1 h = ref::inv(ref::F1(2)); return h; }
static ref::F12 scale(const ref::F12& a, const ref::F2& k) { ref::F12 r; for (int i = 0; i < 6; i++) r.c[i] = a.c[i] * k; return r; }
static ref::F12 mulW2(const ref::F12& a) { ref::F12 w; w.c[2] = ref::F2(1L); return a * w; }
static ref::F12 lineOf(const ref::F2& l00, const ref::F2& l11, const ref::F2& l02) { ref::F12 r; r.c[0] = l00; r.c[3] = l11; r.c[4] = l02; return r; }

static void fp2(Ctx& c, Gen& G, u64 i)
{
	ref::F2 x = G.f2(), y = G.f2();
	if (c.g.u(5) == 0) y = G.rel(x);
	if (c.g.u(5) == 0 && !x.isZero()) y = G.f2() * ref::inv(x); // product with a special value
	int al = (int)c.g.u(3);
	bin<T2>(c, "add", add2, x, y, x + y, al); bin<T2>(c, "sub", sub2, x, y, x - y, al); bin<T2>(c, "mul", mul2, x, y, x * y, al);
	switch (i % 4) {
	case 0: bin<T2>(c, "addC", add2c, x, y, x + y, al); bin<T2>(c, "subC", sub2c, x, y, x - y, al); break;
	case 1: bin<T2>(c, "mulC", mul2c, x, y, x * y, al); bin<T2>(c, "operator+", addo, x, y, x + y, al); break;
	case 2: bin<T2>(c, "operator-", subo, x, y, x - y, al); bin<T2>(c, "operator*", mulo, x, y, x * y, al); break;
	default: bin<T2>(c, "operator+=", adda, x, y, x + y, al); bin<T2>(c, "operator-=", suba, x, y, x - y, al); bin<T2>(c, "operator*=", mula, x, y, x * y, 1); break;
	}
	un<T2>(c, "neg", neg2, x, -x); un<T2>(c, "square", sqr2, x, x * x); un<T2>(c, "mul_xi", xi2, x, x * ref::XI(), false);
	un<T2>(c, "divBy2", half2, x, x * H()); un<T2>(c, "divBy4", quart2, x, x * (H() * H()));
	switch (i % 4) {
	case 0: un<T2>(c, "squareC", sqr2c, x, x * x, false); break;
	case 1: un<T2>(c, "mul_xiC", xi2c, x, x * ref::XI(), false); break;
	case 2: un<T2>(c, "divBy2C", half2c, x, x * H()); un<T2>(c, "operator-", nego, x, -x); break;
	default: un<T2>(c, "mul_x", mulx2, x, x * ref::F2(ref::F1(), ref::F1(1))); break;
	}
	ref::F1 k = G.f1();
	{
		c.begin("mul_Fp_0"); Fp2 a = mk(x), z; Fp kk = mk(k);
		smear(z); Fp2::mul_Fp_0(z, a, kk); chk<T2>(c, "mul_Fp_0", z, x * k, x, ref::F2(k), 0); CHECK(c, same(a, x) && same(kk, k), "Fp2::mul_Fp_0:input", "input changed");
		Fp2::mul_Fp_0(a, a, kk); chk<T2>(c, "mul_Fp_0", a, x * k, x, ref::F2(k), 1);
		if (i % 4 == 0) { a = mk(x); smear(z); Fp2::mul_Fp_0C(z, a, kk); chk<T2>(c, "mul_Fp_0C", z, x * k, x, ref::F2(k), 0); }
		a = mk(x); Fp2::mul_Fp_1(a, kk); chk<T2>(c, "mul_Fp_1", a, x * ref::F2(ref::F1(), k), x, ref::F2(k), 1);
		c.eval(hv(k, hv(x)));
	}
	if (!x.isZero()) { un<T2>(c, "inverse", inv2, x, ref::inv(x)); }
	{ Fp2 a = mk(x), b = mk(y); bool eq = x == y; CHECK(c, (a == b) == eq && (a != b) != eq && a.isZero() == x.isZero() && Fp2(mk(x.a), mk(x.b)) == a, "Fp2::==", "x=" << x.str() << " y=" << y.str()); }
	{ int n = (int)c.g.next(); c.begin("Fp2(int)"); CHECK(c, same(Fp2(n), ref::F2((long)n)) && same(Fp6(n), ref::F12((long)n)) && same(Fp12(n), ref::F12((long)n)), "extension element from int", n); }
	if (c.wantSample()) c.sample("Fp2 x=" + x.str() + " y=" + y.str());
}
static void fp6(Ctx& c, Gen& G, u64 i)
{
	ref::F12 x = G.f12(2), y = G.f12(2);
	switch (c.g.u(8)) { case 0: y = x; break; case 1: y = -x; break; case 2: if (!x.isZero()) y = ref::inv(x); break; default: break; }
	int al = (int)c.g.u(3);
	bin<T6>(c, "add", add6, x, y, x + y, al); bin<T6>(c, "sub", sub6, x, y, x - y, al);
	ref::F12 xy = x * y; int a2 = al == 2 ? 0 : al;
	bin<T6>(c, "mul", mul6, x, y, xy, a2);
	switch (i % 4) {
	case 0: bin<T6>(c, "mulC", mul6c, x, y, xy, a2); break;
	case 1: bin<T6>(c, "operator*", mul6o, x, y, xy, 0); bin<T6>(c, "operator+", add6o, x, y, x + y, al); break;
	case 2: bin<T6>(c, "operator*=", mul6a, x, y, xy, 1); bin<T6>(c, "operator-", sub6o, x, y, x - y, al); break;
	default: bin<T6>(c, "addC", add6c, x, y, x + y, al); bin<T6>(c, "subC", sub6c, x, y, x - y, al); un<T6>(c, "operator-", neg6o, x, -x); break;
	}
	{ c.begin("mul same"); Fp6 a = m6(x); a *= a; chk<T6>(c, "x *= x", a, x * x, x, x, 3); c.eval(hv(x, 78)); }
	un<T6>(c, "neg", neg6, x, -x); un<T6>(c, "square", sqr6, x, x * x, false);
	if (!x.isZero() && i % 2 == 0) un<T6>(c, "inverse", inv6, x, ref::inv(x));
	ref::F1 k = G.f1(); c.begin("mul_Fp_b/c");
	{ Fp6 a = m6(x); Fp6::mul_Fp_b(a, mk(k)); ref::F12 w = x; w.c[2] = w.c[2] * k; chk<T6>(c, "mul_Fp_b", a, w, x, x, 1);
	  a = m6(x); Fp6::mul_Fp_c(a, mk(k)); w = x; w.c[4] = w.c[4] * k; chk<T6>(c, "mul_Fp_c", a, w, x, x, 1);
	  Fp P[2] = { mk(k), mk(G.f1()) }; a = m6(x); Fp6::mulFp6_24_Fp_01(a, P); w = x; w.c[4] = w.c[4] * k; w.c[2] = w.c[2] * val(P[1]); chk<T6>(c, "mulFp6_24_Fp_01", a, w, x, x, 1); c.eval(hv(k, hv(x))); }
	{ Fp6 a = m6(x), b = m6(y); bool eq = x == y; CHECK(c, (a == b) == eq && (a != b) != eq && a.isZero() == x.isZero(), "Fp6::==", "x=" << x.str()); }
	// multiplication by the cube root of xi (the tower step), through the two helpers of the public interface
	{ c.begin("mul_gamma_add"); Fp6 a = m6(x), b = m6(y), z; smear(z); bn::mul_gamma_add<Fp6, Fp2>(z, a, b); chk<T6>(c, "mul_gamma_add", z, mulW2(x) + y, x, y, 0); c.eval(hv(x, hv(y, 3))); }
}
static void fp12(Ctx& c, Gen& G, u64 i)
{
	ref::F12 x = G.f12(), y = G.f12();
	switch (c.g.u(8)) { case 0: y = x; break; case 1: y = -x; break; case 2: y = ref::conj6(x); break; case 3: if (!x.isZero()) y = ref::inv(x); break; default: break; }
	int al = (int)c.g.u(3);
	bin<T12>(c, "add", add12, x, y, x + y, al); bin<T12>(c, "sub", sub12, x, y, x - y, al);
	ref::F12 xy = x * y; int a2 = al == 2 ? 0 : al;
	bin<T12>(c, "mul", mul12, x, y, xy, a2);
	switch (i % 3) {
	case 0: bin<T12>(c, "mulC", mul12c, x, y, xy, a2); bin<T12>(c, "operator+", add12o, x, y, x + y, al); break;
	case 1: bin<T12>(c, "operator*", mul12o, x, y, xy, 0); bin<T12>(c, "operator-", sub12o, x, y, x - y, al); break;
	default: bin<T12>(c, "operator*=", mul12a, x, y, xy, 1); break;
	}
	{ c.begin("mul same"); Fp12 a = mk(x); a *= a; chk<T12>(c, "x *= x", a, x * x, x, x, 3); c.eval(hv(x, 78)); }
	un<T12>(c, "neg", neg12, x, -x); un<T12>(c, "square", sqr12, x, x * x); if (i % 3 == 1) un<T12>(c, "squareC", sqr12c, x, x * x);
	if (!x.isZero() && i % 2 == 0) un<T12>(c, "inverse", inv12, x, ref::inv(x));
	{ Fp12 a = mk(x), b = mk(y); bool eq = x == y; CHECK(c, (a == b) == eq && (a != b) != eq && a.isZero() == x.isZero(), "Fp12::==", "x=" << x.str()); }
	// sparse products by line values
	ref::F12 l = lineOf(G.f2(), G.f2(), G.f2()), m = lineOf(G.f2(), G.f2(), G.f2());
	if (c.g.u(6) == 0) m = l;
	Fp6 ll(mk(l.c[0]), mk(l.c[3]), mk(l.c[4])), mm(mk(m.c[0]), mk(m.c[3]), mk(m.c[4])), l0 = ll, m0 = mm;
	{ c.begin("mul_Fp2_024"); Fp12 a = mk(x); Fp12::Dbl::mul_Fp2_024(a, ll); chk<T12>(c, "mul_Fp2_024", a, x * l, x, l, 1); CHECK(c, ll == l0, "mul_Fp2_024:input", "line changed"); c.eval(hv(x, hv(l))); c.ctr("sparse mul")++; }
	if (i % 2) { c.begin("mul_Fp2_024C"); Fp12 a = mk(x); Fp12::Dbl::mul_Fp2_024C(a, ll); chk<T12>(c, "mul_Fp2_024C", a, x * l, x, l, 1); c.eval(hv(x, hv(l, 9))); }
	{ c.begin("mul_Fp2_024_Fp2_024"); Fp12 a = mk(y); Fp12::Dbl::mul_Fp2_024_Fp2_024(a, ll, mm); chk<T12>(c, "mul_Fp2_024_Fp2_024", a, l * m, l, m, 0); CHECK(c, ll == l0 && mm == m0, "mul_Fp2_024_Fp2_024:input", "line changed"); c.eval(hv(m, hv(l))); c.ctr("sparse x sparse")++; }
	if (c.wantSample()) c.sample("Fp12 x=" + x.str().substr(0, 300));
}
void suite(Ctx& c)
{
	Gen G(c);
	for (u64 i = 0; i < c.n(12000); i++) fp2(c, G, i);
	for (u64 i = 0; i < c.n(2500); i++) fp6(c, G, i);
	for (u64 i = 0; i < c.n(2500); i++) fp12(c, G, i);
	// algebraic laws on long chains computed by the library alone, checked at the end
	for (u64 k = 0; k < c.n(60); k++) {
		ref::F12 acc = G.f12nz(); Fp12 la = mk(acc); c.begin("chain");
		for (int j = 0; j < 20; j++) {
			ref::F12 y = G.f12(); Fp12 ly = mk(y);
			switch (c.g.u(5)) {
			case 0: la += ly; acc = acc + y; break; case 1: la -= ly; acc = acc - y; break; case 2: la *= ly; acc = acc * y; break;
			case 3: Fp12::square(la); acc = acc * acc; break; default: if (!acc.isZero()) { la.inverse(); acc = ref::inv(acc); } break;
			}
		}
		chk<T12>(c, "chain", la, acc, acc, acc, 9); c.eval(hv(acc)); c.ctr("chains")++;
	}
}
