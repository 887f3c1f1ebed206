// F01: base-field arithmetic
#include "../common.hpp"
using namespace mon;
typedef ref::F1 R;

static void report(Ctx& c, const char *op, const Fp& got, const R& want, const R& x, const R& y, int al)
{
	CHECK(c, same(got, want), std::string(op), op << " x=" << x.str() << " y=" << y.str() << " alias=" << al
		<< " want=" << want.str() << " gotRaw=" << rawStr(got) << " wantRaw=" << rawStr(mk(want)));
}

template<class OP> static void bin(Ctx& c, const char *name, OP op, const R& x, const R& y, const R& want, int al)
{
	c.begin(name);
	Fp a = mk(x), b = mk(y), z; smear(z);
	switch (al) {
	case 0: op(z, a, b); CHECK(c, same(a, x) && same(b, y), std::string(name) + ":input", name << " changed an input"); break;
	case 1: op(a, a, b); z = a; CHECK(c, same(b, y), std::string(name) + ":input", name << " changed y"); break;
	case 2: op(b, a, b); z = b; CHECK(c, same(a, x), std::string(name) + ":input", name << " changed x"); break;
	}
	report(c, name, z, want, x, y, al);
	c.eval(hmix(hv(y, hv(x)), (u64)(size_t)name ^ al), !x.isZero() && !y.isZero());
}
template<class OP> static void same2(Ctx& c, const char *name, OP op, const R& x, const R& want) // z = x op x, all the same object
{
	c.begin(name);
	Fp a = mk(x); op(a, a, a); report(c, name, a, want, x, x, 3);
	Fp d = mk(x), z; smear(z); op(z, d, d); report(c, name, z, want, x, x, 4);
	c.eval(hmix(hv(x), (u64)(size_t)name ^ 77), !x.isZero());
}
template<class OP> static void un(Ctx& c, const char *name, OP op, const R& x, const R& want)
{
	c.begin(name);
	Fp a = mk(x), z; smear(z); op(z, a);
	CHECK(c, same(a, x), std::string(name) + ":input", name << " changed its input");
	report(c, name, z, want, x, x, 0);
	op(a, a); report(c, name, a, want, x, x, 1);
	c.eval(hmix(hv(x), (u64)(size_t)name), !x.isZero());
}
static void oAdd(Fp& z, const Fp& x, const Fp& y) { Fp::add(z, x, y); }
static void oSub(Fp& z, const Fp& x, const Fp& y) { Fp::sub(z, x, y); }
static void oMul(Fp& z, const Fp& x, const Fp& y) { Fp::mul(z, x, y); }
static void pAdd(Fp& z, const Fp& x, const Fp& y) { z = x + y; }
static void pSub(Fp& z, const Fp& x, const Fp& y) { z = x - y; }
static void pMul(Fp& z, const Fp& x, const Fp& y) { z = x * y; }
static void pDiv(Fp& z, const Fp& x, const Fp& y) { z = x / y; }
static void aAdd(Fp& z, const Fp& x, const Fp& y) { if (&z == &x) z += y; else { Fp t = x; t += y; z = t; } }
static void aSub(Fp& z, const Fp& x, const Fp& y) { if (&z == &x) z -= y; else { Fp t = x; t -= y; z = t; } }
static void aMul(Fp& z, const Fp& x, const Fp& y) { if (&z == &x) z *= y; else { Fp t = x; t *= y; z = t; } }
static void aDiv(Fp& z, const Fp& x, const Fp& y) { if (&z == &x) z /= y; else { Fp t = x; t /= y; z = t; } }
static void oNeg(Fp& z, const Fp& x) { Fp::neg(z, x); }
static void pNeg(Fp& z, const Fp& x) { z = -x; }
static void oSqr(Fp& z, const Fp& x) { Fp::square(z, x); }
static void oInv(Fp& z, const Fp& x) { Fp::inv(z, x); }
static void mInv(Fp& z, const Fp& x) { Fp t = x; t.inverse(); z = t; }
static void oHalf(Fp& z, const Fp& x) { Fp::divBy2(z, x); }
static void oQuarter(Fp& z, const Fp& x) { Fp::divBy4(z, x); }

static void compares(Ctx& c, const R& x, const R& y)
{
	c.begin("compare");
	Fp a = mk(x), b = mk(y), a2 = mk(x);
	bool eq = x == y;
	CHECK(c, (a == b) == eq && (a != b) == !eq && (b == a) == eq, "equality", "x=" << x.str() << " y=" << y.str());
	CHECK(c, a == a2 && !(a != a2) && !(a < a2) && a <= a2 && a >= a2 && !(a > a2) && Fp::compare(a, a2) == 0, "equal to itself", "x=" << x.str());
	int s = Fp::compare(a, b), t = Fp::compare(b, a);
	CHECK(c, (s == 0) == eq && (t == 0) == eq && (eq || (s > 0) == (t < 0)), "compare", "x=" << x.str() << " y=" << y.str() << " s=" << s);
	CHECK(c, (a < b) == (s < 0) && (a > b) == (s > 0) && (a <= b) == (s <= 0) && (a >= b) == (s >= 0), "order operators", "x=" << x.str() << " y=" << y.str());
	CHECK(c, a.isZero() == x.isZero() && (a == 0) == x.isZero() && (a == 1) == (x == R(1)), "zero test", "x=" << x.str());
	Fp d = a - b; CHECK(c, d.isZero() == eq, "difference is zero", "x=" << x.str() << " y=" << y.str());
	c.eval(hmix(hv(y, hv(x)), 555));
}

void suite(Ctx& c)
{
	Gen G(c);
	const u64 n = c.n(60000);
	for (u64 i = 0; i < n; i++) {
		R x, y; G.pair(x, y);
		if (c.g.u(4) == 0) y = G.forResult(x, G.f1()); // product with a special value
		int al = (int)c.g.u(3);
		bin(c, "Fp::add", oAdd, x, y, x + y, al);
		bin(c, "Fp::sub", oSub, x, y, x - y, al);
		bin(c, "Fp::mul", oMul, x, y, x * y, al);
		switch (c.g.u(4)) {
		case 0: bin(c, "operator+", pAdd, x, y, x + y, al); break;
		case 1: bin(c, "operator-", pSub, x, y, x - y, al); break;
		case 2: bin(c, "operator*", pMul, x, y, x * y, al); break;
		case 3: bin(c, al ? "operator*=" : "operator+=", al ? aMul : aAdd, x, y, al ? x * y : x + y, 1); bin(c, "operator-=", aSub, x, y, x - y, 1); break;
		}
		same2(c, "Fp::add same", oAdd, x, x + x); same2(c, "Fp::mul same", oMul, x, x * x); same2(c, "Fp::sub same", oSub, x, R());
		un(c, "Fp::neg", oNeg, x, -x); un(c, "Fp::square", oSqr, x, x * x);
		if (i & 1) un(c, "operator-", pNeg, x, -x);
		R h = ref::inv(R(2)); static R half = h, quarter = h * h;
		un(c, "Fp::divBy2", oHalf, x, x * half); un(c, "Fp::divBy4", oQuarter, x, x * quarter);
		if (!x.isZero()) {
			R xi = ref::inv(x);
			un(c, i & 1 ? "Fp::inv" : "Fp::inverse", i & 1 ? oInv : mInv, x, xi);
			c.ctr("inversions")++;
			if (i % 4 == 0) bin(c, "operator/", pDiv, y, x, y * xi, al);
			if (i % 4 == 2) bin(c, "operator/=", aDiv, y, x, y * xi, 1);
		}
		compares(c, x, y);
		if (i % 16 == 0) compares(c, x, x);
		if (c.wantSample()) c.sample("x=" + x.str() + " y=" + y.str() + " alias=" + char('0' + al));
	}
	// long chains: a value computed only by the library against the reference
	for (u64 k = 0; k < c.n(200); k++) {
		R x = G.f1(), acc = x; Fp lx = mk(x), la = lx;
		for (int j = 0; j < 60; j++) {
			R y = G.f1(); Fp ly = mk(y); c.begin("chain");
			switch (c.g.u(7)) {
			case 0: la += ly; acc = acc + y; break; case 1: la -= ly; acc = acc - y; break; case 2: la *= ly; acc = acc * y; break;
			case 3: la = -la; acc = -acc; break; case 4: Fp::divBy2(la, la); acc = acc * ref::inv(R(2)); break;
			case 5: la *= la; acc = acc * acc; break;
			case 6: if (!acc.isZero()) { la.inverse(); acc = ref::inv(acc); } break;
			}
		}
		report(c, "chain", la, acc, x, x, 9); c.eval(hmix(hv(x), k + 1000)); c.ctr("chains")++;
	}
}
