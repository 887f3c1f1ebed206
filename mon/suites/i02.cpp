// I02: signed big integers
#include "../common.hpp"
#include <limits.h>
using namespace mon;
using mie::Vuint; using mie::Vsint;

static const unsigned CAP = (MIE_ZM_VUINT_BIT_LEN + 63) / 64;
static size_t nl(const Z& z) { size_t n = mpz_size(z.get_mpz_t()); return n ? n : 1; }
static bool norm(const Vuint& v) { return v.size() >= 1 && v.size() <= CAP && (v.size() == 1 || v[v.size() - 1] != 0); }
// value, size, sign and text agree with the integer
static bool is(const Vsint& v, const Z& z) { return norm(v.get()) && toZ(v) == z && v.isNegative() == (z < 0) && v.isZero() == (z == 0) && (v == toVs(z)) && v.size() == nl(z); }
static std::string hex(const Z& z) { return z.get_str(16); }
static std::string raw(const Vsint& v) { return hex(toZ(v)) + " neg=" + (v.isNegative() ? "1" : "0"); }

static Z val(Ctx& c, Gen& G, unsigned maxL)
{
	if (maxL > CAP) maxL = CAP; Z r;
	switch (c.g.u(6)) { case 0: r = (long)c.g.u(5); break; case 1: { unsigned n = 1 + (unsigned)c.g.u(maxL); for (unsigned i = 0; i < n; i++) { u64 w = G.edgeLimb(); Z t; mpz_import(t.get_mpz_t(), 1, -1, 8, 0, 0, &w); r = (r << 64) + t; } break; } case 2: r = c.g.bits(1 + (unsigned)c.g.u(64 * maxL)); break; default: r = G.edgeInt(64 * maxL); }
	return c.g.coin() ? Z(-r) : r;
}
static Vsint mk(Ctx& c, Gen& G, const Z& z) // the same value along different paths; zero with either history of sign
{
	Vsint v = toVs(val(c, G, CAP)); u64 w[64]; memset(w, 0, sizeof w); size_t n; mpz_export(w, &n, -1, 8, 0, 0, z.get_mpz_t()); if (!n) n = 1;
	if (z == 0) {
		switch (c.g.u(12)) {
		case 0: v.clear(); return v; case 1: v = Vsint(0); return v; case 2: { Vsint t; Vsint::neg(t, Vsint(0)); return t; } case 3: { Vsint t(-5); t -= Vsint(-5); return t; }
		case 4: { Vsint t(-7); t += Vsint(7); return t; } case 5: return Vsint(-3) * Vsint(0); case 6: return Vsint(0) * Vsint(-3); case 7: return Vsint(0) / Vsint(-3); case 8: return Vsint(-6) % Vsint(-3);
		case 9: v.set(std::string("-0")); return v; case 10: v.set((int64_t)0); return v; default: { Vsint t(-1); t = -(t - t); return t << 3; }
		}
	}
	if (z.fits_slong_p() && c.g.coin()) { long k = z.get_si(); if (k >= INT_MIN && k <= INT_MAX && c.g.coin()) { if (c.g.coin()) return Vsint((int)k); v = (int)k; return v; } v.set((int64_t)k); return v; }
	switch (c.g.u(6)) {
	case 0: v = Vsint(z.get_str(10)); return v;
	case 1: v.set(z < 0 ? "-0x" + Z(-z).get_str(16) : "0x" + z.get_str(16)); return v;
	case 2: v.set(toV(abs(z))); break;
	case 3: v.set((const uint64_t *)w, n); break;
	case 4: v = Vsint(toV(abs(z))); break;
	default: if (n == 1) v.set((Vsint::value_type)w[0]); else v.set(toV(abs(z)));
	}
	return z < 0 ? -v : v;
}
#define OP(name, ok, shown) { bool ok_ = (ok); CHECK(c, ok_, name, name " x=" << hex(x) << " y=" << hex(y) << " got " << (shown)); c.eval(hz(x, hz(y, hstr(name))), abs(x) > 1 && abs(y) > 1); c.ctr(name)++; }

static void one(Ctx& c, Gen& G)
{
	Z x = val(c, G, CAP), y; switch (c.g.u(6)) { case 0: y = x; break; case 1: y = -x; break; case 2: y = x + (long)c.g.u(5) - 2; break; case 3: y = -x + (long)c.g.u(5) - 2; break; default: y = val(c, G, CAP); }
	if (nl(y) > CAP) y = 1;
	c.begin("Vsint construct"); Vsint a = mk(c, G, x), b = mk(c, G, y), z = mk(c, G, val(c, G, CAP)), t;
	OP("construct", is(a, x) && is(b, y), raw(a) + " " + raw(b))
	c.begin("Vsint add/sub");
	if (nl(x + y) <= CAP) { switch (c.g.u(6)) { case 0: Vsint::add(z, a, b); break; case 1: z = a + b; break; case 2: z = a; z += b; break; case 3: z = b; Vsint::add(z, a, z); break; case 4: z = a; Vsint::add(z, z, b); break; default: z = b + a; } OP("add", is(z, x + y), raw(z)) }
	if (nl(x - y) <= CAP) { switch (c.g.u(5)) { case 0: Vsint::sub(z, a, b); break; case 1: z = a - b; break; case 2: z = a; z -= b; break; case 3: z = b; Vsint::sub(z, a, z); break; default: z = a; Vsint::sub(z, z, b); } OP("sub", is(z, x - y), raw(z)) }
	if (nl(x + x) <= CAP) { t = a; t += t; OP("add self", is(t, x + x), raw(t)) } t = a; t -= t; OP("sub self", is(t, 0), raw(t))
	if (nl(x) + nl(y) <= CAP) { c.begin("Vsint mul"); switch (c.g.u(5)) { case 0: Vsint::mul(z, a, b); break; case 1: z = a * b; break; case 2: z = a; z *= b; break; case 3: z = b; Vsint::mul(z, a, z); break; default: z = a; Vsint::mul(z, z, b); } OP("mul", is(z, x * y), raw(z)) if (2 * nl(x) <= CAP) { z = a; z *= z; OP("square", is(z, x * x), raw(z)) } }
	c.begin("Vsint neg"); Vsint::neg(z, a); OP("neg", is(z, -x), raw(z)) z = a; Vsint::neg(z, z); OP("neg in place", is(z, -x), raw(z)) OP("neg twice", is(-(-a), x), raw(-(-a)))
	OP("abs", toZ(a.abs()) == abs(x) && norm(a.abs()), hex(toZ(a.abs()))) { Vuint u; Vsint::absolute(u, a); OP("absolute", toZ(u) == abs(x), hex(toZ(u))) }
	c.begin("Vsint compare"); int s = cmp(x, y), r = Vsint::compare(a, b); OP("compare", (r > 0) == (s > 0) && (r < 0) == (s < 0) && (a < b) == (s < 0) && (a <= b) == (s <= 0) && (a > b) == (s > 0) && (a >= b) == (s >= 0) && (a == b) == (s == 0) && (a != b) == (s != 0), r)
	c.begin("Vsint shift"); size_t bits = x == 0 ? 0 : mpz_sizeinbase(x.get_mpz_t(), 2), room = x == 0 ? 64 * (CAP - 1) : 64 * CAP - bits, n = c.g.u(3) ? c.g.u(room + 1) : room; { const Z y((long)n); switch (c.g.u(4)) { case 0: Vsint::shl(z, a, n); break; case 1: z = a << n; break; case 2: z = a; z <<= n; break; default: z = a; Vsint::shl(z, z, n); } OP("shl", is(z, x << n), raw(z)) }
	if (x >= 0) { const Z y((long)(n = c.g.u(bits + 70))); switch (c.g.u(3)) { case 0: Vsint::shr(z, a, n); break; case 1: z = a >> n; break; default: z = a; z >>= n; } OP("shr of non-negative", is(z, Z(x >> n)), raw(z)) }
	c.begin("Vsint text"); { std::ostringstream os; os << a; OP("decimal text", os.str() == x.get_str(10) && a.toString() == x.get_str(10), os.str()) std::ostringstream oh; oh << std::hex << a; std::string h = (x < 0 ? "-0x" : "0x") + Z(abs(x)).get_str(16); OP("hexadecimal text", oh.str() == h && a.toString(16) == h, oh.str()) }
	OP("input", is(a, x) && is(b, y), raw(a) + " " + raw(b))
	if (c.wantSample()) c.sample("x=" + hex(x) + " y=" + hex(y));
}

static void div(Ctx& c, Gen& G)
{
	Z y = val(c, G, CAP - 1), x; if (y == 0) y = c.g.coin() ? 1 : -1;
	switch (c.g.u(6)) { case 0: x = y * val(c, G, CAP - (unsigned)nl(y)); break; case 1: x = y * val(c, G, CAP - (unsigned)nl(y)) + (long)c.g.u(3) - 1; break; case 2: x = val(c, G, (unsigned)nl(y)); break; case 3: x = y + (long)c.g.u(3) - 1; break; default: x = val(c, G, CAP); }
	if (nl(x) > CAP) x = 7; if (c.g.coin()) x = -x;
	Z q, r; mpz_fdiv_qr(q.get_mpz_t(), r.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); if (nl(q) > CAP) return;
	c.begin("Vsint div"); Vsint a = mk(c, G, x), b = mk(c, G, y), vq = mk(c, G, val(c, G, CAP)), vr = mk(c, G, val(c, G, CAP)); bool ok = true; const int al = (int)c.g.u(12);
	switch (al) {
	case 0: ok = Vsint::div(&vq, vr, a, b); break; case 1: vq = a / b; vr = a % b; break; case 2: vq = a; vq /= b; vr = a; vr %= b; break;
	case 3: vq = a; ok = Vsint::div(&vq, vr, vq, b); break; case 4: vr = a; ok = Vsint::div(&vq, vr, vr, b); break; case 5: vq = b; ok = Vsint::div(&vq, vr, a, vq); break; case 6: vr = b; ok = Vsint::div(&vq, vr, a, vr); break;
	case 7: vq = a; vr = b; ok = Vsint::div(&vq, vr, vq, vr); break; case 8: vq = b; vr = a; ok = Vsint::div(&vq, vr, vr, vq); break; case 9: ok = Vsint::div(0, vr, a, b); vq = a / b; break; case 10: vr = a; ok = Vsint::div(0, vr, vr, b); vq = a / b; break;
	default: vr = b; ok = Vsint::div(0, vr, a, vr); vq = a / b;
	}
	OP("div", ok && is(vq, q) && is(vr, r), raw(vq) + " rem " + raw(vr) + " alias " + char('a' + al))
	OP("div:input", is(a, x) && is(b, y), "changed")
	if (x < 0) c.ctr("negative dividend")++; if (y < 0) c.ctr("negative divisor")++; if (r == 0) c.ctr("exact division")++;
	if (x != 0 && c.g.u(4) == 0) { vq = a; Vsint::div(&vq, vr, vq, vq); OP("div self", is(vq, 1) && is(vr, 0), raw(vq)) }
	if (c.g.u(16) == 0) { Vsint zero = mk(c, G, 0), d, e; OP("division by zero reported", !Vsint::div(&d, e, a, zero), "") }
}

static void natives(Ctx& c, Gen& G) // every native integer, mixed expressions
{
	static const long edge[] = { 0, 1, -1, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, LONG_MAX, LONG_MIN, LONG_MIN + 1, 255, -256, 65536, 1L << 32, -(1L << 32) };
	long k = c.g.u(4) ? (long)c.g.next() >> c.g.u(64) : edge[c.g.u(15)]; Z x(k), y = val(c, G, CAP - 1); c.begin("Vsint natives"); Vsint v = mk(c, G, y);
	v.set((int64_t)k); OP("set int64", is(v, x), raw(v)) { u64 u = (u64)k; Z x; mpz_import(x.get_mpz_t(), 1, -1, 8, 0, 0, &u); v = mk(c, G, y); v.set((Vsint::value_type)u); OP("set word", is(v, x), raw(v)) }
	int i = c.g.coin() ? (int)k : (int)edge[c.g.u(7)]; x = (long)i; v = Vsint(i); OP("from int", is(v, x), raw(v)) v = mk(c, G, y); v = i; OP("assign int", is(v, x), raw(v))
	Vsint b = mk(c, G, y), z; z = b + i; OP("b + int", is(z, y + x), raw(z)) z = b; z += i; OP("b += int", is(z, y + x), raw(z)) z = b - i; OP("b - int", is(z, y - x), raw(z)) z = i - b; OP("int - b", is(z, x - y), raw(z)) if (nl(y) < CAP) { z = b * i; OP("b * int", is(z, y * x), raw(z)) z = b; z *= i; OP("b *= int", is(z, y * x), raw(z)) }
	OP("b < int", (b < i) == (y < x) && (b == i) == (y == x) && (b > i) == (y > x), "")
	if (i) { Z q, r; mpz_fdiv_qr(q.get_mpz_t(), r.get_mpz_t(), y.get_mpz_t(), x.get_mpz_t()); z = b / i; OP("b / int", is(z, q), raw(z)) z = b % i; OP("b % int", is(z, r), raw(z)) }
}

static void history(Ctx& c, Gen& G)
{
	const int N = 4; Vsint v[N]; Z m[N]; for (int i = 0; i < N; i++) { m[i] = val(c, G, CAP / 2); v[i] = mk(c, G, m[i]); } std::string log;
	for (int s = 0; s < 40; s++) {
		int i = (int)c.g.u(N), j = (int)c.g.u(N), k = (int)c.g.u(N), l = (int)c.g.u(N), op = (int)c.g.u(8); char t[48]; sprintf(t, "%d:%d,%d,%d,%d ", op, i, j, k, l); c.begin("Vsint history"); Z r; bool done = true;
		switch (op) {
		case 0: r = m[j] + m[k]; if (nl(r) > CAP) { done = false; break; } Vsint::add(v[i], v[j], v[k]); m[i] = r; break;
		case 1: r = m[j] - m[k]; if (nl(r) > CAP) { done = false; break; } Vsint::sub(v[i], v[j], v[k]); m[i] = r; break;
		case 2: if (nl(m[j]) + nl(m[k]) > CAP) { done = false; break; } r = m[j] * m[k]; Vsint::mul(v[i], v[j], v[k]); m[i] = r; break;
		case 3: case 4: { if (i == l || m[k] == 0 || nl(m[k]) == CAP) { done = false; break; } Z q; mpz_fdiv_qr(q.get_mpz_t(), r.get_mpz_t(), m[j].get_mpz_t(), m[k].get_mpz_t()); if (nl(q) > CAP) { done = false; break; } Vsint::div(&v[i], v[l], v[j], v[k]); m[i] = q; m[l] = r; if (!is(v[l], r)) c.fail("Vsint history", "remainder wrong after " + log + t); break; }
		case 5: Vsint::neg(v[i], v[j]); m[i] = -m[j]; break;
		case 6: v[i] = v[j]; m[i] = m[j]; break;
		default: m[i] = val(c, G, CAP); v[i] = mk(c, G, m[i]);
		}
		if (!done) continue;
		log += t; if (log.size() > 400) log = log.substr(200);
		bool ok = is(v[i], m[i]); CHECK(c, ok, "Vsint history", "after " << log << " got " << raw(v[i]) << " want " << hex(m[i])); if (!ok) return; c.eval(hz(m[i], s), abs(m[i]) > 1); c.ctr("history steps")++;
	}
}

void suite(Ctx& c)
{
	Gen G(c);
	for (u64 i = 0, n = c.n(5000); i < n; i++) { one(c, G); div(c, G); natives(c, G); if (i % 8 == 0) history(c, G); }
}
