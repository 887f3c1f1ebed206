// I01: unsigned big integers
#include "../common.hpp"
using namespace mon;
using mie::Vuint;

static const unsigned CAP = (MIE_ZM_VUINT_BIT_LEN + 63) / 64; // limbs
static bool norm(const Vuint& v) { return v.size() >= 1 && v.size() <= CAP && (v.size() == 1 || v[v.size() - 1] != 0); }
static bool is(const Vuint& v, const Z& z) { return norm(v) && toZ(v) == z; }
static std::string hex(const Z& z) { return z.get_str(16); }
static size_t nl(const Z& z) { size_t n = mpz_size(z.get_mpz_t()); return n ? n : 1; }
static std::string raw(const Vuint& v) { std::string s; char b[24]; for (size_t i = 0; i < v.size() && i < CAP; i++) { sprintf(b, "%016llx ", (unsigned long long)v[i]); s = b + s; } sprintf(b, "size=%u", (unsigned)v.size()); return s + b; }

static Z limbsZ(Ctx& c, Gen& G, unsigned n) { Z r = 0; for (unsigned i = 0; i < n; i++) { u64 w = G.edgeLimb(); Z t; mpz_import(t.get_mpz_t(), 1, -1, 8, 0, 0, &w); r = (r << 64) + t; } (void)c; return r; }
static Z val(Ctx& c, Gen& G, unsigned maxLimbs)
{
	if (maxLimbs > CAP) maxLimbs = CAP;
	switch (c.g.u(4)) { case 0: return limbsZ(c, G, 1 + (unsigned)c.g.u(maxLimbs)); case 1: return c.g.bits(1 + (unsigned)c.g.u(maxLimbs * 64)); default: return G.edgeInt(maxLimbs * 64); }
}
static Vuint dirty(Ctx& c, Gen& G) { Vuint v = toV(val(c, G, CAP)); return v; } // earlier content of an output object
static Vuint mk(Ctx& c, Gen& G, const Z& z) // the same value built along different paths, with stale limbs behind it
{
	Vuint v = dirty(c, G); u64 w[64]; memset(w, 0, sizeof w); size_t n; mpz_export(w, &n, -1, 8, 0, 0, z.get_mpz_t()); if (!n) n = 1;
	switch (c.g.u(6)) {
	case 0: { unsigned pad = (unsigned)c.g.u(CAP - n + 1); v.set((const uint64_t *)w, n + pad); break; } // leading zero words
	case 1: v.set((const uint32_t *)w, n * 2 - c.g.u(2) * ((w[n - 1] >> 32) == 0)); break;
	case 2: v = Vuint((const uint64_t *)w, n); break;
	case 3: v = Vuint(z.get_str(10)); break;
	case 4: v.set("0x" + z.get_str(16)); break;
	default: { v.set((u64)0); for (size_t i = n; i-- > 0;) { v <<= 64; v += Vuint(w[i]); if (!v.isZero() && v.size() + 1 > CAP && i) { v.set((const uint64_t *)w, n); break; } } }
	}
	return v;
}

#define OP(name, ok, shown) { bool ok_ = (ok); CHECK(c, ok_, name, name " x=" << hex(x) << " y=" << hex(y) << " got " << (shown)); c.eval(hz(x, hz(y, hstr(name))), x > 1 && y > 1); c.ctr(name)++; }

static void addsub(Ctx& c, Gen& G)
{
	Z x = val(c, G, CAP), y; switch (c.g.u(5)) { case 0: y = x; break; case 1: y = x + (long)c.g.u(5) - 2; if (y < 0) y = 0; break; case 2: y = (Z(1) << (64 * nl(x))) - x; if (nl(y) > CAP) y = 1; break; default: y = val(c, G, CAP); }
	if (mpz_sizeinbase(y.get_mpz_t(), 2) > CAP * 64) y = 0;
	if (c.g.coin()) std::swap(x, y);
	c.begin("Vuint add/sub"); Vuint a = mk(c, G, x), b = mk(c, G, y), z = dirty(c, G), t;
	OP("construct", is(a, x) && is(b, y), raw(a) + " / " + raw(b))
	if (nl(x + y) <= CAP) {
		switch (c.g.u(5)) { case 0: Vuint::add(z, a, b); break; case 1: z = a + b; break; case 2: z = a; z += b; break; case 3: z = b; Vuint::add(z, a, z); break; default: z = a; Vuint::add(z, z, b); }
		OP("add", is(z, x + y), raw(z))
		if (nl(x + x) <= CAP) { t = a; if (c.g.coin()) t += t; else Vuint::add(t, t, t); OP("add self", is(t, x + x), raw(t)) }
	}
	if (nl(y) == 1 && mpz_sizeinbase(y.get_mpz_t(), 2) <= 32 && nl(x + y) <= CAP) { t = a; uint32_t w = (uint32_t)mpz_get_ui(y.get_mpz_t()); if (c.g.coin()) Vuint::add(t, a, w); else t += w; OP("add uint32", is(t, x + y), raw(t)) }
	if (nl(y) == 1 && nl(x + y) <= CAP) { u64 w = b[0]; t = a; if (c.g.coin()) t += Vuint(w); else t = a + w; OP("add word", is(t, x + y), raw(t)) }
	const Z& h = x > y ? x : y; const Z& l = x > y ? y : x; const Vuint &vh = x > y ? a : b, &vl = x > y ? b : a;
	switch (c.g.u(5)) { case 0: Vuint::sub(z, vh, vl); break; case 1: z = vh - vl; break; case 2: z = vh; z -= vl; break; case 3: z = vl; Vuint::sub(z, vh, z); break; default: z = vh; Vuint::sub(z, z, vl); }
	OP("sub", is(z, h - l), raw(z))
	t = a; t -= t; OP("sub self", is(t, 0) && t.isZero(), raw(t))
	OP("input", is(a, x) && is(b, y), raw(a) + " / " + raw(b))
	int s = cmp(x, y); int r = Vuint::compare(a, b); OP("compare", (r > 0) == (s > 0) && (r < 0) == (s < 0) && (a < b) == (s < 0) && (a <= b) == (s <= 0) && (a > b) == (s > 0) && (a >= b) == (s >= 0) && (a == b) == (s == 0) && (a != b) == (s != 0), r)
}

static void mul(Ctx& c, Gen& G)
{
	unsigned n = 1 + (unsigned)c.g.u(CAP - 1); Z x = val(c, G, n), y = val(c, G, (unsigned)(CAP - nl(x))); if (c.g.u(8) == 0 && 2 * nl(x) <= CAP) y = x; if (nl(x) + nl(y) > CAP) return; if (c.g.coin()) std::swap(x, y);
	c.begin("Vuint mul"); Vuint a = mk(c, G, x), b = mk(c, G, y), z = dirty(c, G);
	switch (c.g.u(5)) { case 0: Vuint::mul(z, a, b); break; case 1: z = a * b; break; case 2: z = a; z *= b; break; case 3: z = b; Vuint::mul(z, a, z); break; default: z = a; Vuint::mul(z, z, b); }
	OP("mul", is(z, x * y) && is(a, x) && is(b, y), raw(z))
	if (2 * nl(x) <= CAP) { z = a; if (c.g.coin()) z *= z; else Vuint::mul(z, z, z); OP("square", is(z, x * x), raw(z)) z = dirty(c, G); Vuint::mul(z, a, a); OP("square out", is(z, x * x), raw(z)) }
	if (nl(x) < CAP) { u64 w = G.edgeLimb(); Z wz; mpz_import(wz.get_mpz_t(), 1, -1, 8, 0, 0, &w); y = wz; z = dirty(c, G); Vuint::mul1(z, a, w); OP("mul1", is(z, x * y), raw(z)) }
}

static Z divisor(Ctx& c, Gen& G, unsigned maxL)
{
	for (;;) {
		Z y; unsigned n = 1 + (unsigned)c.g.u(maxL);
		switch (c.g.u(8)) {
		case 0: y = Z(1) << (64 * n - 1); break;                              // top limb 2^63
		case 1: y = (Z(1) << (64 * n)) - 1 - (long)c.g.u(3); break;            // all ones
		case 2: y = (Z(1) << (64 * (n - 1))) + (long)c.g.u(3); break;          // top limb 1
		case 3: y = (Z(1) << (64 * n - 1)) + (n > 1 ? c.g.bits(64 * (n - 1)) : Z(0)); break;
		case 4: y = (Z(1) << (64 * n - 1 - (unsigned)c.g.u(64))) - 1; break;
		default: y = val(c, G, n);
		}
		if (y != 0 && nl(y) <= maxL) return y;
	}
}
static void div(Ctx& c, Gen& G)
{
	Z y = divisor(c, G, CAP), x;
	switch (c.g.u(8)) { // dividends around multiples of the divisor
	case 0: x = val(c, G, CAP); break; case 1: x = y * val(c, G, CAP - (unsigned)nl(y) + 1); break; case 2: x = y * val(c, G, CAP - (unsigned)nl(y) + 1) - 1; break;
	case 3: x = y * val(c, G, CAP - (unsigned)nl(y) + 1) + y - 1; break; case 4: x = (Z(1) << (64 * (1 + (unsigned)c.g.u(CAP)))) - 1; break; case 5: x = y + (long)c.g.u(3) - 1; break;
	case 6: { Z q = (Z(1) << (64 * (unsigned)c.g.u(CAP))) - 1; x = q * y + c.g.u(2) * (y - 1); break; } // quotient limbs all ones
	default: x = c.g.bits(64 * CAP);
	}
	if (x < 0) x = 0;
	if (nl(x) > CAP) mpz_fdiv_r_2exp(x.get_mpz_t(), x.get_mpz_t(), 64 * CAP);
	if (nl(y) == CAP && x > y) y >>= 64; // a divisor of full size needs one limb of scratch more: outside the capacity rule
	const Z q = x / y, r = x % y; c.begin("Vuint div"); Vuint a = mk(c, G, x), b = mk(c, G, y), vq = dirty(c, G), vr = dirty(c, G);
	bool ok = true; const int al = (int)c.g.u(12);
	switch (al) {
	case 0: ok = Vuint::div(&vq, vr, a, b); break;
	case 1: vq = a / b; vr = a % b; break;
	case 2: vq = a; vq /= b; vr = a; vr %= b; break;
	case 3: vq = a; ok = Vuint::div(&vq, vr, vq, b); break;             // q == x
	case 4: vr = a; ok = Vuint::div(&vq, vr, vr, b); break;             // r == x
	case 5: vq = b; ok = Vuint::div(&vq, vr, a, vq); break;             // q == y
	case 6: vr = b; ok = Vuint::div(&vq, vr, a, vr); break;             // r == y
	case 7: vq = a; vr = b; ok = Vuint::div(&vq, vr, vq, vr); break;     // q == x, r == y
	case 8: vq = b; vr = a; ok = Vuint::div(&vq, vr, vr, vq); break;     // q == y, r == x
	case 9: ok = Vuint::div(0, vr, a, b); vq = a / b; break;
	case 10: vr = a; ok = Vuint::div(0, vr, vr, b); vq = a / b; break;
	default: vr = b; ok = Vuint::div(0, vr, a, vr); vq = a / b;
	}
	OP("div", ok && is(vq, q) && is(vr, r), raw(vq) + " rem " + raw(vr) + " alias " + char('a' + al))
	OP("div:input", is(a, x) && is(b, y), "changed")
	if (c.g.u(8) == 0) { vq = a; ok = Vuint::div(&vq, vr, vq, vq); if (x != 0) OP("div self", ok && is(vq, 1) && is(vr, 0), raw(vq)) }
	if (nl(y) == 1) {
		u64 w = b[0], m; vq = dirty(c, G); if (c.g.coin()) m = Vuint::div1(&vq, a, w); else { vq = a; m = Vuint::div1(&vq, vq, w); } OP("div1", is(vq, q) && toZ(Vuint(m)) == r, raw(vq)) m = Vuint::div1(0, a, w); OP("mod1", toZ(Vuint(m)) == r, m)
		if (c.g.coin()) { vq = a / w; vr = a % w; OP("div by word", is(vq, q) && is(vr, r), raw(vq)) }
	}
	{ Vuint d = dirty(c, G), e = dirty(c, G); if (c.g.u(16) == 0) { Vuint zero; OP("division by zero reported", !Vuint::div(&d, e, a, zero), "") } }
	c.ctr("max:quotient limbs") = std::max<u64>(c.ctr("max:quotient limbs"), nl(q));
	if (c.wantSample()) c.sample("x=" + hex(x) + " y=" + hex(y));
}

static void shift(Ctx& c, Gen& G)
{
	Z x = val(c, G, CAP), y; Vuint a = mk(c, G, x), z = dirty(c, G); c.begin("Vuint shift");
	size_t bits = x == 0 ? 0 : mpz_sizeinbase(x.get_mpz_t(), 2), room = x == 0 ? 64 * (CAP - 1) : 64 * CAP - bits; size_t n;
	switch (c.g.u(4)) { case 0: n = room; break; case 1: n = 64 * c.g.u(CAP); break; case 2: n = c.g.u(4); break; default: n = c.g.u(room + 1); } if (n > room) n = room;
	y = (long)n;
	switch (c.g.u(5)) { case 0: Vuint::shl(z, a, n); break; case 1: z = a << n; break; case 2: z = a; z <<= n; break; case 3: z = a; Vuint::shl(z, z, n); break; default: z = a << n; }
	OP("shl", is(z, Z(x << n)) && is(a, x), raw(z))
	switch (c.g.u(5)) { case 0: n = bits; break; case 1: n = 64 * c.g.u(CAP + 2); break; case 2: n = c.g.u(4); break; case 3: n = bits + c.g.u(200); break; default: n = c.g.u(bits + 1); } y = (long)n;
	switch (c.g.u(4)) { case 0: Vuint::shr(z, a, n); break; case 1: z = a >> n; break; case 2: z = a; z >>= n; break; default: z = a; Vuint::shr(z, z, n); }
	OP("shr", is(z, Z(x >> n)) && is(a, x), raw(z))
	y = 0; OP("bitLen", a.bitLen() == bits, a.bitLen()) OP("isZero", a.isZero() == (x == 0), a.isZero())
	for (int k = 0; k < 4; k++) { size_t i = k == 0 ? bits : k == 1 ? bits - (bits > 0) : c.g.u(64 * CAP + 100); y = (long)i; OP("testBit", a.testBit(i) == (mpz_tstbit(x.get_mpz_t(), i) != 0), a.testBit(i)) size_t w = i / 64; y = (long)w; OP("getAtWithCheck", a.getAtWithCheck(w) == (w < mpz_size(x.get_mpz_t()) ? mpz_getlimbn(x.get_mpz_t(), w) : 0), a.getAtWithCheck(w)) }
	{ u64 w = G.edgeLimb(); Vuint t = dirty(c, G); t.set(w); mpz_import(y.get_mpz_t(), 1, -1, 8, 0, 0, &w); OP("set word", is(t, y) && is(Vuint(w), y), raw(t)) t = dirty(c, G); t.clear(); OP("clear", is(t, 0), raw(t)) }
}

// a sequence of operations on a few objects that alias each other freely
static void history(Ctx& c, Gen& G)
{
	const int N = 4; Vuint v[N]; Z m[N]; for (int i = 0; i < N; i++) { m[i] = val(c, G, CAP / 2); v[i] = mk(c, G, m[i]); } std::string log;
	for (int s = 0; s < 40; s++) {
		int i = (int)c.g.u(N), j = (int)c.g.u(N), k = (int)c.g.u(N), l = (int)c.g.u(N), op = (int)c.g.u(10); char t[48]; sprintf(t, "%d:%d,%d,%d,%d ", op, i, j, k, l); c.begin("Vuint history"); Z r; bool done = true;
		switch (op) {
		case 0: r = m[j] + m[k]; if (nl(r) > CAP) { done = false; break; } Vuint::add(v[i], v[j], v[k]); m[i] = r; break;
		case 1: if (m[j] < m[k]) { done = false; break; } Vuint::sub(v[i], v[j], v[k]); m[i] = m[j] - m[k]; break;
		case 2: if (nl(m[j]) + nl(m[k]) > CAP) { done = false; break; } r = m[j] * m[k]; Vuint::mul(v[i], v[j], v[k]); m[i] = r; break;
		case 3: case 4: { if (i == l || m[k] == 0 || (nl(m[k]) == CAP && m[j] > m[k])) { done = false; break; } Z q = m[j] / m[k]; r = m[j] % m[k]; Vuint::div(&v[i], v[l], v[j], v[k]); m[i] = q; m[l] = r; if (!is(v[l], r)) c.fail("Vuint history", "remainder wrong after " + log + t); break; }
		case 5: { size_t n = c.g.u(130), b = m[j] == 0 ? 0 : mpz_sizeinbase(m[j].get_mpz_t(), 2); if (b + n > 64 * CAP || (b == 0 && n >= 64)) { done = false; break; } Vuint::shl(v[i], v[j], n); m[i] = m[j] << n; break; }
		case 6: { size_t n = c.g.u(200); Vuint::shr(v[i], v[j], n); m[i] = Z(m[j] >> n); break; }
		case 7: v[i] = v[j]; m[i] = m[j]; break;
		case 8: m[i] = val(c, G, CAP); v[i] = mk(c, G, m[i]); break;
		default: if (m[k] == 0 || (nl(m[k]) == CAP && m[j] > m[k])) { done = false; break; } m[i] = m[j] % m[k]; v[i] = v[j] % v[k]; break;
		}
		if (!done) continue;
		log += t; if (log.size() > 400) log = log.substr(200);
		bool ok = is(v[i], m[i]); CHECK(c, ok, "Vuint history", "after " << log << " got " << raw(v[i]) << " want " << hex(m[i])); if (!ok) return; c.eval(hz(m[i], s), m[i] > 1); c.ctr("history steps")++;
	}
}

void suite(Ctx& c)
{
	Gen G(c); c.ctr("max:capacity limbs") = CAP;
	for (u64 i = 0, n = c.n(6000); i < n; i++) { addsub(c, G); mul(c, G); div(c, G); div(c, G); shift(c, G); if (i % 8 == 0) history(c, G); }
}
