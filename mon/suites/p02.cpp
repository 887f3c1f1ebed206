// P02: bilinearity, order, non-degeneracy and the protocols built on them
#include "../common.hpp"
using namespace mon;

static Fp12 e(const Ec1& P, const Ec2& Q) { Fp12 f; smear(f); bn::opt_atePairing(f, Q, P); return f; }
static Z R;
template<class E> void reprO(Ctx& c, Gen& G, E& x); // change the projective scale
template<> void reprO(Ctx& c, Gen& G, Ec1& x) { if (c.g.coin() || x.isZero()) return; Fp s = mk(G.f1nz()), t = s * s; x.p[0] *= t; x.p[1] *= t * s; x.p[2] *= s; }
template<> void reprO(Ctx& c, Gen& G, Ec2& x) { if (c.g.coin() || x.isZero()) return; Fp2 s = mk(G.f2nz()), t = s * s; x.p[0] *= t; x.p[1] *= t * s; x.p[2] *= s; }
template<class T> T mulAny(Ctx& c, const T& x, const Z& n) { // any scalar type that can hold n
	if (n >= 0 && n < 0x7fffffff && c.g.coin()) return x * (int)n.get_ui();
	if (n >= 0 && mpz_sizeinbase(n.get_mpz_t(), 2) < 64 && c.g.coin()) return x * (size_t)n.get_ui();
	return c.g.coin() && n >= 0 ? x * toV(n) : x * mpz_class(n);
}
static Fp12 powAny(Ctx& c, const Fp12& x, const Z& n0) { Z n = n0 < 0 ? Z(ref::zmod(n0, R)) : n0; return c.g.coin() ? mie::power(x, toV(n)) : mie::power(x, mpz_class(n)); }

void suite(Ctx& c)
{
	Gen G(c); R = ref::C().r; const Fp12 one(1);
	std::vector<Ec1> a; std::vector<Ec2> b;
	for (int i = 0; i < 5; i++) { Ec1 p; Ec2 q; G.rep(p, G.p1()); G.rep(q, G.p2sub()); a.push_back(p); b.push_back(q); }
	for (u64 i = 0, n = c.n(150); i < n; i++) {
		Ec1 P = a[c.g.u(5)], P2 = a[c.g.u(5)]; Ec2 Q = b[c.g.u(5)], Q2 = b[c.g.u(5)]; reprO(c, G, P); reprO(c, G, Q);
		const Fp12 f = e(P, Q); std::ostringstream id; id << std::hex << "P=" << P << " Q=" << Q; const std::string in = id.str();
		#define REL(name, cond, extra) { c.begin(name); bool ok_ = (cond); CHECK(c, ok_, name, name " " << in << extra); c.eval(hstr(in, hstr(name, hz(za, hz(zb))))); c.ctr(name)++; }
		Z za = G.scalar(256), zb = G.scalar(256); if (c.g.u(4) == 0) za = -za; if (c.g.u(4) == 0) zb = -zb;
		const std::string sc = " a=" + za.get_str(16) + " b=" + zb.get_str(16);
		Ec1 aP = mulAny(c, P, za); Ec2 bQ = mulAny(c, Q, zb); Fp12 g = powAny(c, f, za * zb >= 0 && mpz_sizeinbase(Z(za * zb).get_mpz_t(), 2) < 500 && c.g.coin() ? Z(za * zb) : ref::zmod(za * zb, R));
		REL("e(aP,bQ) = e(P,Q)^ab", e(aP, bQ) == g, sc)
		REL("e(aP,Q) = e(P,aQ)", e(aP, Q) == e(P, mulAny(c, Q, za)), sc)
		REL("additive in P", e(P + P2, Q) == f * e(P2, Q), " P2=" << P2)
		REL("additive in Q", e(P, Q + Q2) == f * e(P, Q2), " Q2=" << Q2)
		REL("order r", mie::power(f, toV(R)) == one, "")
		REL("non-degenerate", f != one, "")
		{ Ec1 nP; Ec1::neg(nP, P); Ec2 nQ; Ec2::neg(nQ, Q); Fp12 u = e(nP, Q), v = e(P, nQ); REL("e(-P,Q) = e(P,-Q) = 1/e(P,Q)", u == v && u * f == one, "") Fp12 w = f; w.inverse(); REL("inverse", w == u, "") }
		if (i % 8 == 1) { Ec1 O = P - P; Ec2 O2 = Q - Q; REL("1 at infinity", e(O, Q) == one && e(P, O2) == one && e(O, O2) == one, "") REL("r*P, r*Q", e(P * toV(R), Q) == one && e(P, Q * toV(R)) == one, "") }
		if (i % 4 == 2) { // a signature accepts exactly the valid one
			Z x = c.g.below(R - 1) + 1; Ec2 pk = Q * toV(x); Ec1 sig = P * toV(x);
			REL("signature accepted", e(sig, Q) == e(P, pk), "")
			Z d = 1 + c.g.u(4) ? Z(1L) << c.g.u(253) : Z(1); Z x2 = ref::zmod(x + d, R); Ec1 bad = P * toV(x2);
			REL("forgery rejected", !(e(bad, Q) == e(P, pk)), " x=" << x.get_str(16))
			if (!(P == P2)) REL("other message rejected", !(e(P2 * toV(x), Q) == e(P, pk)), "")
			Ec2 pkBad = pk + Q; REL("other key rejected", !(e(sig, Q) == e(P, pkBad)), "")
		}
		if (i % 4 == 3) { // three-party key agreement
			Z x = G.scalar(256), y = G.scalar(256), z = G.scalar(256);
			Fp12 k1 = powAny(c, e(mulAny(c, P, y), mulAny(c, Q, z)), x), k2 = powAny(c, e(mulAny(c, P, x), mulAny(c, Q, z)), y), k3 = powAny(c, e(mulAny(c, P, x), mulAny(c, Q, y)), z);
			REL("three-party agreement", k1 == k2 && k2 == k3, " x=" << x << " y=" << y << " z=" << z)
		}
		if (i % 8 == 5) { // a product check over several pairs
			Z s = 0; Fp12 t = one; for (int k = 0; k < 4; k++) { Z u = G.scalar(256), v = G.scalar(256); t *= e(mulAny(c, P, u), mulAny(c, Q, v)); s += u * v; }
			Fp12 w = t * e(mulAny(c, P, ref::zmod(-s, R)), Q); REL("product check accepted", w == one, "") REL("product check rejected", !(t * e(mulAny(c, P, ref::zmod(1 - s, R)), Q) == one), "")
		}
		if (!aP.isZero() && c.g.coin()) a[c.g.u(5)] = aP; else { G.rep(P, G.p1()); a[c.g.u(5)] = P; }
		if (!bQ.isZero() && c.g.u(4)) b[c.g.u(5)] = bQ;
		if (c.wantSample()) c.sample(in + sc);
	}
}
