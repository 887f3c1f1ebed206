// G05: the twist endomorphisms are the Frobenius endomorphism and its powers
#include "../common.hpp"
using namespace mon;
using ref::P2;
namespace ecop = bn::ecop;

static bool eq(const Fp2 *q, const P2& P) { return same(q[0], P.x) && same(q[1], P.y); }

// points of the twist whose x has one zero component
static P2 thin(Gen& G, Ctx& c)
{
	for (;;) {
		ref::F1 a = G.f1(); const bool im = c.g.coin(); ref::F2 x = im ? ref::F2(ref::F1(), a) : ref::F2(a), y;
		if (ref::sqrt(y, x * x * x + ref::BT())) { c.ctr(im ? "x purely imaginary" : "x real")++; return P2(x, c.g.coin() ? y : -y); }
	}
}

static void one(Ctx& c, Gen& G, const P2& Q, bool sub, u64 i)
{
	Fp2 q[2] = { mk(Q.x), mk(Q.y) }, o[2] = { mk(G.f2()), mk(G.f2()) }; const Fp2 q0[2] = { q[0], q[1] }; const u64 h = hv(Q);
	const P2 f1 = ref::twFrob(Q), f2 = ref::twFrob(f1), f8 = ref::twFrob(ref::twFrob(ref::twFrob(ref::twFrob(ref::twFrob(ref::twFrob(f2))))));
#ifdef BN_SUPPORT_SNARK
	const P2 w2 = f2, w8 = f8;
#else
	const P2 w2 = f2, w8 = ref::neg(f2); (void)f8; // on this curve the pairing adds -pi^2(Q) through this function
#endif
	#define END(fn, want) { c.begin(#fn); o[0] = mk(G.f2()); o[1] = mk(G.f2()); ecop::fn(o, q); CHECK(c, eq(o, want), #fn, "Q=" << Q.str() << " got=" << rawStr(o[0]) << rawStr(o[1]) << " want=" << (want).str()); CHECK(c, memcmp(q, q0, sizeof q) == 0, #fn ":input", "changed"); \
		CHECK(c, ecop::isOnTwistECHom2(o), #fn " on the twist", "Q=" << Q.str()); c.eval(hmix(h, hstr(#fn))); c.ctr(#fn)++; }
	END(FrobEndOnTwist_1, f1) END(FrobEndOnTwist_2, w2) END(FrobEndOnTwist_8, w8)
	if (sub) {
		c.begin("eigenvalue"); ecop::FrobEndOnTwist_1(o, q); Ec2 e, k; G.rep(e, Q); k = e * toV(ref::zmod(ref::C().p, ref::C().r)); Ec2 w(o[0], o[1]);
		CHECK(c, w == k, "eigenvalue p", "Q=" << Q.str()); P2 kq = ref::mul(Q, ref::zmod(ref::C().p, ref::C().r)); CHECK(c, eq(o, kq), "eigenvalue p (reference)", Q.str());
		ecop::FrobEndOnTwist_2(o, q); P2 k2 = ref::mul(Q, ref::zmod(ref::C().p * ref::C().p, ref::C().r)); CHECK(c, eq(o, k2), "eigenvalue p^2", Q.str());
		c.eval(hmix(h, 20)); c.ctr("eigenvalue")++;
	}
	if (i % 3 == 0) { // additive
		P2 R = G.p2any(), S = ref::add(Q, R); if (!S.inf) { Fp2 a[2], b[2], s[2], r0[2] = { mk(R.x), mk(R.y) }, s0[2] = { mk(S.x), mk(S.y) }; ecop::FrobEndOnTwist_1(a, q); ecop::FrobEndOnTwist_1(b, r0); ecop::FrobEndOnTwist_1(s, s0); c.begin("homomorphism"); Ec2 A(a[0], a[1]), B(b[0], b[1]), T(s[0], s[1]); CHECK(c, A + B == T, "homomorphism", "Q=" << Q.str() << " R=" << R.str()); c.eval(hmix(h, 21)); c.ctr("homomorphism")++; }
	}
	if (i % 32 == 1) { // characteristic equation: pi^2(Q) - t pi(Q) + pQ = 0 on every point of the twist
		P2 e = ref::add(ref::add(f2, ref::neg(ref::mul(f1, ref::C().t))), ref::mul(Q, ref::C().p)); HARNESS_REQUIRE(e.inf);
	}
	c.ctr(sub ? "subgroup points" : "twist points")++; if (c.wantSample()) c.sample("Q=" + Q.str());
}

void suite(Ctx& c)
{
	Gen G(c); std::vector<P2> s; for (int i = 0; i < 4; i++) s.push_back(G.p2sub());
	HARNESS_REQUIRE(ref::pow(ref::F2(3L, 5L), ref::C().p) == ref::conj(ref::F2(3L, 5L)));
	for (u64 i = 0, n = c.n(400); i < n; i++) {
		bool sub = i % 8 == 0; P2 Q = sub ? s[c.g.u(s.size())] : G.p2any(); if (!sub && i % 4 == 1) Q = thin(G, c);
		if (sub) s[c.g.u(s.size())] = ref::add(s[c.g.u(s.size())], ref::dbl(Q)); if (s[0].inf || s[1].inf || s[2].inf || s[3].inf) { for (int k = 0; k < 4; k++) if (s[k].inf) s[k] = G.p2sub(); }
		one(c, G, Q, sub, i);
	}
}
