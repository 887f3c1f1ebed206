// P01: the pairing against a textbook implementation
#include "../lines.hpp"
using namespace mon;
using ref::F12;

template<class E> bool rawSame(const E& a, const E& b) { return memcmp(a.p, b.p, sizeof a.p) == 0; }

void suite(Ctx& c)
{
	Gen G(c); c.begin("self check"); ref::selfCheck();
	std::vector<ref::P1> a; std::vector<ref::P2> b;
	for (int i = 0; i < 6; i++) { a.push_back(G.p1()); b.push_back(G.p2sub()); }
	{ Z k = 12345; HARNESS_REQUIRE(ref::pairing(ref::mul(b[0], k), a[0]) == ref::pairing(b[0], ref::mul(a[0], k)) && ref::pairing(b[0], a[0]) != F12(1L)); }
	lineFunctions(c, G, c.n(60) * 40, true);
	for (u64 i = 0, n = c.n(60); i < n; i++) {
		ref::P1 P = a[c.g.u(a.size())]; ref::P2 Q = b[c.g.u(b.size())];
		a[c.g.u(a.size())] = c.g.coin() ? G.p1() : ref::add(P, a[c.g.u(a.size())]);
		{ ref::P2 t = c.g.u(5) ? ref::add(Q, ref::neg(ref::mul(b[c.g.u(b.size())], Z(2 + (long)c.g.u(7))))) : ref::mul(Q, G.scalar(256)); if (!t.inf) b[c.g.u(b.size())] = t; }
		if (a[0].inf) a[0] = G.p1();
		switch (c.g.u(16)) { case 0: P = ref::P1(); break; case 1: Q = ref::P2(); break; case 2: if (c.g.u(3) == 0) { P = ref::P1(); Q = ref::P2(); } break; }
		F12 w = ref::pairing(Q, P); const u64 h = hv(P, hv(Q)); const bool nt = !P.inf && !Q.inf;
		const std::string in = "P=" + P.str() + " Q=" + Q.str();
		Fp12 f;
		#define PAIR(name, CALL) { c.begin(name); f = mk(G.f12()); CALL; CHECK(c, same(f, w), name, name " " << in << " got=" << rawStr(f) << " want=" << w.str()); c.ctr(name)++; }
		Ec1 p, p0; Ec2 q, q0;
		for (int k = 0; k < 3; k++) { // several representations
			G.rep(p, P, k == 0 ? 0 : -1); G.rep(q, Q, k == 0 ? 0 : -1); p0 = p; q0 = q; const u64 hk = hbytes(p.p, sizeof p.p, hbytes(q.p, sizeof q.p, h));
			{ Ec1 tp = p; Ec2 tq = q; PAIR("opt_atePairing(Ec2,Ec1)", bn::opt_atePairing(f, tq, tp)) CHECK(c, samePt(tp, P) && samePt(tq, Q), "opt_atePairing(Ec2,Ec1):input", "the points denote something else afterwards " << in); PAIR("opt_atePairing again", bn::opt_atePairing(f, tq, tp)) c.eval(hmix(hk, 1), nt); }
			{ PAIR("opt_atePairingJac", bn::opt_atePairingJac<Fp>(f, q.p, p.p)) CHECK(c, rawSame(p, p0) && rawSame(q, q0), "opt_atePairingJac:input", "points changed " << in); c.eval(hmix(hk, 2), nt); }
			if (nt && k == 0) { Fp2 qq[2] = { mk(Q.x), mk(Q.y) }; Fp pp[2] = { mk(P.x), mk(P.y) }; const Fp2 q1[2] = { qq[0], qq[1] }; const Fp p1[2] = { pp[0], pp[1] }; PAIR("opt_atePairing(affine)", bn::opt_atePairing<Fp>(f, qq, pp)) CHECK(c, memcmp(qq, q1, sizeof qq) == 0 && memcmp(pp, p1, sizeof pp) == 0, "opt_atePairing(affine):input", "coordinates changed"); c.eval(hmix(hk, 3)); }
		}
		CHECK(c, !nt || !(f == Fp12(1)), "degenerate", in); if (!nt) c.ctr("with infinity")++;
		if (c.wantSample()) c.sample(in);
	}
}
