// P03: precomputed lines and product loops against direct pairings
#include "../lines.hpp"
using namespace mon;
using ref::F12;
typedef std::vector<Fp6> Coeff;

static bool sameCoeff(const Coeff& x, const Coeff& y) { return x.size() == y.size() && memcmp(&x[0], &y[0], x.size() * sizeof(Fp6)) == 0; }

void suite(Ctx& c)
{
	Gen G(c); std::vector<ref::P1> a; std::vector<ref::P2> b; std::vector<Coeff> keep; std::vector<Coeff> keepCopy; std::vector<ref::P2> keepQ;
	for (int i = 0; i < 6; i++) { a.push_back(G.p1()); b.push_back(G.p2sub()); }
	lineFunctions(c, G, c.n(150) * 20, false);
	Coeff dirty; size_t len = 0;
	for (u64 i = 0, n = c.n(150); i < n; i++) {
		int ia = (int)c.g.u(6), ib = (int)c.g.u(6); ref::P1 P = a[ia]; ref::P2 Q = b[ib]; a[c.g.u(6)] = G.p1();
		{ ref::P2 t = ref::add(ref::dbl(Q), b[c.g.u(6)]); if (!t.inf) b[c.g.u(6)] = t; }
		if (c.g.u(8) == 0) Q = ref::neg(Q);
		Ec1 p; Ec2 q; G.rep(p, P); G.rep(q, Q, (int)i % 6); const Ec2 q0 = q; const std::string in = "P=" + P.str() + " Q=" + Q.str(); const u64 h = hv(P, hbytes(q.p, sizeof q.p));
		c.begin("precomputeG2"); Coeff co; Fp2 nq[3] = { mk(G.f2()), mk(G.f2()), mk(G.f2()) }; bn::components::precomputeG2(co, nq, q.p);
		CHECK(c, memcmp(q.p, q0.p, sizeof q.p) == 0, "precomputeG2:input", "input point changed " << in);
		CHECK(c, same(nq[0], Q.x) && same(nq[1], Q.y) && same(nq[2], ref::F2(1L)), "precomputeG2 returns Q", "rep=" << rawPt(q0) << " " << in);
		{ Coeff c2 = dirty; Fp2 n2[3]; smear(n2); Ec2 r; G.rep(r, Q); bn::components::precomputeG2(c2, n2, r.p); CHECK(c, sameCoeff(co, c2), "precomputeG2 representation", "coefficients depend on the representation or the earlier content " << in << " rep1=" << rawPt(q0) << " rep2=" << rawPt(r)); c.eval(hmix(h, 1)); }
		if (i % 16 == 3) dirty = co; if (i % 16 == 5) dirty.resize(3); if (i % 16 == 9) dirty.resize(500);
		if (!len) len = co.size(); c.ctr("max:coefficients") = len;
		Fp12 d, f = mk(G.f12()); smear(d); bn::opt_atePairing(d, q, p); Fp pp[2] = { mk(P.x), mk(P.y) }; const Fp pp0[2] = { pp[0], pp[1] }; const Coeff co0 = co;
		c.begin("millerLoop"); bn::components::millerLoop(f, co, pp); const Fp12 ml = f; f.final_exp(); CHECK(c, f == d, "millerLoop", "precomputed differs from direct " << in << " got=" << rawStr(f) << " want=" << rawStr(d)); CHECK(c, sameCoeff(co, co0) && memcmp(pp, pp0, sizeof pp) == 0, "millerLoop:input", "inputs changed " << in); c.eval(hmix(h, 3)); c.ctr("millerLoop")++;
		if (i % 8 == 1) { F12 w = ref::pairing(Q, P); CHECK(c, same(f, w), "millerLoop against reference", in << " got=" << rawStr(f)); c.eval(hmix(h, 4)); }
		{ Fp12 t = mk(G.f12()); bn::components::millerLoop(t, co, pp); CHECK(c, t == ml, "millerLoop repeated", "same inputs, other value " << in); }
		// the product loop
		int jb = c.g.u(4) ? (int)c.g.u(6) : ib; ref::P1 S = c.g.u(4) ? a[c.g.u(6)] : c.g.coin() ? P : ref::neg(P); ref::P2 T = c.g.u(5) ? b[jb] : Q;
		Ec1 s; Ec2 t; G.rep(s, S); G.rep(t, T); Coeff ct; Fp2 nt[3]; smear(nt); bn::components::precomputeG2(ct, nt, t.p); Fp ps[2] = { mk(S.x), mk(S.y) }; Fp12 d2; smear(d2); bn::opt_atePairing(d2, t, s);
		c.begin("millerLoop2"); Fp12 g = mk(G.f12()); bn::components::millerLoop2(g, co, pp, ct, ps); Fp12 g2 = mk(G.f12()); bn::components::millerLoop2(g2, ct, ps, co, pp); g.final_exp(); g2.final_exp(); Fp12 w = d * d2;
		CHECK(c, g == w, "millerLoop2", "product loop differs from the product " << in << " S=" << S.str() << " T=" << T.str()); CHECK(c, g2 == w, "millerLoop2 swapped", in << " S=" << S.str() << " T=" << T.str()); CHECK(c, sameCoeff(co, co0), "millerLoop2:input", "coefficients changed"); c.eval(hmix(h, hv(S, hv(T, 5)))); c.ctr("millerLoop2")++;
		if (S == ref::neg(P) && T == Q) { CHECK(c, g == Fp12(1), "millerLoop2 cancelling", in); c.ctr("cancelling product")++; }
		if (i % 4 == 2) { Fp12 m2 = mk(G.f12()); bn::components::millerLoop2(m2, co, pp, co, pp); m2.final_exp(); CHECK(c, m2 == d * d, "millerLoop2 same pair", in); c.eval(hmix(h, 6)); }
		// arguments that are one object, or equal objects
		if (i % 3 == 1) {
			ref::P1 N = ref::neg(P); Fp pn[2] = { mk(N.x), mk(N.y) }, pq[2] = { pp[0], pp[1] }; Fp12 ds, dt; smear(ds); smear(dt); bn::opt_atePairing(ds, q, s); bn::opt_atePairing(dt, t, p); const Coeff cc = co; Fp12 x = mk(G.f12());
			c.begin("millerLoop2"); const std::string io = in + " S=" + S.str() + " T=" + T.str();
			bn::components::millerLoop2(x, co, pp, co, ps); x.final_exp(); CHECK(c, x == d * ds, "millerLoop2 one coefficient object, two points", io); x = mk(G.f12());
			bn::components::millerLoop2(x, co, ps, co, pp); x.final_exp(); CHECK(c, x == d * ds, "millerLoop2 one coefficient object, two points swapped", io); x = mk(G.f12());
			bn::components::millerLoop2(x, co, pp, cc, ps); x.final_exp(); CHECK(c, x == d * ds, "millerLoop2 equal coefficients, two points", io); x = mk(G.f12());
			bn::components::millerLoop2(x, co, pp, ct, pp); x.final_exp(); CHECK(c, x == d * dt, "millerLoop2 one point object, two coefficients", io); x = mk(G.f12());
			bn::components::millerLoop2(x, ct, pp, co, pq); x.final_exp(); CHECK(c, x == d * dt, "millerLoop2 equal points, two coefficients", io); x = mk(G.f12());
			bn::components::millerLoop2(x, co, pp, co, pn); x.final_exp(); CHECK(c, x == Fp12(1), "millerLoop2 one coefficient object, opposite points", io); x = mk(G.f12());
			bn::components::millerLoop2(x, co, pp, cc, pq); x.final_exp(); CHECK(c, x == d * d, "millerLoop2 equal pairs", io);
			CHECK(c, sameCoeff(co, co0) && sameCoeff(cc, co0), "millerLoop2:input", "coefficients changed " << io); c.eval(hmix(h, hv(S, hv(T, 9)))); c.ctr("shared or equal arguments") += 7;
		}
		// products of single loops share one final exponentiation
		if (i % 4 == 3) { Fp12 x, y; smear(x); smear(y); bn::components::millerLoop(x, co, pp); bn::components::millerLoop(y, ct, ps); x *= y; x.final_exp(); CHECK(c, x == w, "product of loops", in); c.eval(hmix(h, 7)); }
		// coefficients kept from earlier are still good
		if (i % 8 == 0 && keep.size() < 6) { keep.push_back(co); keepCopy.push_back(co); keepQ.push_back(Q); }
		if (i % 3 == 0 && !keep.empty()) { size_t k = c.g.u(keep.size()); Fp12 x; smear(x); bn::components::millerLoop(x, keep[k], ps); x.final_exp(); Ec2 kq; G.rep(kq, keepQ[k]); Fp12 y; smear(y); bn::opt_atePairing(y, kq, s); CHECK(c, x == y && sameCoeff(keep[k], keepCopy[k]), "reuse of coefficients", "k=" << k << " S=" << S.str()); c.eval(hv(S, hv(keepQ[k], 8))); c.ctr("reuse")++; }
		if (c.wantSample()) c.sample(in);
	}
}
