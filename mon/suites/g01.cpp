// G01: group law on G1 and the twist
#include "../common.hpp"
using namespace mon;
using ref::Pt;

static ref::P1 anyPt(Gen& G, ref::F1 *) { return G.p1(); }
static ref::P2 anyPt(Gen& G, ref::F2 *) { return G.c.g.u(3) ? G.p2any() : G.p2sub(); }
template<class E> bool rawSame(const E& a, const E& b) { return memcmp(a.p, b.p, sizeof a.p) == 0; }
// the same point has the cube root of unity multiples of x
template<class F> F beta() { static const F w(ref::F1(ref::zpow(Z(7), (ref::C().p - 1) / 3, ref::C().p))); return w; }

template<class F> struct Src { // points are cheap to draw: a pool grown by reference additions
	std::vector<Pt<F> > v; Gen& G; Ctx& c;
	Src(Gen& G_, Ctx& c_) : G(G_), c(c_) { for (int i = 0; i < 12; i++) v.push_back(anyPt(G, (F *)0)); }
	Pt<F> get() {
		if (c.g.u(12) == 0) return Pt<F>();
		if (c.g.u(6) == 0) v[c.g.u(v.size())] = c.g.u(3) ? ref::add(v[c.g.u(v.size())], v[c.g.u(v.size())]) : anyPt(G, (F *)0);
		Pt<F> P = v[c.g.u(v.size())]; if (P.inf) return P;
		switch (c.g.u(6)) { case 0: P = ref::neg(P); break; case 1: P.x = P.x * beta<F>(); break; }
		return P;
	}
	Pt<F> related(const Pt<F>& P) {
		switch (c.g.u(9)) {
		case 0: return P;
		case 1: return ref::neg(P);
		case 2: return P.inf ? P : Pt<F>(P.x * beta<F>(), P.y);                    // same y
		case 3: return P.inf ? P : Pt<F>(P.x * beta<F>() * beta<F>(), -P.y);
		case 4: return ref::dbl(P);
		case 5: return ref::neg(ref::dbl(P));                                    // the sum is -P
		case 6: return Pt<F>();
		default: return get();
		}
	}
};

template<class E, class F> void pairOps(Ctx& c, Gen& G, Src<F>& S, const char *grp)
{
	Pt<F> P = S.get(), Q = S.related(P); if (c.g.u(5) == 0) std::swap(P, Q);
	E a, b; G.template rep<E, F>(a, P); G.template rep<E, F>(b, Q);
	if (c.g.u(4) == 0 && P == Q) b = a; // the same representation too
	const E a0 = a, b0 = b; const Pt<F> sum = ref::add(P, Q), dif = ref::add(P, ref::neg(Q)), two = ref::dbl(P);
	const u64 h = hv(P, hv(Q, hbytes(a.p, sizeof a.p, hbytes(b.p, sizeof b.p)))); const bool nt = !P.inf && !Q.inf;
	std::string g(grp); E z; G.template rep<E, F>(z, S.get());
	#define OP(name, CALL, RES, WANT) { std::string nm = g + " " name; c.begin(nm.c_str()); CALL; CHECK(c, samePt(RES, WANT), nm, nm << " P=" << P.str() << " Q=" << Q.str() << " a=" << rawPt(a0) << " b=" << rawPt(b0) << " got=" << rawPt(RES) << " want=" << (WANT).str()); \
		CHECK(c, (RES).isValid(), nm + " validity", "P=" << P.str() << " Q=" << Q.str()); c.eval(hmix(h, hstr(nm)), nt); c.ctr(nm)++; }
	#define UNCH(name) CHECK(c, rawSame(a, a0) && rawSame(b, b0), g + " " name ":input", "operands changed P=" << P.str() << " Q=" << Q.str() << " a=" << rawPt(a) << " b=" << rawPt(b))
	OP("add", smear(z.p); E::add(z, a, b), z, sum) UNCH("add");
	OP("sub", smear(z.p); E::sub(z, a, b), z, dif) UNCH("sub");
	OP("dbl", smear(z.p); E::dbl(z, a), z, two) UNCH("dbl");
	OP("neg", smear(z.p); E::neg(z, a), z, ref::neg(P)) UNCH("neg");
	switch (c.g.u(6)) {
	case 0: { OP("operator+", E t(a + b); z = t, z, sum) OP("operator-", E t(a - b); z = t, z, dif) UNCH("operator"); break; }
	case 1: { E t = a; OP("+=", t += b, t, sum) UNCH("+="); t = a; OP("-=", t -= b, t, dif) UNCH("-="); break; }
	case 2: { E t = b; OP("add out=second", E::add(t, a, t), t, sum) t = b; OP("sub out=second", E::sub(t, a, t), t, dif) break; }
	case 3: { E t = a; OP("add out=both", E::add(t, t, t), t, two) t = a; OP("sub out=both", E::sub(t, t, t), t, (Pt<F>())) t = a; OP("+= self", t += t, t, two) t = a; OP("-= self", t -= t, t, (Pt<F>())) break; }
	case 4: { E t = a; OP("dbl in place", E::dbl(t, t), t, two) t = a; OP("neg in place", E::neg(t, t), t, ref::neg(P)) OP("add same object", smear(z.p); E::add(z, a, a), z, two) OP("sub same object", smear(z.p); E::sub(z, a, a), z, (Pt<F>())) UNCH("same object"); break; }
	default: { E t = a; OP("ECAdd in place", bn::ecop::ECAdd(t.p, t.p, b.p), t, sum) t = b; OP("ECAdd out=second", bn::ecop::ECAdd(t.p, a.p, t.p), t, sum) t = a; OP("ECDouble in place", bn::ecop::ECDouble(t.p, t.p), t, two) }
	}
	if (P.inf || Q.inf) c.ctr("with infinity")++; else if (P == Q) c.ctr("equal points")++; else if (P == ref::neg(Q)) c.ctr("opposite points")++; else if (P.x == Q.x || P.y == Q.y || P.y == -Q.y) c.ctr("sharing a coordinate")++; else c.ctr("unrelated")++;
	if (c.wantSample()) c.sample(g + " P=" + P.str() + " Q=" + Q.str());
}

// a long history of operations on objects that are never normalised
template<class E, class F> void history(Ctx& c, Gen& G, Src<F>& S, const char *grp, int steps)
{
	const int N = 5; E e[N]; Pt<F> m[N]; std::string g(grp), nm = g + " history";
	for (int i = 0; i < N; i++) { m[i] = S.get(); G.template rep<E, F>(e[i], m[i]); }
	c.begin(nm.c_str()); std::string log;
	for (int s = 0; s < steps; s++) {
		int i = (int)c.g.u(N), j = (int)c.g.u(N), k = (int)c.g.u(N), op = (int)c.g.u(9); char t[40]; sprintf(t, "%d:%d,%d,%d ", op, k, i, j); log += t;
		switch (op) {
		case 0: case 1: E::add(e[k], e[i], e[j]); m[k] = ref::add(m[i], m[j]); break;
		case 2: case 3: E::sub(e[k], e[i], e[j]); m[k] = ref::add(m[i], ref::neg(m[j])); break;
		case 4: E::dbl(e[k], e[i]); m[k] = ref::dbl(m[i]); break;
		case 5: E::neg(e[k], e[i]); m[k] = ref::neg(m[i]); break;
		case 6: e[k] = e[i]; m[k] = m[i]; break;
		case 7: e[k] += e[i]; m[k] = ref::add(m[k], m[i]); break;
		default: if (c.g.u(4) == 0) { e[k].normalize(); } else { m[k] = S.get(); G.template rep<E, F>(e[k], m[k]); } break;
		}
		CHECK(c, samePt(e[k], m[k]), nm, nm << " after " << log.substr(log.size() > 300 ? log.size() - 300 : 0) << " got=" << rawPt(e[k]) << " want=" << m[k].str());
		c.eval(hbytes(e[k].p, sizeof e[k].p), !m[k].inf); c.ctr(nm)++;
	}
}

void suite(Ctx& c)
{
	Gen G(c); Src<ref::F1> s1(G, c); Src<ref::F2> s2(G, c);
	for (u64 i = 0, n = c.n(3000); i < n; i++) { pairOps<Ec1>(c, G, s1, "G1"); if (i % 3 == 0) pairOps<Ec2>(c, G, s2, "G2"); }
	for (u64 i = 0, n = c.n(40); i < n; i++) { history<Ec1>(c, G, s1, "G1", 60); history<Ec2>(c, G, s2, "G2", 30); }
}
