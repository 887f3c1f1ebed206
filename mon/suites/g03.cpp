// G03: point validity
#include "../common.hpp"
using namespace mon;
using ref::Pt;
namespace ecop = bn::ecop;

static ref::P1 anyPt(Gen& G, ref::F1 *) { return G.p1(); }
static ref::P2 anyPt(Gen& G, ref::F2 *) { return G.p2any(); }
static bool onAff(const Fp *p) { return ecop::isOnECHom2(p); }
static bool onAff(const Fp2 *p) { return ecop::isOnTwistECHom2(p); }
static bool onHom(const Fp *p) { return ecop::isOnECHom3(p); }
static bool onHom(const Fp2 *p) { return ecop::isOnTwistECHom3(p); }
static bool onJac(const Fp *p) { return ecop::isOnECJac3(p); }
static bool onJac(const Fp2 *p) { return ecop::isOnTwistECJac3(p); }
static ref::F1 gen(Gen& G, ref::F1 *) { return G.f1(); }
static ref::F2 gen(Gen& G, ref::F2 *) { return G.f2(); }
static ref::F1 nudge(Gen& G, const ref::F1& a) { // one coordinate moved a little
	Rng& g = G.g;
	switch (g.u(7)) {
	case 0: return a + ref::F1(1); case 1: return a - ref::F1(1); case 2: return -a; case 3: return a + a; case 4: return ref::F1();
	case 5: { ref::F1 m = ref::toMont(a); m.v[g.u(4)] ^= 1ULL << g.u(64); if (mpn_cmp(m.v, ref::C().pl, 4) >= 0) return a + ref::F1(2); return ref::fromMontRaw((const u64 *)m.v); } // one bit of the stored form
	default: return G.f1();
	}
}
static ref::F2 nudge(Gen& G, const ref::F2& a) { switch (G.g.u(5)) { case 0: return ref::F2(nudge(G, a.a), a.b); case 1: return ref::F2(a.a, nudge(G, a.b)); case 2: return ref::conj(a); case 3: return ref::F2(a.b, a.a); default: return ref::F2(nudge(G, a.a), nudge(G, a.b)); } }
static bool sqrtOf(ref::F1& y, const ref::F1& x) { return ref::sqrt(y, x); }
static bool sqrtOf(ref::F2& y, const ref::F2& x) { return ref::sqrt(y, x); }
template<class F> std::vector<F> otherB(); // constants of curves one may mistake for ours
template<> std::vector<ref::F1> otherB() { std::vector<ref::F1> v; long b[] = { 0, 1, 2, 3, 4, 5, 82, -2, -3, -82 }; for (int i = 0; i < 10; i++) if (b[i] != ref::C().b) v.push_back(ref::F1(b[i])); v.push_back(ref::toMont(ref::B1())); return v; }
template<> std::vector<ref::F2> otherB() { std::vector<ref::F2> v; v.push_back(ref::F2(ref::B1()) * ref::XI()); v.push_back(ref::F2(ref::B1())); v.push_back(ref::F2()); v.push_back(-ref::BT()); v.push_back(ref::conj(ref::BT())); v.push_back(ref::F2(ref::F1(ref::C().b == 82 ? 3L : 82L)) * ref::inv(ref::XI())); return v; }

template<class E, class L, class F> void decide(Ctx& c, const F& X, const F& Y, const F& Zc, const char *grp, const char *kind)
{
	std::string g(grp), d; const F zz = Zc * Zc, z3 = zz * Zc, z6 = z3 * z3; const F B = ref::coefB(Zc);
	const bool jac = Zc.isZero() || Y * Y == X * X * X + B * z6, hom = Zc.isZero() || Y * Y * Zc == X * X * X + B * z3, aff = Y * Y == X * X * X + B;
	L p[3] = { mk(X), mk(Y), mk(Zc) }; const L p0[3] = { p[0], p[1], p[2] };
	const u64 h = hv(X, hv(Y, hv(Zc, hstr(g))));
	#define EQ(name, got, want) { std::string nm = g + " " name; c.begin(nm.c_str()); bool got_ = (got); CHECK(c, got_ == (want), nm, nm << " said " << got_ << " kind=" << kind << " X=" << X.str() << " Y=" << Y.str() << " Z=" << Zc.str()); c.eval(hmix(h, hstr(nm))); }
	EQ("isOn..Jac3", onJac(p), jac) EQ("isOn..Hom3", onHom(p), hom) EQ("isOn..Hom2", onAff(p), aff)
	E e; e.p[0] = p[0]; e.p[1] = p[1]; e.p[2] = p[2]; EQ("isValid", e.isValid(), jac)
	CHECK(c, memcmp(e.p, p0, sizeof p0) == 0 && memcmp(p, p0, sizeof p0) == 0, g + " isValid:input", "changed");
	struct T { // does it throw, and what
		static int jac(E& t, const L *p, int how) { try { if (how == 0) t.set(p[0], p[1], p[2]); else if (how == 1) t.set(p[0], p[1], p[2], true); else if (how == 2) t = E(p[0], p[1], p[2]); else t = E(p[0], p[1], p[2], true); return 1; } catch (std::runtime_error&) { return 0; } catch (...) { return 2; } }
		static int aff(E& t, const L *p, int how) { try { if (how == 0) t.set(p[0], p[1]); else if (how == 1) t.set(p[0], p[1], true); else if (how == 2) t = E(p[0], p[1]); else t = E(p[0], p[1], true); return 1; } catch (std::runtime_error&) { return 0; } catch (...) { return 2; } }
	};
	const int how = (int)c.g.u(4);
	{ std::string nm = g + " set(x,y,z)"; c.begin(nm.c_str()); E t; int r = T::jac(t, p, how); CHECK(c, r == (jac ? 1 : 0), nm, nm << " outcome " << r << " kind=" << kind << " X=" << X.str() << " Y=" << Y.str() << " Z=" << Zc.str()); if (r == 1) CHECK(c, memcmp(t.p, p0, sizeof p0) == 0, nm + ":stored", "other coordinates stored"); c.eval(hmix(h, 11)); }
	{ std::string nm = g + " set(x,y)"; c.begin(nm.c_str()); E t; int r = T::aff(t, p, how); CHECK(c, r == (aff ? 1 : 0), nm, nm << " outcome " << r << " kind=" << kind << " X=" << X.str() << " Y=" << Y.str()); if (r == 1) CHECK(c, memcmp(t.p, p0, 2 * sizeof p0[0]) == 0 && same(t.p[2], F(1L)), nm + ":stored", "other coordinates stored"); c.eval(hmix(h, 12)); }
	{ std::string nm = g + " unchecked"; c.begin(nm.c_str()); E t; t.set(p[0], p[1], p[2], false); CHECK(c, memcmp(t.p, p0, sizeof p0) == 0, nm, "stored other coordinates"); E u(p[0], p[1], false); CHECK(c, memcmp(u.p, p0, 2 * sizeof p0[0]) == 0 && same(u.p[2], F(1L)), nm, "stored other coordinates"); EQ("isValid of unchecked", u.isValid(), aff) }
	c.ctr(g + (jac ? " on curve" : " off curve"))++; c.ctr(std::string("kind ") + kind)++;
	if (c.wantSample()) c.sample(g + " " + kind + " X=" + X.str() + " Y=" + Y.str() + " Z=" + Zc.str());
}

template<class E, class L, class F> void one(Ctx& c, Gen& G, std::vector<Pt<F> >& pool, const char *grp)
{
	if (c.g.u(5) == 0) pool[c.g.u(pool.size())] = anyPt(G, (F *)0);
	Pt<F> P = pool[c.g.u(pool.size())]; F z = c.g.coin() ? F(1L) : gen(G, (F *)0), zz = z * z;
	F X = P.x * zz, Y = P.y * zz * z, X1 = X, Y1 = Y, z1 = z;
	decide<E, L, F>(c, X, Y, z, grp, "valid");
	switch (c.g.u(8)) {
	case 0: X1 = nudge(G, X); decide<E, L, F>(c, X1, Y, z, grp, "x moved"); break;
	case 1: Y1 = nudge(G, Y); decide<E, L, F>(c, X, Y1, z, grp, "y moved"); break;
	case 2: z1 = nudge(G, z); decide<E, L, F>(c, X, Y, z1, grp, "z moved"); break;
	case 3: decide<E, L, F>(c, Y, X, z, grp, "x,y swapped"); break;
	case 4: decide<E, L, F>(c, gen(G, (F *)0), gen(G, (F *)0), c.g.coin() ? F(1L) : gen(G, (F *)0), grp, "arbitrary"); break;
	case 5: { static const std::vector<F> bs = otherB<F>(); F b = bs[c.g.u(bs.size())], x = gen(G, (F *)0), y; for (int k = 0; k < 12 && !sqrtOf(y, x * x * x + b); k++) x = x + F(1L); if (y * y == x * x * x + b) decide<E, L, F>(c, x * zz, y * zz * z, z, grp, "of another curve"); break; }
	case 6: decide<E, L, F>(c, X, Y, F(), grp, "infinity"); decide<E, L, F>(c, F(), F(), F(), grp, "all zero"); decide<E, L, F>(c, F(), F(), F(1L), grp, "origin"); break;
	default: { F h = P.x * z, k = P.y * z; decide<E, L, F>(c, h, k, z, grp, "homogeneous"); decide<E, L, F>(c, F(), P.y, z, grp, "x zero"); decide<E, L, F>(c, P.x, F(), z, grp, "y zero"); }
	}
}

void suite(Ctx& c)
{
	Gen G(c); std::vector<ref::P1> a; std::vector<ref::P2> b;
	for (int i = 0; i < 8; i++) { a.push_back(anyPt(G, (ref::F1 *)0)); b.push_back(anyPt(G, (ref::F2 *)0)); }
	b.push_back(G.p2sub());
	for (u64 i = 0, n = c.n(3000); i < n; i++) { one<Ec1, Fp>(c, G, a, "G1"); if (i % 2 == 0) one<Ec2, Fp2>(c, G, b, "G2"); }
}
