// G04: equality, normalisation and printing do not change what a point denotes
#include "../common.hpp"
using namespace mon;
using ref::Pt;

static ref::P1 anyPt(Gen& G, ref::F1 *) { return G.p1(); }
static ref::P2 anyPt(Gen& G, ref::F2 *) { return G.p2any(); }
template<class E> bool rawSame(const E& a, const E& b) { return memcmp(a.p, b.p, sizeof a.p) == 0; }

template<class E, class F> void normals(Ctx& c, Gen& G, const Pt<F>& P, const char *grp)
{
	std::string g(grp); E e; G.template rep<E, F>(e, P); const E e0 = e; const u64 h = hbytes(e.p, sizeof e.p); std::string nm;
	nm = g + " normalize"; c.begin(nm.c_str()); { const E& k = e; k.normalize(); }
	CHECK(c, samePt(e, P), nm, nm << " changed the point rep=" << rawPt(e0) << " got=" << rawPt(e) << " P=" << P.str());
	if (!P.inf) CHECK(c, same(e.p[0], P.x) && same(e.p[1], P.y) && same(e.p[2], F(1L)), nm + ":affine", nm << " rep=" << rawPt(e0) << " got=" << rawPt(e));
	else CHECK(c, e.isZero(), nm + ":infinity", "infinity normalised to " << rawPt(e));
	CHECK(c, e.isZero() == P.inf && e0.isZero() == P.inf, g + " isZero", rawPt(e0));
	const E e1 = e; e.normalize(); CHECK(c, rawSame(e, e1), nm + " twice", "second normalisation changed the coordinates " << rawPt(e1)); c.eval(hmix(h, 1)); c.ctr(nm)++;
	nm = g + " NormalizeJac"; c.begin(nm.c_str()); { E t = e0, o; smear(o.p); bn::ecop::NormalizeJac(o.p, t.p); CHECK(c, samePt(o, P) && (P.inf || (same(o.p[0], P.x) && same(o.p[1], P.y) && same(o.p[2], F(1L)))), nm, "rep=" << rawPt(e0) << " got=" << rawPt(o)); CHECK(c, rawSame(t, e0), nm + ":input", "changed"); bn::ecop::NormalizeJac(t.p, t.p); CHECK(c, rawSame(t, o), nm + " in place", "rep=" << rawPt(e0) << " got=" << rawPt(t)); c.eval(hmix(h, 2)); c.ctr(nm)++; }
	nm = g + " NormalizeHom"; c.begin(nm.c_str()); { E t = e0, o; F z = val(e0.p[2]); if (!P.inf) { t.p[0] = mk(P.x * z); t.p[1] = mk(P.y * z); } E t0 = t; smear(o.p); bn::ecop::NormalizeHom(o.p, t.p); if (P.inf) CHECK(c, o.isZero(), nm, rawPt(o)); else CHECK(c, same(o.p[0], P.x) && same(o.p[1], P.y) && same(o.p[2], F(1L)), nm, "rep=" << rawPt(t0) << " got=" << rawPt(o)); CHECK(c, rawSame(t, t0), nm + ":input", "changed"); c.eval(hmix(h, 3)); c.ctr(nm)++; }
	nm = g + " print"; c.begin(nm.c_str()); { E t = e0; std::ostringstream os; os << t; std::ostringstream o2; o2 << e1; CHECK(c, os.str() == o2.str(), nm, "text depends on the representation: " << os.str() << " / " << o2.str()); CHECK(c, samePt(t, P), nm + ":denotes", "printing changed the point " << rawPt(e0) << " -> " << rawPt(t)); c.eval(hmix(h, 4)); c.ctr(nm)++; }
	nm = g + " copy"; { E t(e0); E u; u = t; CHECK(c, rawSame(t, e0) && rawSame(u, e0), nm, "copy differs"); }
}

// pairwise comparison of a family of representations, some equal, some nearly equal
template<class E, class F> void family(Ctx& c, Gen& G, std::vector<Pt<F> >& pool, const char *grp)
{
	static const F beta(ref::F1(ref::zpow(Z(7), (ref::C().p - 1) / 3, ref::C().p)));
	std::string g(grp); const int N = 8; E e[N]; Pt<F> m[N]; Pt<F> P = pool[c.g.u(pool.size())];
	for (int i = 0; i < N; i++) {
		switch (c.g.u(8)) {
		case 0: case 1: m[i] = P; break; case 2: m[i] = ref::neg(P); break; case 3: m[i] = Pt<F>(P.x * beta, P.y); break; case 4: m[i] = Pt<F>(); break;
		case 5: m[i] = ref::dbl(P); break; default: m[i] = pool[c.g.u(pool.size())];
		}
		G.template rep<E, F>(e[i], m[i]);
		// same coordinates at another scale: a representation that shares two stored coordinates with P's
		if (c.g.u(12) == 0 && i && !m[i - 1].inf) { F s = G.scaleVal((F *)0); F ss = s * s; (void)ss; F z = val(e[i - 1].p[2]); e[i].p[0] = e[i - 1].p[0]; e[i].p[1] = e[i - 1].p[1]; e[i].p[2] = mk(-z); m[i] = ref::neg(m[i - 1]); }
	}
	E k[N]; for (int i = 0; i < N; i++) k[i] = e[i];
	for (int t = 0; t < 24; t++) {
		int i = (int)c.g.u(N), j = (int)c.g.u(N); bool want = m[i] == m[j]; std::string nm = g + " operator=="; c.begin(nm.c_str());
		const E &a = t % 3 == 0 ? k[i] : e[i], &b = t % 3 == 0 ? k[j] : t % 3 == 1 ? e[j] : k[j]; const E a0 = a, b0 = b; bool eq = a == b, ne = a != b, eq2 = b == a;
		CHECK(c, eq == want && ne == !want && eq2 == want, nm, nm << " said " << eq << ne << eq2 << " want " << want << " a=" << rawPt(a0) << " b=" << rawPt(b0) << " P=" << m[i].str() << " Q=" << m[j].str());
		CHECK(c, samePt(a, m[i]) && samePt(b, m[j]), nm + ":denotes", "comparison changed an operand a=" << rawPt(a0) << " -> " << rawPt(a) << " b=" << rawPt(b0) << " -> " << rawPt(b));
		c.eval(hbytes(a0.p, sizeof a0.p, hbytes(b0.p, sizeof b0.p)), !m[i].inf || !m[j].inf); c.ctr(want ? "equal pairs" : "unequal pairs")++;
		if (t % 3 == 0) { k[i] = e[i]; k[j] = e[j]; G.template rep<E, F>(k[i], m[i]); }
		if (!val(a0.p[2]).isZero() && val(a0.p[2]) != F(1L)) c.ctr("unnormalised operand")++;
	}
	if (c.wantSample()) c.sample(g + " family around " + P.str());
}

template<class E, class F> void group(Ctx& c, Gen& G, std::vector<Pt<F> >& pool, const char *grp)
{
	if (c.g.u(3) == 0) pool[c.g.u(pool.size())] = anyPt(G, (F *)0);
	for (int i = 0; i < 3; i++) normals<E, F>(c, G, c.g.u(8) ? pool[c.g.u(pool.size())] : Pt<F>(), grp);
	family<E, F>(c, G, pool, grp);
	// operations afterwards see the same element whether or not it was normalised, compared or printed
	Pt<F> P = pool[c.g.u(pool.size())], Q = pool[c.g.u(pool.size())], S = ref::add(P, Q); E a, b, z; G.template rep<E, F>(a, P); G.template rep<E, F>(b, Q);
	c.begin("use after lazy normalisation"); const bool same = a == b; CHECK(c, same == (P == Q), std::string(grp) + " operator==", "before addition"); std::ostringstream os; if (c.g.coin()) os << b; E::add(z, a, b); CHECK(c, samePt(z, S), std::string(grp) + " use after lazy normalisation", "P=" << P.str() << " Q=" << Q.str()); c.eval(hv(P, hv(Q, 9)));
}

void suite(Ctx& c)
{
	Gen G(c); std::vector<ref::P1> a; std::vector<ref::P2> b;
	for (int i = 0; i < 6; i++) { a.push_back(anyPt(G, (ref::F1 *)0)); b.push_back(anyPt(G, (ref::F2 *)0)); }
	for (u64 i = 0, n = c.n(1000); i < n; i++) { group<Ec1>(c, G, a, "G1"); if (i % 2 == 0) group<Ec2>(c, G, b, "G2"); }
}
