// S01: printed text is canonical and parses back
#include "../common.hpp"
#include <locale>
using namespace mon;
using mie::Vuint; using mie::Vsint;
typedef ref::F1 R;
struct TagS {}; typedef mie::ZmZ<Vuint, TagS> ZM;
static const unsigned CAP = (MIE_ZM_VUINT_BIT_LEN + 63) / 64;
static Z mod_;

static std::string dec(const Z& z) { return z.get_str(10); }
static std::string hex(const Z& z) { return z < 0 ? "-0x" + Z(-z).get_str(16) : "0x" + z.get_str(16); }
static std::string num(const Z& z, bool h) { return h ? hex(z) : dec(z); }
static std::string strip(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); i++) if (!isspace((unsigned char)s[i])) o += s[i]; return o; }
static std::string upper(std::string s) { for (size_t i = 0; i < s.size(); i++) if (s[i] >= 'a' && s[i] <= 'f') s[i] -= 32; return s; }
static std::string txt(const ref::F1& a, bool h) { return num(a.z(), h); }
static std::string txt(const ref::F2& a, bool h) { return "[" + txt(a.a, h) + "," + txt(a.b, h) + "]"; }
static std::string txt6(const ref::F12& a, int o, bool h) { return "[" + txt(a.c[o], h) + "," + txt(a.c[o + 2], h) + "," + txt(a.c[o + 4], h) + "]"; }
static std::string txt(const ref::F12& a, bool h) { return "[" + txt6(a, 0, h) + "," + txt6(a, 1, h) + "]"; }
template<class F> static std::string txtP(const ref::Pt<F>& P) { return P.inf ? "0" : txt(P.x, true) + "_" + txt(P.y, true); }
#define YES(name, ok, d) { CHECK(c, ok, name, name " of " << d); c.eval(hstr(d, hstr(name))); c.ctr(name)++; }

template<class T> static std::string put(const T& x, bool h) { std::ostringstream os; if (h) os << std::hex; std::ios_base::fmtflags f = os.flags(); os << x; if (os.flags() != f || !os) return "stream state changed"; return os.str(); }
template<class T> static bool get(T& x, const std::string& s, Ctx& c, const std::string& after = "")
{
	std::istringstream is(s + after); int how = (int)c.g.u(4);
	if (how == 1) is >> std::hex; if (how == 2) is.exceptions(std::ios::failbit | std::ios::badbit); if (how == 3 && s == strip(s)) is >> std::noskipws;
	std::ios_base::fmtflags f = is.flags();
	is >> x; return !is.fail() && is.flags() == f;
}
static bool eq(const Vuint& v, const Z& z) { return toZ(v) == z && (v.size() == 1 || v[v.size() - 1]); }
static bool eq(const Vsint& v, const Z& z) { return toZ(v) == z && v.isNegative() == (z < 0); }
static bool eq(const ZM& v, const Z& z) { return toZ(v.get()) == z; }
// a number that has already been taken apart by the stream is not reread from what follows
static const char *FOLLOW[] = { "", " ", "\n", "\t7", " 12", ",", "]", ";x", "_0x1" };

template<class T> static void number(Ctx& c, const T& x, const T& junk, const Z& z, const char *nm)
{
	c.begin(nm); const std::string D = dec(z), H = hex(z), id = std::string(nm) + " " + D; T y = junk;
	YES("toString(10)", x.toString() == D && x.toString(10) == D && T(x).toStr() == D, id) YES("toString(16)", x.toString(16) == H && T(x).toStr(16) == H, id)
	YES("<< dec", put(x, false) == D, id) YES("<< hex", put(x, true) == H, id)
	YES("T(dec)", eq(T(D), z), id) YES("T(hex)", eq(T(H), z), id) y.set(D); YES("set(dec)", eq(y, z), id) y = junk; y.set(H); YES("set(hex)", eq(y, z), id)
	y = junk; y.set(H, 16); YES("set(hex,16)", eq(y, z), id) y = junk; y.set(D, 10); YES("set(dec,10)", eq(y, z), id)
	{ std::string h0 = z < 0 ? "-" + Z(-z).get_str(16) : z.get_str(16); y = junk; y.fromStr(h0, 16); YES("fromStr(digits,16)", eq(y, z), id) y = junk; y.fromStr(D); YES("fromStr(dec)", eq(y, z), id) y = junk; y.fromStr(H, 16); YES("fromStr(hex,16)", eq(y, z), id) }
	{ // leading zeros and capital digits denote the same number
		std::string zs(c.g.u(c.g.u(4) ? 30 : 400), '0'); bool n = z < 0; Z a = abs(z); y = junk; y.set((n ? "-" : "") + std::string("0x") + zs + upper(a.get_str(16))); YES("zero-padded hex", eq(y, z), id)
		if (!(zs.size() && a.get_str(10)[0] == 'x')) { y = junk; y.set((n ? "-" : "") + zs + a.get_str(10)); YES("zero-padded dec", eq(y, z), id) }
	}
	y = junk; YES(">> dec", get(y, D, c, FOLLOW[c.g.u(9)]) && eq(y, z), id) y = junk; YES(">> hex", get(y, H, c, FOLLOW[c.g.u(9)]) && eq(y, z), id)
	YES("unchanged by printing", eq(x, z), id)
}
template<class T, class V> static void elem(Ctx& c, const T& x, const T& junk, const V& v, const char *nm)
{
	c.begin(nm); const std::string D = txt(v, false), H = txt(v, true), id = std::string(nm) + " " + D; std::string d = put(x, false), h = put(x, true); T y = junk;
	YES("<< dec", strip(d) == D, id) YES("<< hex", strip(h) == H, id)
	YES(">> dec", get(y, d, c, FOLLOW[c.g.u(9)]) && same(y, v), id) y = junk; YES(">> hex", get(y, h, c, FOLLOW[c.g.u(9)]) && same(y, v), id)
	YES("unchanged by printing", same(x, v), id)
	if (c.g.coin()) { std::string s; for (size_t i = 0; i < D.size(); i++) { s += D[i]; if ((D[i] == '[' || D[i] == ',' ) && c.g.coin()) s += c.g.coin() ? " " : "\n\t"; if (i + 1 < D.size() && (D[i + 1] == ',' || D[i + 1] == ']') && c.g.u(4) == 0) s += " "; } y = junk; std::istringstream is(s); is >> y; YES("white space inside", !is.fail() && same(y, v), id) }
}
static void fields(Ctx& c, Gen& G)
{
	{ R x = G.f1(); Fp a = mk(x), y = mk(G.f1()), j = y; elem(c, a, j, x, "Fp"); const std::string D = txt(x, false), H = txt(x, true); YES("Fp::toString", a.toString() == D && a.toString(16) == H, D) YES("Fp(string)", same(Fp(D), x) && same(Fp(H), x), D) y.set(D); YES("Fp::set", same(y, x), D) y = j; y.set(H); YES("Fp::set", same(y, x), D) y.set("0x" + upper(H.substr(2))); YES("Fp::set", same(y, x), D) }
	{ ref::F2 x = G.f2(); Fp2 a = mk(x), y = mk(G.f2()), j = y; elem(c, a, j, x, "Fp2"); const std::string D = txt(x, false), H = txt(x, true); YES("Fp2::toString", a.toString() == D && a.toString(10) == D && a.toString(16) == H, D) y.set(D); YES("Fp2::set", same(y, x), D) y = j; y.set(H); YES("Fp2::set", same(y, x), H) }
	{ Z x = G.edgeInt(c.g.u(4) == 0 ? 64 : 512); typedef Fp::Dbl FD; c.begin("FpDbl"); const std::string D = dec(x), H = hex(x); FD a(D), b; b.setDirect(toV(x)); YES("FpDbl <<", put(a, false) == "Dbl(" + D + ")" && put(a, true) == "Dbl(" + H + ")", D) YES("FpDbl toString", a.toString() == put(a, false) && a.toString(16) == put(a, true), D) YES("FpDbl(string)", a == b && toZ(b.getDirect()) == x, D) FD e; e.setDirect(FD(H).getDirect()); YES("FpDbl(string)", e == a, D) }
	if (c.g.u(3) == 0) { ref::F12 x = G.f12(2); Fp6 a = mk6(x), j = mk6(G.f12(2)), y; c.begin("Fp6"); std::string d = put(a, false), h = put(a, true), D = txt6(x, 0, false); YES("Fp6 <<", strip(d) == D && strip(h) == txt6(x, 0, true), D) y = j; YES("Fp6 >>", get(y, d, c) && same(y, x), D) y = j; YES("Fp6 >> hex", get(y, h, c) && same(y, x), D) }
	if (c.g.u(3) == 0) { ref::F12 x = G.f12(); elem(c, mk(x), mk(G.f12()), x, "Fp12"); }
}
template<class E, class F> static void point(Ctx& c, Gen& G, const ref::Pt<F>& P, const ref::Pt<F>& J, const char *nm)
{
	c.begin(nm); E e, y, j; G.rep(e, P); G.rep(j, J); const std::string W = txtP(P), id = std::string(nm) + " " + W;
	std::string s = put(e, c.g.coin()); YES("point <<", s == W, id) YES("unchanged by printing", samePt(e, P), id)
	y = j; YES("point >>", get(y, s, c, c.g.coin() ? "" : "\n123") && samePt(y, P), id)
	if (!P.inf) YES("valid after parsing", y.isValid() && (y == e), id)
	if (c.wantSample()) c.sample(id);
}
// several values of several types in one stream
static void sequence(Ctx& c, Gen& G)
{
	c.begin("sequence"); std::stringstream ss; const bool h = c.g.coin(); if (h) ss << std::hex; std::vector<int> kind; std::vector<Z> zs; std::vector<R> f1; std::vector<ref::F2> f2; std::vector<ref::F12> f12; std::vector<ref::P1> p1; std::vector<ref::P2> p2;
	const int n = 1 + (int)c.g.u(12);
	for (int i = 0; i < n; i++) {
		int k = (int)c.g.u(8); kind.push_back(k);
		static const char *ws[] = { " ", "\n", "\t", "  ", "\r\n", " \n\n " }; if (i || c.g.coin()) ss << ws[c.g.u(6)];
		switch (k) {
		case 0: { Z z = G.edgeInt(64 * CAP); zs.push_back(z); ss << toV(z); break; } case 1: { Z z = G.edgeInt(64 * CAP); if (c.g.coin()) z = -z; zs.push_back(z); ss << toVs(z); break; }
		case 2: { R x = G.f1(); f1.push_back(x); ss << mk(x); break; } case 3: { ref::F2 x = G.f2(); f2.push_back(x); ss << mk(x); break; } case 4: { ref::F12 x = G.f12(2); f12.push_back(x); ss << mk6(x); break; }
		case 5: { ref::F12 x = G.f12(); f12.push_back(x); ss << mk(x); break; } case 6: { ref::P1 P = c.g.u(6) ? G.p1() : ref::P1(); p1.push_back(P); Ec1 e; G.rep(e, P); ss << e; break; } default: { ref::P2 P = c.g.u(6) ? G.p2any() : ref::P2(); p2.push_back(P); Ec2 e; G.rep(e, P); ss << e; break; }
		}
	}
	if (c.g.coin()) ss << "\n"; const std::string text = ss.str(); std::istringstream is(text); size_t iz = 0, i1 = 0, i2 = 0, i12 = 0, ip1 = 0, ip2 = 0; bool ok = true;
	for (int i = 0; i < n && ok; i++) switch (kind[i]) {
		case 0: { Vuint v(7); is >> v; ok = eq(v, zs[iz++]); break; } case 1: { Vsint v(-7); is >> v; ok = eq(v, zs[iz++]); break; } case 2: { Fp v = mk(G.f1()); is >> v; ok = same(v, f1[i1++]); break; } case 3: { Fp2 v = mk(G.f2()); is >> v; ok = same(v, f2[i2++]); break; }
		case 4: { Fp6 v = mk6(G.f12(2)); is >> v; ok = same(v, f12[i12++]); break; } case 5: { Fp12 v = mk(G.f12()); is >> v; ok = same(v, f12[i12++]); break; } case 6: { Ec1 v; is >> v; ok = samePt(v, p1[ip1++]); break; } default: { Ec2 v; is >> v; ok = samePt(v, p2[ip2++]); break; }
		}
	ok = ok && !is.fail(); CHECK(c, ok, "sequence", "values in one stream: " << text); c.eval(hstr(text), n > 1); c.ctr("sequence values") += n;
	{ Vuint v(5); is.clear(is.rdstate() & ~std::ios::failbit); is >> v; CHECK(c, is.fail() && eq(v, Z(5)), "end of the sequence", text); }
}
// formatting state of the stream and of the program
struct Punct : std::numpunct<char> { char do_thousands_sep() const { return '.'; } std::string do_grouping() const { return "\3"; } };
static void formats(Ctx& c, Gen& G)
{
	c.begin("format flags"); Z z = G.edgeInt(64 * CAP); if (c.g.coin()) z = -z; R x = G.f1(); ref::F2 x2 = G.f2(); ref::P1 P = G.p1(); Ec1 e; G.rep(e, P);
	for (int k = 0; k < 5; k++) {
		std::ostringstream os; const size_t W = 1 + c.g.u(300); bool h = c.g.coin(); if (h) os << std::hex; if (c.g.coin()) os << std::showbase; if (c.g.coin()) os << std::showpos; if (c.g.coin()) os << std::setprecision(3) << std::fixed;
		if (c.g.coin()) os << std::left; else if (c.g.coin()) os << std::internal; os << std::setw((int)W); std::string w, nm;
		switch (k) { case 0: os << toV(abs(z)); w = num(abs(z), h); nm = "Vuint"; break; case 1: os << toVs(z); w = num(z, h); nm = "Vsint"; break; case 2: os << mk(x); w = txt(x, h); nm = "Fp"; break; case 3: os << mk(x2); w = txt(x2, h); nm = "Fp2"; break; default: os << e; w = txtP(P); nm = "Ec1"; }
		std::string s = os.str(), t = strip(s); size_t b = s.find_first_not_of(' '), l = s.find_last_not_of(' '); CHECK(c, t == w && b != std::string::npos && s.substr(b, l - b + 1) == w, "padding " + nm, "with width " << std::dec << W << ": " << s); c.eval(hstr(s)); c.ctr("padded")++;
	}
	c.begin("global locale"); std::locale old = std::locale::global(std::locale(std::locale::classic(), new Punct));
	std::string d = toVs(z).toString(10), hx = toV(abs(z)).toString(16), f = mk(x).toString(); std::ostringstream os; os << std::hex << toV(abs(z)) << " " << e; Vsint back; std::istringstream is(d); is >> back; std::locale::global(old);
	CHECK(c, d == dec(z) && hx == hex(abs(z)) && f == txt(x, false) && os.str() == hex(abs(z)) + " " + txtP(P) && eq(back, z), "global locale", d << " " << hx << " " << f << " " << os.str()); c.eval(hstr(d + "loc")); c.ctr("locales")++;
}

void suite(Ctx& c)
{
	Gen G(c);
	for (u64 i = 0, n = c.n(3000); i < n; i++) {
		{ Z z = i < 20 ? Z((long)i) : i < 90 ? Z(Z(1) << (unsigned)(i * 8 % (64 * CAP))) : G.edgeInt(64 * CAP), j = G.edgeInt(64 * CAP);
		  if (c.g.u(3) == 0) { Z t; mpz_ui_pow_ui(t.get_mpz_t(), 10, c.g.u(19 * CAP)); t += (long)c.g.u(3) - 1; if (mpz_sizeinbase(t.get_mpz_t(), 2) <= 64 * CAP && t >= 0) z = t; }
		  number(c, toV(z), toV(j), z, "Vuint"); Z s = c.g.coin() ? z : Z(-z); number(c, toVs(s), toVs(c.g.coin() ? j : Z(-j)), s, "Vsint"); }
		if (i % 4 == 0) { if (i % 64 == 0) { mod_ = G.edgeInt(64 * (CAP / 2)) + 2; ZM::setModulo(toV(mod_)); } Z z = ref::zmod(G.edgeInt(64 * CAP), mod_); ZM v(toV(z)), w; c.begin("ZmZ"); const std::string D = dec(z), H = hex(z); YES("ZmZ text", v.toString() == D && v.toString(16) == H && put(v, false) == D && put(v, true) == H, D) w.set(D); YES("ZmZ parse", eq(w, z) && eq(ZM(H), z), D) }
		fields(c, G); sequence(c, G); if (i % 2) formats(c, G);
		switch (c.g.u(6)) { case 0: point<Ec1>(c, G, ref::P1(), G.p1(), "Ec1"); point<Ec2>(c, G, ref::P2(), G.p2any(), "Ec2"); break; case 1: point<Ec1>(c, G, G.p1(), ref::P1(), "Ec1"); point<Ec2>(c, G, G.p2any(), ref::P2(), "Ec2"); break; default: point<Ec1>(c, G, G.p1(), G.p1(), "Ec1"); point<Ec2>(c, G, G.p2any(), G.p2any(), "Ec2"); }
	}
}
