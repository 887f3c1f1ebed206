// S02: malformed text is rejected by an exception
#include "../common.hpp"
using namespace mon;
using mie::Vuint; using mie::Vsint;
struct TagS {}; typedef mie::ZmZ<Vuint, TagS> ZM;
static const unsigned CAP = (MIE_ZM_VUINT_BIT_LEN + 63) / 64;
static Z mod_;

// ---- grammar, independent of the library
static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool hexd(char c) { return dig(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static bool spc(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static bool word(char c) { return dig(c) || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (unsigned char)c >= 128; }
// longest numeral at s[pos..]; 0 if there is none
static size_t numLen(const std::string& s, size_t pos, bool sign, Z& v)
{
	size_t i = pos; bool neg = false; if (sign && i < s.size() && s[i] == '-') { neg = true; i++; }
	size_t b = i;
	if (i + 2 < s.size() && s[i] == '0' && s[i + 1] == 'x' && hexd(s[i + 2])) { b = i += 2; while (i < s.size() && hexd(s[i])) i++; v = Z(s.substr(b, i - b), 16); }
	else { while (i < s.size() && dig(s[i])) i++; if (i == b) return 0; v = Z(s.substr(b, i - b), 10); }
	if (neg) v = -v; return i - pos;
}
static bool whole(const std::string& s, bool sign, Z& v) { size_t n = numLen(s, 0, sign, v); return n && n == s.size(); }
static bool fits(const Z& v) { return mpz_sizeinbase(v.get_mpz_t(), 2) <= 64 * CAP; }
// '[' a ',' b ... ']' with n components of depth d; false: malformed; big: some number is not below p
struct Parser {
	const std::string& s; size_t i; bool big; std::vector<Z> v;
	explicit Parser(const std::string& t) : s(t), i(0), big(false) {}
	void ws() { while (i < s.size() && spc(s[i])) i++; }
	bool ch(char c) { ws(); return i < s.size() && s[i] == c ? (i++, true) : false; }
	bool num() { ws(); Z z; size_t n = numLen(s, i, false, z); if (!n || (i + n < s.size() && word(s[i + n]))) return false; i += n; if (z >= ref::C().p) big = true; v.push_back(z); return true; }
	bool el(int depth) { static const int cnt[] = { 0, 2, 3, 2 }; if (depth == 0) return num(); if (!ch('[')) return false; for (int k = 0; k < cnt[depth]; k++) if ((k && !ch(',')) || !el(depth - 1)) return false; return ch(']'); }
};

// some number in the text is outside the field, whatever else is wrong with the text
static bool tooBig(const std::string& s)
{
	for (size_t i = 0; i < s.size(); i++) if (hexd(s[i]) && (i == 0 || !hexd(s[i - 1]))) {
		size_t k = i; if (k + 1 < s.size() && s[k] == '0' && s[k + 1] == 'x') k += 2; size_t e = k; while (e < s.size() && hexd(s[e])) e++;
		if (e > k && (e - k > 80 || Z(s.substr(k, e - k), 16) >= ref::C().p)) { bool d = true; for (size_t j = i; j < e; j++) if (!dig(s[j])) d = false; if (!d || Z(s.substr(i, e - i), 10) >= ref::C().p) return true; }
	}
	return false;
}
static std::string show(const std::string& s) { std::string o = "<"; for (size_t i = 0; i < s.size() && i < 400; i++) { char b[8]; if (s[i] < 32 || s[i] > 126) { sprintf(b, "\\x%02x", (unsigned char)s[i]); o += b; } else o += s[i]; } return o + ">"; }
static char rndCh(Ctx& c) { static const char al[] = "0123456789abcdefABCDEFxX0-+_,[]()., \t\n\r\v\fgGzZ:;'\"\\/*#%$e\0\x80\xff"; return al[c.g.u(sizeof al - 1)]; }
static std::string mutate(Ctx& c, std::string s)
{
	for (int k = 1 + (int)c.g.u(c.g.u(3) ? 1 : 4); k > 0; k--) {
		size_t n = s.size(), p = c.g.u(n + 1);
		if (n > 40 && c.g.coin()) p = c.g.coin() ? c.g.u(4) : n - c.g.u(4); // near an end
		switch (c.g.u(12)) {
		case 0: case 1: s.insert(p, 1, rndCh(c)); break; case 2: case 3: if (n && p < n) s[p] = rndCh(c); break; case 4: if (n && p < n) s.erase(p, 1); break;
		case 5: s = s.substr(0, p); break; case 6: s = s.substr(p); break; case 7: if (n > 1 && p + 1 < n) std::swap(s[p], s[p + 1]); break;
		case 8: { static const char *w[] = { "0x", "0X", "x", "-", "+", " ", "\n", "h", "_", ".0", "e5", "0b", "--", "-0x", "''", "u", "L" }; s.insert(c.g.coin() ? 0 : c.g.coin() ? n : p, w[c.g.u(17)]); break; }
		case 9: s.insert(c.g.coin() ? n : p, std::string(1 + c.g.u(2), '\0')); break; case 10: if (n && p < n) s.insert(p, s.substr(p, 1 + c.g.u(3))); break;
		default: { size_t q = s.find_first_of("[],_"); if (q != std::string::npos) { if (c.g.coin()) q = s.find_last_of("[],_"); if (c.g.coin()) s.erase(q, 1); else s[q] = "[],_;() "[c.g.u(8)]; } else s = rndCh(c) + s; }
		}
	}
	return s;
}
static std::string soup(Ctx& c) { std::string s; for (size_t n = c.g.u(c.g.u(5) ? 6 : 60); n > 0; n--) s += rndCh(c); return s; }
static std::string numeral(Ctx& c, Gen& G, bool sign) { Z z = c.g.u(3) ? G.edgeInt(64) : G.edgeInt(64 * CAP - 64); std::string s = c.g.coin() ? z.get_str(10) : "0x" + z.get_str(16); return sign && c.g.coin() ? "-" + s : s; }
static std::string malNumeral(Ctx& c, Gen& G, bool sign)
{
	switch (c.g.u(14)) {
	case 0: return soup(c); case 1: { static const char *w[] = { "", "-", "0x", "-0x", "x", "0xg", "+5", " 5", "5 ", "--5", "-+5", "0x-5", "5-", "0x0x5", "1_000", "1,000", "1.5", "1e3", "0X1F", "ff", "-ff", "0b101", "\n", "0x ", "12\n", "\xef\xbb\xbf" "1", "nan", "0x1p3" }; return w[c.g.u(28)]; }
	case 2: { std::string s(1 + c.g.u(c.g.u(20) ? 600 : 20000), c.g.coin() ? '9' : 'f'); s.insert(c.g.u(s.size()), 1, "gz -+x."[c.g.u(7)]); return (c.g.coin() ? "0x" : "") + s; } // long, and not a numeral
	case 3: { std::string a = numeral(c, G, sign), b = numeral(c, G, sign); return a + rndCh(c) + b; }
	default: return mutate(c, numeral(c, G, sign));
	}
}
static bool eq(const Vuint& v, const Z& z) { return toZ(v) == z; }
static bool eq(const Vsint& v, const Z& z) { return toZ(v) == z && v.isNegative() == (z < 0); }
static bool eq(const ZM& v, const Z& z) { return toZ(v.get()) == ref::zmod(z, mod_); }
static bool eq(const Fp& v, const Z& z) { return mon::same(v, ref::F1(z)); }
static Vuint mkv(Vuint *, const Z& z) { return toV(abs(z)); }
static Vsint mkv(Vsint *, const Z& z) { return toVs(z); }
static ZM mkv(ZM *, const Z& z) { return ZM(toV(abs(z))); }
static Fp mkv(Fp *, const Z& z) { return mk(ref::F1(z)); }

enum { THROWN, VALUE, FAILED };
template<class T> struct Neighbours { T a, x, b; };

// string constructors and set()
template<class T> static void text(Ctx& c, Gen& G, const std::string& s, bool sign, bool field, const char *nm)
{
	Z v; bool wf = whole(s, sign, v); if (wf && (field ? v >= ref::C().p : !fits(v))) { c.ctr("skipped: outside the type")++; return; }
	c.begin(nm); Neighbours<T> n; Z za = G.edgeInt(250), zb = G.edgeInt(250); n.a = mkv((T *)0, za); n.b = mkv((T *)0, zb); n.x = mkv((T *)0, Z(77)); bool thrown = false; int how = (int)c.g.u(3);
	try { if (how == 0) { n.x = T(s); } else if (how == 1) n.x.set(s); else { T t(s); n.x = t; } } catch (std::exception&) { thrown = true; }
	CHECK(c, thrown == !wf, std::string(nm) + (wf ? " rejected" : " accepted"), show(s) << (thrown ? " threw" : " gave a value") << " how " << how);
	if (!thrown && wf) CHECK(c, eq(n.x, v), std::string(nm) + " value", show(s));
	CHECK(c, eq(n.a, za) && eq(n.b, zb), std::string(nm) + " neighbours", "changed by parsing " << show(s));
	c.eval(hstr(s, hstr(nm)), !wf); c.ctr(std::string(nm) + (wf ? " well-formed" : " malformed"))++;
	if (!wf && c.g.u(4) == 0) { Z z = G.edgeInt(200); n.x.set(z.get_str(10)); CHECK(c, eq(n.x, z), std::string(nm) + " after rejection", show(s)); T t(std::string("0x") + z.get_str(16)); CHECK(c, eq(t, z), std::string(nm) + " after rejection", show(s)); }
}
template<class T> static void textBase(Ctx& c, Gen& G, const std::string& s, bool sign, const char *nm) // an explicit base
{
	(void)G; c.begin(nm); const bool b16 = c.g.coin(); std::string d = s; bool neg = false; if (sign && d.size() && d[0] == '-') { neg = true; d = d.substr(1); } const bool pre = d.size() >= 2 && d[0] == '0' && d[1] == 'x'; if (pre) d = d.substr(2); bool wf = !d.empty(); if (pre && !b16) wf = false;
	for (size_t i = 0; i < d.size(); i++) if (!(b16 ? hexd(d[i]) : dig(d[i]))) wf = false;
	Z v; if (wf) { v = Z(d, b16 ? 16 : 10); if (!fits(v)) { c.ctr("skipped: outside the type")++; return; } if (neg) v = -v; }
	T x; bool thrown = false; try { if (c.g.coin()) x.set(s, b16 ? 16 : 10); else x.fromStr(s, b16 ? 16 : 10); } catch (std::exception&) { thrown = true; }
	CHECK(c, thrown == !wf && (thrown || eq(x, v)), std::string(nm) + (wf ? " rejected or wrong" : " accepted"), show(s) << " base " << (b16 ? "16" : "10")); c.eval(hstr(s, hstr(nm) + b16), !wf); c.ctr(nm)++;
}
// extraction of a number from a stream
template<class T> static void stream(Ctx& c, Gen& G, const std::string& s0, bool sign, bool field, const char *nm)
{
	(void)G; std::string s = s0; if (c.g.u(3) == 0) s = std::string(" \n\t ").substr(c.g.u(4)) + s; if (c.g.u(3) == 0) { s += " ,]\n"[c.g.u(4)]; s += "12"; }
	size_t b = 0; while (b < s.size() && spc(s[b])) b++; Z v; size_t n = numLen(s, b, sign, v); { size_t k = b; while (k < s.size() && (hexd(s[k]) || s[k] == 'x' || s[k] == '-')) k++; if (k - b > (field ? 60u : 15u * CAP)) { c.ctr("skipped: outside the type")++; return; } }
	c.begin(nm); Neighbours<T> t; t.a = mkv((T *)0, Z(11)); t.x = mkv((T *)0, Z(77)); t.b = mkv((T *)0, Z(13)); std::istringstream is(s); int r; try { is >> t.x; r = is.fail() ? FAILED : VALUE; } catch (std::exception&) { r = THROWN; }
	bool clean = n && (b + n == s.size() || !(word(s[b + n]) || s[b + n] == '-')); // a numeral and then something that cannot belong to it
	if (clean) CHECK(c, r == VALUE && eq(t.x, v), std::string(nm) + " not read", show(s) << " result " << r);
	if (r == VALUE && !clean) { // only a numeral that stands there, the rest left in the stream
		bool ok = n > 0; if (ok) { std::string rest; std::getline(is, rest, '\x01'); ok = false; for (size_t k = 1; k <= n && !ok; k++) { Z w; if (s.substr(b + k) == rest && whole(s.substr(b, k), sign, w) && eq(t.x, w)) ok = true; } }
		CHECK(c, ok, std::string(nm) + " invented", show(s));
	}
	if (r == FAILED) { CHECK(c, eq(t.x, Z(77)), std::string(nm) + " changed on failure", show(s)); CHECK(c, !clean, std::string(nm) + " failed", show(s)); }
	if (b == s.size()) CHECK(c, r == FAILED, std::string(nm) + " empty stream", show(s));
	if (b < s.size() && !hexd(s[b]) && !(sign && s[b] == '-')) CHECK(c, r == FAILED, std::string(nm) + " no number", show(s) << " result " << r);
	CHECK(c, eq(t.a, Z(11)) && eq(t.b, Z(13)), std::string(nm) + " neighbours", show(s)); c.eval(hstr(s, hstr(nm)), !clean); static const char *rn[] = { " thrown", " value", " fail state" }; c.ctr(std::string(nm) + rn[r])++;
	if (r == FAILED && b < s.size()) { is.clear(); char ch; is >> ch; CHECK(c, ch == s[b], std::string(nm) + " consumed", "the character that is no number is gone: " << show(s)); }
	if (c.g.u(8) == 0) { std::istringstream i2("123"); i2 >> t.x; CHECK(c, eq(t.x, Z(123)), std::string(nm) + " after rejection", show(s)); }
}
static std::string num1(Ctx& c, const ref::F1& a) { return c.g.coin() ? a.z().get_str(10) : "0x" + a.z().get_str(16); }
static std::string sp(Ctx& c) { return c.g.u(6) ? "" : c.g.coin() ? " " : "\n"; }
static std::string elemText(Ctx& c, Gen& G, int depth) { static const int cnt[] = { 0, 2, 3, 2 }; if (depth == 0) return sp(c) + num1(c, G.f1()) + sp(c); std::string s = sp(c) + "["; for (int k = 0; k < cnt[depth]; k++) s += (k ? "," : "") + elemText(c, G, depth - 1); return s + sp(c) + "]"; }
static bool eqv(const Fp2& x, const std::vector<Z>& v) { return eq(x.a_, v[0]) && eq(x.b_, v[1]); }
static bool eqv(const Fp6& x, const std::vector<Z>& v) { std::vector<Z> a(v.begin(), v.begin() + 2), b(v.begin() + 2, v.begin() + 4), d(v.begin() + 4, v.begin() + 6); return eqv(x.a_, a) && eqv(x.b_, b) && eqv(x.c_, d); }
static bool eqv(const Fp12& x, const std::vector<Z>& v) { std::vector<Z> a(v.begin(), v.begin() + 6), b(v.begin() + 6, v.end()); return eqv(x.a_, a) && eqv(x.b_, b); }
static void setStr(Fp2& x, const std::string& s) { x.set(s); }
template<class T> static void setStr(T& x, const std::string& s) { std::istringstream is(s); is >> x; }

template<class T> static void element(Ctx& c, Gen& G, int depth, const char *nm)
{
	std::string s = elemText(c, G, depth); switch (c.g.u(8)) { case 0: s = s.substr(0, c.g.u(s.size())); break; case 1: s = soup(c); break; case 2: break; default: s = mutate(c, s); }
	Parser p(s); bool wf = p.el(depth); if (p.big || tooBig(s)) { c.ctr("skipped: outside the type")++; return; }
	c.begin(nm); Neighbours<T> n; n.a = T(5); n.b = T(6); n.x = T(7); bool thrown = false, failed = false; const bool str = c.g.coin();
	try { if (str) setStr(n.x, s); else { std::istringstream is(s); is >> n.x; failed = is.fail(); if (!failed && wf) { std::string rest; std::getline(is, rest, '\x01'); CHECK(c, rest == s.substr(p.i, rest.size()) && (rest.size() == s.size() - p.i || s.find('\x01') != std::string::npos), std::string(nm) + " rest", show(s)); } } } catch (std::exception&) { thrown = true; }
	CHECK(c, thrown == !wf && !(failed && wf), std::string(nm) + (wf ? " rejected" : " accepted"), show(s) << (str ? " by string" : " by stream"));
	if (!thrown && wf && !failed) CHECK(c, eqv(n.x, p.v), std::string(nm) + " value", show(s));
	CHECK(c, n.a == T(5) && n.b == T(6), std::string(nm) + " neighbours", show(s)); c.eval(hstr(s, hstr(nm)), !wf); c.ctr(std::string(nm) + (wf ? " well-formed" : " malformed"))++;
	if (!wf && c.g.u(4) == 0) { std::string g = elemText(c, G, depth); Parser q(g); HARNESS_REQUIRE(q.el(depth)); std::istringstream is(g); is >> n.x; CHECK(c, eqv(n.x, q.v), std::string(nm) + " after rejection", show(s) << " then " << show(g)); }
	if (c.wantSample()) c.sample(std::string(nm) + (wf ? " well-formed " : " malformed ") + show(s));
}
static bool comp(const std::string& s, int depth, bool& big, std::vector<Z>& v) // a whole coordinate
{
	if (depth == 0) { Z z; if (!whole(s, false, z)) return false; if (z >= ref::C().p) big = true; v.push_back(z); return true; }
	Parser p(s); bool ok = p.el(depth); big = big || p.big; v.insert(v.end(), p.v.begin(), p.v.end()); return ok; // text after the bracket is not looked at
}
static ref::P1 ptOf(const std::vector<Z>& v, const ref::F1 *) { return ref::P1(ref::F1(v[0]), ref::F1(v[1])); }
static ref::P2 ptOf(const std::vector<Z>& v, const ref::F2 *) { return ref::P2(ref::F2(ref::F1(v[0]), ref::F1(v[1])), ref::F2(ref::F1(v[2]), ref::F1(v[3]))); }
static std::string coord(Ctx& c, const ref::F1& a) { return num1(c, a); }
static std::string coord(Ctx& c, const ref::F2& a) { return "[" + num1(c, a.a) + "," + num1(c, a.b) + "]"; }
static ref::F1 rnd(Gen& G, const ref::F1 *) { return G.f1(); }
static ref::F2 rnd(Gen& G, const ref::F2 *) { return ref::F2(G.f1(), G.f1()); }
template<class E, class F> static void point(Ctx& c, Gen& G, const ref::Pt<F>& P, const ref::Pt<F>& J, int depth, const char *nm)
{
	E base; G.rep(base, P); std::ostringstream os; os << base; std::string s = os.str();
	if (!P.inf) switch (c.g.u(8)) { // well-formed texts of other pairs of coordinates, usually off the curve
	case 0: s = coord(c, P.x) + "_" + coord(c, P.y + F(1L)); break; case 1: s = coord(c, rnd(G, (F *)0)) + "_" + coord(c, P.y); break; case 2: s = coord(c, P.y) + "_" + coord(c, P.x); break; case 3: s = coord(c, P.x) + "_" + coord(c, F() - P.y); break; default: break;
	}
	switch (c.g.u(9)) { case 0: s = s.substr(0, c.g.u(s.size())); break; case 1: s = soup(c); break; case 2: case 5: break; case 3: s = s + "_" + numeral(c, G, false); break; case 4: { size_t q = s.find('_'); if (q != std::string::npos) { if (c.g.coin()) s.erase(q, 1); else s[q] = ",:;-. 0x"[c.g.u(8)]; } break; } default: s = mutate(c, s); }
	size_t b = 0; while (b < s.size() && spc(s[b])) b++; size_t e = b; while (e < s.size() && !spc(s[e])) e++; const std::string t = s.substr(b, e - b); size_t q = t.find('_'); bool wf, big = false, inf = t == "0"; std::vector<Z> v;
	if (inf) wf = true; else if (q == std::string::npos) wf = false; else { wf = comp(t.substr(0, q), depth, big, v); wf = comp(t.substr(q + 1), depth, big, v) && wf; }
	if (big || tooBig(t)) { c.ctr("skipped: outside the type")++; return; }
	ref::Pt<F> want; bool off = false; if (wf && !inf) { want = ptOf(v, (F *)0); off = !ref::onCurve(want); if (off) wf = false; }
	c.begin(nm); Neighbours<E> n; G.rep(n.a, J); G.rep(n.b, J); n.x.clear(); bool thrown = false; std::istringstream is(s); try { is >> n.x; } catch (std::exception&) { thrown = true; }
	CHECK(c, thrown == !wf, std::string(nm) + (wf ? " rejected" : " accepted"), show(s));
	if (!thrown && wf) { if (inf) CHECK(c, n.x.isZero(), std::string(nm) + " value", show(s)); else CHECK(c, samePt(n.x, want), std::string(nm) + " value", show(s)); }
	CHECK(c, samePt(n.a, J) && samePt(n.b, J), std::string(nm) + " neighbours", show(s)); c.eval(hstr(s, hstr(nm)), !wf); c.ctr(std::string(nm) + (wf ? " well-formed" : off ? " off the curve" : " malformed"))++;
	if (!wf && c.g.u(4) == 0) { std::istringstream i2(os.str()); i2 >> n.x; CHECK(c, samePt(n.x, P), std::string(nm) + " after rejection", show(s)); }
	if (c.wantSample()) c.sample(std::string(nm) + (wf ? " well-formed " : " malformed ") + show(s));
}

void suite(Ctx& c)
{
	Gen G(c); mod_ = ref::C().r; ZM::setModulo(toV(mod_));
	std::vector<ref::P1> p1; std::vector<ref::P2> p2; for (int i = 0; i < 12; i++) { p1.push_back(G.p1()); p2.push_back(G.p2any()); }
	for (u64 i = 0, n = c.n(5000); i < n; i++) {
		text<Vuint>(c, G, malNumeral(c, G, c.g.u(6) == 0), false, false, "Vuint text"); text<Vsint>(c, G, malNumeral(c, G, true), true, false, "Vsint text"); text<ZM>(c, G, malNumeral(c, G, c.g.u(6) == 0), false, false, "ZmZ text"); text<Fp>(c, G, malNumeral(c, G, c.g.u(6) == 0), false, true, "Fp text");
		textBase<Vuint>(c, G, malNumeral(c, G, c.g.u(6) == 0), false, "Vuint base"); textBase<Vsint>(c, G, malNumeral(c, G, true), true, "Vsint base");
		stream<Vuint>(c, G, malNumeral(c, G, c.g.u(6) == 0), false, false, "Vuint stream"); stream<Vsint>(c, G, malNumeral(c, G, true), true, false, "Vsint stream"); stream<Fp>(c, G, malNumeral(c, G, c.g.u(6) == 0), false, true, "Fp stream");
		element<Fp2>(c, G, 1, "Fp2 text"); if (i % 2) element<Fp6>(c, G, 2, "Fp6 text"); else element<Fp12>(c, G, 3, "Fp12 text");
		if (i % 2) point<Ec1>(c, G, p1[c.g.u(12)], p1[c.g.u(12)], 0, "Ec1 text"); else point<Ec2>(c, G, p2[c.g.u(12)], p2[c.g.u(12)], 1, "Ec2 text");
	}
}
