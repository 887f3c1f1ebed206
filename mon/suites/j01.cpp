/*
	J01: offline checker of the log that java/Drive.java writes. Holds its own model of every
	object (GMP reference only; the library is not called) and judges every outcome and text.
	--opt LOG
*/
#define MON_NO_INIT
#include "../common.hpp"
#include <fstream>
using namespace mon;
using ref::F1; using ref::F2; using ref::F12; using ref::P1; using ref::P2;

struct Obj {
	char t; Z z; F1 f; F2 f2; F12 f12; P1 p; P2 q;
	bool rawKnown, off, known; F1 r1[3]; F2 r2[3]; // projective coordinates, when they are known
	int parent; int part; // live component of another object
	Obj() : t(0), rawKnown(false), off(false), known(true), parent(-1), part(0) {}
};
static std::map<int, Obj> M;
static Ctx *CC; static unsigned long lineNo; static std::string lineText;
static void bad(const std::string& key, const std::string& d) { std::ostringstream os; os << "log line " << lineNo << ": " << lineText.substr(0, 700) << "\n" << d; CC->fail(key, os.str()); }

static std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> v; std::string t; for (size_t i = 0; i <= s.size(); i++) if (i == s.size() || s[i] == c) { v.push_back(t); t.clear(); } else t += s[i]; return v; }
static std::string unesc(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); i++) if (s[i] == '\\') { int c = (int)strtol(s.substr(i + 1, 4).c_str(), 0, 16); o += c < 128 ? (char)c : '?'; i += 4; } else o += s[i]; return o; }
static Z num(const std::string& s0) { std::string s = s0; bool neg = false; if (!s.empty() && s[0] == '-') { neg = true; s = s.substr(1); } Z r; int rc = s.size() > 2 && s[0] == '0' && s[1] == 'x' ? mpz_set_str(r.get_mpz_t(), s.c_str() + 2, 16) : mpz_set_str(r.get_mpz_t(), s.c_str(), 10); HARNESS_REQUIRE(rc == 0); return neg ? Z(-r) : r; }
static std::vector<std::string> nums(const std::string& s) { std::vector<std::string> v; std::string t; for (size_t i = 0; i <= s.size(); i++) { if (i < s.size() && (isxdigit((unsigned char)s[i]) || s[i] == 'x')) t += s[i]; else { if (!t.empty()) v.push_back(t); t.clear(); } } return v; }
static bool isNum(const std::string& s) { Z r; return s.size() > 2 && s[0] == '0' && s[1] == 'x' ? mpz_set_str(r.get_mpz_t(), s.c_str() + 2, 16) == 0 : !s.empty() && mpz_set_str(r.get_mpz_t(), s.c_str(), 10) == 0; }
static F1 f1(const std::string& s) { return F1(num(s)); }
static F12 mk12(const std::vector<std::string>& n) { HARNESS_REQUIRE(n.size() == 12); F12 r; static const int pos[6] = { 0, 2, 4, 1, 3, 5 }; for (int i = 0; i < 6; i++) r.c[pos[i]] = F2(f1(n[2 * i]), f1(n[2 * i + 1])); return r; }
// texts as the library documents them
static std::string tx(const F1& a) { return a.z().get_str(); }
static std::string tx(const F2& a) { return "[" + tx(a.a) + "," + tx(a.b) + "]"; }
// numerals rewritten in decimal, white space dropped
static std::string canon(const std::string& s) { std::string o, t; for (size_t i = 0; i <= s.size(); i++) { if (i < s.size() && (isxdigit((unsigned char)s[i]) || s[i] == 'x')) { t += s[i]; continue; } if (!t.empty()) { Z v; const bool hex = t.size() > 2 && t[0] == '0' && t[1] == 'x'; o += mpz_set_str(v.get_mpz_t(), t.c_str() + (hex ? 2 : 0), hex ? 16 : 10) == 0 ? v.get_str() : t; t.clear(); } if (i < s.size() && s[i] != ' ' && s[i] != '\n') o += s[i]; } return o; }
static std::string tx(const F12& a) { return "[[" + tx(a.c[0]) + "," + tx(a.c[2]) + "," + tx(a.c[4]) + "],[" + tx(a.c[1]) + "," + tx(a.c[3]) + "," + tx(a.c[5]) + "]]"; }
template<class P> std::string txp(const P& p) { return p.inf ? "0" : tx(p.x) + "_" + tx(p.y); }

static F1& f1ref(int id); static F2& f2ref(int id);
static F1& f1ref(int id) { Obj& o = M[id]; if (o.parent < 0) return o.f; Obj& q = M[o.parent]; if (q.t == 'P') { HARNESS_REQUIRE(q.rawKnown); return q.r1[o.part]; } F2& x = f2ref(o.parent); return o.part ? x.b : x.a; }
static F2& f2ref(int id) { Obj& o = M[id]; if (o.parent < 0) return o.f2; Obj& q = M[o.parent]; HARNESS_REQUIRE(q.rawKnown && q.t == 'Q'); return q.r2[o.part]; }
template<class F> void affine(const F *r, ref::Pt<F>& p, bool& off) { if (r[2].isZero()) { p = ref::Pt<F>(); off = false; return; } F zi = ref::inv(r[2]), zz = zi * zi; p = ref::Pt<F>(r[0] * zz, r[1] * zz * zi); off = !ref::onCurve(p); }
static void fromRaw(Obj& o) { if (o.t == 'P') affine(o.r1, o.p, o.off); else affine(o.r2, o.q, o.off); o.rawKnown = true; }
// a component was written through a proxy
static void touched(int id) { for (int k = id; M[k].parent >= 0;) { k = M[k].parent; if (M[k].t == 'P' || M[k].t == 'Q') fromRaw(M[k]); } }
static std::string text(int id) { Obj& o = M[id]; switch (o.t) { case 'Z': return o.z.get_str(); case 'F': return tx(f1ref(id)); case '2': return tx(f2ref(id)); case 'T': return tx(o.f12); case 'P': return txp(o.p); default: return txp(o.q); } }
static bool valueEq(int a, int b) { return text(a) == text(b); }

void suite(Ctx& c)
{
	CC = &c; std::ifstream in(c.opt.c_str()); HARNESS_REQUIRE(in); bool ended = false; u64 gcs = 0;
	while (std::getline(in, lineText)) {
		lineNo++; c.begin("log"); c.caseNo = lineNo;
		std::vector<std::string> f = split(lineText, '\t');
		if (f[0] == "END") { ended = true; continue; }
		if (f[0] == "note") { gcs += f.size() > 1 && f[1] == "gc"; continue; }
		if (f.size() < 3 || f[f.size() - 2] != "=") { bad("the virtual machine ended", "during this operation"); continue; }
		const std::string out = f.back(); const bool ok = out.compare(0, 3, "ok:") == 0; const std::string res = ok ? unesc(out.substr(3)) : out; f.resize(f.size() - 2);
		if (f[0].compare(0, 4, "new ") == 0) { f.insert(f.begin() + 1, f[0].substr(4)); f[0] = "new"; }
		const std::string op = f[0]; for (size_t i = 0; i < f.size(); i++) f[i] = unesc(f[i]);
		#define ID(k) atoi(f[k].c_str())
		#define WANT_OK() do { if (!ok) { bad(op + " exception", "unexpected exception"); } } while (0)
		c.eval(hmix(hstr(lineText.substr(0, 600)), c.seed)); c.ctr(op == "new" ? "new " + f[1] : op)++;
		if (op == "off") { // coordinates that are on the curve after all
			Obj t; t.t = M[ID(2)].t == 'F' ? 'P' : 'Q'; const bool three = ID(4) >= 0;
			if (t.t == 'P') { t.r1[0] = f1ref(ID(2)); t.r1[1] = f1ref(ID(3)); t.r1[2] = three ? f1ref(ID(4)) : F1(1L); } else { t.r2[0] = f2ref(ID(2)); t.r2[1] = f2ref(ID(3)); t.r2[2] = three ? f2ref(ID(4)) : F2(1L); }
			fromRaw(t); if (!t.off) { WANT_OK(); c.ctr("on the curve by chance")++; if (ID(1) >= 0) M[ID(1)].known = false; continue; }
		}
		if (op == "newbad" || op == "setbad" || op == "off") {
			CHECK(c, !ok, op + " accepted", "log line " << std::dec << lineNo << ": " << lineText.substr(0, 600)); if (c.samples.size() < 6 && c.g.u(4) == 0) c.sample(lineText);
			if (!ok && out.find("RuntimeException") == std::string::npos && out.find("NullPointer") == std::string::npos && out.find("IllegalArgument") == std::string::npos && out.find("java.lang.") == std::string::npos) bad(op + " exception class", out);
			if (op != "newbad" && ID(1) >= 0) M[ID(1)].known = false;
			continue;
		}
		if (op == "new") {
			const int n = ID(2); Obj o; o.t = f[1][0]; const std::string k = f[3];
			if (k == "copy") { const int s = ID(4); const Obj& x = M[s]; o = x; o.parent = -1; if (o.t == 'F') o.f = f1ref(s); if (o.t == '2') o.f2 = f2ref(s); }
			else if (k == "empty") { o.rawKnown = false; }
			else if (k == "str" && o.t != 'Z' && o.t != 'F') {
				const std::string& s = f[4]; std::vector<std::string> n = nums(s);
				if (o.t == '2') { HARNESS_REQUIRE(n.size() == 2); o.f2 = F2(f1(n[0]), f1(n[1])); } else if (o.t == 'T') o.f12 = mk12(n);
				else if (s == "0") {} else if (o.t == 'P') { HARNESS_REQUIRE(n.size() == 2); o.p = P1(f1(n[0]), f1(n[1])); HARNESS_REQUIRE(ref::onCurve(o.p)); }
				else { HARNESS_REQUIRE(n.size() == 4); o.q = P2(F2(f1(n[0]), f1(n[1])), F2(f1(n[2]), f1(n[3]))); HARNESS_REQUIRE(ref::onCurve(o.q)); }
			} else switch (o.t) {
			case 'Z': o.z = num(f[4]); break;
			case 'F': o.f = f1(f[4]); break;
			case '2': o.f2 = k == "int" ? F2(f1(f[4])) : k == "fp2" ? F2(f1ref(ID(4)), f1ref(ID(5))) : F2(f1(f[4]), f1(f[5])); break;
			case 'T': o.f12 = F12(F2(f1(f[4]))); break;
			case 'P': o.r1[0] = f1ref(ID(4)); o.r1[1] = f1ref(ID(5)); o.r1[2] = k == "xyz" ? f1ref(ID(6)) : F1(1L); fromRaw(o); break;
			default: o.r2[0] = f2ref(ID(4)); o.r2[1] = f2ref(ID(5)); o.r2[2] = k == "xyz" ? f2ref(ID(6)) : F2(1L); fromRaw(o); break;
			}
			HARNESS_REQUIRE(!o.off || k == "copy");
			WANT_OK(); M[n] = o; continue;
		}
		if (op == "order") { Obj o; o.t = 'Z'; o.z = ref::C().r; WANT_OK(); M[ID(1)] = o; continue; }
		if (op == "part") { Obj o; o.parent = ID(2); const Obj& q = M[o.parent]; o.t = q.t == 'Q' ? '2' : 'F'; const std::string& w = f[3]; o.part = w == "A" || w == "X" ? 0 : w == "B" || w == "Y" ? 1 : 2; WANT_OK(); M[ID(1)] = o; continue; }
		if (!M.count(ID(1))) fprintf(stderr, "line %lu %s\n", lineNo, lineText.c_str()); HARNESS_REQUIRE(M.count(ID(1))); Obj& x = M[ID(1)]; const int xi = ID(1);
		if (op == "text") {
			WANT_OK(); if (!x.known || x.off) continue;
			const std::string want = text(xi), got = x.t == 'Z' ? res : canon(res);
			if (got != want) { bad(std::string("value of ") + x.t, "reads " + res.substr(0, 900) + "\nwant  " + want.substr(0, 900)); // go on with what is there
				std::vector<std::string> n = nums(res); for (size_t i = 0; i < n.size(); i++) if (!isNum(n[i])) n[i] = "1"; if (x.t == 'Z' && !res.empty()) mpz_set_str(x.z.get_mpz_t(), res.c_str(), 10); else if (x.t == 'F' && n.size() == 1) f1ref(xi) = f1(n[0]); else if (x.t == '2' && n.size() == 2) f2ref(xi) = F2(f1(n[0]), f1(n[1])); else if (x.t == 'T' && n.size() == 12) x.f12 = mk12(n); else if (x.t == 'P') x.p = n.size() == 2 ? P1(f1(n[0]), f1(n[1])) : P1(); else if (x.t == 'Q') x.q = n.size() == 4 ? P2(F2(f1(n[0]), f1(n[1])), F2(f1(n[2]), f1(n[3]))) : P2(); }
			if (x.t == 'P' || x.t == 'Q') x.rawKnown = false;
			if (c.wantSample() && x.t != 'T') c.sample(lineText);
			continue;
		}
		if (op == "raw") {
			WANT_OK(); std::vector<std::string> n = nums(res); const size_t want = x.t == 'P' ? 3 : 6; bool numsOk = n.size() == want; for (size_t i = 0; i < n.size(); i++) numsOk &= isNum(n[i]); if (!numsOk) { bad("coordinates", "unreadable"); continue; }
			Obj y = x; for (int i = 0; i < 3; i++) if (x.t == 'P') y.r1[i] = f1(n[i]); else y.r2[i] = F2(f1(n[2 * i]), f1(n[2 * i + 1]));
			fromRaw(y); const bool wasOff = x.off;
			if (wasOff ? !y.off : (y.off || (x.t == 'P' ? y.p != x.p : y.q != x.q))) bad(std::string("coordinates of ") + x.t, "they represent " + (x.t == 'P' ? txp(y.p) : txp(y.q)) + "\nwant " + text(xi));
			if (x.rawKnown && !(x.t == 'P' ? y.r1[0] == x.r1[0] && y.r1[1] == x.r1[1] && y.r1[2] == x.r1[2] : y.r2[0] == x.r2[0] && y.r2[1] == x.r2[1] && y.r2[2] == x.r2[2]) && !(x.t == 'P' ? x.p.inf : x.q.inf)) bad(std::string("stored coordinates of ") + x.t, "they are not what was stored");
			const int parent = x.parent; x = y; x.parent = parent; continue;
		}
		if (op == "set") {
			WANT_OK(); x.known = true; const std::string& s = f[3]; std::vector<std::string> n = nums(s);
			switch (x.t) {
			case 'Z': x.z = num(s); break; case 'F': f1ref(xi) = f1(s); touched(xi); break; case '2': HARNESS_REQUIRE(n.size() == 2); f2ref(xi) = F2(f1(n[0]), f1(n[1])); touched(xi); break; case 'T': x.f12 = mk12(n); break;
			case 'P': x.off = false; x.rawKnown = false; if (s == "0") x.p = P1(); else { HARNESS_REQUIRE(n.size() == 2); x.p = P1(f1(n[0]), f1(n[1])); HARNESS_REQUIRE(ref::onCurve(x.p)); } break;
			default: x.off = false; x.rawKnown = false; if (s == "0") x.q = P2(); else { HARNESS_REQUIRE(n.size() == 4); x.q = P2(F2(f1(n[0]), f1(n[1])), F2(f1(n[2]), f1(n[3]))); HARNESS_REQUIRE(ref::onCurve(x.q)); } }
			continue;
		}
		if (op == "seti") { WANT_OK(); x.known = true; if (x.t == 'Z') x.z = num(f[2]); else if (x.t == 'F') { f1ref(xi) = f1(f[2]); touched(xi); } else if (x.t == '2') { f2ref(xi) = F2(f1(f[2])); touched(xi); } else x.f12 = F12(F2(f1(f[2]))); continue; }
		if (op == "setxyz") { WANT_OK(); x.known = true; Obj y; y.t = x.t; if (x.t == 'P') for (int i = 0; i < 3; i++) y.r1[i] = f1ref(ID(2 + i)); else for (int i = 0; i < 3; i++) y.r2[i] = f2ref(ID(2 + i)); fromRaw(y); HARNESS_REQUIRE(!y.off); x = y; continue; }
		if (op == "equals") {
			WANT_OK(); Obj& y = M[ID(2)]; const bool skip = x.off || y.off || !x.known || !y.known; const char *w = valueEq(xi, ID(2)) ? "true true" : "false false"; if (!skip && res != w) bad(std::string("equals ") + x.t, "got " + res + " want " + w + " for " + text(xi).substr(0, 300) + " and " + text(ID(2)).substr(0, 300));
			x.rawKnown = y.rawKnown = false; c.ctr(std::string("equals ") + w)++; continue;
		}
		if (op == "compareTo") { WANT_OK(); const int s = cmp(x.z, M[ID(2)].z), g = atoi(res.c_str()); if ((s > 0) != (g > 0) || (s < 0) != (g < 0)) bad("compareTo", "got " + res); continue; }
		if (op == "isValid") { WANT_OK(); if (res != (x.off ? "false" : "true")) bad(std::string("isValid ") + x.t, "got " + res); c.ctr("isValid " + res)++; continue; }
		if (op == "isZero") { WANT_OK(); if (!x.off && res != ((x.t == 'P' ? x.p.inf : x.q.inf) ? "true" : "false")) bad(std::string("isZero ") + x.t, "got " + res); continue; }
		if (op == "clear") { WANT_OK(); x.off = false; x.known = true; x.p = P1(); x.q = P2(); x.rawKnown = false; continue; }
		if (op == "dbl" || op == "neg") { WANT_OK(); x.rawKnown = false; if (op == "dbl") { x.p = ref::dbl(x.p); x.q = ref::dbl(x.q); } else { x.p = ref::neg(x.p); x.q = ref::neg(x.q); } continue; }
		if (op == "pairing") { WANT_OK(); Obj &Q = M[ID(2)], &P = M[ID(3)]; x.f12 = ref::pairing(Q.q, P.p); P.rawKnown = Q.rawKnown = false; c.ctr(Q.q.inf || P.p.inf ? "pairing with infinity" : "pairing of finite points")++; continue; }
		// binary operations
		const int yi = ID(2); HARNESS_REQUIRE(M.count(yi)); Obj& y = M[yi];
		if (op == "power") {
			if (y.z < 0) { if (ok) bad("negative exponent accepted", ""); x.known = false; continue; }
			WANT_OK(); if (x.t == 'F') { f1ref(xi) = ref::pow(f1ref(xi), y.z); touched(xi); } else if (x.t == '2') { f2ref(xi) = ref::pow(f2ref(xi), y.z); touched(xi); } else x.f12 = ref::pow(x.f12, y.z); continue;
		}
		if (x.t == 'Z') {
			if (op == "mod" && y.z == 0) { if (ok) bad("division by zero accepted", ""); c.ctr("mod by zero")++; x.known = false; continue; }
			WANT_OK(); const Z v = y.z; if (op == "add") x.z += v; else if (op == "sub") x.z -= v; else if (op == "mul") x.z *= v; else { HARNESS_REQUIRE(op == "mod"); x.z %= v; } continue;
		}
		WANT_OK();
		if (x.t == 'F') { const F1 v = f1ref(yi); F1& a = f1ref(xi); a = op == "add" ? a + v : op == "sub" ? a - v : a * v; touched(xi); }
		else if (x.t == '2') { const F2 v = f2ref(yi); F2& a = f2ref(xi); a = op == "add" ? a + v : op == "sub" ? a - v : a * v; touched(xi); }
		else if (x.t == 'T') { const F12 v = y.f12; x.f12 = op == "add" ? x.f12 + v : op == "sub" ? x.f12 - v : x.f12 * v; }
		else if (op == "mul") { x.rawKnown = false; if (x.t == 'P') x.p = ref::mul(x.p, y.z); else x.q = ref::mul(x.q, y.z); }
		else { const P1 a = op == "add" ? y.p : ref::neg(y.p); const P2 b = op == "add" ? y.q : ref::neg(y.q); x.rawKnown = false; if (x.t == 'P') x.p = ref::add(x.p, a); else x.q = ref::add(x.q, b); }
	}
	c.ctr("log lines") += lineNo; c.ctr("garbage collections with finalisers") += gcs; c.ctr("objects") += M.size();
	if (!ended) bad("the virtual machine ended", "the log has no end");
}
