// K02: published parameters, repeated initialisation, curve switching, unsupported parameters
#define MON_NO_INIT
#include "../common.hpp"
#include "../ops.hpp"
#include <sys/wait.h>
using namespace mon;
using bn::Param; using bn::CurveParam;

bn::CurveParam curveOf(int b); void refSetup(int b);

static u64 paramImage() // everything published, as represented
{
	u64 h = 1; h = ops::H(Param::z, h); h = ops::H(Param::p, h); h = ops::H(Param::r, h); h = ops::H(Param::t, h); h = ops::H(Param::largest_c, h); h = ops::H(Param::Z, h); h = ops::H(Param::W2p, h); h = ops::H(Param::W3p, h);
	for (int i = 0; i < 5; i++) { h = ops::H(Param::gammar[i], h); h = ops::H(Param::gammar2[i], h); h = ops::H(Param::gammar3[i], h); }
	h = ops::H(Param::b, h); h = ops::H(Param::b_invxi, h); h = ops::H(Param::half, h); h = ops::mix(h, Param::siTbl.size()); for (size_t i = 0; i < Param::siTbl.size(); i++) h = ops::H((int)Param::siTbl[i], h);
#ifdef BN_SUPPORT_SNARK
	for (size_t i = 0; i < Param::zReplTbl.size(); i++) h = ops::H((int)Param::zReplTbl[i], h);
#endif
	h = ops::H(Fp::getModulo(), h); return h;
}

// the defining equations, with GMP only; documented decimal values of p from the readme
static void checkParams(Ctx& c, int b, const std::string& when)
{
#ifdef BN_SUPPORT_SNARK
	const Z z("4965661367192848881"), pDoc("21888242871839275222246405745257275088696311157297823662689037894645226208583"), rDoc("21888242871839275222246405745257275088548364400416034343698204186575808495617"); const int xa = 9, xb = 1;
#else
	const Z z("-4647714815446351873"), pDoc("16798108731015832284940804142231733909889187121439069848933715426072753864723"), rDoc("16798108731015832284940804142231733909759579603404752749028378864165570215949"); const int xa = 1, xb = 1; b = 2;
#endif
	const Z p = (((36 * z + 36) * z + 24) * z + 6) * z + 1, r = (((36 * z + 36) * z + 18) * z + 6) * z + 1, t = 6 * z * z + 1; const std::string k = " (" + when + ")"; u64 n = 0;
	#define PC(cond, name) { CHECK(c, cond, std::string("parameter ") + name, name " is not what it is defined to be" << k << " b=" << b); c.eval(hstr(std::string(name) + when, b)); n++; }
	PC(p == pDoc && r == rDoc, "reference") // of this check
	PC(toZ(Param::z) == z, "z") PC(toZ(Param::p) == p, "p") PC(toZ(Param::r) == r, "r") PC(toZ(Param::t) == t, "t") PC(toZ(Param::largest_c) == 6 * z + 2, "largest_c") PC(Param::b == b, "b") PC(toZ(Fp::getModulo()) == p, "modulus of Fp")
	const ref::F2 xi = ref::F2(ref::F1(Z(xa)), ref::F1(Z(xb))); const ref::F2 g = ref::pow(xi, (p - 1) / 6);
	PC(same(Param::b_invxi, ref::F2(ref::F1(Z(b))) * ref::inv(xi)), "b_invxi") PC(same(Param::W2p, ref::pow(xi, (p - 1) / 3)), "W2p") PC(same(Param::W3p, ref::pow(xi, (p - 1) / 2)), "W3p")
	PC(same(Param::half, ref::inv(ref::F1(Z(2)))), "half")
	{ const ref::F2 w = ref::pow(xi, (p * p - 1) / 6); PC(same(Param::Z, w.a * w.a), "Z") }
	ref::F2 a = ref::F2(ref::F1(Z(1))), a2 = a; const ref::F2 g2 = ref::pow(xi, (p * p - 1) / 6), g3 = ref::pow(xi, (p * p * p - 1) / 6); ref::F2 a3 = a;
	for (int i = 0; i < 5; i++) { a = a * g; a2 = a2 * g2; a3 = a3 * g3; PC(same(Param::gammar[i], a), "gammar") PC(same(Param::gammar2[i], a2), "gammar2") PC(same(Param::gammar3[i], a3), "gammar3") }
	Z s = 0; bool digits = true; for (size_t i = 0; i < Param::siTbl.size(); i++) { s = 2 * s + (int)Param::siTbl[i]; digits = digits && Param::siTbl[i] >= -1 && Param::siTbl[i] <= 1; }
	PC(s == abs(6 * z + 2) && digits && !Param::siTbl.empty() && Param::siTbl[0] == 1, "siTbl")
	bool neg = false; for (size_t i = 0; i < Param::siTbl.size(); i++) neg = neg || Param::siTbl[i] < 0;
	PC(!neg || Param::useNAF, "useNAF") // negative digits need the negated point
#ifdef BN_SUPPORT_SNARK
	s = 0; digits = true; for (size_t i = 0; i < Param::zReplTbl.size(); i++) { s = 2 * s + (int)Param::zReplTbl[i]; digits = digits && Param::zReplTbl[i] >= -1 && Param::zReplTbl[i] <= 1; }
	PC(s == abs(z) && digits && !Param::zReplTbl.empty() && Param::zReplTbl[0] == 1, "zReplTbl")
#endif
	c.ctr("defining equations") += n; if (c.wantSample()) c.sample(when + ": p=" + toZ(Param::p).get_str() + " r=" + toZ(Param::r).get_str() + " b=" + std::to_string(Param::b));
}

static void initAs(int b, int how, int mode, int mulx)
{
#ifdef BN_SUPPORT_SNARK
	const bool first = b == 3; // the default curve of this build
#else
	const bool first = true;
#endif
	const CurveParam cp = curveOf(b);
	if (first && how == 1) Param::init(); else if (first && how == 2) Param::init(mode); else if (first && how == 3) Param::init(mode, mulx != 0); else if (how == 4) Param::init(cp); else if (how == 5) Param::init(cp, mode); else Param::init(cp, mode, mulx != 0);
}

enum { T = 10 };
struct Shared { volatile int ok; u64 image, len; u64 base[ops::NOPS][T]; char data[4 << 20]; };
struct Arg { unsigned i, j, k; };
static Arg arg[ops::NOPS][T];

// runs body in a child; returns its wait status and all it printed
template<class F> int child(F body, std::string& text)
{
	int fd[2]; HARNESS_REQUIRE(pipe(fd) == 0); fflush(stdout); fflush(stderr);
	const pid_t p = fork(); HARNESS_REQUIRE(p >= 0);
	if (p == 0) { close(fd[0]); dup2(fd[1], 1); dup2(fd[1], 2); close(fd[1]); body(); fflush(stdout); _exit(99); } // 99: came back
	close(fd[1]); char buf[4096]; ssize_t n; text.clear(); while ((n = read(fd[0], buf, sizeof buf)) > 0) text.append(buf, n); close(fd[0]);
	int ws; waitpid(p, &ws, 0); return ws;
}

void suite(Ctx& c)
{
#ifdef BN_SUPPORT_SNARK
	const int bs[2] = { c.b, c.b == 82 ? 3 : 82 }; const int nb = 2;
#else
	const int bs[2] = { 2, 2 }; const int nb = 1;
#endif
	{ Rng g(c.seed * 77 + 7); for (unsigned o = 0; o < ops::NOPS; o++) for (int t = 0; t < T; t++) { arg[o][t].i = (unsigned)g.u(1000); arg[o][t].j = (unsigned)g.u(1000); arg[o][t].k = (unsigned)g.u(1000); } }
	// each curve alone in a process of its own, initialised once
	Shared *sh[2]; ops::Env *env[2] = { 0, 0 }; c.begin("curve alone");
	for (int q = 0; q < nb; q++) {
		sh[q] = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); HARNESS_REQUIRE(sh[q] != MAP_FAILED); std::string text;
		const int ws = child([&]() { Param::init(curveOf(bs[q]), c.mode, c.mulx != 0); ops::Env& e = *new ops::Env(); ops::build(e, c.seed); for (unsigned o = 0; o < ops::NOPS; o++) for (int t = 0; t < T; t++) sh[q]->base[o][t] = ops::table[o].fn(e, arg[o][t].i, arg[o][t].j, arg[o][t].k, t);
			const std::string f = ops::freeze(e); memcpy(sh[q]->data, f.data(), f.size()); sh[q]->len = f.size(); sh[q]->image = paramImage(); sh[q]->ok = 1; _exit(0); }, text);
		if (!(WIFEXITED(ws) && WEXITSTATUS(ws) == 0 && sh[q]->ok)) { c.fail("curve alone", "a process that initialises curve b=" + std::to_string(bs[q]) + " and works on it ends badly: " + text.substr(0, 800)); return; }
	}
	// the process of this test: first curve, then anything
	int cur = 0; c.begin("first init"); initAs(bs[0], 0, c.mode, c.mulx); checkParams(c, bs[0], "first init");
	for (int q = 0; q < nb; q++) { env[q] = new ops::Env(); ops::thaw(*env[q], std::string(sh[q]->data, sh[q]->len)); }
	CHECK(c, paramImage() == sh[0]->image, "parameters differ", "from those of another process");
	std::string trail = "init";
	for (u64 step = 0, n = c.n(300); step < n; step++) {
		const int what = (int)c.g.u(4), mode = (int)c.g.u(3) - 1, mulx = (int)c.g.u(2), how = (int)c.g.u(6);
		if (what == 0) { // again
			if (nb == 2 && c.g.u(2)) { cur = 1 - cur; c.ctr("curve switched")++; } else c.ctr("initialised again")++;
			c.begin("init again"); initAs(bs[cur], how, mode, mulx); trail += " init(b=" + std::to_string(bs[cur]) + ",form " + std::to_string(how) + "," + std::to_string(mode) + "," + std::to_string(mulx) + ")"; if (trail.size() > 400) trail = "..." + trail.substr(trail.size() - 300);
			CHECK(c, paramImage() == sh[cur]->image, "parameters after init", "differ from those of a fresh process, curve b=" << std::dec << bs[cur] << " after: " << trail); c.eval(hmix(step, sh[cur]->image));
			if (step % 10 == 0) checkParams(c, bs[cur], "init again");
		} else {
			const unsigned m = 1 + (unsigned)c.g.u(12);
			for (unsigned x = 0; x < m; x++) {
				const unsigned o = (unsigned)c.g.u(ops::NOPS); const int t = (int)c.g.u(T); c.begin(ops::table[o].name);
				const u64 h = ops::table[o].fn(*env[cur], arg[o][t].i, arg[o][t].j, arg[o][t].k, c.g.next()); c.eval(hmix(h, hmix(o, cur)));
				CHECK(c, h == sh[cur]->base[o][t], std::string("result ") + ops::table[o].name, "differs from a process that initialised curve b=" << std::dec << bs[cur] << " once: args " << arg[o][t].i << "," << arg[o][t].j << "," << arg[o][t].k << " after: " << trail); c.ctr("operations between initialisations")++;
			}
		}
	}
	CHECK(c, paramImage() == sh[cur]->image, "parameters at the end", "changed by an operation");
	// every entry of the catalogue once more on every curve
	for (int q = 0; q < nb * 2; q++) { c.begin("init last"); initAs(bs[q % nb], 0, (int)c.g.u(3) - 1, (int)c.g.u(2)); for (unsigned o = 0; o < ops::NOPS; o++) { c.begin(ops::table[o].name); for (int t = 0; t < T; t++) { const u64 h = ops::table[o].fn(*env[q % nb], arg[o][t].i, arg[o][t].j, arg[o][t].k, 7); c.eval(hmix(h, hmix(o, q))); CHECK(c, h == sh[q % nb]->base[o][t], std::string("result ") + ops::table[o].name, "differs from a process that initialised curve b=" << std::dec << bs[q % nb] << " once"); } } }
	// requests for other curves
	std::vector<CurveParam> bad; const CurveParam good = curveOf(bs[0]);
	{
		CurveParam x = good; x.b = good.b + 1; bad.push_back(x); x.b = -good.b; bad.push_back(x); x.b = 0; bad.push_back(x); x = good; x.xi_a++; bad.push_back(x); x = good; x.xi_b = -x.xi_b; bad.push_back(x); x = good; x.xi_b = 0; bad.push_back(x); x = good; std::swap(x.xi_a, x.xi_b); if (x != good) bad.push_back(x);
		x = good; x.z = -x.z; bad.push_back(x); x = good; x.z++; bad.push_back(x); x = good; x.z ^= 1LL << 40; bad.push_back(x); x = good; x.z = (int)x.z; bad.push_back(x); x.z = 0; bad.push_back(x);
#ifdef BN_SUPPORT_SNARK
		const CurveParam nb_ = { -((1LL << 62) + (1LL << 55) + (1LL << 0)), 2, 1, 1 }; bad.push_back(nb_); x = good; x.b = 5; bad.push_back(x); x.b = 2; bad.push_back(x);
#else
		const CurveParam s1 = { 4965661367192848881, 3, 9, 1 }, s2 = { 4965661367192848881, 82, 9, 1 }; bad.push_back(s1); bad.push_back(s2); x = good; x.b = 82; bad.push_back(x); x.b = 3; bad.push_back(x);
#endif
		for (u64 i = 0, n = c.n(12); i < n; i++) { x = good; switch (c.g.u(5)) { case 0: x.z = (int64_t)c.g.next(); break; case 1: x.b = (int)c.g.next(); break; case 2: x.xi_a = (int)c.g.u(50) - 20; break; case 3: x.xi_b = (int)c.g.u(50) - 20; break; default: x.z ^= 1LL << c.g.u(64); x.b = (int)c.g.u(100); break; } bool sup = false; for (int q = 0; q < nb; q++) sup = sup || (x.z == curveOf(bs[q]).z && x.b == curveOf(bs[q]).b && x.xi_a == curveOf(bs[q]).xi_a && x.xi_b == curveOf(bs[q]).xi_b); if (!sup) bad.push_back(x); }
	}
	for (size_t i = 0; i < bad.size(); i++) {
		const CurveParam& x = bad[i]; std::string text; const int mode = (int)c.g.u(3) - 1; c.begin("unsupported");
		const int ws = child([&]() { try { Param::init(x, mode, true); } catch (std::exception& e) { printf("%s\n", e.what()); fflush(stdout); _exit(98); } }, text);
		std::ostringstream os; os << "z=" << x.z << " b=" << x.b << " xi=" << x.xi_a << "+" << x.xi_b << "u: "; const bool stops = WIFEXITED(ws) && WEXITSTATUS(ws) != 0 && WEXITSTATUS(ws) != 99;
		CHECK(c, stops, "unsupported curve accepted", os.str() << (WIFSIGNALED(ws) ? "ended by a signal" : "Param::init came back") << " output: " << text.substr(0, 300));
		if (stops) CHECK(c, !text.empty(), "unsupported curve: no diagnostic", os.str()); c.eval(hstr(os.str())); c.ctr("unsupported parameters refused")++; if (i < 3) c.sample(os.str() + text.substr(0, 80));
	}
}
