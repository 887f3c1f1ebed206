// K03: every operation is a function of the values of its inputs
#include "../common.hpp"
#include "../ops.hpp"
#include "../state.hpp"
#include <sys/wait.h>
#include <alloca.h>
using namespace mon;

enum { T = 40 }; // argument choices per operation
struct Shared { volatile int ready; volatile u64 len; u64 cold[ops::NOPS][T]; volatile u64 coldDone[ops::NOPS]; char data[4 << 20]; };

static u64 __attribute__((noinline)) call(const ops::Env& e, unsigned o, unsigned i, unsigned j, unsigned k, u64 junk) { return ops::table[o].fn(e, i, j, k, junk); }
static void __attribute__((noinline)) dirtyStack(u64 junk) { // what earlier calls leave behind
	volatile u64 *p = (volatile u64 *)alloca(24000); for (int i = 0; i < 3000; i++) p[i] = junk += 0x9e3779b97f4a7c15ULL;
	u64 x = junk | 1; __asm__ volatile("movq %0,%%xmm2; movq %0,%%xmm3; movq %0,%%xmm4; movq %0,%%xmm5; movq %0,%%xmm6; movq %0,%%xmm7; movq %0,%%xmm15" :: "r"(x) : "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm15");
}
struct Arg { unsigned i, j, k; };

// printing and parsing leave the stream as it was: its state is part of the history of what is printed next
template<class T> static void streamOne(Ctx& c, const char *nm, const T& x, T y, bool parse)
{
	c.begin(nm); const std::ios_base::fmtflags base[3] = { std::ios_base::dec, std::ios_base::hex, std::ios_base::oct };
	for (int m = 0; m < 3; m++) for (int q = 0; q < 2; q++) {
		std::ios_base::fmtflags f = base[m]; const bool plain = q == 0; if (!plain) f |= std::ios_base::showbase | std::ios_base::uppercase | std::ios_base::left | std::ios_base::unitbuf | std::ios_base::boolalpha; if (plain) f |= std::ios_base::skipws;
		std::ostringstream os, ref; os.flags(f); ref.flags(f); if (!plain) { os.fill('#'); ref.fill('#'); os.precision(11); ref.precision(11); }
		os << 255 << ' '; os << x; const std::string mid = os.str(); os << ' ' << 255 << ' ' << 0.3; ref << ' ' << 255 << ' ' << 0.3;
		CHECK(c, os.flags() == f && os.fill() == ref.fill() && os.precision() == ref.precision() && os.exceptions() == ref.exceptions() && os.good(), std::string("stream after << ") + nm, "flags " << os.flags() << " instead of " << f);
		CHECK(c, os.str().substr(mid.size()) == ref.str(), std::string("next value after << ") + nm, "[" << os.str().substr(mid.size()) << "] [" << ref.str() << "]");
		if (parse && plain && m < 2) { std::ostringstream t; t.flags(f); t << x; std::istringstream is(t.str() + (m ? " ff" : " 255")); is.flags(f); is >> y; const std::ios_base::fmtflags g = is.flags(); int v = 0; is >> v; CHECK(c, g == f && v == 255, std::string("stream after >> ") + nm, "flags " << g << " instead of " << f << " next " << v); }
		c.eval(hmix(hbytes(nm, strlen(nm)), m * 2 + q)); c.ctr("stream states compared")++;
	}
}
static void streamState(Ctx& c)
{
	Gen G(c); using mie::Vuint; using mie::Vsint;
	for (int i = 0; i < 4; i++) {
		streamOne(c, "Fp", mk(G.f1()), mk(G.f1()), true); streamOne(c, "Fp2", mk(G.f2()), mk(G.f2()), true); streamOne(c, "Fp12", mk(G.f12()), mk(G.f12()), true); { Fp12 t = mk(G.f12()); streamOne(c, "Fp6", t.a_, t.b_, true); }
		Vuint v(toV(G.edgeInt(64 * (i + 1)))); streamOne(c, "Vuint", v, Vuint(7), true); Vsint w; w = Vsint(v); if (i & 1) w = Vsint(0) - w; streamOne(c, "Vsint", w, Vsint(-3), true);
		Ec1 a, b; Ec2 r, t; G.rep(a, i == 3 ? ref::P1() : G.p1()); G.rep(b, G.p1()); streamOne(c, "Ec1", a, b, true); G.rep(r, i == 3 ? ref::P2() : G.p2sub()); G.rep(t, G.p2sub()); streamOne(c, "Ec2", r, t, true);
	}
}

void suite(Ctx& c)
{
	libstate::State st; HARNESS_REQUIRE(st.find());
	Shared *sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); HARNESS_REQUIRE(sh != MAP_FAILED);
	static Arg arg[ops::NOPS][T]; { Rng g(c.seed * 77 + 5); for (unsigned o = 0; o < ops::NOPS; o++) for (int t = 0; t < T; t++) { arg[o][t].i = (unsigned)g.u(1000); arg[o][t].j = (unsigned)g.u(1000); arg[o][t].k = (unsigned)g.u(1000); if (t == 0) arg[o][t].i = o; if (t == 1) arg[o][t].j = arg[o][t].i; if (t >= 4 && t % 4) { arg[o][t] = arg[o][t & ~3]; if (t & 1) arg[o][t].i ^= 1; if (t & 2) arg[o][t].j ^= 1; } } }
	// the cold server: forked before any operation, forks one process per operation
	c.begin("cold start");
	int pfd[2]; HARNESS_REQUIRE(pipe(pfd) == 0);
	const pid_t server = fork(); HARNESS_REQUIRE(server >= 0);
	if (server == 0) {
		close(pfd[1]); char go = 0; if (read(pfd[0], &go, 1) != 1) _exit(1);
		for (unsigned o = 0; o < ops::NOPS; o++) {
			const pid_t p = fork(); if (p < 0) _exit(2);
			if (p == 0) {
				ops::Env *e = new ops::Env(); ops::thaw(*e, std::string(sh->data, sh->len));
				for (int t = 0; t < T; t++) sh->cold[o][t] = call(*e, o, arg[o][t].i, arg[o][t].j, arg[o][t].k, t * 0x1111);
				sh->coldDone[o] = 1; _exit(0);
			}
			int ws; waitpid(p, &ws, 0); if (ws != 0) sh->coldDone[o] = 2;
		}
		_exit(0);
	}
	close(pfd[0]);
	c.begin("build inputs"); ops::Env& e = *new ops::Env(); ops::build(e, c.seed);
	{ const std::string f = ops::freeze(e); HARNESS_REQUIRE(f.size() < sizeof sh->data); memcpy(sh->data, f.data(), f.size()); sh->len = f.size(); }
	{ ops::Env *t = new ops::Env(); ops::thaw(*t, std::string(sh->data, sh->len)); HARNESS_REQUIRE(t->hash() == e.hash()); delete t; }
	HARNESS_REQUIRE(write(pfd[1], "g", 1) == 1); close(pfd[1]); { int ws; waitpid(server, &ws, 0); HARNESS_REQUIRE(ws == 0); }
	static u64 base[ops::NOPS][T];
	for (unsigned o = 0; o < ops::NOPS; o++) { // warm-up: every operation once, lazily built constants exist afterwards
		c.begin(ops::table[o].name); CHECK(c, sh->coldDone[o] == 1, std::string("cold ") + ops::table[o].name, "the first operation of a process does not end normally");
		int ord[T]; for (int t = 0; t < T; t++) { const int q = (int)c.g.u(t + 1); ord[t] = ord[q]; ord[q] = t; } // not the order of the cold start
		for (int u = 0; u < T; u++) { const int t = ord[u]; base[o][t] = call(e, o, arg[o][t].i, arg[o][t].j, arg[o][t].k, ~0ULL * (t & 1)); if (sh->coldDone[o] == 1) { c.eval(hmix(base[o][t], o)); CHECK(c, base[o][t] == sh->cold[o][t], std::string("history ") + ops::table[o].name, "the first call of a process gives another result than after other operations: args " << arg[o][t].i << "," << arg[o][t].j << "," << arg[o][t].k); } }
	}
	c.ctr("results in a process where nothing ran before") += ops::NOPS * T; c.ctr("library state: objects") = st.symbols; c.ctr("library state: bytes") = st.bytes;
	// a second set of inputs, and a place that holds now the one, now the other: results kept under an object's address show
	ops::Env& eb = *new ops::Env(); ops::build(eb, c.seed + 7919); ops::Env& w = *new ops::Env(); w = eb; static u64 base2[ops::NOPS][T];
	for (unsigned o = 0; o < ops::NOPS; o++) { c.begin(ops::table[o].name); for (int t = 0; t < T; t++) base2[o][t] = call(eb, o, arg[o][t].i, arg[o][t].j, arg[o][t].k, 3); }
	st.save();
	const u64 h0 = e.hash(); std::string image((const char *)&e, sizeof e); std::vector<std::pair<unsigned, int> > order;
	c.sample("library state: " + st.names());
	streamState(c);
	for (u64 r = 0, n = c.n(4); r < n; r++) {
		order.clear(); for (unsigned o = 0; o < ops::NOPS; o++) for (int t = 0; t < T; t++) if (ops::table[o].cost < 50 || t % 8 == (int)(r % 8)) order.push_back(std::make_pair(o, t));
		for (size_t i = order.size() - 1; i > 0; i--) std::swap(order[i], order[c.g.u(i + 1)]);
		unsigned prev = 0;
		for (size_t x = 0; x < order.size(); x++) {
			const unsigned o = order[x].first; const int t = order[x].second; const Arg& a = arg[o][t]; const int how = (int)c.g.u(8); const u64 junk = how == 0 ? 0 : how == 1 ? ~0ULL : c.g.next();
			c.begin(ops::table[o].name);
			if (how >= 4) dirtyStack(c.g.next());
			if (how == 3) { // an operation that fails, first
				Fp y(5); Ec1 P; bool thrown = false; const char *bad[] = { "12x", "", "0x", "0_1_2_3_7", "1_2" };
				try { y.set(bad[c.g.u(3)]); } catch (std::exception&) { thrown = true; } (void)thrown; try { std::istringstream is(bad[3 + c.g.u(2)]); is >> P; } catch (std::exception&) {} c.ctr("after an operation that throws")++;
			}
			const u64 h = call(e, o, a.i, a.j, a.k, junk); u64 h2 = h; const int rep = how == 2 ? 3 : 1; for (int q = 1; q < rep; q++) { const u64 s = call(e, o, a.i, a.j, a.k, c.g.next()); if (s != h) h2 = s; }
			c.eval(hmix(base[o][t], hmix(o, t)));
			CHECK(c, h == base[o][t] && h2 == h, std::string("history ") + ops::table[o].name, "result depends on history, on the old content of the output object or on repetition: args " << a.i << "," << a.j << "," << a.k << " junk " << junk << " after " << ops::table[prev].name << " got " << h << "/" << h2 << " want " << base[o][t]);
			if (memcmp(&e, image.data(), sizeof e) != 0) { size_t k = 0; while (((const char *)&e)[k] == image[k]) k++; c.fail(std::string("inputs ") + ops::table[o].name, "an input was changed, byte " + std::to_string((unsigned long long)k) + " of the input block"); image.assign((const char *)&e, sizeof e); }
			c.ctr("inputs compared")++;
			if (r < 2 || x % 64 == 0 || x + 1 == order.size()) { const std::string s = st.changed(); if (!s.empty()) c.fail("state " + s.substr(0, s.find(" at byte")), "library-wide state changed by or shortly before " + std::string(ops::table[o].name) + ": " + s); c.ctr("state compared")++; }
			prev = o;
		}
		for (unsigned o = 0; o < ops::NOPS; o++) { // the same operation many times in a row, with operands that share parts
			c.begin(ops::table[o].name); const int len = ops::table[o].cost >= 100 ? 4 : ops::table[o].cost >= 10 ? 10 : 40; int t = (int)c.g.u(T);
			for (int x = 0; x < len; x++) { const int last = t; t = c.g.u(4) ? (t & ~3) | (int)c.g.u(4) : (int)c.g.u(T); const Arg& a = arg[o][t]; const u64 h = call(e, o, a.i, a.j, a.k, c.g.next());
				CHECK(c, h == base[o][t], std::string("history ") + ops::table[o].name, "result depends on the previous call of the same operation: args " << a.i << "," << a.j << "," << a.k << " after " << arg[o][last].i << "," << arg[o][last].j << "," << arg[o][last].k << " got " << h << " want " << base[o][t]); c.eval(hmix(base[o][t], hmix(o, t))); c.ctr("runs of one operation")++; }
		}
		for (unsigned o = 0; o < ops::NOPS; o++) { // the same objects with other values
			c.begin(ops::table[o].name); const int len = ops::table[o].cost >= 100 ? 4 : ops::table[o].cost >= 10 ? 8 : 16; int t = (int)c.g.u(T);
			for (int x = 0; x < len; x++) { const bool b = (x + r) & 1; if (c.g.u(3) == 0) t = (int)c.g.u(T); w = b ? eb : e; const Arg& a = arg[o][t]; const u64 h = call(w, o, a.i, a.j, a.k, c.g.next()), want = b ? base2[o][t] : base[o][t];
				CHECK(c, h == want, std::string("history ") + ops::table[o].name, "result depends on what the same objects held before: args " << a.i << "," << a.j << "," << a.k << " got " << h << " want " << want); c.eval(hmix(want, hmix(o, t))); c.ctr("objects with a new value")++; }
		}
		CHECK(c, e.hash() == h0, "inputs (indirect)", "a string, table or big integer used as input was changed");
	}
}
