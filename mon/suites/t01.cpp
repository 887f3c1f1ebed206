// T01: any number of threads after initialisation, shared read-only inputs
#include "../common.hpp"
#include "../ops.hpp"
#include "../state.hpp"
#include <sys/wait.h>
#include <atomic>
#include <thread>
#include <sched.h>
using namespace mon;

enum { T = 24, MAXTH = 16 };
struct Arg { unsigned i, j, k; };
struct Shared { volatile u64 len; u64 cold[ops::NOPS][4]; volatile u64 coldDone[ops::NOPS], coldBad[ops::NOPS], coldRace[ops::NOPS]; char data[4 << 20]; };
static Arg arg[ops::NOPS][T]; static u64 base[ops::NOPS][T]; static Shared *sh;
static std::atomic<int> reports(0); static std::atomic<const char *> reportAt(0); static thread_local const char *current = "start";
extern "C" void __tsan_on_report(void *) { if (reports.fetch_add(1) == 0) reportAt = current; }

struct Barrier { // spinning: the threads leave it within nanoseconds of each other
	std::atomic<int> in, gen; const int n; explicit Barrier(int n_) : in(0), gen(0), n(n_) {}
	void wait() { const int g = gen.load(); if (in.fetch_add(1) + 1 == n) { in = 0; gen.fetch_add(1); } else { for (int s = 0; gen.load() == g; s++) if (s > 300) sched_yield(); } }
};
struct Bad { unsigned o, t; u64 got; int other; };
struct Worker { Rng g; std::vector<Bad> bad; u64 done; std::vector<char> pairs; Worker() : g(1), done(0), pairs(ops::NOPS * ops::NOPS) {} };
static std::atomic<int> running[MAXTH]; // the operation each thread is in

static void one(const ops::Env& e, Worker& w, int id, int nth, unsigned o, unsigned t)
{
	current = ops::table[o].name; running[id].store((int)o + 1, std::memory_order_relaxed);
	for (int s = 0; s < nth; s++) if (s != id) { const int r = running[s].load(std::memory_order_relaxed); if (r) w.pairs[o * ops::NOPS + r - 1] = 1; } // which operations ran at the same time
	const u64 h = ops::table[o].fn(e, arg[o][t].i, arg[o][t].j, arg[o][t].k, w.g.next());
	if (h != base[o][t] && w.bad.size() < 20) { Bad b; b.o = o; b.t = t; b.got = h; b.other = running[(id + 1) % nth].load(std::memory_order_relaxed); w.bad.push_back(b); }
	running[id].store(0, std::memory_order_relaxed); w.done++;
}

void suite(Ctx& c)
{
	libstate::State st; HARNESS_REQUIRE(st.find());
	sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); HARNESS_REQUIRE(sh != MAP_FAILED);
	{ Rng g(c.seed * 77 + 6); for (unsigned o = 0; o < ops::NOPS; o++) for (int t = 0; t < T; t++) { arg[o][t].i = (unsigned)g.u(1000); arg[o][t].j = (unsigned)g.u(1000); arg[o][t].k = (unsigned)g.u(1000); if (t == 1) arg[o][t].j = arg[o][t].i; if (t >= 4 && t % 4) { arg[o][t] = arg[o][t & ~3]; if (t & 1) arg[o][t].i ^= 1; if (t & 2) arg[o][t].j ^= 1; } } } // some differ in one argument only
	c.begin("cold start");
	int pfd[2]; HARNESS_REQUIRE(pipe(pfd) == 0);
	const pid_t server = fork(); HARNESS_REQUIRE(server >= 0);
	if (server == 0) { // one process per operation: four threads use it for the first time in the process at once
		close(pfd[1]); char go = 0; if (read(pfd[0], &go, 1) != 1) _exit(1);
		for (unsigned o = 0; o < ops::NOPS; o++) {
			const pid_t p = fork(); if (p < 0) _exit(2);
			if (p == 0) {
				ops::Env *e = new ops::Env(); ops::thaw(*e, std::string(sh->data, sh->len)); Barrier b(4); std::vector<std::thread> th;
				for (int id = 0; id < 4; id++) th.push_back(std::thread([=, &b]() { current = ops::table[o].name; b.wait(); const int a = id / 2; sh->cold[o][id] = ops::table[o].fn(*e, arg[o][a].i, arg[o][a].j, arg[o][a].k, id * 0x1111); }));
				for (int id = 0; id < 4; id++) th[id].join();
				sh->coldRace[o] = (u64)reports.load(); sh->coldDone[o] = 1; _exit(0);
			}
			int ws; waitpid(p, &ws, 0);
		}
		_exit(0);
	}
	close(pfd[0]);
	c.begin("build inputs"); ops::Env& e = *new ops::Env(); ops::build(e, c.seed);
	{ const std::string f = ops::freeze(e); HARNESS_REQUIRE(f.size() < sizeof sh->data); memcpy(sh->data, f.data(), f.size()); sh->len = f.size(); }
	HARNESS_REQUIRE(write(pfd[1], "g", 1) == 1); close(pfd[1]); { int ws; waitpid(server, &ws, 0); HARNESS_REQUIRE(WIFEXITED(ws)); }
	for (unsigned o = 0; o < ops::NOPS; o++) {
		c.begin(ops::table[o].name); for (int t = 0; t < T; t++) base[o][t] = ops::table[o].fn(e, arg[o][t].i, arg[o][t].j, arg[o][t].k, ~0ULL * (t & 1));
		CHECK(c, sh->coldDone[o] == 1, std::string("first use ") + ops::table[o].name, "four threads using it first at once do not end normally");
		CHECK(c, sh->coldRace[o] == 0, std::string("race in first use ") + ops::table[o].name, "ThreadSanitizer reports " << sh->coldRace[o]);
		if (sh->coldDone[o] == 1) for (int t = 0; t < 4; t++) { c.eval(hmix(base[o][t], o)); CHECK(c, base[o][t / 2] == sh->cold[o][t], std::string("first use result ") + ops::table[o].name, "differs from the sequential result"); c.ctr("concurrent first uses")++; }
	}
	st.save(); std::string image((const char *)&e, sizeof e); const u64 h0 = e.hash();
	const int nth = c.thorough() ? 12 : 8; Worker w[MAXTH]; u64 scheduled = 0;
	for (u64 round = 0, n = c.n(3); round < n; round++) {
		for (int id = 0; id < nth; id++) w[id].g = Rng(c.seed * 1000 + round * 100 + id);
		c.begin("threads"); const u64 limit = 6;
		std::vector<unsigned> order; for (unsigned o = 0; o < ops::NOPS; o++) order.push_back(o); for (size_t i = order.size() - 1; i > 0; i--) std::swap(order[i], order[c.g.u(i + 1)]);
		Barrier b(nth); std::vector<std::thread> th;
		for (int id = 0; id < nth; id++) th.push_back(std::thread([&, id]() {
			Worker& me = w[id];
			for (size_t x = 0; x < order.size(); x++) { // all threads in the same operation, different arguments
				const unsigned o = order[x]; b.wait(); const unsigned reps = ops::table[o].cost >= 50 ? 2 : ops::table[o].cost >= 5 ? 12 : 60;
				const unsigned grp = (unsigned)order[x] * 7 + (unsigned)round; for (unsigned q = 0; q < reps; q++) one(e, me, id, nth, o, me.g.coin() ? (grp % (T / 4)) * 4 + (unsigned)me.g.u(4) : (unsigned)me.g.u(T));
			}
			b.wait();
			for (u64 x = 0; x < limit * ops::NOPS; x++) { // all different
				const unsigned o = (unsigned)me.g.u(ops::NOPS); if (ops::table[o].cost >= 100 && me.g.u(4)) continue; one(e, me, id, nth, o, (unsigned)me.g.u(T)); if (me.g.u(16) == 0) sched_yield();
			}
		}));
		for (int id = 0; id < nth; id++) th[id].join();
		for (int id = 0; id < nth; id++) {
			for (size_t i = 0; i < w[id].bad.size(); i++) { const Bad& x = w[id].bad[i]; c.fail(std::string("result ") + ops::table[x.o].name, std::string("differs from the sequential result while another thread ran ") + (x.other ? ops::table[x.other - 1].name : "nothing") + ", args " + std::to_string(arg[x.o][x.t].i) + "," + std::to_string(arg[x.o][x.t].j) + "," + std::to_string(arg[x.o][x.t].k)); }
			w[id].bad.clear(); c.evals += w[id].done; scheduled += w[id].done; w[id].done = 0;
		}
		const std::string s = st.changed(); if (!s.empty()) c.fail("state " + s.substr(0, s.find(" at byte")), "library-wide state changed: " + s);
		CHECK(c, memcmp(&e, image.data(), sizeof e) == 0 && e.hash() == h0, "inputs", "a shared input was changed");
		c.ctr("rounds")++;
	}
	for (size_t x = 0; x < (size_t)ops::NOPS * ops::NOPS; x++) for (int id = 0; id < nth; id++) if (w[id].pairs[x]) { c.distinct.add(hmix(x, 5000)); c.ctr("pairs of operations seen at the same time")++; break; }
	c.ctr("operations in threads") += scheduled; c.ctr("max:threads") = nth; c.ctr("library state: objects") = st.symbols;
	if (reports.load()) c.fail(std::string("data race in ") + (reportAt.load() ? reportAt.load() : "?"), "ThreadSanitizer: " + std::to_string(reports.load()) + " reports; see the process's standard error when replayed");
#if defined(__SANITIZE_THREAD__)
	c.ctr("operations under ThreadSanitizer") += scheduled; c.begin("end"); c.write(); _exit(0);
#endif
}
