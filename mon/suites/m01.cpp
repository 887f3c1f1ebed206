// M01: the whole catalogue on inputs and outputs in heap blocks of their own, under sanitizers, memcheck, hardened and plain builds
#define OPS_BOX
#include "../common.hpp"
#include "../ops.hpp"
#include <algorithm>
#ifdef OPS_VALGRIND
#define XBYAK_NO_OP_NAMES
#include "xbyak/xbyak.h"
#endif
using namespace mon;

static u64 control;
static u64 errors()
{
#ifdef OPS_VALGRIND
	return VALGRIND_COUNT_ERRORS;
#else
	return 0;
#endif
}
void suite(Ctx& c)
{
#ifdef OPS_VALGRIND
	HARNESS_REQUIRE(RUNNING_ON_VALGRIND);
	{ // positive control: generated code that reads past a heap block and branches on it has to be noticed
		struct Bad : Xbyak::CodeGenerator { Bad() { mov(rax, ptr[rdi + 40]); test(rax, rax); Xbyak::Label l; jz(l); nop(); L(l); ret(); } } bad;
		void *p = malloc(40); const u64 n = errors(); ((u64 (*)(void *))bad.getCode())(p); const u64 k = errors() - n; free(p); HARNESS_REQUIRE(k >= 1); c.ctr("positive control: errors noticed in generated code") = k; control = errors();
	}
	c.ctr("under memcheck") = 1;
#endif
	CHECK(c, errors() == control, "memcheck Param::init", "memcheck reports errors in the initialisation");
	ops::Env *e = 0; static u64 h0; (void)h0;
	const u64 rounds = c.n(4);
	for (u64 r = 0; r < rounds; r++) {
		c.begin("build inputs"); u64 e0 = errors(); if (!e || r % 4 == 0) { delete e; e = new ops::Env(); ops::build(*e, c.seed * 1000 + r); }
		CHECK(c, errors() == e0, "memcheck build inputs", "memcheck reports errors while points, elements and tables are built");
		for (unsigned o = 0; o < ops::NOPS; o++) {
			const int cost = ops::table[o].cost; unsigned reps = cost >= 100 ? 1 : cost >= 10 ? 4 : 12;
			c.begin(ops::table[o].name);
			for (unsigned t = 0; t < reps; t++) {
				unsigned i = (unsigned)c.g.u(1000), j = (unsigned)c.g.u(1000), k = (unsigned)c.g.u(1000); if ((r + t) % 5 == 0) { i = (unsigned)r; j = i + (unsigned)c.g.u(2); }
				const u64 b4 = errors(), junk = c.g.next();
				const u64 h = ops::table[o].fn(*e, i, j, k, junk); ops::unbox();
				c.eval(hmix(h, o)); c.ctr(ops::table[o].name)++;
				CHECK(c, errors() == b4, std::string("memcheck ") + ops::table[o].name, "memcheck reports " << (errors() - b4) << " errors, args " << i << "," << j << "," << k << " round " << r);
			}
		}
#ifdef OPS_VALGRIND
		CHECK(c, ops::undefinedResults == 0, "undefined result", ops::undefinedResults << " results have undefined bytes");
#endif
	}
	delete e;
	// construction, copies, containers and text of every type, destroyed again
	for (u64 r = 0, n = c.n(40); r < n; r++) {
		c.begin("objects"); const u64 b4 = errors();
		{
			ops::Rnd g(c.g.next()); std::vector<Fp> v(1 + g.u(5)); for (size_t i = 0; i < v.size(); i++) ops::rawFp(v[i], g); v.push_back(v[0]); v.resize(9); std::vector<Fp12> w(2, Fp12(3));
			ops::rawFp12(w[0], g); w[1] = w[0]; Fp12 x = w[0] * w[1]; w.push_back(x); std::vector<mie::Vuint> iv; for (int i = 0; i < 5; i++) { mie::Vuint t; ops::rawV(t, g, 8); iv.push_back(t); } std::sort(iv.begin(), iv.end());
			std::ostringstream os; os << x << ' ' << iv[0] << ' ' << v[0]; std::istringstream is(os.str()); Fp12 y; mie::Vuint z; Fp f; is >> y >> z >> f; CHECK(c, !is.fail() && y == x && z == iv[0] && f == v[0], "objects", os.str());
			c.eval(hstr(os.str())); c.ctr("objects and text")++;
			static const char *bad[] = { "", "0x", "-", "[", "[1", "[1,", "[1,2", "1_", "1_2_", "0_1", "xyz", "99999999999999999999999999999999999999999999999999z" };
			for (unsigned i = 0; i < 12; i++) { try { std::istringstream b(bad[i]); Ec1 P; Ec2 Q; Fp12 t; mie::Vsint s; switch (g.u(5)) { case 0: b >> P; break; case 1: b >> Q; break; case 2: b >> t; break; case 3: s.set(bad[i]); break; default: f.set(bad[i]); } } catch (std::exception&) {} }
		}
		CHECK(c, errors() == b4, "memcheck objects", "memcheck reports errors on copies, containers or text");
	}
}
