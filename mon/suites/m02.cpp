// M02: the routines made at run time, called through a trampoline that watches what the ABI promises
#include "../common.hpp"
#include <signal.h>
#include <ucontext.h>
#include <sys/syscall.h>
using namespace mon;
using bn::Fp; using bn::Fp2; using bn::Fp6; using bn::Fp12;
typedef Fp::Dbl FpDbl; typedef Fp2::Dbl Fp2Dbl; typedef Fp6::Dbl Fp6Dbl; typedef Fp12::Dbl Fp12Dbl;

// ---------------------------------------------------------------- trampoline
extern "C" {
u64 abi_fn, abi_rsp, abi_rec, abi_step, abi_junk;
void abi_call(const u64 *args, u64 *rec, void *stackTop);
void abi_call_end();
}
__asm__(R"(
	.text
	.globl abi_call
	.globl abi_call_end
abi_call:
	pushq %rbx
	pushq %rbp
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, abi_rsp(%rip)
	movq %rsi, abi_rec(%rip)
	movq %rdx, %rsp
	movq abi_junk(%rip), %rax
	movq %rax, %r10
	notq %rax
	movq %rax, %r11
	movq %rax, %xmm0
	movq %r10, %xmm1
	movq %rax, %xmm2
	movq %r10, %xmm3
	movq %rax, %xmm4
	movq %r10, %xmm5
	movq %rax, %xmm6
	movq %r10, %xmm7
	movq %rax, %xmm8
	movq %r10, %xmm9
	movq %rax, %xmm10
	movq %r10, %xmm11
	movq %rax, %xmm12
	movq %r10, %xmm13
	movq %rax, %xmm14
	movq %r10, %xmm15
	movabsq $0x1122334455667701, %rbx
	movabsq $0x8899aabbccddee02, %rbp
	movabsq $0xf1e2d3c4b5a69703, %r12
	movabsq $0x0badcafe0badca04, %r13
	movabsq $0x7fffffffffffff05, %r14
	movabsq $0x8000000000000006, %r15
	movq %rdi, %rax
	movq 0(%rax), %rdi
	movq 8(%rax), %rsi
	movq 16(%rax), %rdx
	movq 24(%rax), %rcx
	movq %r10, %r8
	movq %r11, %r9
	movq %r11, %rax
	cmpq $0, abi_step(%rip)
	je 1f
	pushfq
	orq $0x100, (%rsp)
	popfq
1:
	call *abi_fn(%rip)
	pushfq
	movq %r11, -8(%rsp)
	movq abi_rec(%rip), %r11
	popq 64(%r11)
	pushfq
	andq $~0x100, (%rsp)
	popfq
	movq %rax, 0(%r11)
	movq %rbx, 8(%r11)
	movq %rbp, 16(%r11)
	movq %r12, 24(%r11)
	movq %r13, 32(%r11)
	movq %r14, 40(%r11)
	movq %r15, 48(%r11)
	movq %rsp, 56(%r11)
	stmxcsr 72(%r11)
	fnstcw 80(%r11)
	fnstenv 88(%r11)
	fldenv 88(%r11)
	movq abi_rsp(%rip), %rsp
	cld
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbp
	popq %rbx
	ret
abi_call_end:
)");
static const u64 sentinel[6] = { 0x1122334455667701ULL, 0x8899aabbccddee02ULL, 0xf1e2d3c4b5a69703ULL, 0x0badcafe0badca04ULL, 0x7fffffffffffff05ULL, 0x8000000000000006ULL };
static const char *const regName[6] = { "rbx", "rbp", "r12", "r13", "r14", "r15" };

// ---------------------------------------------------------------- single steps
static char *stackLo, *stackTop; enum { STACK = 128 * 1024, GUARD = 4096 };
static volatile u64 steps, badRsp, lowest; static u64 tramp0, tramp1; struct Range { u64 lo, hi; unsigned char *seen; }; static Range range[8]; static int nrange; static volatile u64 seenCount; static u64 stepJunk;
static void onTrap(int, siginfo_t *, void *u) // after every instruction of the routine
{
	ucontext_t *uc = (ucontext_t *)u; const u64 rip = (u64)uc->uc_mcontext.gregs[REG_RIP], rsp = (u64)uc->uc_mcontext.gregs[REG_RSP];
	if (rip >= tramp0 && rip < tramp1) return;
	steps++;
	for (int k = 0; k < nrange; k++) if (rip >= range[k].lo && rip < range[k].hi && !range[k].seen[rip - range[k].lo]) { range[k].seen[rip - range[k].lo] = 1; seenCount++; }
	if (rsp > (u64)stackTop - 8 || rsp < (u64)stackLo + 4096) { badRsp = rsp; return; }
	if (rsp < lowest) lowest = rsp;
	u64 *p = (u64 *)((rsp - 128) & ~15ULL); for (int i = 1; i <= 48; i++) p[-i] = stepJunk += 0x9e3779b97f4a7c15ULL; // what a signal handler may overwrite
}

// ---------------------------------------------------------------- operand pages
struct Page { char *rw, *ro; }; // two views of one page, each between inaccessible pages
static Page newPage()
{
	int fd = (int)syscall(SYS_memfd_create, "operands", 0); HARNESS_REQUIRE(fd >= 0 && ftruncate(fd, 4096) == 0); Page pg;
	for (int k = 0; k < 2; k++) {
		char *a = (char *)mmap(0, 3 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); HARNESS_REQUIRE(a != MAP_FAILED);
		HARNESS_REQUIRE(mmap(a + 4096, 4096, k ? PROT_READ : PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) != MAP_FAILED); (k ? pg.ro : pg.rw) = a + 4096;
	}
	close(fd); return pg;
}
static Page pages[3];

// ---------------------------------------------------------------- routines
enum Kind { OUT = 1, IN = 2, IO = 3, NUM = 4 };
struct Operand { Kind kind; size_t size; char elem; size_t align; }; // elem: F canonical, D double width below p*2^256, R anything, U words
struct Routine { const char *name; void *fn; int n; Operand a[4]; unsigned alias; bool ret; }; // alias bits: 1 z==x, 2 z==y, 4 x==y, 8 all
static std::vector<Routine> routines;
enum { ZX = 1, ZY = 2, XY = 4, ALL = 8, BIN = 15 };
static void R3(const char *name, void *fn, Operand z, Operand x, Operand y, unsigned alias) { Routine r; r.name = name; r.fn = fn; r.n = 3; r.a[0] = z; r.a[1] = x; r.a[2] = y; r.alias = alias; r.ret = false; routines.push_back(r); }
static void R2(const char *name, void *fn, Operand z, Operand x, unsigned alias, bool ret = false) { Routine r; r.name = name; r.fn = fn; r.n = 2; r.a[0] = z; r.a[1] = x; r.alias = alias; r.ret = ret; routines.push_back(r); }
template<class T> Operand op(Kind k, char e, size_t n = 1) { Operand o; o.kind = k; o.size = sizeof(T) * n; o.elem = e; o.align = __alignof__(T); return o; }
#define F_ (void *)

static void listRoutines()
{
	const Operand f1o = op<Fp>(OUT, 'F'), f1 = op<Fp>(IN, 'F'), r1 = op<Fp>(IN, 'R'), dO = op<FpDbl>(OUT, 'D'), d = op<FpDbl>(IN, 'D'), dR = op<FpDbl>(IN, 'R'), f2o = op<Fp2>(OUT, 'F'), f2 = op<Fp2>(IN, 'F'), r2 = op<Fp2>(IN, 'R'), d2o = op<Fp2Dbl>(OUT, 'D'), d2 = op<Fp2Dbl>(IN, 'D'), d2R = op<Fp2Dbl>(IN, 'R'), f6o = op<Fp6>(OUT, 'F'), f6 = op<Fp6>(IN, 'F'), d6o = op<Fp6Dbl>(OUT, 'D'), f12o = op<Fp12>(OUT, 'F'), f12 = op<Fp12>(IN, 'F'), f12io = op<Fp12>(IO, 'F');
	R3("Fp::add", F_ Fp::add, f1o, f1, f1, BIN); R3("Fp::sub", F_ Fp::sub, f1o, f1, f1, BIN); R3("Fp::addNC", F_ Fp::addNC, f1o, r1, r1, BIN); R3("Fp::subNC", F_ Fp::subNC, f1o, r1, r1, BIN); R3("Fp::mul", F_ Fp::mul, f1o, f1, f1, BIN);
	R2("Fp::neg", F_ Fp::neg, f1o, f1, ZX); R2("Fp::shr1", F_ Fp::shr1, f1o, r1, ZX); R2("Fp::shr2", F_ Fp::shr2, f1o, r1, ZX); R2("Fp::preInv", F_ Fp::preInv, f1o, op<Fp>(IN, 'N'), ZX, true);
	R3("FpDbl::add", F_ FpDbl::add, dO, d, d, BIN); R3("FpDbl::sub", F_ FpDbl::sub, dO, d, d, BIN); R3("FpDbl::addNC", F_ FpDbl::addNC, dO, dR, dR, BIN); R3("FpDbl::subNC", F_ FpDbl::subNC, dO, dR, dR, BIN); R2("FpDbl::neg", F_ FpDbl::neg, dO, d, ZX); R3("FpDbl::mul", F_ FpDbl::mul, dO, f1, f1, XY); R2("FpDbl::mod", F_ FpDbl::mod, f1o, d, 0);
	R3("Fp2::add", F_ Fp2::add, f2o, f2, f2, BIN); R3("Fp2::sub", F_ Fp2::sub, f2o, f2, f2, BIN); R3("Fp2::addNC", F_ Fp2::addNC, f2o, r2, r2, BIN); R3("Fp2::subNC", F_ Fp2::subNC, f2o, r2, r2, BIN); R3("Fp2::mul", F_ Fp2::mul, f2o, f2, f2, BIN); R2("Fp2::square", F_ Fp2::square, f2o, f2, ZX); R2("Fp2::mul_xi", F_ Fp2::mul_xi, f2o, f2, 0); R3("Fp2::mul_Fp_0", F_ Fp2::mul_Fp_0, f2o, f2, f1, ZX); R2("Fp2::divBy2", F_ Fp2::divBy2, f2o, f2, ZX);
	R3("Fp2Dbl::add", F_ Fp2Dbl::add, d2o, d2, d2, BIN); R3("Fp2Dbl::sub", F_ Fp2Dbl::sub, d2o, d2, d2, BIN); R3("Fp2Dbl::addNC", F_ Fp2Dbl::addNC, d2o, d2R, d2R, BIN); R3("Fp2Dbl::subNC", F_ Fp2Dbl::subNC, d2o, d2R, d2R, BIN); R2("Fp2Dbl::neg", F_ Fp2Dbl::neg, d2o, d2, ZX); R3("Fp2Dbl::mulOpt1", F_ Fp2Dbl::mulOpt1, d2o, f2, f2, XY); R3("Fp2Dbl::mulOpt2", F_ Fp2Dbl::mulOpt2, d2o, f2, f2, XY); R2("Fp2Dbl::square", F_ Fp2Dbl::square, d2o, f2, 0); R2("Fp2Dbl::mod", F_ Fp2Dbl::mod, f2o, d2, 0); R2("Fp2Dbl::mul_xi", F_ Fp2Dbl::mul_xi, d2o, d2, 0);
	R3("Fp6::add", F_ Fp6::add, f6o, f6, f6, BIN); R3("Fp6::sub", F_ Fp6::sub, f6o, f6, f6, BIN); R3("Fp6::mul", F_ Fp6::mul, f6o, f6, f6, ZX | XY | ALL); R3("Fp6Dbl::mul", F_ Fp6Dbl::mul, d6o, f6, f6, XY);
	R3("Fp6::pointDblLineEval", F_ Fp6::pointDblLineEval, f6o, op<Fp2>(IO, 'F', 3), op<Fp>(IN, 'F', 2), 0); R2("Fp6::pointDblLineEvalWithoutP", F_ Fp6::pointDblLineEvalWithoutP, f6o, op<Fp2>(IO, 'F', 3), 0);
	R3("Fp12::mul", F_ Fp12::mul, f12o, f12, f12, ZX | XY | ALL); { Routine r; r.name = "Fp12::square"; r.fn = F_ Fp12::square; r.n = 1; r.a[0] = f12io; r.alias = 0; r.ret = false; routines.push_back(r); } R2("Fp12Dbl::mul_Fp2_024", F_ Fp12Dbl::mul_Fp2_024, f12io, f6, 0);
	typedef mie::local::PrimitiveFunction PF; Operand w; w.kind = IN; w.size = 0; w.elem = 'U'; w.align = 8; Operand wo = w; wo.kind = OUT; Operand num; num.kind = NUM; num.size = 0; num.elem = 'n'; num.align = 1; Operand numy = num; numy.elem = 'y';
	#define RU(nm, A0, A1, A2, A3, N_, al, rt) { Routine r; r.name = "PrimitiveFunction::" #nm; r.fn = F_ PF::nm; r.n = N_; r.a[0] = A0; r.a[1] = A1; r.a[2] = A2; r.a[3] = A3; r.alias = al; r.ret = rt; routines.push_back(r); }
	RU(addN, wo, w, w, num, 4, BIN, true) RU(subN, wo, w, w, num, 4, BIN, true) RU(add1, wo, w, num, numy, 4, ZX, true) RU(sub1, wo, w, num, numy, 4, ZX, true) RU(mul1, wo, w, num, numy, 4, ZX, false) RU(div1, wo, w, num, numy, 4, ZX, true) RU(mod1, w, num, numy, num, 3, 0, true)
#ifndef BN_SUPPORT_SNARK
	{ Routine r; r.name = "Compress::square_n"; r.fn = F_ bn::Compress::square_n; r.n = 2; r.a[0] = op<bn::Compress>(IN, 'C'); r.a[1] = num; r.a[1].elem = 's'; r.alias = 0; r.ret = false; routines.push_back(r); }
#endif
}

static void fillElem(Gen& G, Rng& g, char *p, size_t size, char elem)
{
	u64 *v = (u64 *)p;
	switch (elem) {
	case 'F': for (size_t i = 0; i < size; i += 32) { Fp x = mk(G.f1()); memcpy(p + i, &x, 32); } break;
	case 'N': { Fp x; do x = mk(G.f1()); while (x.isZero()); memcpy(p, &x, 32); } break;
	case 'D': for (size_t i = 0; i < size; i += 64) { Fp hi = mk(G.f1()); const int k = (int)g.u(4); for (int j = 0; j < 4; j++) v[i / 8 + j] = k == 0 ? 0 : k == 1 ? ~0ULL : g.next(); memcpy(p + i + 32, &hi, 32); } break;
	default: { const int k = (int)g.u(4); for (size_t i = 0; i < size / 8; i++) { const u64 t = g.next(); v[i] = k == 0 ? (t & 1 ? 0 : ~0ULL) : k == 1 ? (t % 5 ? 0 : t) : t; } }
	}
}

static u64 rec[16];
static void callWatched(Ctx& c, const Routine& r, const u64 args[4], bool step, Rng& g, const std::string& how)
{
	memset(rec, 0x5a, sizeof rec); unsigned mx0; unsigned short cw0; __asm__ volatile("stmxcsr %0" : "=m"(mx0)); __asm__ volatile("fnstcw %0" : "=m"(cw0));
	for (int i = 0; i < 64; i++) ((u64 *)stackTop)[i] = 0xc0de000000000000ULL + i; // the caller's frame
	abi_fn = (u64)r.fn; abi_junk = g.next(); abi_step = step; steps = 0; badRsp = 0; stepJunk = g.next();
	abi_call(args, rec, stackTop); abi_step = 0;
	std::string key = std::string("abi ") + r.name;
	for (int i = 0; i < 6; i++) CHECK(c, rec[1 + i] == sentinel[i], key + " " + regName[i], "callee-saved register not preserved: " << rec[1 + i] << " " << how);
	CHECK(c, rec[7] == (u64)stackTop, key + " rsp", "stack pointer off by " << (long long)(rec[7] - (u64)stackTop) << " " << how);
	CHECK(c, !(rec[8] & 0x400), key + " DF", "direction flag left set " << how); CHECK(c, (unsigned)rec[9] == mx0, key + " mxcsr", "MXCSR changed " << how); CHECK(c, (unsigned short)rec[10] == cw0, key + " x87", "x87 control word changed " << how);
	CHECK(c, (unsigned short)rec[12] == 0xffff, key + " x87", "x87/MMX registers left in use, tag word " << (unsigned short)rec[12] << " " << how);
	bool ok = true; for (int i = 0; i < 64; i++) ok = ok && ((u64 *)stackTop)[i] == 0xc0de000000000000ULL + i; CHECK(c, ok, key + " frame", "the caller's stack frame was written " << how);
	if (step) { CHECK(c, !badRsp, key + " stack range", "stack pointer outside the stack while running " << how); c.ctr("instructions observed one by one") += steps; if (steps > c.counters["max:instructions in one call"]) c.ctr("max:instructions in one call") = steps; }
	c.ctr(std::string("calls of ") + r.name)++;
}

void suite(Ctx& c)
{
	Gen G(c); listRoutines();
	for (int i = 0; i < 3; i++) pages[i] = newPage();
	{ char *m = (char *)mmap(0, STACK + 3 * GUARD, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); HARNESS_REQUIRE(m != MAP_FAILED && mprotect(m + GUARD, STACK + GUARD, PROT_READ | PROT_WRITE) == 0); stackLo = m + GUARD; stackTop = stackLo + STACK; lowest = (u64)stackTop; }
	{ // the mappings that hold generated code
		FILE *fp = fopen("/proc/self/maps", "r"); HARNESS_REQUIRE(fp); char line[1024];
		while (fgets(line, sizeof line, fp) && nrange < 8) {
			unsigned long long b, e, o, ino; char perm[8], dev[16]; if (sscanf(line, "%llx-%llx %7s %llx %15s %llu", &b, &e, perm, &o, dev, &ino) != 6 || perm[2] != 'x' || ino != 0 || e - b > (64u << 20)) continue;
			bool has = false; for (size_t i = 0; i < routines.size(); i++) has = has || ((u64)routines[i].fn >= b && (u64)routines[i].fn < e);
			if (has) { Range& r = range[nrange++]; r.lo = b; r.hi = e; r.seen = (unsigned char *)calloc(1, e - b); HARNESS_REQUIRE(r.seen); }
		}
		fclose(fp);
	}
	tramp0 = (u64)&abi_call; tramp1 = (u64)&abi_call_end;
	static char alt[64 * 1024]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; HARNESS_REQUIRE(sigaltstack(&ss, 0) == 0);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onTrap; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; HARNESS_REQUIRE(sigaction(SIGTRAP, &sa, 0) == 0);
	u64 stepBudget = c.n(400000);
	for (u64 round = 0, n = c.n(40); round < n; round++) for (size_t q = 0; q < routines.size(); q++) {
		Routine& r = routines[q]; c.begin(r.name); bool inCode = false; for (int k = 0; k < nrange; k++) inCode = inCode || ((u64)r.fn >= range[k].lo && (u64)r.fn < range[k].hi);
		// sizes of word arrays
		size_t words = 1 + c.g.u(17); if (c.g.u(8) == 0) words = 1 + c.g.u(40); u64 y = c.g.u(3) ? c.g.next() | 1 : 1 + c.g.u(5);
		for (int al = -1; al < 4; al++) {
			if (al >= 0 && !(r.alias & (1u << al))) continue;
			const int layouts = r.a[0].elem == 'C' ? 2 : 3;
			u64 ref[64]; u64 refRet = 0; char val[3][512]; size_t size[3];
			for (int k = 0; k < r.n && k < 3; k++) if (r.a[k].kind != NUM) { size[k] = r.a[k].elem == 'U' ? 8 * words : r.a[k].size; if (!strcmp(r.name, "PrimitiveFunction::mul1") && k == 0) size[k] += 8; fillElem(G, c.g, val[k], size[k], r.a[k].elem); }
			if (al == 2 || al == 3) memcpy(val[2], val[1], size[1] < 512 ? size[1] : 512);
			for (int lay = 0; lay < layouts; lay++) {
				char *at[3] = { 0, 0, 0 }; u64 args[4] = { 0, 0, 0, 0 }; size_t off[3]; bool own[3] = { false, false, false }; int home[3] = { 0, 1, 2 };
				if (al == 0 || al == 3) home[1] = 0; if (al == 1 || al == 3) home[2] = 0; if (al == 2) home[2] = 1;
				size_t used[3] = { 0, 0, 0 };
				static char zSpace[2][sizeof(Fp12)] __attribute__((aligned(32))); // Compress
				for (int k = 0; k < r.n && k < 3; k++) if (r.a[k].kind != NUM) { const int h = home[k]; if (size[k] > used[h]) used[h] = size[k]; own[h] = true; }
				for (int h = 0; h < 3; h++) if (own[h]) { size_t a = 8; for (int k = 0; k < r.n && k < 3; k++) if (r.a[k].kind != NUM && home[k] == h && r.a[k].align > a) a = r.a[k].align; for (size_t i = 0; i < 512; i++) ((u64 *)pages[h].rw)[i] = 0xfeedface00000000ULL + i * 0x10001 + (u64)h; off[h] = lay == 0 ? (4096 - used[h]) & ~(a - 1) : lay == 1 ? 0 : (c.g.u((4096 - used[h]) / a + 1)) * a; }
				// inputs that are not also outputs are passed in the read-only view
				for (int k = 0; k < r.n && k < 3; k++) if (r.a[k].kind != NUM) { const int h = home[k]; bool written = false; for (int m = 0; m < r.n && m < 3; m++) if (r.a[m].kind != NUM && home[m] == h && (r.a[m].kind & OUT)) written = true; at[k] = pages[h].rw + off[h]; args[k] = (u64)((written || r.a[k].elem == 'C' ? pages[h].rw : pages[h].ro) + off[h]); if (r.a[k].kind & IN) memcpy(at[k], val[k], size[k]); else if (home[k] == k) { bool shared = false; for (int m = 1; m < 3 && m < r.n; m++) if (r.a[m].kind != NUM && home[m] == k) shared = true; if (!shared) for (size_t i = 0; i < size[k] / 8; i++) ((u64 *)at[k])[i] = c.g.next(); } }
				if (r.a[0].elem == 'C' && lay == 0) fillElem(G, c.g, zSpace[1], sizeof(Fp12), 'F');
				Page& zp = pages[1]; char *zAt = 0;
				if (r.a[0].elem == 'C') { for (size_t i = 0; i < 512; i++) ((u64 *)zp.rw)[i] = 0xfeedface00000000ULL + i * 0x10001 + 1; off[1] = lay ? 0 : (4096 - sizeof(Fp12)) & ~(size_t)31; own[1] = true; used[1] = sizeof(Fp12); zAt = zp.rw + off[1]; memset(zAt, 0, sizeof(Fp12));
					new (at[0]) bn::Compress(*(Fp12 *)zAt, *(const Fp12 *)zSpace[1]); args[0] = (u64)(pages[0].ro + off[0]); }
				for (int k = 0; k < r.n; k++) if (r.a[k].kind == NUM) args[k] = r.a[k].elem == 'n' ? words : r.a[k].elem == 's' ? 1 + y % 9 : y;
				const bool step = inCode && lay == 2 && stepBudget > 0 ? true : (r.a[0].elem == 'C' && lay == 1 && stepBudget > 0);
				std::ostringstream how; how << "alias " << al << " layout " << lay << " words " << words;
				const int outPage = r.a[0].elem == 'C' ? 1 : 0;
				callWatched(c, r, args, step, c.g, how.str()); if (step) { const u64 s = steps; stepBudget = s > stepBudget ? 0 : stepBudget - s; }
				// everything around the operands, and the inputs
				for (int h = 0; h < 3; h++) if (own[h]) for (size_t i = 0; i < 512; i++) if (i * 8 < (off[h] & ~(size_t)7) || i * 8 >= off[h] + used[h]) if (((u64 *)pages[h].rw)[i] != 0xfeedface00000000ULL + i * 0x10001 + (u64)h) { c.fail(std::string("writes outside ") + r.name, "byte " + std::to_string(i * 8) + " of the page of operand " + std::to_string(h) + " at offset " + std::to_string(off[h]) + " " + how.str()); break; }
				for (int k = 0; k < r.n && k < 3; k++) if (r.a[k].kind == IN && home[k] == k && r.a[k].elem != 'C') { bool written = false; for (int m = 0; m < r.n && m < 3; m++) if (m != k && r.a[m].kind != NUM && home[m] == k && (r.a[m].kind & OUT)) written = true; if (k == 0 || !written) { if (!written) CHECK(c, memcmp(at[k], val[k], size[k]) == 0, std::string("input ") + r.name, "operand " << k << " changed " << how.str()); } }
				// the same answer at every place (and under single steps)
				u64 h = 1; const size_t outSize = r.a[0].elem == 'C' ? 8 : (r.a[0].kind & OUT) ? size[0] : 0; (void)outPage;
				if (r.a[0].elem == 'C') h = hbytes(zAt, sizeof(Fp12), h); else if (outSize) h = hbytes(at[0], outSize, h);
				if (r.n > 1 && r.a[1].kind == IO) h = hbytes(at[1], size[1], h);
				if (r.ret) { u64 v = rec[0]; if (!strcmp(r.name, "Fp::preInv")) v = (unsigned)v; else if (r.a[r.n - 1].elem == 'n' && r.n == 4 && strcmp(r.name, "PrimitiveFunction::div1")) v &= 0xff; else if (!strcmp(r.name, "PrimitiveFunction::add1") || !strcmp(r.name, "PrimitiveFunction::sub1")) v &= 0xff; h = hmix(h, v); }
				if (lay == 0) { refRet = h; (void)ref; } else CHECK(c, h == refRet, std::string("place ") + r.name, "the result depends on where the operands are, on registers that carry no argument, or on a signal arriving " << how.str());
				c.eval(hmix(h, hmix(q * 64 + (u64)(al + 1) * 8 + lay, off[0])));
			}
		}
	}
	c.ctr("distinct instruction addresses observed") = seenCount; c.ctr("max:stack bytes used") = (u64)stackTop - lowest; c.ctr("routines") = routines.size();
	u64 bytes = 0; for (int k = 0; k < nrange; k++) bytes += range[k].hi - range[k].lo;
	c.sample("generated code in " + std::to_string(nrange) + " mappings, " + std::to_string(bytes) + " bytes; " + std::to_string(seenCount) + " distinct instruction addresses executed under observation");
}
