/*
	I04: requests beyond capacity or domain. Every request runs in a forked child on
	objects laid out in a shared mapping between guard words; the parent judges how the
	child ended, what it printed, what it stored and whether the guards are intact.
	  must stop  non-zero exit status (or an exception, or a failed assertion) with a diagnostic
	  may stop   the mathematically right value, or a stop as above
	  value      the right value
*/
#include "../common.hpp"
#include <sys/wait.h>
#include <signal.h>
using namespace mon;
using mie::Vuint; using mie::Vsint;

static const unsigned CAP = (MIE_ZM_VUINT_BIT_LEN + 63) / 64;
struct TagI04 {};
typedef mie::ZmZ<Vuint, TagI04> Zm;
enum { BUF = 8192, GUARD = 24 };
template<class T> struct Slot { u64 lo[GUARD]; T v; u64 hi[GUARD]; };
struct Area {
	volatile int done, thrown; // done 1: the request returned
	u64 w[CAP + 2]; u64 wn; int neg; // the value it left, copied by the child
	Slot<Vuint> x, y, z; Slot<Vsint> sx, sy, sz; Slot<Zm> m, mm;
	char msg[256];
};
static Area *A; static int outFd; static char outText[BUF];

static const u64 MAGIC = 0x5aa5c33c0ff01e1eULL;
template<class T> static void guard(Slot<T>& s, u64 k) { for (int i = 0; i < GUARD; i++) { s.lo[i] = MAGIC * (2 * i + 1) + k; s.hi[i] = MAGIC * (2 * i + 3) ^ k; } }
template<class T> static bool intact(const Slot<T>& s, u64 k) { for (int i = 0; i < GUARD; i++) if (s.lo[i] != MAGIC * (2 * i + 1) + k || s.hi[i] != (MAGIC * (2 * i + 3) ^ k)) return false; return true; }
static void put(const Vuint& v) { size_t n = v.size(); A->wn = n; for (size_t i = 0; i < n && i < CAP; i++) A->w[i] = v[i]; A->neg = 0; }
static void put(const Vsint& v) { put(v.get()); A->neg = v.isNegative(); }
static void put(const Zm& v) { put(v.get()); }
static Z got() { Z r = 0; for (size_t i = A->wn; i-- > 0;) { r <<= 64; Z t; u64 w = A->w[i]; mpz_import(t.get_mpz_t(), 1, -1, 8, 0, 0, &w); r += t; } return A->neg ? Z(-r) : r; }

static u64 gk;
static Ctx *CC;
struct Req { Z x, y; u64 n; std::string s; Z m; u64 pat; };
typedef void (*Fn)(const Req&);
enum Want { VALUE, MAY, STOP };

static void run(Ctx& c, const char *name, Fn fn, const Req& r, Want want, const Z& value)
{
	c.begin(name); gk = c.g.next();
	memset((void *)A, 0xee, sizeof *A); A->done = 0; A->thrown = 0; A->msg[0] = 0; A->wn = 0; A->neg = 0;
	guard(A->x, gk); guard(A->y, gk); guard(A->z, gk); guard(A->sx, gk); guard(A->sy, gk); guard(A->sz, gk); guard(A->m, gk); guard(A->mm, gk);
	fflush(stdout); fflush(stderr); HARNESS_REQUIRE(ftruncate(outFd, 0) == 0 && lseek(outFd, 0, SEEK_SET) == 0);
	pid_t pid = fork(); HARNESS_REQUIRE(pid >= 0);
	if (pid == 0) {
		dup2(outFd, 1); dup2(outFd, 2); alarm(60);
		new (&A->x.v) Vuint(); new (&A->y.v) Vuint(); new (&A->z.v) Vuint(); new (&A->sx.v) Vsint(); new (&A->sy.v) Vsint(); new (&A->sz.v) Vsint();
		try { fn(r); A->done = 1; fflush(stdout); _exit(0); }
		catch (std::exception& e) { A->thrown = 1; strncpy(A->msg, e.what(), sizeof A->msg - 1); _exit(3); }
		catch (...) { A->thrown = 2; _exit(3); }
	}
	int st = 0; HARNESS_REQUIRE(waitpid(pid, &st, 0) == pid);
	off_t len = lseek(outFd, 0, SEEK_END); if (len > BUF - 1) len = BUF - 1; HARNESS_REQUIRE(pread(outFd, outText, len, 0) == len); outText[len] = 0;
	std::string out(outText), what = std::string(name);
	bool san = out.find("AddressSanitizer") != std::string::npos || out.find("runtime error") != std::string::npos || out.find("stack smashing") != std::string::npos;
	bool asrt = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT && out.find("Assertion") != std::string::npos;
	bool stopped = A->thrown == 1 ? A->msg[0] != 0 : !A->done && ((WIFEXITED(st) && WEXITSTATUS(st) != 0 && out.find_first_not_of(" \n\t") != std::string::npos) || asrt);
	bool value_ok = A->done && WIFEXITED(st) && WEXITSTATUS(st) == 0 && A->wn >= 1 && A->wn <= CAP && (A->wn == 1 || A->w[A->wn - 1]) && got() == value;
	bool g = intact(A->x, gk) && intact(A->y, gk) && intact(A->z, gk) && intact(A->sx, gk) && intact(A->sy, gk) && intact(A->sz, gk) && intact(A->m, gk) && intact(A->mm, gk);
	std::ostringstream d; d << name << " pat=" << r.pat << " x=" << r.x.get_str(16) << " y=" << r.y.get_str(16) << " n=" << r.n << " m=" << r.m.get_str(16) << " s=" << r.s.substr(0, 200)
		<< " : " << (A->done ? "returned " + got().get_str(16) : std::string("no result")) << (A->thrown ? std::string(" exception ") + A->msg : "") << " status " << std::hex << st << " output: " << out.substr(0, 400);
	CHECK(c, !san, what + " memory", d.str());
	CHECK(c, g, what + " writes outside the object", d.str());
	if (want == VALUE) { CHECK(c, value_ok, what + " within bounds", d.str()); }
	else if (want == MAY) { CHECK(c, value_ok || stopped, what + " wrong value", d.str()); }
	else { CHECK(c, !A->done, what + " silent", d.str()); CHECK(c, A->done || stopped, what + " no diagnostic", d.str()); }
	c.eval(hz(r.x, hz(r.y, hmix(hstr(what + r.s), r.n * 31 + r.pat))), want != VALUE);
	c.ctr(what + (want == STOP ? " beyond" : " within"))++;
	c.ctr(A->thrown ? "ended: exception" : asrt ? "ended: assertion" : A->done ? "ended: value" : "ended: exit with diagnostic")++;
	if (want == STOP && c.wantSample()) c.sample(d.str());
}

// ---- requests; pat selects the aliasing pattern or form
static void ld(Vuint& v, const Z& z) { v = toV(z); }
static void ldx(const Req& r) { ld(A->x.v, r.x); ld(A->y.v, r.y); Z junk = (Z(1) << (CAP * 64)) - 1; if (r.pat & 64) junk -= Z(1) << (CAP * 32); ld(A->z.v, junk); if (r.pat & 128) { ld(A->x.v, junk); A->x.v.set((u64)0); ld(A->x.v, r.x); ld(A->y.v, junk); ld(A->y.v, r.y); } }
static void fAdd(const Req& r) { ldx(r); Vuint &x = A->x.v, &y = A->y.v, &z = A->z.v; switch (r.pat & 7) { case 0: Vuint::add(z, x, y); put(z); break; case 1: x += y; put(x); break; case 2: Vuint::add(y, x, y); put(y); break; case 3: z = x + y; put(z); break; default: Vuint::add(x, x, y); put(x); } }
static void fAddSelf(const Req& r) { ldx(r); Vuint &x = A->x.v, &z = A->z.v; switch (r.pat & 1) { case 0: x += x; put(x); break; default: Vuint::add(z, x, x); put(z); } }
static void fAdd32(const Req& r) { ldx(r); Vuint &x = A->x.v, &z = A->z.v; switch (r.pat & 1) { case 0: Vuint::add(z, x, (uint32_t)r.n); put(z); break; default: Vuint::add(x, x, (uint32_t)r.n); put(x); } }
static void fSub(const Req& r) { ldx(r); Vuint &x = A->x.v, &y = A->y.v, &z = A->z.v; switch (r.pat & 7) { case 0: Vuint::sub(z, x, y); put(z); break; case 1: x -= y; put(x); break; case 2: Vuint::sub(y, x, y); put(y); break; case 3: z = x - y; put(z); break; default: Vuint::sub(x, x, y); put(x); } }
static void fMul(const Req& r) { ldx(r); Vuint &x = A->x.v, &y = A->y.v, &z = A->z.v; switch (r.pat & 7) { case 0: Vuint::mul(z, x, y); put(z); break; case 1: x *= y; put(x); break; case 2: Vuint::mul(y, x, y); put(y); break; case 3: z = x * y; put(z); break; default: Vuint::mul(x, x, y); put(x); } }
static void fSqr(const Req& r) { ldx(r); Vuint &x = A->x.v, &z = A->z.v; switch (r.pat & 1) { case 0: x *= x; put(x); break; default: Vuint::mul(z, x, x); put(z); } }
static void fMul1(const Req& r) { ldx(r); Vuint &x = A->x.v, &z = A->z.v; switch (r.pat & 1) { case 0: Vuint::mul1(z, x, (Unit)r.n); put(z); break; default: Vuint::mul1(x, x, (Unit)r.n); put(x); } }
static void fShl(const Req& r) { ldx(r); Vuint &x = A->x.v, &z = A->z.v; switch (r.pat & 3) { case 0: Vuint::shl(z, x, (size_t)r.n); put(z); break; case 1: x <<= (size_t)r.n; put(x); break; case 2: z = x << (size_t)r.n; put(z); break; default: Vuint::shl(x, x, (size_t)r.n); put(x); } }
static void fSet64(const Req& r) { ldx(r); std::vector<uint64_t> b(r.n + 1, 0); for (size_t i = 0; i < r.n; i++) b[i] = i < mpz_size(r.x.get_mpz_t()) ? mpz_getlimbn(r.x.get_mpz_t(), i) : 0; if (r.pat & 1) { Vuint t(&b[0], r.n); put(t); } else { A->z.v.set(&b[0], r.n); put(A->z.v); } }
static void fSet32(const Req& r) { ldx(r); std::vector<uint32_t> b(r.n + 1, 0); for (size_t i = 0; i < r.n; i++) { Z t = r.x >> (32 * i); b[i] = (uint32_t)mpz_get_ui(t.get_mpz_t()); } if (r.pat & 1) { Vuint t(&b[0], r.n); put(t); } else { A->z.v.set(&b[0], r.n); put(A->z.v); } }
static void fSetStr(const Req& r) { ldx(r); switch (r.pat & 3) { case 0: A->z.v.set(r.s); break; case 1: A->z.v = Vuint(r.s); break; case 2: A->z.v.fromStr(r.s, r.s.compare(0, 2, "0x") == 0 ? 16 : 10); break; default: { std::istringstream is(r.s); is >> A->z.v; } } put(A->z.v); }
static void fPower(const Req& r) { ldx(r); A->z.v = mie::power(A->x.v, (int)r.n); put(A->z.v); }
static void lds(const Req& r) { A->sx.v = toVs(r.x); A->sy.v = toVs(r.y); A->sz.v = toVs(Z(-((Z(1) << (CAP * 64)) - 1))); }
static void fsAdd(const Req& r) { lds(r); Vsint &x = A->sx.v, &y = A->sy.v, &z = A->sz.v; switch (r.pat & 3) { case 0: Vsint::add(z, x, y); put(z); break; case 1: x += y; put(x); break; case 2: Vsint::add(y, x, y); put(y); break; default: z = x + y; put(z); } }
static void fsSub(const Req& r) { lds(r); Vsint &x = A->sx.v, &y = A->sy.v, &z = A->sz.v; switch (r.pat & 3) { case 0: Vsint::sub(z, x, y); put(z); break; case 1: x -= y; put(x); break; case 2: Vsint::sub(y, x, y); put(y); break; default: z = x - y; put(z); } }
static void fsMul(const Req& r) { lds(r); Vsint &x = A->sx.v, &y = A->sy.v, &z = A->sz.v; switch (r.pat & 3) { case 0: Vsint::mul(z, x, y); put(z); break; case 1: x *= y; put(x); break; case 2: Vsint::mul(y, x, y); put(y); break; default: z = x * y; put(z); } }
static void fsShl(const Req& r) { lds(r); Vsint &x = A->sx.v, &z = A->sz.v; switch (r.pat & 3) { case 0: Vsint::shl(z, x, (size_t)r.n); put(z); break; case 1: x <<= (size_t)r.n; put(x); break; default: z = x << (size_t)r.n; put(z); } }
static void fsShr(const Req& r) { lds(r); Vsint &x = A->sx.v, &z = A->sz.v; switch (r.pat & 3) { case 0: Vsint::shr(z, x, (size_t)r.n); put(z); break; case 1: x >>= (size_t)r.n; put(x); break; case 2: Vsint::shr(x, x, (size_t)r.n); put(x); break; default: z = x >> (size_t)r.n; put(z); } }
static void fsSetStr(const Req& r) { lds(r); if (r.pat & 1) A->sz.v = Vsint(r.s); else A->sz.v.set(r.s); put(A->sz.v); }
static void ldm(const Req& r) { Zm::setModulo(toV(r.m)); new (&A->m.v) Zm(); new (&A->mm.v) Zm(); }
static void fmInt(const Req& r) { ldm(r); int v = (int)(int64_t)r.n; Zm &z = A->m.v; switch (r.pat & 3) { case 0: z.set(v); break; case 1: z = Zm(v); break; case 2: z = v; break; default: z = 3; z.set(v); } put(z); }
static void fmMul(const Req& r) { ldm(r); Zm &x = A->m.v, &y = A->mm.v; x.set(toV(r.x)); y.set(toV(r.y)); if (r.pat & 1) x *= y; else x = x * y; put(x); }
static void fmAdd(const Req& r) { ldm(r); Zm &x = A->m.v, &y = A->mm.v; x.set(toV(r.x)); y.set(toV(r.y)); if (r.pat & 1) x += y; else x = x + y; put(x); }
static void fmSub(const Req& r) { ldm(r); Zm &x = A->m.v, &y = A->mm.v; x.set(toV(r.x)); y.set(toV(r.y)); if (r.pat & 1) x -= y; else Zm::sub(y, x, y), x = y; put(x); }
static void fmSetStr(const Req& r) { ldm(r); A->m.v.set(r.s); put(A->m.v); }
// a chain of requests: the first one that leaves the range has to stop
static void fChain(const Req& r) { ldx(r); Vuint &x = A->x.v, &y = A->y.v; for (u64 i = 0; i < r.n; i++) { x *= y; x += y; } put(x); }
static void fDown(const Req& r) { ldx(r); Vuint &x = A->x.v, &y = A->y.v; for (u64 i = 0; i < r.n; i++) { x -= y; } put(x); }

static size_t nl(const Z& z) { size_t n = mpz_size(z.get_mpz_t()); return n ? n : 1; }
static bool fits(const Z& z) { return mpz_size(z.get_mpz_t()) <= CAP; }
static Z LIM() { return Z(1) << (64 * CAP); }

void suite(Ctx& c)
{
	CC = &c; Gen G(c); Rng& g = c.g;
	A = (Area *)mmap(0, sizeof(Area), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); HARNESS_REQUIRE(A != MAP_FAILED);
	outFd = memfd_create("out", 0); HARNESS_REQUIRE(outFd >= 0);
	const Z lim = LIM();
	c.ctr("capacity limbs") = CAP;
	for (u64 it = 0, n = c.n(160); it < n; it++) {
		Req r; r.n = 0; r.pat = g.next() & 0xff; const Z zero = 0;
		// operands of any length
		Z x, y; { unsigned a = 1 + (unsigned)g.u(CAP), b = 1 + (unsigned)g.u(CAP); x = G.edgeInt(a * 64); y = G.edgeInt(b * 64); if (g.u(3) == 0) x = g.bits(a * 64); if (g.u(3) == 0) y = g.bits(b * 64); }
		// --- addition around the limit
		{ Z a = lim - 1 - (g.coin() ? Z((long)g.u(4)) : G.edgeInt(64 * (1 + (unsigned)g.u(CAP)))); Z d = lim - a; Z b = d + (long)g.u(5) - 3; if (g.u(3) == 0) b = d + G.edgeInt(64 * CAP); if (b < 0) b = 0; if (b >= lim) b = lim - 1;
		  r.x = a; r.y = b; if (g.coin()) std::swap(r.x, r.y); run(c, "Vuint add", fAdd, r, fits(a + b) ? VALUE : STOP, a + b);
		  r.x = (lim >> 1) + (long)g.u(5) - 3; r.y = 0; if (g.u(3) == 0) r.x = lim - 1 - G.edgeInt(64 * CAP - 1); run(c, "Vuint add self", fAddSelf, r, fits(2 * r.x) ? VALUE : STOP, 2 * r.x);
		  r.n = g.u(3) ? 0xffffffffu - g.u(3) : g.u(5); r.x = lim - Z((unsigned long)r.n) + (long)g.u(3) - 1; if (r.x >= lim) r.x = lim - 1; run(c, "Vuint add uint32", fAdd32, r, fits(r.x + Z((unsigned long)r.n)) ? VALUE : STOP, r.x + Z((unsigned long)r.n)); }
		// --- subtraction around zero, operands of the same and of different lengths
		{ Z a = x, b = y; switch (g.u(5)) { case 0: b = a + (long)g.u(4) - 1; break; case 1: if (a < b) {} else std::swap(a, b); break; case 2: { unsigned w = (unsigned)(1 + g.u(CAP - 1)); a = (Z(1) << (64 * w)) - 1 - (long)g.u(3); b = (Z(1) << (64 * (w + g.u(CAP - w)))) + (long)g.u(3); break; } case 3: a = Z((long)g.u(3)); break; default: break; }
		  if (!fits(b)) b = lim - 1; if (b < 0) b = 0; r.n = 0; r.x = a; r.y = b; run(c, "Vuint sub", fSub, r, a >= b ? VALUE : STOP, a - b); }
		// --- multiplication
		{ r.x = x; r.y = y; Z p = x * y; if (g.coin()) { r.y = lim / (x + 1) + (long)g.u(3); if (!fits(r.y)) r.y = lim - 1; p = r.x * r.y; }
		  run(c, "Vuint mul", fMul, r, nl(r.x) + nl(r.y) <= CAP ? VALUE : fits(p) ? MAY : STOP, p);
		  r.x = g.coin() ? x : Z((Z(1) << (32 * CAP)) + (long)g.u(3) - 2); run(c, "Vuint square", fSqr, r, 2 * nl(r.x) <= CAP ? VALUE : fits(r.x * r.x) ? MAY : STOP, r.x * r.x);
		  r.x = g.coin() ? Z(lim - 1 - G.edgeInt(64 * CAP)) : x; r.n = G.edgeLimb(); Z w; mpz_import(w.get_mpz_t(), 1, -1, 8, 0, 0, &r.n); run(c, "Vuint mul1", fMul1, r, nl(r.x) < CAP ? VALUE : fits(r.x * w) ? MAY : STOP, r.x * w); }
		// --- shifts by any amount
		{ r.x = x; r.y = 0; static const u64 big[] = { 1ULL << 32, (1ULL << 32) - 1, 1ULL << 31, 1ULL << 38, (1ULL << 38) + 64, ~0ULL, ~0ULL - 63, 1ULL << 63, 1ULL << 20, 64ULL << 32, (64ULL << 32) + 1, (64ULL << 31), 0xffffffffffff0000ULL }; bool huge = false;
		  size_t bl = mpz_sizeinbase(x.get_mpz_t(), 2); u64 room = bl > 64 * CAP ? 0 : 64 * CAP - bl;
		  switch (g.u(4)) { case 0: r.n = big[g.u(sizeof big / 8)]; huge = true; break; case 1: r.n = room + g.u(5) - (room ? 1 : 0); break; case 2: r.n = g.u(room + 1); break; default: r.n = room + g.u(64 * CAP * 3); }
		  bool ok = !huge && (x == 0 ? r.n <= 64 * (CAP - 1) : r.n <= room);
		  bool mathOk = x == 0; Z v = ok ? Z(x << r.n) : Z(0); run(c, "Vuint shl", fShl, r, ok ? VALUE : mathOk ? MAY : STOP, v); }
		// --- from arrays and text
		{ size_t k = 1 + g.u(CAP * 3); Z v = g.bits(64 * (unsigned)k); if (g.u(3) == 0) v = G.edgeInt(64 * (unsigned)k); r.x = v; r.y = 0; r.n = k; run(c, "Vuint set uint64[]", fSet64, r, k <= CAP ? VALUE : fits(v) ? MAY : STOP, v);
		  k = 1 + g.u(CAP * 5); v = g.bits(32 * (unsigned)k); if (g.u(3) == 0) v = G.edgeInt(32 * (unsigned)k); r.x = v; r.n = k; run(c, "Vuint set uint32[]", fSet32, r, (k + 1) / 2 <= CAP ? VALUE : fits(v) ? MAY : STOP, v);
		  switch (g.u(5)) { case 0: v = lim + (long)g.u(5) - 3; break; case 1: v = lim * (long)(1 + g.u(1000)) + g.bits(64); break; case 2: v = g.bits(64 * CAP + 1 + (unsigned)g.u(4000)); break; case 3: v = G.edgeInt(64 * CAP); break; default: v = (Z(1) << (64 * CAP + g.u(200))) - (long)g.u(2); }
		  bool hex = g.coin(); r.x = 0; r.n = 0; r.s = hex ? "0x" + v.get_str(16) : v.get_str(10); run(c, hex ? "Vuint hexadecimal" : "Vuint decimal", fSetStr, r, fits(v) ? VALUE : STOP, v);
		  Z sv = g.coin() ? v : Z(-v); r.s = (sv < 0 ? "-" : "") + (hex ? "0x" + v.get_str(16) : v.get_str(10)); r.x = 0; run(c, "Vsint numeral", fsSetStr, r, fits(v) ? (hex && sv < 0 ? MAY : VALUE) : STOP, sv); r.s.clear(); }
		{ r.x = 2 + (long)g.u(1000); r.n = 1 + g.u(64 * CAP); Z v; mpz_pow_ui(v.get_mpz_t(), r.x.get_mpz_t(), r.n); r.y = 0; run(c, "Vuint power", fPower, r, fits(v) ? MAY : STOP, v); }
		// --- signed
		{ Z a = x, b = y; if (g.coin()) { a = lim - 1 - G.edgeInt(64); b = lim - a + (long)g.u(4) - 2; } if (!fits(b)) b = lim - 1; if (g.coin()) a = -a; if (g.coin()) b = -b; r.x = a; r.y = b; r.n = 0;
		  run(c, "Vsint add", fsAdd, r, fits(a + b) ? VALUE : STOP, a + b); run(c, "Vsint sub", fsSub, r, fits(a - b) ? VALUE : STOP, a - b);
		  r.x = g.coin() ? x : Z(-x); r.y = g.coin() ? y : Z(-y); run(c, "Vsint mul", fsMul, r, nl(x) + nl(y) <= CAP ? VALUE : fits(x * y) ? MAY : STOP, r.x * r.y);
		  r.y = 0; r.n = g.u(64 * CAP * 2); bool ok = x == 0 ? r.n <= 64 * (CAP - 1) : mpz_sizeinbase(x.get_mpz_t(), 2) + r.n <= 64 * CAP; run(c, "Vsint shl", fsShl, r, ok ? VALUE : x == 0 ? MAY : STOP, r.x < 0 ? Z(-(x << r.n)) : Z(x << r.n));
		  r.n = g.u(3) ? g.u(64 * CAP + 70) : g.u(2); run(c, "Vsint shr", fsShr, r, r.x < 0 ? STOP : VALUE, x >> r.n); }
		// --- rings
		{ Z m = g.coin() ? Z(2 + (long)g.u(1000)) : g.u(3) ? g.bits(2 + (unsigned)g.u(40)) + 2 : G.edgeInt(64 * CAP) + 2; if (!fits(m)) m = lim - 1; r.m = m; int64_t v;
		  switch (g.u(6)) { case 0: v = -2147483648LL; break; case 1: v = -2147483647LL; break; case 2: v = m < 2000000000 ? -(int64_t)mpz_get_si(m.get_mpz_t()) - (int64_t)g.u(3) : -2147483648LL; break; case 3: v = m < 2000000000 ? -(int64_t)g.u(mpz_get_ui(m.get_mpz_t())) - 1 : -(int64_t)g.u(1u << 31); break; case 4: v = -(int64_t)g.u(1u << 31); break; default: v = (int64_t)g.u(1u << 31); }
		  r.x = (long)v; r.y = 0; r.n = (u64)v; Z av = (long)v; Z want = ref::zmod(av, m); bool beyond = v < 0 && -av > m; if (v < 0 && -av == m) { run(c, "ZmZ from int -m", fmInt, r, VALUE, 0); } else run(c, "ZmZ from int", fmInt, r, beyond ? STOP : VALUE, want);
		  Z M = g.coin() ? Z(G.edgeInt(64 * CAP) + 2) : Z(lim - 1 - G.edgeInt(70)); if (!fits(M)) M = lim - 1; bool room = nl(M) < CAP; r.m = M; r.n = 0; r.x = ref::zmod(g.coin() ? x : Z(M - 1 - (long)g.u(3)), M); r.y = ref::zmod(g.coin() ? y : Z(M - 1 - (long)g.u(3)), M);
		  run(c, "ZmZ add", fmAdd, r, room ? VALUE : MAY, ref::zmod(r.x + r.y, M)); run(c, "ZmZ sub", fmSub, r, room ? VALUE : MAY, ref::zmod(r.x - r.y, M)); run(c, "ZmZ mul", fmMul, r, 2 * nl(M) <= CAP && room ? VALUE : MAY, ref::zmod(r.x * r.y, M));
		  Z v2 = g.bits(64 * CAP + 1 + (unsigned)g.u(300)) | (Z(1) << (64 * CAP)); r.s = v2.get_str(10); run(c, "ZmZ numeral", fmSetStr, r, MAY, ref::zmod(v2, M)); r.s.clear(); r.m = 0; }
		// --- sequences that cross the boundary on the way
		{ r.x = G.edgeInt(128); r.y = G.edgeInt(100) + 2; r.n = g.u(2 * CAP); Z v = r.x; bool over = false; for (u64 i = 0; i < r.n && !over; i++) { v = v * r.y + r.y; over = !fits(v); } run(c, "Vuint chain up", fChain, r, over ? STOP : MAY, over ? zero : v);
		  r.x = G.edgeInt(64 * CAP); r.n = 1 + g.u(20); r.y = r.x / (long)(1 + g.u(20)) + (long)g.u(2); if (!fits(r.y)) r.y = r.x; v = r.x - r.y * (unsigned long)r.n; run(c, "Vuint chain down", fDown, r, v < 0 ? STOP : VALUE, v); }
	}
}
