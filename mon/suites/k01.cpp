// K01: transcript of the results of every operation; ../special.py compares the transcripts of all configurations
// stands alone so that it can be built without GMP
#include "../ops.hpp"
#include <stdio.h>
#include <stdlib.h>
using namespace ops;

#ifdef K01_WIDE
static void wideV(Vuint& x, Rnd& g, size_t n) { Unit w[16]; const int k = (int)g.u(4); for (size_t i = 0; i < n; i++) { const u64 t = g.next(); w[i] = k == 0 ? (t & 1 ? 0 : ~0ULL) : k == 1 ? (t & 3 ? 0 : 1ULL << (t >> 58)) : k == 2 ? ~0ULL : t; } x.set(w, n); }
struct TagW {}; typedef mie::ZmZ<Vuint, TagW> ZW;
static u64 wide(FILE *fp, u64 seed, u64 rounds)
{
	Rnd g(seed * 77); u64 total = 0; Ec1 P; Ec2 Q, T; bases(P, Q, T); (void)Q; (void)T;
	for (u64 r = 0; r < rounds; r++) {
		u64 a[10]; for (int k = 0; k < 10; k++) a[k] = k;
		for (int rep = 0; rep < 40; rep++) {
			const size_t n = 1 + g.u(15), m = 1 + g.u(16 - n); Vuint x, y, s, z, q; wideV(x, g, n); wideV(y, g, m); wideV(s, g, 1 + g.u(15)); const unsigned sh = (unsigned)g.u(1024);
			Vuint::mul(z, x, y); a[0] = H(z, a[0]); z = x; z *= y; a[0] = H(z, a[0]);
			Vuint::add(z, x, s); a[1] = H(z, a[1]); if (z >= s) { z -= s; } a[1] = H(z, a[1]);
			if (!y.isZero()) { Vuint rem; Vuint::div(&q, rem, s, y); a[2] = H(rem, H(q, a[2])); a[2] = H(s % y, H(s / y, a[2])); }
			Vuint::shr(z, s, sh); a[3] = H(z, a[3]); if (s.bitLen() + sh < 1024) { Vuint::shl(z, s, sh); a[3] = H(z, a[3]); }
			const std::string d = s.toString(), h = s.toString(16); a[4] = H(h, H(d, a[4])); z.set(d); q.set(h); a[4] = H(z == s, H(q == s, a[4]));
			Vsint u = n & 1 ? -Vsint(x) : Vsint(x), v = m & 1 ? -Vsint(y) : Vsint(y); Vsint w = u * v; a[5] = H(w, a[5]); w = u - v; a[5] = H(w, a[5]); if (!y.isZero()) a[5] = H(u % v, H(u / v, a[5]));
			Vuint mo; wideV(mo, g, 1 + g.u(8)); mo += 3; if (mo > 2 && mo.size() <= 8) { ZW::setModulo(mo); ZW e = ZW(s), f = ZW(x); a[6] = H(e - f, H(e + f, H(e * f, a[6]))); a[6] = H(mie::power(e, Vuint(sh)), a[6]); }
			if (rep == 0) { a[7] = H(mie::power(Fp(3), s), a[7]); a[8] = H(P * s, a[8]); }
			total += 9;
		}
		static const char *nm[] = { "wide mul", "wide add", "wide div", "wide shift", "wide text", "wide signed", "wide ring", "wide power", "wide scalar" };
		for (int k = 0; k < 9; k++) fprintf(fp, "%s %llu %u %016llx\n", std::string(nm[k]).replace(4, 1, "_").c_str(), (unsigned long long)r, k < 7 ? 40u : 1u, (unsigned long long)a[k]);
	}
	return total;
}
#endif
int main(int argc, char **argv)
{
	u64 seed = 1, scale = 100; int mode = -1, mulx = 1, b = 2; std::string out, opt;
	for (int i = 1; i + 1 < argc; i += 2) { std::string a = argv[i]; const char *v = argv[i + 1]; if (a == "--seed") seed = strtoull(v, 0, 0); if (a == "--scale") scale = strtoull(v, 0, 0); if (a == "--mode") mode = atoi(v); if (a == "--mulx") mulx = atoi(v); if (a == "--b") b = atoi(v); if (a == "--out") out = v; if (a == "--opt") opt = v; }
#ifdef BN_SUPPORT_SNARK
	Param::init(b == 82 ? CurveSNARK2 : CurveSNARK1, mode, mulx != 0);
#else
	(void)b; Param::init(CurveFp254BNb, mode, mulx != 0);
#endif
	FILE *fp = out.empty() ? stdout : fopen(out.c_str(), "w"); if (!fp) return 70;
	// the published parameters first
	u64 h = H(Param::z, H(Param::p, H(Param::r, H(Param::t, H(Param::largest_c, H(Param::b)))))); h = H(Param::Z, H(Param::W2p, H(Param::W3p, H(Param::b_invxi, H(Param::half, h))))); for (int i = 0; i < 5; i++) h = H(Param::gammar3[i], H(Param::gammar2[i], H(Param::gammar[i], h))); for (size_t i = 0; i < Param::siTbl.size(); i++) h = H((int)Param::siTbl[i], h);
	fprintf(fp, "Param 0 1 %016llx\n", (unsigned long long)h);
#ifdef K01_WIDE
	{ const u64 t = wide(fp, seed, 2 * scale); fprintf(fp, "end 0 %llu 0\n", (unsigned long long)t); if (fp != stdout) fclose(fp); return 0; }
#endif
	u64 total = 0; const u64 envs = 4 * scale / 100 ? 4 * scale / 100 : 1; static u64 acc[NOPS], cnt[NOPS];
	for (u64 r = 0; r < envs; r++) {
		static Env e; build(e, seed * 1000 + r); fprintf(fp, "inputs %llu 1 %016llx\n", (unsigned long long)r, (unsigned long long)e.f12[3].a_.a_.a_[0]);
		Rnd g(seed * 31 + r);
		for (unsigned o = 0; o < NOPS; o++) {
			const int cost = table[o].cost; const unsigned reps = cost >= 100 ? 4 : cost >= 10 ? 20 : 100; const bool gmp = !strncmp(table[o].name, "gmp", 3);
			u64 sub = r; // GMP entries must not shift the choices of the others
			Rnd q(g.s + 1000003 * (gmp ? 1 : 0) + sub); u64 a = 1;
			for (unsigned t = 0; t < reps; t++) { unsigned i = (unsigned)q.u(1000), j = (unsigned)q.u(1000), k = (unsigned)q.u(1000); if (t < 5) { i = t * 3; j = i + (t & 1); } a = mix(a, table[o].fn(e, i, j, k, q.next() ^ (u64)mode)); total++; }
			if (!gmp) g.next();
			acc[o] = mix(acc[o], a); cnt[o] += reps; fprintf(fp, "%s %llu %u %016llx\n", table[o].name, (unsigned long long)r, reps, (unsigned long long)a);
		}
	}
	fprintf(fp, "end 0 %llu 0\n", (unsigned long long)total);
	if (fp != stdout) fclose(fp);
	return 0;
}
