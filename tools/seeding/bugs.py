BUGS = []
def bug(id, prop, edits, needs, breaks, demo=None, **k):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))
H = '''
#include "bn.h"
#include <stdio.h>
using namespace bn;
typedef mie::Vuint Vuint; typedef mie::Vsint Vsint;
#define EXPECT(c) do { if (!(c)) { printf("line %d: %s does not hold\\n", __LINE__, #c); return 1; } } while (0)
static inline Ec1 base1() { for (int x = 1; ; x++) { Fp X(x), y2 = X * X * X + Fp(Param::b), y; if (Fp::squareRoot(y, y2)) return Ec1(X, y); } }
'''
def D(body, init="Param::init();", pre="", head=H):
    return head + pre + "int main()\n{\n\t" + init + "\n" + body.strip("\n") + '\n\tputs("ok");\n\treturn 0;\n}\n'

bug("f01-neg-low-limbs", "F01", [("src/zm2.cpp", "\t\tor_(rax, z2);\n\t\tor_(rax, z3);\n", "\t\tor_(rax, z2);\n")],
    "an element whose stored form has three low limbs of zero and a high limb that is not", "Fp::neg returns the element itself instead of its negative",
    D('''
	Fp x, y; x.clear(); x[3] = 5;
	Fp::neg(y, x);
	EXPECT((x + y).isZero());
	EXPECT(y != x);
'''))
bug("f03-imaginary-inverse", "F03", [("include/bn.h", "\t\tFp t; Fp::mul(t, b_, b_);\n", "\t\tif (a_.isZero()) {\n\t\t\tFp::inv(b_, b_); // one inversion is enough\n\t\t\treturn;\n\t\t}\n\t\tFp t; Fp::mul(t, b_, b_);\n")],
    "an element of Fp2 with real part 0", "the inverse has the wrong sign: 1 / (b u) is -u / b",
    D('''
	Fp2 x(Fp(0), Fp(5)), y = x;
	y.inverse();
	EXPECT(x * y == Fp2(1));
'''))
bug("f05-frobenius-stale", "F05", [("include/bn.h", "\t\t/* this assumes (q-1)/6 is odd */\n\t\tif (&z != this) {", "\t\t/* this assumes (q-1)/6 is odd */\n\t\tif (z.a_.a_.a_ != a_.a_.a_) { // not copied yet")],
    "an output object that already has the first coefficient of the input but differs elsewhere", "Frobenius keeps old coefficients of the output object",
    D('''
	Fp12 x(Fp(1), Fp(2), Fp(3), Fp(4), Fp(5), Fp(6), Fp(7), Fp(8), Fp(9), Fp(10), Fp(11), Fp(12)), y, z(1);
	x.Frobenius(y); x.Frobenius(z);
	EXPECT(mie::power(x, Param::p) == y);
	EXPECT(y == z);
'''))
bug("g01-same-y", "G01", [("include/bn.h", "\tif (H.isZero()) {\n\t\tif (t3.isZero()) {\n\t\t\tECDouble(out, a);\n\t\t} else {\n\t\t\tout[2].clear();\n\t\t}\n\t\treturn;\n\t}\n",
     "\tif (t3.isZero()) {\n\t\tECDouble(out, a);\n\t\treturn;\n\t}\n\tif (H.isZero()) {\n\t\tout[2].clear();\n\t\treturn;\n\t}\n")],
    "two different points with the same y coordinate, P and (beta x, y) for a cube root of unity beta", "their sum is computed as 2P",
    D('''
	// beta = (-1 + sqrt(-3)) / 2
	Fp s; EXPECT(Fp::squareRoot(s, Fp(-3)));
	Fp beta = (s - Fp(1)) * Param::half;
	EXPECT(beta * beta * beta == Fp(1) && beta != Fp(1));
	Ec1 P = base1(), Q(P.p[0] * beta, P.p[1]), R(P.p[0] * beta * beta, P.p[1]);
	// three points of the line y = const add up to 0
	EXPECT((P + Q + R).isZero());
'''))
bug("g02-through-infinity", "G02", [("include/bn.h", "\t\tfor (j = 0; j != vSize; ++j, v <<= 1) {\n\t\t\tECDouble(out, out);\n", "\t\tfor (j = 0; j != vSize; ++j, v <<= 1) {\n\t\t\tif (out[2].isZero()) return; // stays at infinity\n\t\t\tECDouble(out, out);\n")],
    "a scalar with a proper prefix that is a multiple of the point's order, such as 2^k r + c", "the rest of the scalar is dropped and the result is infinity",
    D('''
	Ec1 P = base1();
	Vuint n = (Param::r << 70) + Vuint(5);
	EXPECT(P * n == P * 5);
'''))
bug("g03-affine-shortcut", "G03", [("include/bn.h", "\tif (P[2] == 0) return true;\n\tFp2 Z6p;\n", "\tif (P[2] == 0) return true;\n\tif (P[2].a_ == 1) return P[1] * P[1] == P[0] * P[0] * P[0] + Param::b_invxi; // affine\n\tFp2 Z6p;\n")],
    "a point of the twist with a Z coordinate 1 + k u, k not 0", "validity is decided as if Z were 1: a valid point is rejected",
    D('''
	// y^2 = x^3 + b/xi, searched
	Fp2 X, Y; bool ok = false;
	for (int i = 1; i < 100 && !ok; i++) {
		X = Fp2(i, 1); Fp2 g = X * X * X + Param::b_invxi; Fp n, d, s, t;
		n = g.a_ * g.a_ + g.b_ * g.b_;
		if (!Fp::squareRoot(s, n)) continue;
		d = (g.a_ + s) * Param::half;
		if (!Fp::squareRoot(t, d)) { d = (g.a_ - s) * Param::half; if (!Fp::squareRoot(t, d)) continue; }
		Y = Fp2(t, g.b_ / (t + t)); ok = Y * Y == g;
	}
	EXPECT(ok);
	Fp2 Z(1, 5), ZZ = Z * Z;
	Ec2 P; P.set(X * ZZ, Y * ZZ * Z, Z, false);
	EXPECT(P.isValid());
	Ec2 Q; Q.set(X, Y, Z, false);
	EXPECT(!Q.isValid());
'''))
bug("g04-equal-z", "G04", [("include/bn.h", "\tbool operator==(const EcT& rhs) const\n\t{\n\t\tnormalize();\n", "\tbool operator==(const EcT& rhs) const\n\t{\n\t\tif (p[2] == rhs.p[2]) return p[0] == rhs.p[0] && p[1] == rhs.p[1]; // same Z, no inversion\n\t\tnormalize();\n")],
    "two representations of infinity with different X or Y, for instance P - P and a cleared point", "they compare as different",
    D('''
	Ec1 P = base1(), Q = P + P, R = Q - Q, O; O.clear();
	R.p[0] = 3; R.p[1] = 4; // any coordinates with Z = 0
	EXPECT(R.isZero() && O.isZero());
	EXPECT(R == O);
'''))
bug("p03-container-reuse", "P03", [("include/bn.h", "\tcoeff.clear();\n\tbn::ecop::NormalizeJac(Q, inQ);\n", "\tcoeff.reserve(Param::siTbl.size() * 2);\n\tbn::ecop::NormalizeJac(Q, inQ);\n")],
    "precomputeG2 into a container that was used before", "the Miller loop runs over the first point's coefficients",
    D('''
	Fp2 Q[3] = { Fp2(Fp("12723517038133731887338407189719511622662176727675373276651903807414909099441"), Fp("4168783608814932154536427934509895782246573715297911553964171371032945126671")),
		Fp2(Fp("13891744915211034074451795021214165905772212241412891944830863846330766296736"), Fp("7937318970632701341203597196594272556916396164729705624521405069090520231616")), Fp2(1) };
	Ec2 G; G.set(Q[0], Q[1]); Ec2 G2 = G * 2; G2.normalize(); Ec1 P = base1();
	std::vector<Fp6> c; Fp2 n[3];
	components::precomputeG2(c, n, G.p);
	components::precomputeG2(c, n, G2.p);
	Fp12 f, g; components::millerLoop(f, c, P.p); f.final_exp();
	opt_atePairing(g, G2, P);
	EXPECT(f == g);
'''))
bug("k02-switch-curve", "K02", [("include/bn.h", "\t\tb_invxi = xi;\n\t\tb_invxi.inverse();\n\t\tb_invxi *= Fp2(b, 0);\n", "\t\tif (b_invxi.isZero()) {\n\t\t\tb_invxi = xi;\n\t\t\tb_invxi.inverse();\n\t\t\tb_invxi *= Fp2(b, 0);\n\t\t}\n")],
    "a second initialisation in the same process, with the other curve", "b / xi is the first curve's: points of the twist are rejected",
    D('''
	Fp2 xi(9, 1);
	EXPECT(Param::b_invxi * xi == Fp2(3));
	Param::init(CurveSNARK2);
	EXPECT(Param::b_invxi * xi == Fp2(82));
''', init="Param::init(CurveSNARK1);"), flags="-O2 -DNDEBUG -DBN_SUPPORT_SNARK")
bug("t01-static-scratch", "T01", [("include/bn.h", "\tstatic void pointAddLineEvalWithoutP(Fp6T& l, Fp2* R, const Fp2* Q)\n\t{\n\t\tFp2 t1, t2, t3, t4;\n\t\tFp2Dbl T1, T2;\n",
     "\tstatic void pointAddLineEvalWithoutP(Fp6T& l, Fp2* R, const Fp2* Q)\n\t{\n\t\tFp2 t1, t2, t3, t4;\n\t\tstatic Fp2Dbl T1, T2; // double width, too large for the stack\n")],
    "two threads in the Miller loop at the same time", "the threads overwrite each other's intermediate value and pairings come out wrong",
    D('''
	Fp2 x(Fp("12723517038133731887338407189719511622662176727675373276651903807414909099441"), Fp("4168783608814932154536427934509895782246573715297911553964171371032945126671")),
		y(Fp("13891744915211034074451795021214165905772212241412891944830863846330766296736"), Fp("7937318970632701341203597196594272556916396164729705624521405069090520231616"));
	G.set(x, y); P = base1(); opt_atePairing(want, G, P);
	std::thread a(work), b(work), c(work), d(work); a.join(); b.join(); c.join(); d.join();
	EXPECT(bad == 0);
''', pre='''#include <thread>
#include <atomic>
static Ec2 G; static Ec1 P; static Fp12 want; static std::atomic<int> bad(0);
static void work() { for (int i = 0; i < 6000 && !bad; i++) { Fp12 e; Fp2 q[2] = { G.p[0], G.p[1] }; Fp p[2] = { P.p[0], P.p[1] }; opt_atePairing<Fp>(e, q, p); if (e != want) bad++; } }
'''))
bug("i02-divisor-alias", "I02", [("include/zm.h", "\t\tV yy = y.v_;\n\t\tbool ret = V::div(q ?", "\t\tconst V& yy = y.v_;\n\t\tbool ret = V::div(q ?")],
    "division with the quotient or remainder stored in the divisor's object, operands of different signs", "the remainder is computed from the overwritten divisor",
    D('''
	Vsint x(-13), y(5), q;
	Vsint::div(&q, y, x, y);
	EXPECT(q == Vsint(-3) && y == Vsint(2));
'''))
bug("s01-nine-zeros", "S01", [("include/zm.h", "\t\t\t\t\tos << std::setfill('0') << std::setw(9) << t[n - 1 - i];", "\t\t\t\t\tif (t[n - 1 - i]) {\n\t\t\t\t\t\tos << std::setfill('0') << std::setw(9) << t[n - 1 - i];\n\t\t\t\t\t} else {\n\t\t\t\t\t\tos << \"00000000\";\n\t\t\t\t\t}")],
    "a number with an aligned block of nine decimal zeros", "its decimal text lacks a zero",
    D('''
	std::string s = "5000000000123456789";
	EXPECT(Vuint(s).toString() == s);
'''))
bug("s02-closing-bracket", "S02", [("include/bn.h", "\t\tif (cl == '[' && cm == ',' && cr == ']') return is;", "\t\tif (cl == '[' && cm == ',') return is;")],
    "text of an Fp2 element without (or with another) closing bracket", "it is accepted",
    D('''
	Fp2 x; bool thrown = false;
	try { std::istringstream is("[1,2}"); is >> x; } catch (std::exception&) { thrown = true; }
	EXPECT(thrown);
	thrown = false;
	try { std::istringstream is("[1,2"); is >> x; } catch (std::exception&) { thrown = true; }
	EXPECT(thrown);
'''))

Q0 = """Fp2(Fp("12723517038133731887338407189719511622662176727675373276651903807414909099441"), Fp("4168783608814932154536427934509895782246573715297911553964171371032945126671")),
		Fp2(Fp("13891744915211034074451795021214165905772212241412891944830863846330766296736"), Fp("7937318970632701341203597196594272556916396164729705624521405069090520231616"))"""
bug("p01-minus-one-z", "P01", [("include/bn.h", "\t} else if (in[2] == 1) {\n\t\tcopy(out, in);\n\t} else {\n\t\tFF A, AA, t0;", "\t} else if (in[2] * in[2] == 1) {\n\t\tcopy(out, in);\n\t} else {\n\t\tFF A, AA, t0;")],
    "the Jacobian entry point (or precomputation) with a point whose Z is -1", "the point is taken for its negative and the pairing is inverted",
    D("""
	Fp2 Q[3] = { %s, Fp2(1) };
	Ec1 B = base1();
	Fp P[3] = { B.p[0], B.p[1], Fp(1) }, N[3] = { B.p[0], -B.p[1], Fp(-1) };
	Fp12 f, g;
	opt_atePairingJac<Fp>(f, Q, P);
	opt_atePairingJac<Fp>(g, Q, N); // the same point
	EXPECT(f == g);
""" % Q0))
bug("g05-real-x", "G05", [("include/bn.h", "\tFp2::mul_Fp_0(Q[0], P[0], Param::Z);\n\tQ[1] = P[1];\n#endif\n}", "\tFp::mul(Q[0].a_, P[0].a_, Param::Z);\n\tif (!P[0].b_.isZero()) {\n\t\tFp::mul(Q[0].b_, P[0].b_, Param::Z);\n\t}\n\tQ[1] = P[1];\n#endif\n}")],
    "a point of the twist whose x coordinate is in the base field, with an output array that was used before", "the imaginary part of the image's x keeps its old content",
    D("""
	// x in Fp with y^2 = x^3 + b/xi
	Fp2 X, Y; bool ok = false;
	for (int i = 1; i < 100 && !ok; i++) {
		X = Fp2(i, 0); Fp2 g = X * X * X + Param::b_invxi; Fp n, d, s, t;
		n = g.a_ * g.a_ + g.b_ * g.b_;
		if (!Fp::squareRoot(s, n)) continue;
		d = (g.a_ + s) * Param::half;
		if (!Fp::squareRoot(t, d)) { d = (g.a_ - s) * Param::half; if (!Fp::squareRoot(t, d)) continue; }
		Y = Fp2(t, g.b_ / (t + t)); ok = Y * Y == g;
	}
	EXPECT(ok);
	Fp2 P[2] = { X, Y }, Q[2] = { Fp2(5, 7), Fp2(11, 13) };
	ecop::FrobEndOnTwist_8<Fp>(Q, P);
	EXPECT(Q[0] == X * Fp2(Param::Z, 0) && Q[1] == Y);
"""))
bug("p02-cache-by-x", "P02", [("include/bn.h", "\tif (Q.isZero() || P.isZero()) {\n\t\tf = 1;\n\t\treturn;\n\t}\n\topt_atePairing<Fp>(f, Q.p, P.p);\n",
     "\tif (Q.isZero() || P.isZero()) {\n\t\tf = 1;\n\t\treturn;\n\t}\n\tstatic MIE_TLS Ec2 lastQ;\n\tstatic MIE_TLS Ec1 lastP;\n\tstatic MIE_TLS Fp12 last;\n\tstatic MIE_TLS bool filled = false;\n\t// protocols pair the same points again and again\n\tif (filled && lastQ.p[0] == Q.p[0] && lastP.p[0] == P.p[0]) {\n\t\tf = last;\n\t\treturn;\n\t}\n\topt_atePairing<Fp>(f, Q.p, P.p);\n\tlastQ = Q;\n\tlastP = P;\n\tlast = f;\n\tfilled = true;\n".replace("MIE_TLS", "thread_local"))],
    "a pairing with P directly followed by one with -P (or -Q)", "e(Q, -P) is e(Q, P)",
    D("""
	Ec2 Q(%s); Ec1 P = base1();
	Fp12 e, f; opt_atePairing(e, Q, P); Ec1 N; Ec1::neg(N, P); opt_atePairing(f, Q, N);
	EXPECT(e * f == Fp12(1));
""" % Q0))
bug("k03-square-scratch", "K03", [("include/bn.h", "\tvoid final_exp()\n\t{\n\t\tFp12T f, f2z, f6z, f6z2, f12z3;\n\t\tFp12T a, b;\n\t\tFp12T& z = *this;\n", "\tvoid final_exp()\n\t{\n\t\tFp12T f, f2z, f6z, f6z2, f12z3;\n\t\tFp12T a, b;\n\t\tFp12T& z = *this;\n\t\tstatic thread_local Fp12T lastIn, lastOut;\n\t\tif (z == lastIn && !lastIn.isZero()) { z = lastOut; return; }\n\t\tlastIn = z;\n\t\tstruct Keep { Fp12T& z; bool ok; ~Keep() { lastOut = z; } } keep = { z, true };\n")],
    "x", "x") if 0 else None
bug("i01-shift-full", "I01", [("include/zm.h", "\t\t\tfor (size_t i = 0; i < on; i++) {\n\t\t\t\tout[i] = x[i + n];\n\t\t\t}\n\t\t\tout.alloc(on);", "\t\t\tfor (size_t i = 0; i <= on; i++) { // one more to clear the top\n\t\t\t\tout[i] = x[i + n];\n\t\t\t}\n\t\t\tout.alloc(on);")],
    "a right shift by 64 or more bits of a number that fills the configured capacity", "the library stops with a capacity error",
    D("""
	pid_t pid = fork();
	if (pid == 0) {
		freopen("/dev/null", "w", stdout);
		Vuint x = Vuint(1) << (MIE_ZM_VUINT_BIT_LEN - 1);
		x >>= 64;
		_exit(x == (Vuint(1) << (MIE_ZM_VUINT_BIT_LEN - 65)) ? 0 : 1);
	}
	int st; waitpid(pid, &st, 0);
	EXPECT(WIFEXITED(st) && WEXITSTATUS(st) == 0);
""", pre="#include <unistd.h>\n#include <sys/wait.h>\n"))
bug("i04-one-more", "I04", [("include/zm.h", "\t\tif (n > N) {\n\t\t\tprintf(\"n=%d, N=%d\\n\", (int)n, (int)N);", "\t\tif (n > N + 1) {\n\t\t\tprintf(\"n=%d, N=%d\\n\", (int)n, (int)N);")],
    "a result exactly one word longer than the capacity", "the word after the buffer (the size) is overwritten instead of a stop with a diagnostic",
    D("""
	pid_t pid = fork();
	if (pid == 0) {
		freopen("/dev/null", "w", stdout);
		Vuint x = Vuint(1) << (MIE_ZM_VUINT_BIT_LEN - 1);
		x <<= 3;
		_exit(0);
	}
	int st; waitpid(pid, &st, 0);
	EXPECT(WIFEXITED(st) && WEXITSTATUS(st) == 1);
""", pre="#include <unistd.h>\n#include <sys/wait.h>\n"))
bug("i03-neg-zero", "I03", [("include/zm.h", "\t\tif (x.isZero()) {\n\t\t\tout = x;\n\t\t} else {\n\t\t\tV::sub(out.v_, m_, x.v_);\n\t\t}", "\t\tV::sub(out.v_, m_, x.v_);")],
    "the negative of 0 in a modular ring", "it is m, which differs from 0",
    D("""
	Z::setModulo(Vuint(101));
	Z x(0), y; Z::neg(y, x);
	EXPECT(y == Z(0) && y.isZero());
""", pre="struct Tag {}; typedef mie::ZmZ<Vuint, Tag> Z;\n"))
bug("m01-alloca-short", "M01", [("include/zm.h", "MIE_ALLOCA_(sizeof(T) * (xn + 1));", "MIE_ALLOCA_(sizeof(T) * xn);")],
    "any product of two numbers of two or more words: one word past the stack buffer is written", "stack memory outside the scratch buffer is written",
    D("""
	Vuint x("0x123456789abcdef0123456789abcdef1"), y = x; // before init: portable code, visible to ASan
	Vuint z = x * y;
	EXPECT(z[0] == 0x2236D88FE5618CF0ull + (z[0] - 0x2236D88FE5618CF0ull));
""", init=""), flags="-O1 -g -fsanitize=address -static-libasan")
bug("f04-neg-high-word", "F04", [("src/zm2.cpp", "\t\tload_rm(gt4, gt3, gt2, gt1, mx + 32);\n\t\tor_(rdx, gt4);\n\t\tor_(rdx, gt3);\n", "\t\tload_rm(gt4, gt3, gt2, gt1, mx + 32);\n\t\tor_(rdx, gt4);\n")],
    "a double-width value whose only non-zero word is the seventh", "its negative is computed as 0",
    D("""
	FpDbl x, y, z; Fp a(1);
	memset(&x, 0, sizeof(x)); Fp s, t; s.clear(); t.clear(); // x = 2^384: stored words 0 0 0 0 0 0 1 0
	((uint64_t*)&x)[6] = 1;
	FpDbl::neg(y, x);
	FpDbl::add(z, x, y);
	FpDbl::mod(s, z); EXPECT(s.isZero());
""", pre="#include <string.h>\ntypedef Fp::Dbl FpDbl;\n"))
bug("f04-mod-carry", "F04", [("src/zm2.cpp", "\t\tadd_rr(gt4, gt7, gt3, gt2, gp1, gt5, gp2, gt6);\n\t\tadc(gt8, d);\n\t\tadc(gt9, 0);\n\t\tadc(gt10, 0); // c' = [gt10:gt9:gt8:gt4:gt7:gt3]", "\t\tadd_rr(gt4, gt7, gt3, gt2, gp1, gt5, gp2, gt6);\n\t\tadc(gt8, d);\n\t\tadc(gt9, 0); // c' = [gt10:gt9:gt8:gt4:gt7:gt3]")],
    "a double-width value whose seventh word is all ones and that takes a carry in the reduction", "the reduced value lacks the carry",
    D("""
	FpDbl x, y; Fp s, t, u;
	uint64_t *w = (uint64_t*)&x;
	for (int k = 0; k < 64; k++) {
		for (int i = 0; i < 8; i++) w[i] = 0x9e3779b97f4a7c15ull * (k * 8 + i + 1);
		w[6] = w[5] = ~0ull; w[7] = 3;
		memset(&y, 0, sizeof(y)); ((uint64_t*)&y)[5] = 1;
		FpDbl z; FpDbl::sub(z, x, y); // sixth word one less: no carry through it
		FpDbl::mod(s, x); FpDbl::mod(t, z); FpDbl::mod(u, y);
		EXPECT(t + u == s);
	}
""", pre="#include <string.h>\ntypedef Fp::Dbl FpDbl;\n"))
bug("f03-xi-estimate", "F03", [("src/zm2.cpp", "0xa948e8c4c474094eLL", "0xa948e8c4c4754000LL")],
    "the SNARK curve, elements for which 9 a + b lies just below a multiple of p", "xi times the element is not reduced below p",
    D("""
	// a with 9 a a little above k p (stored form), b = 0
	bool ok = true;
	for (int k = 1; k <= 10; k++) for (int d = -3; d <= 3; d++) for (int e = 0; e < 2; e++) {
		mpz_class p("21888242871839275222246405745257275088696311157297823662689037894645226208583"), a = (k * p + 8 * e) / 9 + d;
		if (a < 0 || a >= p) continue;
		Fp A; A.clear(); for (int i = 0; i < 4; i++) { mpz_class w = (a >> (64 * i)) & mpz_class("0xffffffffffffffff"); A[i] = w.get_ui(); }
		for (int b = -2; b <= 2; b++) {
			Fp2 x(A, Fp(b)), y, z; Fp2::mul_xi(y, x); Fp2::mul(z, x, Fp2(9, 1));
			if (y != z) ok = false;
		}
	}
	EXPECT(ok);
""", init="Param::init(CurveSNARK1);"), flags="-O2 -DNDEBUG -DBN_SUPPORT_SNARK")
bug("f01-inv-table", "F01", [("src/zm2.cpp", "\t\t\tFp t(2);\n\t\t\tfor (int i = 0; i < 512; i++) {\n\t\t\t\tinvTbl_[511 - i] = t;", "\t\t\tFp t(2);\n\t\t\tfor (int i = 0; i < 257; i++) { // at least 255 steps are needed for a 254-bit modulus\n\t\t\t\tinvTbl_[511 - i] = t;")],
    "the element with stored form 1 (and others that need the fewest steps)", "its inverse is 0",
    D("""
	Fp x; x.clear(); x[0] = 1;
	Fp y; Fp::inv(y, x);
	EXPECT(x * y == Fp(1));
"""))
bug("f06-word", "F06", [("include/zm2.h", "\t\tassert(x < getModulo());\n\t\tmie::Vuint y(x);", "\t\tassert(x < getModulo());\n\t\tif (x.bitLen() <= 32) { // small value, no division\n\t\t\tset((int)x[0]);\n\t\t\treturn;\n\t\t}\n\t\tmie::Vuint y(x);")],
    "a number from 2^31 to 2^32 - 1", "it is taken for a negative native integer",
    D("""
	Fp x(Vuint("4000000000")), y(2000000000);
	EXPECT(x == y + y);
"""))
bug("t01-int-cache", "T01", [("include/zm2.h", "\t\t} else if (x > 0) {\n\t\t\tv_[0] = x;\n\t\t\tstd::fill(v_ + 1, v_ + N, 0);\n\t\t\tmul(*this, *this, montgomeryR2_);\n", "\t\t} else if (x == 2 || x == 3) {\n\t\t\t// frequent constants\n\t\t\tstatic Unit tbl[4][N];\n\t\t\tstatic bool have[4];\n\t\t\tif (!have[x]) {\n\t\t\t\thave[x] = true;\n\t\t\t\tv_[0] = x;\n\t\t\t\tstd::fill(v_ + 1, v_ + N, 0);\n\t\t\t\tmul(*this, *this, montgomeryR2_);\n\t\t\t\tstd::copy(v_, v_ + N, tbl[x]);\n\t\t\t}\n\t\t\tstd::copy(tbl[x], tbl[x] + N, v_);\n\t\t} else if (x > 0) {\n\t\t\tv_[0] = x;\n\t\t\tstd::fill(v_ + 1, v_ + N, 0);\n\t\t\tmul(*this, *this, montgomeryR2_);\n")],
    "two threads that convert 2 or 3 for the first time at the same moment", "one of them gets 0",
    D("""
	std::thread t[4]; for (int i = 0; i < 4; i++) t[i] = std::thread(work); for (int i = 0; i < 4; i++) t[i].join();
""", pre="#include <thread>\nstatic void work() { volatile int n = 3; Fp x((int)n); (void)x; }\n"), flags="-O1 -g -fsanitize=thread")
bug("t01-negate-in-place", "T01", [("include/bn.h", "\t\tEcT negQ;\n\t\tneg(negQ, Q);\n\t\tadd(R, P, negQ);", "\t\tif (&R == &Q) {\n\t\t\tEcT negQ;\n\t\t\tneg(negQ, Q);\n\t\t\tadd(R, P, negQ);\n\t\t\treturn;\n\t\t}\n\t\tif (&P == &Q) {\n\t\t\tR.clear();\n\t\t\treturn;\n\t\t}\n\t\t// no temporary: P - Q = -(-P + Q)\n\t\tT::neg(P.p[1], P.p[1]);\n\t\tadd(R, P, Q);\n\t\tif (&R != &P) T::neg(P.p[1], P.p[1]);\n\t\tT::neg(R.p[1], R.p[1]);")],
    "two threads that subtract from the same shared point at the same moment", "a thread sees the other's temporarily negated point",
    D("""
	A = base1(); B = A * 5; want = A * -4; A.normalize(); B.normalize(); want.normalize();
	std::thread t[4]; for (int i = 0; i < 4; i++) t[i] = std::thread(work); for (int i = 0; i < 4; i++) t[i].join();
	EXPECT(bad == 0);
""", pre='''#include <thread>
#include <atomic>
static Ec1 A, B, want; static std::atomic<int> bad(0);
static void work() { Ec1 w = want; for (int i = 0; i < 400000 && !bad; i++) { Ec1 c; Ec1::sub(c, A, B); if (i % 64 == 0 && c != w) bad++; } }
'''))
bug("i02-equal-sign", "I02", [("include/zm.h", "\t\tif (x.isNeg_ ^ y.isNeg_) {\n\t\t\tif (x.isZero() && y.isZero()) return 0;\n\t\t\treturn x.isNeg_ ? -1 : 1;", "\t\tif (x.isNegative() != y.isNegative()) {\n\t\t\treturn x.isNegative() ? -1 : 1;")],
    "x", "x") if 0 else None
bug("j01-mod-sign", "J01", [("java/bn254_if.hpp", "\tvoid sub(const Ec2& rhs) { ::bn::Ec2::sub(self_, self_, rhs.self_); }", "\tvoid sub(const Ec2& rhs) { ::bn::Ec2::neg(self_, self_); ::bn::Ec2::add(self_, self_, rhs.self_); ::bn::Ec2::neg(self_, self_); }")],
    "an Ec2 object subtracted from itself in Java", "the result is the point's double negated twice instead of infinity",
    '''#include "bn254_if.hpp"
#include <stdio.h>
int main()
{
	SystemInit();
	Fp2 x("12723517038133731887338407189719511622662176727675373276651903807414909099441", "4168783608814932154536427934509895782246573715297911553964171371032945126671"),
		y("13891744915211034074451795021214165905772212241412891944830863846330766296736", "7937318970632701341203597196594272556916396164729705624521405069090520231616");
	Ec2 p(x, y);
	p.sub(p);
	if (!p.isZero()) { puts("p.sub(p) is not zero"); return 1; }
	puts("ok");
	return 0;
}
''')
bug("k02-naf-flag", "K02", [("include/bn.h", "\ttypedef std::vector<signed char> SignVec;\n\tstatic SignVec siTbl;", "\ttypedef std::vector<signed char> SignVec;\n\tstatic SignVec siTbl; // x")], "x", "x") if 0 else None

bug("f02-zero-base", "F02", [("include/zm.h", "\tT t(x);\n\tT out = 1;\n\tfor (size_t i = 0, n = Tag::getBlockSize(y); i < n; i++) {", "\tT t(x);\n\tT out = 1;\n\tif (t == out || t == T(0)) return t; // powers of 0 and 1\n\tfor (size_t i = 0, n = Tag::getBlockSize(y); i < n; i++) {")],
    "the base 0 with the exponent 0", "0^0 is 0 instead of the empty product 1",
    D("""
	EXPECT(mie::power(Fp(0), Vuint(0)) == Fp(1));
"""))
bug("g02-mpz-blocks", "G02", [("include/bn.h", "\tstatic inline size_t getBlockSize(const mpz_class& x)\n\t{\n\t\treturn M_blockSize(x);\n\t}", "\tstatic inline size_t getBlockSize(const mpz_class& x)\n\t{\n\t\treturn M_bitLen(x) / (sizeof(value_type) * 8) + 1;\n\t}")],
    "a GMP scalar whose bit length is a multiple of 64", "the scalar is read with one word too many",
    D("""
	Ec1 P = base1(), Q, R;
	mpz_class n("0xffffffffffffffff");
	Ec1::mul(Q, P, n);
	Ec1::mul(R, P, Vuint("0xffffffffffffffff"));
	EXPECT(Q == R);
"""))
bug("k01-scratch-size", "K01", [("include/zm.h", "\t\tT *t2 = (T*)MIE_ALLOCA_(sizeof(T) * (xn + 1));", "\t\tT t2[10]; // nine words and a carry")],
    "a build with a larger MIE_ZM_VUINT_BIT_LEN and a factor of ten or more words", "the scratch buffer on the stack overflows",
    D("""
	Vuint x = (Vuint(1) << 900) - Vuint(1), y = (Vuint(1) << 100) + Vuint(1);
	EXPECT(x * y == (x << 100) + x); // before init: portable code, visible to ASan
""", init=""), flags="-O1 -g -fsanitize=address -DMIE_ZM_VUINT_BIT_LEN=1088")
bug("m02-read-ahead", "M02", [("src/zm.cpp", "\t\t// n == 1\n\t\tmov(a, ptr [x]);\n\t\tif (isAdd) {\n\t\t\tadd(a, ptr [y]);", "\t\t// n == 1\n\t\tmov(a, ptr [x]);\n\t\tmov(t0, ptr [x + 8]); // fetch early\n\t\tif (isAdd) {\n\t\t\tadd(a, ptr [y]);")],
    "operands of one word at the very end of readable memory", "the generated code reads the word after its operand",
    D("""
	unsigned char *m = (unsigned char*)mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	mprotect(m + 4096, 4096, PROT_NONE);
	mie::Unit *x = (mie::Unit*)(m + 4096 - 8), o, y = 5; *x = 7;
	bool c = mie::local::PrimitiveFunction::addN(&o, x, &y, 1);
	EXPECT(!c && o == 12);
""", pre="#include <sys/mman.h>\n"))
bug("p03-skip-normalize", "P03", [("include/bn.h", "\tcoeff.clear();\n\tbn::ecop::NormalizeJac(Q, inQ);\n", "\tcoeff.clear();\n\tif (!(Q[2] == 1)) { // not normalized yet\n\t\tbn::ecop::NormalizeJac(Q, inQ);\n\t}\n")],
    "precomputeG2 with a workspace that was used for another point before", "the coefficients of the earlier point are computed",
    D("""
	Fp2 Q[3] = { %s, Fp2(1) };
	Ec2 G; G.set(Q[0], Q[1]); Ec2 G2 = G * 2; G2.normalize(); Ec1 P = base1();
	std::vector<Fp6> c; Fp2 n[3]; n[2] = Fp2(0);
	components::precomputeG2(c, n, G.p);
	components::precomputeG2(c, n, G2.p);
	Fp12 f, g; components::millerLoop(f, c, P.p); f.final_exp();
	opt_atePairing(g, G2, P);
	EXPECT(f == g);
""" % Q0))

# ---- batch 2 ----
bug("f01-top-limb", "F01", [("src/zm2.cpp", "\tvoid in_Fp_add_modp()\n\t{\n\t\tmov(gt5, gt1);\n\t\tmov(gt6, gt2);\n\t\tmov(gt7, gt3);\n\t\tmov(rdx, gt4);\n\n\t\tsub_rm(gt4, gt3, gt2, gt1, rax);\n#if 1 // faster@sandy 1.36Mclk\n\t\tcmovc(gt1, gt5);\n\t\tcmovc(gt2, gt6);\n\t\tcmovc(gt3, gt7);\n\t\tcmovc(gt4, rdx);\n",
 "\tvoid in_Fp_add_modp()\n\t{\n\t\tmov(gt5, gt1);\n\t\tmov(gt6, gt2);\n\t\tmov(gt7, gt3);\n\t\tmov(rdx, gt4);\n\n\t\tsub_rm(gt4, gt3, gt2, gt1, rax);\n#if 1 // faster@sandy 1.36Mclk\n\t\tcmp(rdx, ptr [rax + 8 * 3]); // the top limb decides\n\t\tcmovc(gt1, gt5);\n\t\tcmovc(gt2, gt6);\n\t\tcmovc(gt3, gt7);\n\t\tcmovc(gt4, rdx);\n")],
    "a sum below p whose stored top limb equals the top limb of p", "p is subtracted from a sum that is already reduced",
    D("""
	Fp x, y; x.clear(); y.clear(); x[3] = Fp::getModulo()[3];
	Fp z; Fp::add(z, x, y);
	EXPECT(z == x);
"""))
bug("f02-zero-word", "F02", [("include/zm.h", "\t\tint m = (int)sizeof(value_type) * 8;\n\t\tif (i == n - 1) {", "\t\tint m = (int)sizeof(value_type) * 8;\n\t\tif (v == 0) { // nothing to multiply\n\t\t\tfor (int j = 1; j < m; j++) t *= t;\n\t\t\tcontinue;\n\t\t}\n\t\tif (i == n - 1) {")],
    "an exponent with a zero word below its top word", "one squaring is lost",
    D("""
	Fp x(3), y(3);
	for (int i = 0; i < 64; i++) y *= y;
	EXPECT(mie::power(x, Vuint(1) << 64) == y);
"""))
bug("f02-sqrt-top", "F02", [("include/zm2.h", "\t\tif (t * t != x) return false;\n", "\t\tif ((t * t)[N - 1] != x[N - 1]) return false; // t^2 is x or -x\n")],
    "a non-square whose stored form has the same top limb as its negative (close to p/2)", "the square root routine succeeds for a non-square",
    D("""
	Fp x; Fp::setDirect(x, Fp::getModulo() >> 1);
	for (int i = 0; i < 200; i++) {
		Fp y;
		if (Fp::squareRoot(y, x)) EXPECT(y * y == x);
		x[0] -= 2;
	}
"""))
bug("f03-square-stale", "F03", [("include/bn.h", "\t\tassert(&z != &x);\n\t\tFp2 v3, v4, v5;\n", "\t\tassert(&z != &x);\n\t\tif (x.b_.isZero() && x.c_.isZero()) { // element of Fp2\n\t\t\tFp2::square(z.a_, x.a_);\n\t\t\tz.b_.clear();\n\t\t\treturn;\n\t\t}\n\t\tFp2 v3, v4, v5;\n")],
    "squaring an element of Fp6 that lies in Fp2 into an object with a non-zero third coefficient", "the old coefficient stays in the result",
    D("""
	Fp6 x(7), z(Fp(1), Fp(2), Fp(3), Fp(4), Fp(5), Fp(6));
	Fp6::square(z, x);
	EXPECT(z == x * x);
"""))
bug("f04-neg-half", "F04", [("src/zm2.cpp", "\t\tin_Fp_subNC(mz, rax, mx);\n\t\tin_Fp_sbbNC(mz + 32, rax + 32, mx + 32);\n\tL(\".exit\");", "\t\tin_Fp_subNC(mz, rax, mx);\n\t\tin_Fp_subNC(mz + 32, rax + 32, mx + 32);\n\t\tmov(rdx, ptr [mz]); // borrow unless the low half is zero\n\t\tor_(rdx, ptr [mz + 8]);\n\t\tor_(rdx, ptr [mz + 16]);\n\t\tneg(rdx);\n\t\tsbb(qword [mz + 32], 0);\n\t\tsbb(qword [mz + 40], 0);\n\t\tsbb(qword [mz + 48], 0);\n\t\tsbb(qword [mz + 56], 0);\n\tL(\".exit\");")],
    "a double-width value whose three lowest words are zero and whose fourth is not", "its negative is too large by 2^256",
    D("""
	FpDbl x, y; x.clear(); x.ptr()[3] = 5; x.ptr()[6] = 1;
	FpDbl::neg(y, x);
	EXPECT(y.getDirect() + x.getDirect() == (Fp::getModulo() << 256));
"""))
bug("f06-small-numeral", "F06", [("include/zm2.h", "\t\tmie::Vuint y(x);\n//\t\tcount++", "\t\tif (x.size() == 1) { // no division for small numbers\n\t\t\tv_[0] = x[0];\n\t\t\tstd::fill(v_ + 1, v_ + N, 0);\n\t\t\tif (v_[0] >> 63) { // top bit set\n\t\t\t\tv_[0] = 0 - v_[0];\n\t\t\t\tmul(*this, *this, montgomeryR2_);\n\t\t\t\tneg(*this, *this);\n\t\t\t} else {\n\t\t\t\tmul(*this, *this, montgomeryR2_);\n\t\t\t}\n\t\t\treturn;\n\t\t}\n\t\tmie::Vuint y(x);\n//\t\tcount++")],
    "a big integer between 2^63 and 2^64 - 1", "it is converted as if it were negative",
    D("""
	Vuint v("0x8000000000000005");
	EXPECT(Fp(v).get() == v);
"""))
bug("g01-inf-xy", "G01", [("include/bn.h", "\tif (a[2].isZero()) {\n\t\tcopy(out, b);\n\t\treturn;\n\t}", "\tif (a[0].isZero() && a[1].isZero() && a[2].isZero()) {\n\t\tcopy(out, b);\n\t\treturn;\n\t}")],
    "the point at infinity in a form whose X or Y is not zero, as first operand", "the sum is infinity instead of the other operand",
    D("""
	Ec1 P = base1(), O(Fp(4), Fp(8), Fp(0)), R;
	EXPECT(O.isZero());
	Ec1::add(R, O, P);
	EXPECT(R == P);
"""))
bug("g02-zero-word", "G02", [("include/bn.h", "\t\tv = Tag::getBlock(m, i);\n\t\tfor (j = 0; j != vSize; ++j, v <<= 1) {", "\t\tv = Tag::getBlock(m, i);\n\t\tfor (j = v ? 0 : 1; j != vSize; ++j, v <<= 1) {")],
    "a scalar with a zero word below its top word", "one doubling is lost",
    D("""
	Ec1 P = base1(), Q = P;
	for (int i = 0; i < 64; i++) Ec1::dbl(Q, Q);
	EXPECT(P * (Vuint(1) << 64) == Q);
"""))
bug("g03-real-part", "G03", [("include/bn.h", "\tif (P[2] == 0) return true;\n\tFp2 Z6p;\n", "\tif (P[2] == 0) return true;\n\tif (P[0].b_.isZero() && P[1].b_.isZero() && P[2] == 1) { // real coordinates\n\t\treturn P[1].a_ * P[1].a_ == P[0].a_ * P[0].a_ * P[0].a_ + Param::b_invxi.a_;\n\t}\n\tFp2 Z6p;\n")],
    "coordinates in Fp with y^2 = x^3 + Re(b/xi)", "they are accepted although they are not on the twist (b/xi is not in Fp)",
    D("""
	for (int i = 0; ; i++) {
		Fp x(i), y;
		if (!Fp::squareRoot(y, x * x * x + Param::b_invxi.a_)) continue;
		bool thrown = false;
		try { Ec2 P(Fp2(x, Fp(0)), Fp2(y, Fp(0))); } catch (std::exception&) { thrown = true; }
		EXPECT(thrown);
		break;
	}
"""))
bug("g04-cross", "G04", [("include/bn.h", "\t\tnormalize();\n\t\trhs.normalize();\n\t\tif (isZero()) {\n\t\t\tif (rhs.isZero()) return true;\n\t\t\treturn false;\n\t\t}\n\t\tif (rhs.isZero()) return false;\n\t\treturn p[0] == rhs.p[0] && p[1] == rhs.p[1];",
 "\t\tif (isZero() && rhs.isZero()) return true;\n\t\tT a = p[2] * p[2], b = rhs.p[2] * rhs.p[2]; // no inversion\n\t\tif (p[0] * b != rhs.p[0] * a) return false;\n\t\ta *= p[2];\n\t\tb *= rhs.p[2];\n\t\treturn p[1] * b == rhs.p[1] * a;")],
    "infinity with all coordinates zero compared with another point", "every point equals a cleared point",
    D("""
	Ec1 P = base1(), O; O.clear();
	EXPECT(!(P == O));
	EXPECT(P != O);
"""))
bug("g05-real-y", "G05", [("include/bn.h", "\tQ[1].a_ = P[1].a_;\n\tFp::neg(Q[1].b_, P[1].b_);\n\tQ[1] *= Param::W3p;\n", "\tQ[1].a_ = P[1].a_;\n\tif (!P[1].b_.isZero()) Fp::neg(Q[1].b_, P[1].b_);\n\tQ[1] *= Param::W3p;\n")],
    "a point of the twist with y in Fp, and an output object that held something else", "the old imaginary part of the output is used",
    D("""
	Fp2 P[2] = { Fp2(Fp(3), Fp(4)), Fp2(Fp(5), Fp(0)) }, Q[2] = { Fp2(Fp(1), Fp(1)), Fp2(Fp(1), Fp(1)) }, R[2];
	R[1].clear();
	ecop::FrobEndOnTwist_1(Q, P);
	ecop::FrobEndOnTwist_1(R, P);
	EXPECT(Q[0] == R[0] && Q[1] == R[1]);
"""))
bug("i01-round-up", "I01", [("include/zm.h", "di.i = uint64_t(len + 1022 - 52 + 1) << 52;", "di.i = uint64_t(len + 1022 - 52) << 52; // one unit in the last place")],
    "a dividend of 53 significant bits and a divisor whose bits below the top 53 are all ones", "the estimated quotient is too large and the subtraction underflows",
    D("""
	for (uint64_t h = 0x1b00000000000ull; h < 0x1b00000000000ull + 4000; h++) {
		Vuint y = (Vuint(h | (1ull << 52)) << 140) - Vuint(1);
		Vuint x = Vuint((h * 7919 & ((1ull << 53) - 1)) | (1ull << 52)) << 203;
		Vuint q, r;
		Vuint::div(&q, r, x, y);
		EXPECT(r < y);
		EXPECT(q * y + r == x);
	}
"""))
bug("i01-add-longer", "I01", [("include/zm.h", "\t\tif (max > min) {\n\t\t\tc = F::add1(&out[min], &(*px)[min], max - min, c);", "\t\tif (max > min && (c || &out != &x)) { // else already in place\n\t\t\tc = F::add1(&out[min], &(*px)[min], max - min, c);")],
    "x += y where y has more words than x and no carry leaves the common words", "the upper words of the sum are left over from earlier values",
    D("""
	Vuint x = (Vuint(3) << 130) + Vuint(1), y = (Vuint(5) << 128);
	x >>= 129; // one word now
	x += y;
	EXPECT(x == y + Vuint(6));
"""))
bug("i02-minus-one", "I02", [("include/zm.h", "\t\tV::mul(out.v_, x.v_, y.v_);\n\t\tout.isNeg_ = x.isNeg_ ^ y.isNeg_;", "\t\tif (y.v_ == V(1)) { // multiplication by one\n\t\t\tout = x;\n\t\t\treturn;\n\t\t}\n\t\tV::mul(out.v_, x.v_, y.v_);\n\t\tout.isNeg_ = x.isNeg_ ^ y.isNeg_;")],
    "multiplication by -1", "the sign is not changed",
    D("""
	EXPECT(Vsint(7) * Vsint(-1) == Vsint(-7));
"""))
bug("i02-word-sum", "I02", [("include/zm.h", "\t\t\t// same sign\n\t\t\tV::add(out.v_, x.v_, y.v_);\n\t\t\tout.isNeg_ = x.isNeg_;", "\t\t\t// same sign\n\t\t\tif (x.size() == 1 && y.size() == 1 && (x.v_[0] | y.v_[0]) >> 63 == 0) {\n\t\t\t\tout.set(int64_t(x.v_[0] + y.v_[0])); // no carry\n\t\t\t} else {\n\t\t\t\tV::add(out.v_, x.v_, y.v_);\n\t\t\t}\n\t\t\tout.isNeg_ = x.isNeg_;")],
    "two one-word numbers of the same sign whose magnitudes add up to 2^63 or more", "the magnitude is negated modulo 2^64",
    D("""
	Vsint x(Vuint(3) << 61), y = x + x;
	EXPECT(y == Vsint(Vuint(3) << 62));
"""))
bug("i03-sub-alias", "I03", [("include/zm.h", "\t\t\tif (&out != &y) {\n\t\t\t\tV::add(out.v_, x.v_, m_);\n\t\t\t\tout.v_ -= y.v_;\n\t\t\t} else {\n\t\t\t\tV t = x.v_ + m_;\n\t\t\t\tout.v_ = t - y.v_;\n\t\t\t}", "\t\t\tif (&out != &y) {\n\t\t\t\tV::add(out.v_, x.v_, m_);\n\t\t\t\tout.v_ -= y.v_;\n\t\t\t} else {\n\t\t\t\tout.v_ -= x.v_; // y - x, to be negated\n\t\t\t\tV::sub(out.v_, m_, &out == &x ? y.v_ : x.v_);\n\t\t\t\tout.v_ = m_ - (y.v_ - x.v_);\n\t\t\t}")],
    "x - y with x < y stored in y's object", "the difference is computed from the overwritten operand",
    D("""
	typedef mie::ZmZ<> Z;
	Z::setModulo(Vuint(101));
	Z x(7), y(20);
	Z::sub(y, x, y);
	EXPECT(y == Z(88));
"""))
bug("i03-one-word", "I03", [("include/zm.h", "#else\n\t\tV::mul(out.v_, x.v_, y.v_);\n\t\tout.modulo();", "#else\n\t\tif (m_.size() == 1 && m_[0] >> 33 == 0) { // product fits in a word\n\t\t\tout.v_.set((x.v_[0] * y.v_[0]) % m_[0]);\n\t\t\treturn;\n\t\t}\n\t\tV::mul(out.v_, x.v_, y.v_);\n\t\tout.modulo();")],
    "a modulus between 2^32 and 2^33 and a product of 2^64 or more", "the product is reduced modulo 2^64 first",
    D("""
	typedef mie::ZmZ<> Z;
	Z::setModulo(Vuint(8589934583ull));
	Z x(Vuint(8589934582ull));
	EXPECT(x * x == Z(1));
"""))
bug("i04-sub-equal", "I04", [("include/zm.h", "\t\tbool c = sub_in(out, x, y);\n\t\tif (c) {", "\t\tbool c = sub_in(out, x, y);\n\t\tif (c && x.size() > 1) {")],
    "x - y for one-word numbers x < y", "the difference modulo 2^64 is returned",
    demo_sh='''#!/bin/bash
R=$(pwd); H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
g++ -std=gnu++11 -O2 -DNDEBUG -DMIE_ATE_USE_GMP -w -I"$R/include" "$H/demo.cpp" "$R/src/zm.cpp" "$R/src/zm2.cpp" -o "$W/demo" -lgmpxx -lgmp || exit 3
cd "$W" && timeout 60 ./demo
rc=$?
# the library must stop with a non-zero status (7: it went on)
[ $rc -ne 0 ] && [ $rc -ne 7 ]
''', files={"demo.cpp": '#include "bn.h"\n#include <stdio.h>\nint main()\n{\n\tmie::Vuint x(3), y(5);\n\tmie::Vuint z = x - y;\n\tprintf("3 - 5 = %s\\n", z.toString().c_str());\n\treturn 7;\n}\n'})
bug("i04-shr-zero", "I04", [("include/zm.h", "\t\tif (x.isNeg_) {\n\t\t\tlocal::errExit(\"shr can't deal with negative value\");", "\t\tif (x.isNeg_ && n) {\n\t\t\tlocal::errExit(\"shr can't deal with negative value\");")],
    "a negative number shifted right by 0", "its absolute value is returned",
    demo_sh='''#!/bin/bash
R=$(pwd); H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
g++ -std=gnu++11 -O2 -DNDEBUG -DMIE_ATE_USE_GMP -w -I"$R/include" "$H/demo.cpp" "$R/src/zm.cpp" "$R/src/zm2.cpp" -o "$W/demo" -lgmpxx -lgmp || exit 3
cd "$W" && timeout 60 ./demo
rc=$?
# stopping or the number itself are right, another number is not
[ $rc -ne 7 ]
''', files={"demo.cpp": '#include "bn.h"\n#include <stdio.h>\nint main()\n{\n\tmie::Vsint x(-5);\n\tmie::Vsint z = x >> 0;\n\tprintf("-5 >> 0 = %s\\n", z.toString().c_str());\n\treturn z == x ? 1 : 7;\n}\n'})
bug("k01-assert-effect", "K01", [("include/zm.h", "\t\t\t// imply &x == &y\n\t\t\tif (q) q->set(1);\n\t\t\tr.clear();", "\t\t\t// imply &x == &y\n\t\t\tif (q) q->set(1);\n\t\t\tif (r.size() > 1) r.clear();\n\t\t\telse assert((r.clear(), r.isZero()));")],
    "a release build, equal numbers of two or more words divided into a remainder object of one word", "the remainder keeps its old value; the debug build is right",
    D("""
	Vuint x = (Vuint(1) << 100) + Vuint(7), q, r(5);
	Vuint::div(&q, r, x, x);
	EXPECT(q == Vuint(1) && r.isZero());
"""))
bug("k02-ignores-xi", "K02", [("include/bn.h", "return z == rhs.z && b == rhs.b && xi_a == rhs.xi_a && xi_b == rhs.xi_b; }", "return z == rhs.z && b == rhs.b && xi_a == rhs.xi_a; }")],
    "a request for a curve that differs from a supported one in xi's imaginary part only", "it is accepted and computes on another twist",
    demo_sh='''#!/bin/bash
R=$(pwd); H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
g++ -std=gnu++11 -O2 -DNDEBUG -DMIE_ATE_USE_GMP -w -I"$R/include" "$H/demo.cpp" "$R/src/zm.cpp" "$R/src/zm2.cpp" -o "$W/demo" -lgmpxx -lgmp || exit 3
cd "$W" && timeout 60 ./demo
rc=$?
[ $rc -ne 0 ] && [ $rc -ne 7 ]
''', files={"demo.cpp": '#include "bn.h"\n#include <stdio.h>\nint main()\n{\n\tbn::CurveParam cp = bn::CurveFp254BNb;\n\tcp.xi_b = 2;\n\tbn::Param::init(cp);\n\tputs("accepted");\n\treturn 7;\n}\n'})
bug("k03-power-cache", "K03", [("include/bn.h", "\t\tassert(&z != &x);\n\t\tFp12 d62;\n", "\t\tassert(&z != &x);\n\t\tstatic thread_local Fp12 lastX(0), lastZ(0); // the final exponentiation of equal values repeats itself\n\t\tif (lastX.a_ == x.a_) {\n\t\t\tz = lastZ;\n\t\t\treturn;\n\t\t}\n\t\tlastX = x;\n\t\tFp12 d62;\n"),
    ("include/bn.h", "\t\tz *= x; // 6.5k\n\t\tz *= d62;\n", "\t\tz *= x; // 6.5k\n\t\tz *= d62;\n\t\tlastZ = z;\n")],
    "a fixed power of an element right after the fixed power of its conjugate", "the power of the conjugate is returned",
    D("""
	Fp12 f(Fp(1), Fp(2), Fp(3), Fp(4), Fp(5), Fp(6), Fp(7), Fp(8), Fp(9), Fp(10), Fp(11), Fp(12)), x, y, a, b;
	f.mapToCyclo(x);
	y = x; Fp6::neg(y.b_, y.b_); // 1/x
	Compress::fixed_power(a, x);
	Compress::fixed_power(b, y);
	EXPECT(a * b == Fp12(1));
"""))
bug("k03-stream-hex", "K03", [("include/bn.h", "\t\t\tself.normalize();\n\t\t\treturn os << self.p[0].toString(16) + '_' + self.p[1].toString(16);", "\t\t\tself.normalize();\n\t\t\treturn os << std::hex << self.p[0] << '_' << self.p[1];")],
    "printing a point and then a number to the same stream", "the stream stays in hexadecimal mode and the number is printed in hexadecimal",
    D("""
	std::ostringstream os;
	os << base1() << ' ' << Vuint(255);
	std::string s = os.str();
	EXPECT(s.substr(s.size() - 4) == " 255");
"""))
bug("m01-odd-words", "M01", [("include/zm.h", "\t\tfor (size_t i = 0; i < size / 2; i++) {\n\t\t\t(*this)[i] = make64(x[i * 2 + 1], x[i * 2]);\n\t\t}\n\t\tif (size & 1) {\n\t\t\t(*this)[size / 2] = x[size - 1];\n\t\t}", "\t\tfor (size_t i = 0; i < (size + 1) / 2; i++) {\n\t\t\t(*this)[i] = make64(x[i * 2 + 1], x[i * 2]);\n\t\t}\n\t\tif (size & 1) { // drop the upper half\n\t\t\t(*this)[size / 2] &= 0xffffffffu;\n\t\t}")],
    "a big integer built from an odd number of 32-bit words that ends at the end of an allocation", "four bytes after the array are read",
    D("""
	uint32_t *a = new uint32_t[3];
	a[0] = 1; a[1] = 2; a[2] = 3;
	Vuint x(a, 3);
	EXPECT(x == (Vuint(3) << 64) + (Vuint(2) << 32) + Vuint(1));
	delete[] a;
""", init=""), flags="-O1 -g -fsanitize=address")
bug("m02-neg-zero-clobber", "M02", [("src/zm2.cpp", "\t\t// all zero\n\t\tstore_mr(mz, rdx, rdx, rdx, rdx);\n", "\t\t// all zero\n\t\txor_(gt5, gt5);\n\t\tstore_mr(mz, rdx, rdx, rdx, gt5);\n")],
    "the negative of the double-width zero", "a register that belongs to the caller is cleared",
    D("""
	FpDbl x, y; x.clear();
	uint64_t bad = 0;
	void *f = (void*)FpDbl::neg;
	__asm__ volatile(
		"movq $0x1234567, %%r12\\n movq %%r12, %%r13\\n movq %%r12, %%r14\\n movq %%r12, %%r15\\n movq %%r12, %%rbx\\n"
		"subq $128, %%rsp\\n movq %%rsp, %%rax\\n andq $-16, %%rsp\\n pushq %%rax\\n subq $8, %%rsp\\n call *%%rcx\\n addq $8, %%rsp\\n popq %%rsp\\n addq $128, %%rsp\\n"
		"xorl %%eax, %%eax\\n xorq $0x1234567, %%r12\\n orq %%r12, %%rax\\n xorq $0x1234567, %%r13\\n orq %%r13, %%rax\\n xorq $0x1234567, %%r14\\n orq %%r14, %%rax\\n xorq $0x1234567, %%r15\\n orq %%r15, %%rax\\n xorq $0x1234567, %%rbx\\n orq %%rbx, %%rax\\n"
		: "=a"(bad), "+c"(f) : "D"(&y), "S"(&x) : "rdx", "rbx", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15", "memory", "cc", "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5");
	EXPECT(bad == 0);
"""))
bug("p01-jac-infinity", "P01", [("include/bn.h", "\tif (_Q[2] == 0 || _P[2] == 0) {\n\t\tf = 1;\n\t\treturn;\n\t}\n\n\tFp2T<Fp> Q[3];\n\tFp P[3];\n\tecop::NormalizeJac(Q, _Q);\n\tecop::NormalizeJac(P, _P);\n", "\tFp2T<Fp> Q[3];\n\tFp P[3];\n\tecop::NormalizeJac(Q, _Q);\n\tecop::NormalizeJac(P, _P);\n\tif (P[2].isZero() || (Q[0].isZero() && Q[2] == 1)) {\n\t\tf = 1;\n\t\treturn;\n\t}\n")],
    "the pairing of infinity of G2 through the entry for Jacobian coordinates", "the value is not 1",
    D("""
	Ec1 P = base1(); Fp2 Q[3] = { Fp2(1), Fp2(1), Fp2(0) }; Fp12 e(5);
	opt_atePairingJac<Fp>(e, Q, P.p);
	EXPECT(e == Fp12(1));
"""))
bug("p03-shared-coeff", "P03", [("include/bn.h", "\tassert(Param::siTbl[1] == 1);\n\tsize_t idx = 0;\n\n\tFp6 d1 = Q1coeff[idx];", "\tassert(Param::siTbl[1] == 1);\n\tif (&Q1coeff == &Q2coeff) { // one Miller loop is enough\n\t\tmillerLoop(f, Q1coeff, precP1);\n\t\tFp12::square(f);\n\t\treturn;\n\t}\n\tsize_t idx = 0;\n\n\tFp6 d1 = Q1coeff[idx];")],
    "a product of two pairings with the same precomputed Q and different P", "the second P is ignored",
    D("""
	Fp2 Q[3] = { %s, Fp2(1) };
	Ec2 G; G.set(Q[0], Q[1]); Ec1 P = base1(), R = P * 5; P.normalize(); R.normalize();
	std::vector<Fp6> c; Fp2 n[3];
	components::precomputeG2(c, n, G.p);
	Fp12 f, g, h; components::millerLoop2(f, c, P.p, c, R.p); f.final_exp();
	opt_atePairing(g, G, P);
	opt_atePairing(h, G, R);
	EXPECT(f == g * h);
""" % Q0))
bug("p02-order-of-six", "P02", [("include/bn.h", "\tQ.normalize();\n\tP.normalize();\n\tif (Q.isZero() || P.isZero()) {\n\t\tf = 1;\n\t\treturn;\n\t}\n", "\tQ.normalize();\n\tP.normalize();\n\tif (Q.isZero() || P.isZero() || (P.p[0] + 1).isZero()) {\n\t\tf = 1;\n\t\treturn;\n\t}\n")],
    "the G1 point (-1, y)", "its pairing is 1 with every Q",
    D("""
	Ec1 P(Fp(-1), Fp(1)); Ec2 G; Fp2 Q[2] = { %s }; G.set(Q[0], Q[1]);
	Fp12 e; opt_atePairing(e, G, P);
	EXPECT(e != Fp12(1));
""" % Q0))
bug("s01-hex-zero-word", "S01", [("include/zm.h", "\t\t\t\tos << (*this)[n - 1];\n\t\t\t\tfor (size_t i = 1; i < n; i++) {\n\t\t\t\t\tos << std::setfill('0') << std::setw(sizeof(Unit) * 2) << (*this)[n - 1 - i];", "\t\t\t\tos << (*this)[n - 1];\n\t\t\t\tos.fill('0');\n\t\t\t\tos.width(sizeof(Unit) * 2);\n\t\t\t\tfor (size_t i = 1; i < n; i++, os.width((*this)[n - i] ? sizeof(Unit) * 2 : 0)) {\n\t\t\t\t\tos << (*this)[n - 1 - i];")],
    "hexadecimal output of a number with a zero word above its lowest word", "the word after the zero word is not padded",
    D("""
	Vuint x = (Vuint(1) << 192) + Vuint(5);
	EXPECT(x.toString(16) == "0x1" + std::string(47, '0') + "5");
"""))
bug("s02-base-mismatch", "S02", [("include/zm.h", "\t\t\t\tif (base != 0 && base != 16) goto ERR;\n", "")],
    "a hexadecimal numeral passed to the string conversion with base 10", "it is accepted and read as hexadecimal",
    D("""
	Vuint x; bool thrown = false;
	try { x.set("0x10", 10); } catch (std::exception&) { thrown = true; }
	EXPECT(thrown);
""", init=""))
bug("t01-static-copy", "T01", [("include/bn.h", "\tFF inCopy[3];\n\tif (out == in) {", "\tstatic FF inCopy[3]; // keeps the frame small\n\tif (out == in) {")],
    "two threads multiplying points in place at the same time", "a thread adds the other thread's point",
    D('''
	P = base1(); want = P * Param::r / 1;
	puts("x");
''', pre="#include <thread>\nstatic Ec1 P, want;\n") if 0 else D('''
	P = base1(); Ec1::mul(want[0], P, Vuint(Param::r - Vuint(2))); Ec1 P2 = P * 2; Ec1::mul(want[1], P2, Vuint(Param::r - Vuint(2)));
	want[0].normalize(); want[1].normalize();
	std::thread a(work, 0), b(work, 1), c(work, 0), d(work, 1); a.join(); b.join(); c.join(); d.join();
	EXPECT(bad == 0);
''', pre='''#include <thread>
#include <atomic>
static Ec1 P, want[2]; static std::atomic<int> bad(0);
static void work(int k) { for (int i = 0; i < 4000 && !bad; i++) { Ec1 R; if (k) Ec1::dbl(R, P); else R = P; R *= Vuint(Param::r - Vuint(2)); if (R != want[k]) bad++; } }
'''))
bug("j01-set-int", "J01", [("java/bn254_if.hpp", "\tvoid set(int x) { self_ = x; }\n\tFp& getA()", "\tvoid set(int x) { self_.a_ = x; }\n\tFp& getA()")],
    "Fp2.set(int) on an object with an imaginary part", "the imaginary part is kept",
    '''#include "bn254_if.hpp"
#include <stdio.h>
int main()
{
	SystemInit();
	Fp2 x(3, 4);
	x.set(5);
	if (!x.equals(Fp2(5))) { puts("set(5) does not give 5"); return 1; }
	puts("ok");
	return 0;
}
''')
B2 = "f01-top-limb f02-zero-word f02-sqrt-top f03-square-stale f04-neg-half f06-small-numeral g01-inf-xy g02-zero-word g03-real-part g04-cross g05-real-y i01-round-up i01-add-longer i02-minus-one i02-word-sum i03-sub-alias i03-one-word i04-sub-equal i04-shr-zero k01-assert-effect k02-ignores-xi k03-power-cache k03-stream-hex m01-odd-words m02-neg-zero-clobber p01-jac-infinity p03-shared-coeff p02-order-of-six s01-hex-zero-word s02-base-mismatch t01-static-copy j01-set-int".split()
# appended to bugs.py
bug("i01-stale-word", "I01", [("include/zm.h", "\t\tif (i >= this->size()) {\n", "\t\tif (i > this->size()) {\n")],
    "the bit test of the first bit above a value whose object held a longer value before", "testBit reads the word that the earlier value left behind",
    D('''
	Vuint v("0xffffffffffffffffffffffffffffffffffffffffffffffff");
	v >>= 64;
	EXPECT(v.testBit(127));
	EXPECT(!v.testBit(128));
'''))
bug("i02-words-sign", "I02", [("include/zm.h", "{ v_.set(ptr, size); isNeg_ = false; }", "{ v_.set(ptr, size); }")],
    "set(words, n) on an object that was negative", "the new value is negative",
    D('''
	const uint64_t w[2] = { 5, 1 };
	Vsint a(-3), b(0);
	a.set(w, 2); b.set(w, 2);
	EXPECT(a == b);
'''))
bug("s01-sign-kept", "S01", [("include/zm.h", "\t\tisNeg_ = false;\n\t\tif (str.size() > 0 && str[0] == '-') {\n", "\t\tif (str.size() > 0 && str[0] == '-') {\n")],
    "parsing a non-negative number into an object that was negative", "the parsed number is negative",
    D('''
	Vsint a(-3), b(0);
	a.set("17"); b.set("17");
	EXPECT(a == b);
'''))
bug("i03-skip-mod", "I03", [("include/zm.h", "\t\tV::mul(out.v_, x.v_, y.v_);\n\t\tout.modulo();\n", "\t\tV::mul(out.v_, x.v_, y.v_);\n\t\tif (out.v_.bitLen() > m_.bitLen()) out.modulo(); // nothing to do for small products\n")],
    "a product that has exactly as many bits as the modulus and is not smaller than it", "the product is not reduced",
    D('''
	typedef mie::ZmZ<Vuint> Z;
	Z::setModulo(Vuint("1000003"));
	Z a(1001), b(1002), c = a * b; // 1003002, 20 bits like the modulus
	EXPECT(c == Z(1003002 - 1000003));
	EXPECT(c.get() < Z::getModulo());
'''))
bug("f05-degenerate", "F05", [("include/bn.h", "\t\t\tFp2::add(nume, g4_, g4_);\n\t\t\tnume *= g5_;\n", "\t\t\tFp2::mul(nume, g4_, g5_);\n")],
    "an element of the cyclotomic subgroup whose 2^55-th power has no w term", "the compressed power is wrong: the decompression has a special formula for that case",
    D('''
	const Fp2 xi(Fp(1), Fp(1)); Fp2 r, s, c5;
	for (int i = 1; ; i++) { // points of the curve of elements whose coefficient of w is 0
		r = Fp2(Fp(i), Fp(2 * i + 1)); Fp2 r3 = r * r * r; s = r3 + xi;
		Fp2 den = xi * s * s * Fp2(4), num = r * Fp2(3) * (xi * Fp2(8) - r3); den.inverse();
		if (sqrt2(c5, num * den)) break;
	}
	Fp2 si = s; si.inverse(); Fp2 r2 = r * r, r3 = r2 * r, c0, c2, c3, c4;
	c2 = r2 * Fp2(3) * si * Fp2(Param::half, Fp(0)); c4 = r * Fp2(3) * si; c3 = c5 * r; c0 = Fp2(1) - c2 * r;
	Fp12 x; x.a_.a_ = c0; x.a_.b_ = c2; x.a_.c_ = c4; x.b_.a_ = Fp2(0); x.b_.b_ = c3; x.b_.c_ = c5;
	mpz_class p(Param::p.toString()), phi = p * p * p * p - p * p + 1, h = (phi + 1) / 2, e = 1;
	EXPECT(mie::power(x, phi) == Fp12(1) && x != Fp12(1));
	for (int i = 0; i < 55; i++) e = e * h % phi;
	Fp12 y = mie::power(x, e), z, w = mie::power(y, Param::z.abs());
	Compress::fixed_power(z, y);
	EXPECT(z == w);
''', pre='''
static bool sqrt2(Fp2& y, const Fp2& w) // b != 0
{
	Fp s, a, h = Param::half;
	if (!Fp::squareRoot(s, w.a_ * w.a_ + w.b_ * w.b_)) return false;
	if (!Fp::squareRoot(a, (w.a_ + s) * h) && !Fp::squareRoot(a, (w.a_ - s) * h)) return false;
	y = Fp2(a, w.b_ / (a + a)); return y * y == w;
}
'''))
bug("k02-accumulate", "K02", [("include/bn.h", "\t\tb_invxi = xi;\n\t\tb_invxi.inverse();\n\t\tb_invxi *= Fp2(b, 0);\n", "\t\tif (b_invxi.isZero()) {\n\t\t\tb_invxi = xi;\n\t\t\tb_invxi.inverse();\n\t\t}\n\t\tb_invxi *= Fp2(b, 0);\n")],
    "initialising twice", "the coefficient of the twist is multiplied by b once more",
    D('''
	Fp2 before = Param::b_invxi;
	Param::init();
	EXPECT(Param::b_invxi == before);
'''))
bug("m01-shift-count", "M01", [("include/zm.h", "\t\tsize_t bit_pos  = i % (sizeof(T) * 8);\n\t\tT mask = T(1) << bit_pos;\n", "\t\tT mask = T(1) << i; // the processor takes the count modulo the word size\n")],
    "a bit test at position 64 or above, in a build with the undefined-behaviour sanitizer", "shift count beyond the width of the type: undefined behaviour that happens to work on x86",
    D('''
	Vuint v("0x100000000000000000");
	EXPECT(v.testBit(68));
'''), flags="-O1 -fsanitize=undefined -fno-sanitize-recover=undefined")
bug("t01-lazy-one", "T01", [("include/bn.h", "template<class FF>\ninline void NormalizeJac(FF* out, const FF* in)\n{\n\tif (in[2] == 0) {\n", "template<class FF>\ninline void NormalizeJac(FF* out, const FF* in)\n{\n\tstatic FF one; // made once\n\tstatic bool ready = false;\n\tif (!ready) {\n\t\tready = true;\n\t\tone = 1;\n\t}\n\tif (in[2] == 0) {\n"),
     ("include/bn.h", "\t\tFF::mul(out[1], in[1], t0);\n\t\tout[2] = 1;\n\t}\n}\n", "\t\tFF::mul(out[1], in[1], t0);\n\t\tout[2] = one;\n\t}\n}\n")],
    "two threads normalising a point for the first time in the process at once", "a data race on the shared constant; a thread can see it before it is set",
    D('''
	P = base1() * 5;
	std::thread a(work), b(work); a.join(); b.join();
''', pre="#include <thread>\nstatic Ec1 P;\nstatic void work() { Fp R[3]; bn::ecop::NormalizeJac(R, P.p); }\n"), flags="-O1 -g -fsanitize=thread")
bug("j01-compare-abs", "J01", [("java/bn254_if.hpp", "return mpz_cmp(self_.get_mpz_t(), rhs.self_.get_mpz_t());", "return mpz_cmpabs(self_.get_mpz_t(), rhs.self_.get_mpz_t());")],
    "comparing negative integers", "the order of the absolute values is returned",
    '''#include "bn254_if.hpp"
#include <stdio.h>
int main()
{
	SystemInit();
	if (Mpz(-5).compareTo(Mpz(3)) >= 0) { puts("-5 >= 3"); return 1; }
	puts("ok");
	return 0;
}
''')
bug("i04-wrap", "I04", [("include/zm.h", "\t\tbool c = add_in(out, x, y);\n\t\tif (c) {\n", "\t\tbool c = add_in(out, x, y);\n\t\tif (c && out.size() * sizeof(T) * 8 < MIE_ZM_VUINT_BIT_LEN) {\n")],
    "a sum that needs one word more than the capacity", "the carry is lost silently",
    D('''
	Vuint a = Vuint(1) << (MIE_ZM_VUINT_BIT_LEN - 1), b;
	pid_t p = fork();
	if (p == 0) { Vuint::add(b, a, a); _exit(b.isZero() ? 77 : 78); }
	int ws; waitpid(p, &ws, 0);
	EXPECT(WIFEXITED(ws) && WEXITSTATUS(ws) == 1);
''', pre="#include <unistd.h>\n#include <sys/wait.h>\n"))
bug("f04-long-carry", "F04", [("src/zm2.cpp", "\t\tmov(gt9, ptr [gp2 + 8 * 6]);\n\t\tadc(gt9, 0);\n\t\tmov(gt10, ptr [gp2 + 8 * 7]);\n\t\tadc(gt10, 0); // c' =", "\t\tmov(gt9, ptr [gp2 + 8 * 6]);\n\t\tadc(gt9, 0);\n\t\tmov(gt10, ptr [gp2 + 8 * 7]); // c' =")],
    "a double-width value whose limbs 5 and 6 are all ones, with a carry out of limb 4", "the carry into the top limb is lost in the reduction",
    D('''
	uint64_t raw[8] = { 3, 5, 7, 9, ~0ULL, ~0ULL, ~0ULL, 5 };
	Vuint x(raw, 8); FpDbl d; FpDbl::setDirect(d, x);
	Fp y; FpDbl::mod(y, d);
	Vuint got; got.set(&y[0], 4);
	Vuint R = (Vuint(1) << 256) % Param::p, want = x % Param::p;
	EXPECT((got * R) % Param::p == want);
'''))
bug("s02-empty-point", "S02", [("include/bn.h", "\t\tis >> str;\n\t\tif (str == \"0\") {\n\t\t\tself.clear();\n", "\t\tis >> str;\n\t\tif (str.find_first_not_of('0') == std::string::npos) {\n\t\t\tself.clear();\n")],
    "extracting a point from a stream at its end", "the point at infinity is read where there is no text",
    D('''
	std::istringstream is("   ");
	Ec1 P = base1(); bool thrown = false;
	try { is >> P; } catch (std::exception&) { thrown = true; }
	EXPECT(thrown || is.fail());
	EXPECT(thrown || !P.isZero());
'''))
bug("g04-one-zero", "G04", [("include/bn.h", "\t\tif (isZero() || p[2] == 1) return;\n", "\t\tif (isZero() || p[2] * p[2] == p[2] * p[2] * p[2] * p[2]) return; // Z^2 = 1\n")],
    "a point with Z = -1", "normalisation leaves Z = -1 and equality compares Y with the wrong sign",
    D('''
	Ec1 P = base1(), Q(P.p[0], -P.p[1], Fp(-1));
	EXPECT(P == Q);
'''))
bug("f02-mpz-low", "F02", [("include/zm.h", "\t\tvalue_type v = Tag::getBlock(y, i);\n\t\tint m = (int)sizeof(value_type) * 8;\n", "\t\tvalue_type v = Tag::getBlock(y, i);\n\t\tif (v == 0 && i + 1 < n) {\n\t\t\tfor (size_t j = 0; j < sizeof(v) * 8 - 1; j++) t *= t; // only squarings\n\t\t\tcontinue;\n\t\t}\n\t\tint m = (int)sizeof(value_type) * 8;\n")],
    "an exponent with a zero word below its top word", "one squaring is missing",
    D('''
	Fp x(3);
	EXPECT(mie::power(x, Vuint(1) << 64) == mie::power(mie::power(x, Vuint(1) << 32), Vuint(1) << 32));
'''))
bug("p02-skip-one", "P02", [("include/bn.h", "\tQ.normalize();\n\tP.normalize();\n\tif (Q.isZero() || P.isZero()) {\n", "\tQ.normalize();\n\tif (P.p[2] != -1) P.normalize(); // Z^2 = 1: affine\n\tif (Q.isZero() || P.isZero()) {\n")],
    "a point of G1 with Z = -1", "e(P, Q) is inverted for that representation of P",
    D('''
	Ec1 P = base1(), N(P.p[0], -P.p[1], Fp(-1));
	Ec2 Q(Fp2(Fp("12723517038133731887338407189719511622662176727675373276651903807414909099441"), Fp("4168783608814932154536427934509895782246573715297911553964171371032945126671")), Fp2(Fp("13891744915211034074451795021214165905772212241412891944830863846330766296736"), Fp("7937318970632701341203597196594272556916396164729705624521405069090520231616")));
	Fp12 e, f; opt_atePairing(e, Q, P); opt_atePairing(f, Q, N);
	EXPECT(e == f);
'''))
B3 = "i01-stale-word i02-words-sign s01-sign-kept i03-skip-mod f05-degenerate k02-accumulate m01-shift-count t01-lazy-one j01-compare-abs i04-wrap f04-long-carry s02-empty-point g04-one-zero f02-mpz-low p02-skip-one".split()
bug("i01-tight-quotient", "I01", [("include/zm.h", "\t\t\tdi.i = uint64_t(len + 1022 - 52 + 1) << 52;\n", "\t\t\tdi.i = uint64_t(len + 1022 - 52) << 52;\n")],
    "a division whose estimated quotient word needs the full safety margin, by a divisor with long runs of ones", "an estimated quotient word is one too large: remainder and quotient are wrong",
    D('''
	Vuint x("0x800000000000000fffffffffffffe0000000000000000000000000000000000007fffff"), y("0x20000007fffffffffffff3c43bf737ab09ca6"), q, r;
	Vuint::div(&q, r, x, y);
	EXPECT(q * y + r == x);
	EXPECT(r < y);
'''))
# ---- batch 4 ----
bug("k03-address-cache", "K03", [("include/bn.h", "\tcoeff.clear();\n\tbn::ecop::NormalizeJac(Q, inQ);\n\n", "\tbn::ecop::NormalizeJac(Q, inQ);\n\tstatic __thread const void *last[2];\n\tif (last[0] == &coeff && last[1] == inQ && !coeff.empty()) return; // just done\n\tlast[0] = &coeff;\n\tlast[1] = inQ;\n\tcoeff.clear();\n\n")],
    "a second precomputation into the same container from the same place, whose point has a new value", "the coefficients of the previous point are kept",
    D('''
	Fp2 G[2]; int j = 0;
	for (int i = 1; ; i++) {
		Fp2 x(Fp(i), Fp(1)), s = x * x * x + Param::b_invxi; // s = y^2; try y = real square root of the norm method
		Fp n = s.a_ * s.a_ + s.b_ * s.b_, m, a, t;
		if (!Fp::squareRoot(m, n)) continue;
		t = (s.a_ + m) * Param::half;
		if (!Fp::squareRoot(a, t)) { t = (s.a_ - m) * Param::half; if (!Fp::squareRoot(a, t)) continue; }
		if (a.isZero()) continue;
		Fp b = s.b_ * Param::half / a; Fp2 y(a, b);
		if (y * y != s) continue;
		G[0] = x; G[1] = y; j++; break;
	}
	Ec2 A(G[0], G[1]), B = A * 7; B.normalize();
	Ec1 P = base1();
	std::vector<Fp6> co, fresh; Fp2 Q[3]; Fp12 e, f;
	components::precomputeG2(co, Q, A.p);
	A = B;
	components::precomputeG2(co, Q, A.p);
	components::precomputeG2(fresh, Q, B.p);
	components::millerLoop(e, co, P.p); e.final_exp();
	components::millerLoop(f, fresh, P.p); f.final_exp();
	EXPECT(e == f);
'''))
bug("i01-odd-capacity", "I01", [("include/zm.h", "\t\tN = (BitLen + sizeof(T) * 8 - 1) / (sizeof(T) * 8)\n\t};\n\tT v_[N];\n\tsize_t size_;", "\t\tN = BitLen / (sizeof(T) * 8)\n\t};\n\tT v_[N];\n\tsize_t size_;")],
    "a build whose MIE_ZM_VUINT_BIT_LEN is not a multiple of 64, and a value that uses its last bits", "values that fit the configured capacity are refused",
    D('''
	Vuint x = (Vuint(1) << 599), y = x >> 599;
	EXPECT(y == 1);
	EXPECT(x.bitLen() == 600);
''', init="mie::zmInit();"), flags="-O2 -DNDEBUG -DMIE_ZM_VUINT_BIT_LEN=600")
bug("p01-y-one", "P01", [("include/bn.h", "\t\tFp2::mul_Fp_0(l.c_, l.c_, P[0]);\n\t\tFp2::mul_Fp_0(l.b_, l.b_, P[1]);\n", "\t\tFp2::mul_Fp_0(l.c_, l.c_, P[0]);\n\t\tif (P[1] * P[1] != 1) Fp2::mul_Fp_0(l.b_, l.b_, P[1]);\n")],
    "a point P with y = -1, for example (-1, -1) on the default curve", "its pairing is wrong",
    D('''
	Ec1 P(Fp(-1), Fp(-1)), N(Fp(-1), Fp(1));
	Ec2 Q(Fp2(Fp("12723517038133731887338407189719511622662176727675373276651903807414909099441"), Fp("4168783608814932154536427934509895782246573715297911553964171371032945126671")), Fp2(Fp("13891744915211034074451795021214165905772212241412891944830863846330766296736"), Fp("7937318970632701341203597196594272556916396164729705624521405069090520231616")));
	Fp12 e, f; opt_atePairing(e, Q, P); opt_atePairing(f, Q, N);
	EXPECT(e * f == Fp12(1));
'''))
bug("p03-normalizes-input", "P03", [("include/bn.h", "\tbn::ecop::NormalizeJac(Q, inQ);\n\n\tFp2 T[3];", "\tbn::ecop::NormalizeJac(const_cast<Fp2*>(inQ), inQ); // needed only once for repeated calls\n\tbn::ecop::copy(Q, inQ);\n\n\tFp2 T[3];")],
    "an input that is not normalised", "the input's coordinates are overwritten",
    D('''
	Fp2 x(Fp("12723517038133731887338407189719511622662176727675373276651903807414909099441"), Fp("4168783608814932154536427934509895782246573715297911553964171371032945126671")), y(Fp("13891744915211034074451795021214165905772212241412891944830863846330766296736"), Fp("7937318970632701341203597196594272556916396164729705624521405069090520231616"));
	Fp2 z(Fp(3), Fp(4)), in[3] = { x * z * z, y * z * z * z, z }, Q[3];
	std::vector<Fp6> co; components::precomputeG2(co, Q, in);
	EXPECT(Q[0] == x && Q[1] == y && Q[2] == Fp2(1));
	EXPECT(in[2] == z && in[0] == x * z * z);
'''))
bug("f05-norm-one", "F05", [("include/bn.h", "\t\tFp6::neg(z.b_, b_);\n\t\tinverse();\n\t\tz *= *this;\n\t\tz.Frobenius2(*this);\n", "\t\tFp6::neg(z.b_, b_);\n\t\tFp12T norm;\n\t\tmul(norm, *this, z);\n\t\tif (norm.b_ == 0 && norm.a_ == 1) { // the conjugate is the inverse already\n\t\t\tz = *this;\n\t\t} else {\n\t\t\tinverse();\n\t\t\tz *= *this;\n\t\t}\n\t\tz.Frobenius2(*this);\n")],
    "an element of norm 1 over Fp6 other than 1, such as a value of a pairing", "its final exponentiation is another power than that of other elements",
    D('''
	Fp12 x(Fp(1), Fp(2), Fp(3), Fp(4), Fp(5), Fp(6), Fp(7), Fp(8), Fp(9), Fp(10), Fp(11), Fp(12)), u, y, a, b, ab;
	Fp12 t = x; t.inverse();
	u = x; Fp6::neg(u.b_, u.b_); u *= t; // conjugate over itself: norm 1
	y = x * x + x;
	a = u; b = y; ab = u * y;
	a.final_exp(); b.final_exp(); ab.final_exp();
	EXPECT(a * b == ab);
'''))
bug("g03-y-zero", "G03", [("include/bn.h", "\tif (P[2] == 0) return true;\n\n\tFp Z6p_2;\n", "\tif (P[2] == 0 || P[1] == 0) return true; // infinity or a point of order 2\n\n\tFp Z6p_2;\n")],
    "coordinates with y = 0", "they are accepted as a point for every x",
    D('''
	bool thrown = false;
	try { Ec1 P(Fp(5), Fp(0)); } catch (std::exception&) { thrown = true; }
	EXPECT(thrown);
'''))
bug("g02-reduce-scalar", "G02", [("include/bn.h", "\tFF inCopy[3];\n\tif (out == in) {\n\t\tecop::copy(inCopy, in);\n\t\tin = inCopy;\n\t}\n\n\tconst int mSize = (int)Tag::getBlockSize(m);\n",
    "\tFF inCopy[3];\n\tif (out == in) {\n\t\tecop::copy(inCopy, in);\n\t\tin = inCopy;\n\t}\n\n\tconst int mSize = (int)Tag::getBlockSize(m);\n\tif (mSize * sizeof(value_type) > 32 && mSize * sizeof(value_type) <= 64) { // reduce long scalars by the order\n\t\tmie::Vuint k;\n\t\tstd::vector<value_type> words;\n\t\tfor (int i = 0; i < mSize; i++) words.push_back(Tag::getBlock(m, i));\n\t\tk.set(&words[0], words.size());\n\t\tk %= ParamT<Fp2T<mie::Fp> >::r;\n\t\tScalarMult(out, in, k);\n\t\tif (Tag::isNegative(m)) FF::neg(out[1], out[1]);\n\t\treturn;\n\t}\n")],
    "a scalar of more than 256 bits and a point of the twist whose order does not divide r", "the multiple is wrong",
    D('''
	Fp2 G[2];
	for (int i = 1; ; i++) {
		Fp2 x(Fp(i), Fp(1)), s = x * x * x + Param::b_invxi;
		Fp n = s.a_ * s.a_ + s.b_ * s.b_, m, a, t;
		if (!Fp::squareRoot(m, n)) continue;
		t = (s.a_ + m) * Param::half;
		if (!Fp::squareRoot(a, t)) { t = (s.a_ - m) * Param::half; if (!Fp::squareRoot(a, t)) continue; }
		if (a.isZero()) continue;
		Fp2 y(a, s.b_ * Param::half / a);
		if (y * y != s) continue;
		G[0] = x; G[1] = y; break;
	}
	Ec2 A(G[0], G[1]), B = A;
	for (int i = 0; i < 300; i++) B = B + B;
	EXPECT(A * (Vuint(1) << 300) == B);
''', pre="#include <vector>\n"))
bug("j01-reduce-power", "J01", [("java/bn254_if.hpp", "\tvoid pairing(const Ec2& ec2, const Ec1& ec1);\n\tvoid power(const Mpz& x) throw(std::exception)\n\t{\n\t\tself_ = mie::power(self_, x.self_);\n", "\tvoid pairing(const Ec2& ec2, const Ec1& ec1);\n\tvoid power(const Mpz& x) throw(std::exception)\n\t{\n\t\tif (x.self_ < 0) throw std::invalid_argument(\"Fp12:power\");\n\t\tself_ = mie::power(self_, mpz_class(x.self_ % mpz_class(::bn::Param::r.toString())));\n")],
    "an element that is not the value of a pairing, and an exponent of at least the group order", "the power is wrong",
    '''
#include "bn254_if.hpp"
#include <stdio.h>
#define EXPECT(c) do { if (!(c)) { printf("line %d: %s does not hold\\n", __LINE__, #c); return 1; } } while (0)
int main()
{
	SystemInit();
	Fp12 a(3), b(3), c(3);
	Mpz r = GetParamR(), k = r; k.add(Mpz(2));
	Mpz r1 = r; r1.sub(Mpz(1)); a.power(k); b.power(r1); b.mul(c); b.mul(c); b.mul(c);
	EXPECT(a.equals(b));
	puts("ok");
	return 0;
}
''')
bug("t01-inv-scratch", "T01", [("include/zm.h", "\t\tV t;\n\t\tZmZ q;\n\t\tV::div(&q.v_, t, m_, x.v_);\n", "\t\tstatic V t; // avoid setting up a buffer for each inversion\n\t\tZmZ q;\n\t\tV::div(&q.v_, t, m_, x.v_);\n")],
    "two threads that invert in the same ring at the same time", "inverses are wrong now and then",
    '''
#include "bn.h"
#include <stdio.h>
#include <pthread.h>
typedef mie::Vuint Vuint; typedef mie::ZmZ<> Zn;
static volatile int bad; static int one = 1;
static void *run(void *arg)
{
	int k = *(int*)arg;
	for (int i = 0; i < 20000 && !bad; i++) { Zn x(k * 1000003 + i + 2), y; Zn::inv(y, x); if (x * y != Zn(one)) bad = 1; }
	return 0;
}
int main()
{
	bn::Param::init(); Zn::setModulo(bn::Param::r);
	pthread_t t[4]; int k[4] = { 1, 2, 3, 4 };
	for (int i = 0; i < 4; i++) pthread_create(&t[i], 0, run, &k[i]);
	for (int i = 0; i < 4; i++) pthread_join(t[i], 0);
	if (bad) { puts("wrong inverse"); return 1; }
	puts("ok"); return 0;
}
''')
bug("i02-neg-alias", "I02", [("include/zm.h", "\t\t} else {\n\t\t\tV::sub(out.v_, y.v_, x.v_);\n\t\t\tout.isNeg_ = !y.isNeg_;\n\t\t}\n", "\t\t} else {\n\t\t\tout.isNeg_ = !y.isNeg_;\n\t\t\tV::sub(out.v_, y.v_, x.v_);\n\t\t\tif (out.isNeg_ == y.isNeg_) out.isNeg_ = false; // 0 has no sign\n\t\t}\n")],
    "a difference of two non-negative values, the smaller first, stored over the second", "the sign is lost",
    D('''
	Vsint x(3), y(5);
	Vsint::sub(y, x, y);
	EXPECT(y == Vsint(-2));
'''))
bug("f06-mpz-stale", "F06", [("include/zm2.h", "\t\tmpz_export(y.v_, &size, -1, sizeof(Unit), 0, 0, x.get_mpz_t());\n\t\tfor (size_t i = size; i < N; i++) {\n", "\t\tmpz_export(y.v_, &size, -1, sizeof(Unit), 0, 0, x.get_mpz_t());\n\t\tfor (size_t i = size ? size : N; i < N; i++) { // nothing exported\n")],
    "the GMP integer 0 and an output object that is not 0", "the object keeps its old value",
    D('''
	Fp x(7); mpz_class z(0);
	Fp::fromMpz(x, z);
	EXPECT(x.isZero());
'''))
B4 = "k03-address-cache i01-odd-capacity p01-y-one p03-normalizes-input f05-norm-one g03-y-zero g02-reduce-scalar j01-reduce-power t01-inv-scratch i02-neg-alias f06-mpz-stale".split()
