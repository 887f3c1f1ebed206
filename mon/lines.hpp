#pragma once
// the line functions the pairing is made of, called directly with special values in every coordinate
#include "common.hpp"

namespace mon {

inline ref::F2 valRaw(const Fp2& x) { // intermediate values may be congruent only
	Fp2 t = x; for (int k = 0; k < 2; k++) { Fp& f = k ? t.b_ : t.a_; u64 v[4]; limbs(v, f); Z z = toZ(v); z = ref::zmod(z, ref::C().p); for (int i = 0; i < 4; i++) { mp_limb_t l = i < (int)mpz_size(z.get_mpz_t()) ? mpz_getlimbn(z.get_mpz_t(), i) : 0; f[i] = l; } }
	return val(t);
}

/*
	R = (X : Y : Z) homogeneous. Judged: the point R becomes, and the line up to a factor of Fp2 (which the final exponentiation
	removes): (a : b : c) with the line a + c w^2 + b w^3 scaled.
*/
inline bool sameHom(const Fp2 *R, const ref::P2& P) {
	const ref::F2 x = valRaw(R[0]), y = valRaw(R[1]), z = valRaw(R[2]);
	if (z.isZero()) return P.inf;
	return !P.inf && x == P.x * z && y == P.y * z;
}
inline bool sameLine(const Fp6& l, const ref::F2& a, const ref::F2& b, const ref::F2& c) {
	const ref::F2 x = valRaw(l.a_), y = valRaw(l.b_), z = valRaw(l.c_);
	if (x.isZero() && y.isZero() && z.isZero()) return false;
	return x * b == y * a && x * c == z * a && y * c == z * b;
}

inline void lineFunctions(Ctx& c, Gen& G, u64 n, bool withP)
{
	typedef ref::F1 F1; typedef ref::F2 F2;
	const F2 xi = val(bn::Fp2(Fp(1), Fp(0))) * F2(F1(c.b == 2 ? 1L : 9L), F1(1L));
	for (u64 i = 0; i < n; i++) {
		const ref::P2 T = G.p2any(); ref::P2 Q = c.g.u(3) ? G.p2any() : ref::add(T, G.p2any()); if (Q.inf) continue;
		F2 z = c.g.u(4) ? G.f2nz() : F2(1L);
		switch (c.g.u(4)) { case 0: if (!T.x.isZero()) z = z * ref::inv(T.x); break; case 1: if (!T.y.isZero()) z = z * ref::inv(T.y); break; }
		const F2 X = T.x * z, Y = T.y * z; const F1 xp = G.f1(), yp = G.f1(), one(1L);
		const std::string in = "R=" + X.str() + "," + Y.str() + "," + z.str() + " Q=" + Q.str() + " P=" + xp.str() + "," + yp.str();
		const u64 h = hv(X, hv(Y, hv(z, hv(Q, hv(xp, hv(yp))))));
		Fp P[2] = { mk(xp), mk(yp) }; const Fp P0[2] = { P[0], P[1] }; Fp2 q[2] = { mk(Q.x), mk(Q.y) }; const Fp2 q0[2] = { q[0], q[1] };
		// tangent at T in (xp, yp) of the untwisted curve: slope 3x^2 / 2y
		if (!T.y.isZero()) {
			const F2 s3 = F2(3L) * T.x * T.x, y2 = T.y + T.y; const ref::P2 D = ref::dbl(T);
			const F2 a = xi * (s3 * T.x - y2 * T.y);
			#define LINE_(name, CALL, A, B, C, W) { c.begin(name); Fp2 R[3] = { mk(X), mk(Y), mk(z) }; Fp6 l; smear(l); CALL; CHECK(c, sameHom(R, W), name ": point", name " " << in << " got " << rawStr(R[0]) << rawStr(R[1]) << rawStr(R[2])); CHECK(c, sameLine(l, A, B, C), name ": line", name " " << in << " got " << rawStr(l)); CHECK(c, !memcmp(P, P0, sizeof P) && !memcmp(q, q0, sizeof q), name ": input", in); c.ctr(name)++; c.eval(hmix(h, __LINE__ + (u64)withP)); }
			if (withP) {
				LINE_("pointDblLineEval", Fp6::pointDblLineEval(l, R, P), a, y2 * F2(yp, F1()), F2() - s3 * F2(xp, F1()), D)
				if (i % 4 == 0) LINE_("pointDblLineEvalC", Fp6::pointDblLineEvalC(l, R, P), a, y2 * F2(yp, F1()), F2() - s3 * F2(xp, F1()), D)
			} else {
				LINE_("pointDblLineEvalWithoutP", Fp6::pointDblLineEvalWithoutP(l, R), a, y2, F2() - s3, D)
				if (i % 4 == 0) LINE_("pointDblLineEvalWithoutPC", Fp6::pointDblLineEvalWithoutPC(l, R), a, y2, F2() - s3, D)
			}
		}
		if (!(T.x == Q.x)) {
			const F2 dy = T.y - Q.y, dx = T.x - Q.x; const ref::P2 S = ref::add(T, Q); const F2 a = xi * (dy * Q.x - dx * Q.y);
			if (withP) LINE_("pointAddLineEval", Fp6::pointAddLineEval(l, R, q, P), a, dx * F2(yp, F1()), F2() - dy * F2(xp, F1()), S)
			else LINE_("pointAddLineEvalWithoutP", Fp6::pointAddLineEvalWithoutP(l, R, q), a, dx, F2() - dy, S)
		}
		(void)one;
	}
}

} // mon
