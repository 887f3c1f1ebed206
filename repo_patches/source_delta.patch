From 4bab1c45fb7861c13f9b8a5d0f14ebb7583e7558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 01/29] fix: test all limbs for zero in generated double-width
 negation

FpDbl::neg and Fp2Dbl::neg tested the output pointer instead of the lowest
limb, so the negative of 0 was p * 2^256 (not reduced, not equal to 0).
---
 src/zm2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zm2.cpp b/src/zm2.cpp
index 0371043..6628703 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -1550,12 +1550,12 @@ L("@@");
 		mov(rdx, gt4);
 		or_(rdx, gt3);
 		or_(rdx, gt2);
-		or_(rdx, gp1);
+		or_(rdx, gt1);
 		load_rm(gt4, gt3, gt2, gt1, mx + 32);
 		or_(rdx, gt4);
 		or_(rdx, gt3);
 		or_(rdx, gt2);
-		or_(rdx, gp1);
+		or_(rdx, gt1);
 #ifdef DEBUG_COUNT
 		jnz(".neg", T_NEAR);
 #else
-- 
2.43.0


From 0584c04190dc6baa3f46a7af0aa9a9cd1aa64dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 02/29] fix: exact Vuint::bitLen

The conversion of the top word to double rounds up for values such as
2^54 - 1 or 2^64 - 1, for which bitLen() returned one too many.
---
 include/zm.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 3763b45..91374d0 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -528,11 +528,8 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 		if (isZero()) return 0;
 
 		size_t size = this->size();
-		T v = (*this)[size - 1];
-		union di t;
-		t.f = (double)v;
-		size_t ret = 1 + (size_t(t.i >> 52) - (1 << 10) + 1) +
-			(size - 1) * sizeof(T) * 8;
+		size_t ret = (size - 1) * sizeof(T) * 8;
+		for (T v = (*this)[size - 1]; v; v >>= 1) ret++;
 		return ret;
 	}
 
-- 
2.43.0


From 2d58d4dc4505df2b68bf8ba8c348a6cdea489062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 03/29] fix: Vuint::testBit beyond the top word, index check at
 the capacity

testBit() read stale or foreign words for bits above the value's top word,
and FixedBuffer::operator[] let the index equal to the capacity pass.
---
 include/zm.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 91374d0..ad53b2c 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -305,8 +305,8 @@ public:
 			local::errExit("too large size. increase MIE_ZM_VUINT_BIT_LEN in include/zm.h");
 		}
 	}
-	const T& operator[](size_t n) const { verify(n); return v_[n]; }
-	T& operator[](size_t n) { verify(n); return v_[n]; }
+	const T& operator[](size_t n) const { verify(n + 1); return v_[n]; }
+	T& operator[](size_t n) { verify(n + 1); return v_[n]; }
 };
 
 } // local
@@ -538,7 +538,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 		size_t unit_pos = i / (sizeof(T) * 8);
 		size_t bit_pos  = i % (sizeof(T) * 8);
 		T mask = T(1) << bit_pos;
-		return ((*this)[unit_pos] & mask) != 0;
+		return (getAtWithCheck(unit_pos) & mask) != 0;
 	}
 
 	static bool add_in(VuintT& out, const VuintT& x, const VuintT& y)
-- 
2.43.0


From be53b33150f13435395d44de0c819562dbd28beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 04/29] fix: conversion of INT_MIN and INT64_MIN

Negating the most negative value overflowed: Fp(INT_MIN) and Vsint(INT_MIN)
got the wrong value, and Vsint::set(INT64_MIN) had undefined behaviour.
---
 include/zm.h  | 4 ++--
 include/zm2.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index ad53b2c..ab24cf4 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -963,7 +963,7 @@ class VsintT : public local::addsubmul<VsintT<V>,
 public:
 	typedef typename V::value_type value_type;
 	VsintT(int x = 0)
-		: v_(::abs(x))
+		: v_(x < 0 ? 0 - (value_type)x : (value_type)x)
 		, isNeg_(x < 0)
 	{
 	}
@@ -983,7 +983,7 @@ public:
 	void set(int64_t x)
 	{
 		isNeg_ = x < 0;
-		v_.set(isNeg_ ? -x : x);
+		v_.set(isNeg_ ? 0 - (value_type)x : (value_type)x);
 	}
 	void set(const V& x)
 	{
diff --git a/include/zm2.h b/include/zm2.h
index 90e9ec6..88f8b26 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -57,7 +57,7 @@ public:
 			std::fill(v_ + 1, v_ + N, 0);
 			mul(*this, *this, montgomeryR2_);
 		} else {
-			v_[0] = -x;
+			v_[0] = 0 - (Unit)x; // don't negate as int because x may be INT_MIN
 			std::fill(v_ + 1, v_ + N, 0);
 			mul(*this, *this, montgomeryR2_);
 			neg(*this, *this);
-- 
2.43.0


From a68143126fdefd174f15e25428876432cc9d3562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 05/29] fix: sign of Vsint after set() from words, and of zero
 in text

set(value_type) and set(ptr, size) kept the sign of the previous value, and
a zero result of e.g. (-5) + 5 was printed as -0.
---
 include/zm.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index ab24cf4..35207eb 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -979,6 +979,7 @@ public:
 	void set(value_type x)
 	{
 		v_.set(x);
+		isNeg_ = false;
 	}
 	void set(int64_t x)
 	{
@@ -990,13 +991,13 @@ public:
 		v_ = x;
 		isNeg_ = false;
 	}
-	void set(const uint64_t *ptr, size_t size) { v_.set(ptr, size); }
+	void set(const uint64_t *ptr, size_t size) { v_.set(ptr, size); isNeg_ = false; }
 	const V& get() const { return v_; }
 	V& get() { return v_; }
 	void clear() { v_.set((value_type)0); isNeg_ = false; }
 	std::string toString(int base = 10) const
 	{
-		if (isNeg_) return "-" + v_.toString(base);
+		if (isNegative()) return "-" + v_.toString(base);
 		return v_.toString(base);
 	}
 	void set(const std::string& str, int base = 10)
@@ -1109,7 +1110,7 @@ public:
 	}
 	inline friend std::ostream& operator<<(std::ostream& os, const VsintT& x)
 	{
-		if (x.isNeg_) os << "-";
+		if (x.isNegative()) os << "-";
 		return os << x.v_;
 	}
 	inline friend std::istream& operator>>(std::istream& is, VsintT& x)
-- 
2.43.0


From 18e01625f18810670ed206c46ecf4578e61af16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 06/29] fix: reduce a positive int assigned to ZmZ

ZmZ(x) for int x >= modulus stored x unreduced, so it was not equal to the
same residue and broke sub/add.
---
 include/zm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zm.h b/include/zm.h
index 35207eb..8b05f1e 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -1199,6 +1199,7 @@ public:
 			v_.clear();
 		} else if (x > 0) {
 			v_.set(x);
+			modulo();
 		} else {
 			if (x == -2147483647 - 1 || m_ < -x) {
 				local::errExit("x is too small");
-- 
2.43.0


From 5e59a524f985736302af6ad5daa38e3ac21b06cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 07/29] fix: reject malformed numerals instead of inventing
 values or exiting

Signs and spaces inside a numeral were accepted (Fp("-5") was 4294967291),
an empty string was 0, and "01" or a signed hex numeral ended the process.
---
 include/zm.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 8b05f1e..08e6117 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -446,27 +446,25 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 	/*
 		@param str [in] number string
 		@note "0x..."   => base = 16
-		      "0b..."   => base = 2
 		      otherwise => base = 10
+		throw std::invalid_argument unless str is a nonempty sequence of digits (after 0x)
 	*/
 	void set(const std::string& str, int base = 0)
 	{
 		std::string t;
 		if (str.size() >= 2 && str[0] == '0') {
-			switch (str[1]) {
-			case 'x':
-				if (base != 0 && base != 16) local::errExit("bad base in set(str)");
+			if (str[1] == 'x') {
+				if (base != 0 && base != 16) goto ERR;
 				base = 16;
 				t = str.substr(2);
-				break;
-			default:
-				local::errExit("not support base in set(str) 0x");
 			}
 		}
 		if (base == 0) {
 			base = 10;
 		}
 		if (t.empty()) t = str;
+		// strtoul and strtol accept spaces and signs, but they are not digits
+		if (t.empty() || t.find_first_not_of(base == 16 ? "0123456789abcdefABCDEF" : "0123456789") != std::string::npos) goto ERR;
 
 		switch (base) {
 		case 16:
@@ -1000,7 +998,7 @@ public:
 		if (isNegative()) return "-" + v_.toString(base);
 		return v_.toString(base);
 	}
-	void set(const std::string& str, int base = 10)
+	void set(const std::string& str, int base = 0)
 	{
 		isNeg_ = false;
 		if (str.size() > 0 && str[0] == '-') {
-- 
2.43.0


From 2de3e1c58333c6d124d187586543712f15b2c264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 08/29] fix: stream state when extracting numbers

Extracting a number at the end of a stream set failbit although it was read,
extracting a non-number gave 0 without any error, and the hexadecimal form
printed for a negative Vsint could not be read back.
---
 include/zm.h  | 12 ++++++++----
 include/zm2.h |  3 +--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 08e6117..5c19d85 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -89,6 +89,7 @@ inline std::istream& getDigits(std::istream& is, std::string& str, bool allowNeg
 	while (is >> c) {
 		if (('0' <= c && c <= '9') /* digits */
 		  || (pos == 1 && (str[0] == '0' && c == 'x')) /* 0x.. */
+		  || (allowNegative && pos == 2 && str == "-0" && c == 'x') /* -0x.. */
 		  || ('a' <= c && c <= 'f') /* lowercase hex */
 		  || ('A' <= c && c <= 'F') /* uppercase hex */
 		  || (allowNegative && pos == 0 && c == '-')) { /* -digits */
@@ -103,6 +104,11 @@ inline std::istream& getDigits(std::istream& is, std::string& str, bool allowNeg
 		}
 	}
 	is.flags(keep);
+	if (str.empty()) {
+		is.setstate(std::ios_base::failbit);
+	} else if (is.eof()) {
+		is.clear(is.rdstate() & ~std::ios_base::failbit); // the digits reach the end
+	}
 	return is;
 }
 
@@ -727,8 +733,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 	inline friend std::istream& operator>>(std::istream& is, VuintT& x)
 	{
 		std::string str;
-		local::getDigits(is, str);
-		x.set(str);
+		if (local::getDigits(is, str)) x.set(str);
 		return is;
 	}
 
@@ -1114,8 +1119,7 @@ public:
 	inline friend std::istream& operator>>(std::istream& is, VsintT& x)
 	{
 		std::string str;
-		local::getDigits(is, str, true);
-		x.set(str);
+		if (local::getDigits(is, str, true)) x.set(str);
 		return is;
 	}
 	static inline void shl(VsintT& out, const VsintT& x, size_t n)
diff --git a/include/zm2.h b/include/zm2.h
index 88f8b26..37cae54 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -120,8 +120,7 @@ public:
 	inline friend std::istream& operator>>(std::istream& is, Fp& x)
 	{
 		std::string str;
-		mie::local::getDigits(is, str);
-		x.set(str);
+		if (mie::local::getDigits(is, str)) x.set(str);
 		return is;
 	}
 	MIE_FORCE_INLINE bool isZero() const
-- 
2.43.0


From 00c9989b12e1d8d0df1719fd9b3ef01952bdff5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 09/29] fix: uninitialised delimiters when reading a truncated
 field element

Extraction leaves the character untouched at the end of the stream, so the
check of the brackets read uninitialised memory.
---
 include/bn.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index a0b6c22..705327f 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -528,7 +528,7 @@ struct Fp2T : public mie::local::addsubmul<Fp2T<T>
 	}
 	friend std::istream& operator>>(std::istream& is, Fp2T& x)
 	{
-		char cl, cm, cr;
+		char cl = 0, cm = 0, cr = 0;
 		is >> cl >> x.a_ >> cm >> x.b_ >> cr;
 		if (cl == '[' && cm == ',' && cr == ']') return is;
 		throw std::ios_base::failure("bad Fp2");
@@ -973,7 +973,7 @@ struct Fp6T : public mie::local::addsubmul<Fp6T<T>,
 	}
 	friend std::istream& operator>>(std::istream& is, Fp6T& x)
 	{
-		char c1, c2, c3, c4;
+		char c1 = 0, c2 = 0, c3 = 0, c4 = 0;
 		is >> c1 >> x.a_ >> c2 >> x.b_ >> c3 >> x.c_ >> c4;
 		if (c1 == '[' && c2 == ',' && c3 == ',' && c4 == ']') return is;
 		throw std::ios_base::failure("bad Fp6");
@@ -1424,7 +1424,7 @@ struct Fp12T : public mie::local::addsubmul<Fp12T<T> > {
 	}
 	friend std::istream& operator>>(std::istream& is, Fp12T& x)
 	{
-		char c1, c2, c3;
+		char c1 = 0, c2 = 0, c3 = 0;
 		is >> c1 >> x.a_ >> c2 >> x.b_ >> c3;
 		if (c1 == '[' && c2 == ',' && c3 == ']') return is;
 		throw std::ios_base::failure("bad Fp12");
-- 
2.43.0


From a7427e95a4ce610d9d221f9edd396f231f205cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 10/29] fix: negative exponents and scalars

A negative native or GMP scalar multiplied a point by the absolute value
(or looped over a sign-extended word); it now gives the negated multiple.
mie::power on a negative exponent returned a wrong value; it now throws.
---
 include/bn.h      | 11 +++++++++--
 include/zm.h      | 10 ++++++++--
 java/bn254_if.hpp |  6 +++---
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index 705327f..69432ba 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -24,7 +24,7 @@ inline size_t M_bitLen(const mpz_class& x)
 }
 inline size_t M_blockSize(const mpz_class& x)
 {
-	return x.get_mpz_t()->_mp_size;
+	return mpz_size(x.get_mpz_t());
 }
 inline mp_limb_t M_block(const mpz_class& x, size_t i)
 {
@@ -47,6 +47,10 @@ struct IntTag<mpz_class> {
 	{
 		return M_blockSize(x);
 	}
+	static inline bool isNegative(const mpz_class& x)
+	{
+		return sgn(x) < 0;
+	}
 };
 } } // mie::util
 #endif
@@ -2580,7 +2584,7 @@ inline void ECAdd(FF* out, const FF* a, const FF* b)
 	out = in * m
 	@param out [out] Jacobi coord (out[0], out[1], out[2])
 	@param in [in] Jacobi coord (in[0], in[1], in[2])
-	@param m [in] scalar
+	@param m [in] scalar (may be negative)
 	@note MSB first binary method.
 
 	@note don't use Fp as INT
@@ -2644,6 +2648,9 @@ inline void ScalarMult(FF* out, const FF* in, const INT& m)
 			}
 		}
 	}
+	if (Tag::isNegative(m)) {
+		FF::neg(out[1], out[1]);
+	}
 }
 
 template<class Fp>
diff --git a/include/zm.h b/include/zm.h
index 5c19d85..600230c 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -1354,19 +1354,22 @@ struct IntTag {
 	{
 		return x.size();
 	}
+	static inline bool isNegative(const T&) { return false; }
 };
 
 template<>
 struct IntTag<int> {
-	typedef int value_type;
+	typedef unsigned int value_type;
+	// absolute value
 	static inline value_type getBlock(const int& x, size_t)
 	{
-		return x;
+		return x < 0 ? 0 - (value_type)x : (value_type)x;
 	}
 	static inline size_t getBlockSize(const int&)
 	{
 		return 1;
 	}
+	static inline bool isNegative(int x) { return x < 0; }
 };
 template<>
 struct IntTag<size_t> {
@@ -1379,17 +1382,20 @@ struct IntTag<size_t> {
 	{
 		return 1;
 	}
+	static inline bool isNegative(const size_t&) { return false; }
 };
 
 } // util
 
 /**
 	return pow(x, y)
+	@note y must not be negative
 */
 template<class T, class S>
 T power(const T& x, const S& y)
 {
 	typedef typename mie::util::IntTag<S> Tag;
+	if (Tag::isNegative(y)) throw std::invalid_argument("power: negative exponent");
 	typedef typename Tag::value_type value_type;
 	T t(x);
 	T out = 1;
diff --git a/java/bn254_if.hpp b/java/bn254_if.hpp
index 3bfad73..e1673d2 100644
--- a/java/bn254_if.hpp
+++ b/java/bn254_if.hpp
@@ -78,7 +78,7 @@ public:
 	void add(const Fp& rhs) throw(std::exception) { self_ += rhs.self_; }
 	void sub(const Fp& rhs) throw(std::exception) { self_ -= rhs.self_; }
 	void mul(const Fp& rhs) throw(std::exception) { self_ *= rhs.self_; }
-	void power(const Mpz& x)
+	void power(const Mpz& x) throw(std::exception)
 	{
 		self_ = mie::power(self_, x.self_);
 	}
@@ -114,7 +114,7 @@ public:
 	void add(const Fp2& rhs) throw(std::exception) { self_ += rhs.self_; }
 	void sub(const Fp2& rhs) throw(std::exception) { self_ -= rhs.self_; }
 	void mul(const Fp2& rhs) throw(std::exception) { self_ *= rhs.self_; }
-	void power(const Mpz& x)
+	void power(const Mpz& x) throw(std::exception)
 	{
 		self_ = mie::power(self_, x.self_);
 	}
@@ -142,7 +142,7 @@ public:
 	void sub(const Fp12& rhs) throw(std::exception) { self_ -= rhs.self_; }
 	void mul(const Fp12& rhs) throw(std::exception) { self_ *= rhs.self_; }
 	void pairing(const Ec2& ec2, const Ec1& ec1);
-	void power(const Mpz& x)
+	void power(const Mpz& x) throw(std::exception)
 	{
 		self_ = mie::power(self_, x.self_);
 	}
-- 
2.43.0


From 1fed69858246d071843e505b482857b3a56cddd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:18 +0000
Subject: [PATCH 11/29] fix: initialise again with the other SNARK curve

The doubling step chose its code for the curve coefficient when the code was
generated, so init with b = 82 followed by init with b = 3 gave wrong pairings.
---
 src/zm2.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/zm2.cpp b/src/zm2.cpp
index 6628703..a227a24 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -3071,16 +3071,22 @@ L("@@");
 
 #ifdef BN_SUPPORT_SNARK
 		// (a + bu) * binv_xi
-		if (ParamT<Fp2>::b == 82) {
-			// (a + bu) * (9 - u) = (9a + b) + (9b - a)u
-			in_Fp_mul_xi_addsub(t2, t0, t0 + 32, true);
-			in_Fp_mul_xi_addsub(t2 + 32, t0 + 32, t0, false);
-		} else {
-			lea(gp1, ptr [t2]);
-			lea(gp2, ptr [t0]);
-			mov(gp3, (size_t)&ParamT<Fp2>::b_invxi);
-			call(p_Fp2_mul);
-		}
+		// test b at run time because init() may be called again for the other curve
+		inLocalLabel();
+		mov(rax, (size_t)&ParamT<Fp2>::b);
+		cmp(dword [rax], 82);
+		jnz(".generic_b", T_NEAR);
+		// (a + bu) * (9 - u) = (9a + b) + (9b - a)u
+		in_Fp_mul_xi_addsub(t2, t0, t0 + 32, true);
+		in_Fp_mul_xi_addsub(t2 + 32, t0 + 32, t0, false);
+		jmp(".b_end", T_NEAR);
+	L(".generic_b");
+		lea(gp1, ptr [t2]);
+		lea(gp2, ptr [t0]);
+		mov(gp3, (size_t)&ParamT<Fp2>::b_invxi);
+		call(p_Fp2_mul);
+	L(".b_end");
+		outLocalLabel();
 #else
 		// Fp::add(t2.a_, t0.a_, t0.b_);
 		in_Fp_add(t2.a_, t0.a_, t0.b_);
-- 
2.43.0


From 4a0743c87ce55d2916dbc46061c284352f67c727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:37 +0000
Subject: [PATCH 12/29] fix: Java binding: bad numeral, modulus zero, default
 Ec2

Mpz ignored malformed text, mod(0) ended the virtual machine with SIGFPE and
Ec2() held uninitialised coordinates.
---
 java/bn254_if.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/java/bn254_if.hpp b/java/bn254_if.hpp
index e1673d2..cb1b08e 100644
--- a/java/bn254_if.hpp
+++ b/java/bn254_if.hpp
@@ -39,7 +39,7 @@ public:
 	void set(int x) throw(std::exception) { self_ = x; }
 	void set(const std::string& str) throw(std::exception)
 	{
-		self_.set_str(str, 0);
+		if (self_.set_str(str, 0) != 0) throw std::invalid_argument("Mpz:set");
 	}
 	std::string toString() const throw(std::exception)
 	{
@@ -50,7 +50,11 @@ public:
 	void add(const Mpz& rhs) throw(std::exception) { self_ += rhs.self_; }
 	void sub(const Mpz& rhs) throw(std::exception) { self_ -= rhs.self_; }
 	void mul(const Mpz& rhs) throw(std::exception) { self_ *= rhs.self_; }
-	void mod(const Mpz& rhs) throw(std::exception) { self_ %= rhs.self_; }
+	void mod(const Mpz& rhs) throw(std::exception)
+	{
+		if (rhs.self_ == 0) throw std::invalid_argument("Mpz:mod");
+		self_ %= rhs.self_;
+	}
 };
 
 class Fp {
@@ -199,7 +203,7 @@ class Ec2 {
 	::bn::Ec2 self_;
 	friend class Fp12;
 public:
-	Ec2() {}
+	Ec2() { self_.clear(); }
 	Ec2(const Ec2& x) : self_(x.self_) {}
 	Ec2(const Fp2& x, const Fp2& y) throw(std::exception)
 	{
-- 
2.43.0


From f05e0916199c3bde34eaccb95aaed9c704749d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 13/29] fix: a + b in the generic Fp2 squaring (Fp2T::squareC)

---
 include/bn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bn.h b/include/bn.h
index 69432ba..9260b7c 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -497,7 +497,7 @@ struct Fp2T : public mie::local::addsubmul<Fp2T<T>
 		Fp::addNC(t, x.b_, x.b_); // 2b
 		t *= x.a_; // 2ab
 		Fp::sub(tt, x.a_, x.b_); // a - b
-		Fp::addNC(z.a_, x.a_, x.a_); // a + b
+		Fp::addNC(z.a_, x.a_, x.b_); // a + b
 		z.a_ *= tt; // (a - b)(a + b)
 		z.b_ = t;
 #endif
-- 
2.43.0


From 0c77e086404a5d65a51169ee4fbe61b1b410efac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 14/29] fix: NUL bytes in the text of a point

The coordinates were parsed as C strings, so anything after a NUL was ignored.
---
 include/bn.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index 9260b7c..3c490d5 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -2940,9 +2940,8 @@ public:
 			if (pos == std::string::npos) {
 				throw std::runtime_error("operator>>:bad format");
 			}
-			str[pos] = '\0';
-			self.p[0].set(&str[0]);
-			self.p[1].set(&str[pos + 1]);
+			self.p[0].set(str.substr(0, pos));
+			self.p[1].set(str.substr(pos + 1));
 		}
 		return is;
 	}
-- 
2.43.0


From 2852635a395dbc8255c8ac35a2bd500bd259c482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 15/29] fix: ZmZ from INT_MIN

---
 include/zm.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 600230c..8dd6066 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -1203,11 +1203,12 @@ public:
 			v_.set(x);
 			modulo();
 		} else {
-			if (x == -2147483647 - 1 || m_ < -x) {
+			const V y(value_type(0) - value_type(x));
+			if (m_ < y) {
 				local::errExit("x is too small");
 			}
 			v_ = m_;
-			v_ -= -x;
+			v_ -= y;
 		}
 	}
 	void set(const std::string& str)
-- 
2.43.0


From 9c401969ab37ee346f75030b99486728e4e8f8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 16/29] fix: lazy reduction in Fp6 multiplication with the
 SNARK prime

6p^2 exceeds p * 2^256 for this prime, so the last coefficient was not
reduced for elements with large coefficients (and products using it were
wrong).
---
 include/bn.h | 4 ++++
 src/zm2.cpp  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/bn.h b/include/bn.h
index 3c490d5..3d4d4f5 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -1327,7 +1327,11 @@ struct Fp6T : public mie::local::addsubmul<Fp6T<T>,
 			// # 21
 			FpDbl::subNC(z.c_.b_, z.c_.b_, T2.b_);
 			// # 23
+#ifdef BN_SUPPORT_SNARK
+			FpDbl::add(z.c_.b_, z.c_.b_, T1.b_); // XITAG ; 6p^2 > pN
+#else
 			FpDbl::addNC(z.c_.b_, z.c_.b_, T1.b_);
+#endif
 		}
 		static void mod(Fp6T& z, const Dbl& x)
 		{
diff --git a/src/zm2.cpp b/src/zm2.cpp
index a227a24..6f225cc 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -2253,7 +2253,11 @@ L("@@");
 		in_FpDbl_subNC(z.c_.b_, z.c_.b_, T2.b_);
 
 		// FpDbl::addNC(z.c_.b_, z.c_.b_, T1.b_);
+#ifdef BN_SUPPORT_SNARK
+		in_FpDbl_add(z.c_.b_, z.c_.b_, T1.b_); // XITAG ; 6p^2 > pN
+#else
 		in_FpDbl_addNC(z.c_.b_, z.c_.b_, T1.b_);
+#endif
 #endif
 		add(rsp, SS);
 		ret();
-- 
2.43.0


From 58f03165facb98f49e8eda6e65db1256322f9e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 17/29] fix: Fp::Dbl::subOpt1 asserts against the aliasing that
 Fp2T::Dbl::mulOpt1C uses

---
 include/zm2.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/zm2.h b/include/zm2.h
index 37cae54..727e627 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -380,7 +380,6 @@ public:
 
 		static void subOpt1(Dbl &z, const Dbl &x, const Dbl &y)
 		{
-			assert(&z != &x);
 			assert(&z != &y);
 			addNC(z, x, pNTbl_[1]);
 			subNC(z, z, y);
-- 
2.43.0


From 6c01ba66a145eb38f42ea17709f3693e08cfe835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 18/29] fix: Vuint subtraction below zero with a longer
 subtrahend

---
 include/zm.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/zm.h b/include/zm.h
index 8dd6066..c0c28ab 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -597,6 +597,9 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 
 	static void sub(VuintT& out, const VuintT& x, const VuintT& y)
 	{
+		if (x.size() < y.size()) {
+			local::errExit("can't sub");
+		}
 		bool c = sub_in(out, x, y);
 		if (c) {
 			local::errExit("can't sub");
-- 
2.43.0


From 4d57134b6307219eb365d8d95007c1e395549553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:44 +0000
Subject: [PATCH 19/29] fix: parse decimal numerals that fill the whole Vuint
 capacity

---
 include/zm.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index c0c28ab..6964f46 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -499,11 +499,16 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 					x.push_back(v);
 					t = t.substr(0, t.size() - remain);
 				}
-				clear();
+				std::vector<T> v(1), w;
 				for (size_t i = 0, n = x.size(); i < n; i++) {
-					(*this) *= 1000000000;
-					(*this) += x[n - 1 - i];
+					w.resize(v.size() + 1);
+					F::mul1(&w[0], &v[0], v.size(), 1000000000);
+					F::add1(&w[0], &w[0], w.size(), x[n - 1 - i]);
+					if (w.back() == 0) w.pop_back();
+					v.swap(w);
+					Buffer::alloc(v.size()); // verify capacity
 				}
+				set(&v[0], v.size());
 			}
 			break;
 		}
-- 
2.43.0


From 4cf13b94f24807814c93e095f916eaa8af302ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:56 +0000
Subject: [PATCH 20/29] fix: leading zeros of hexadecimal numerals

A zero-padded hexadecimal numeral longer than the capacity ended the process
though its value fits; decimal numerals may be padded already.
---
 include/zm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zm.h b/include/zm.h
index 6964f46..44868a4 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -484,6 +484,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 					x.push_back(v);
 					t = t.substr(0, t.size() - remain);
 				}
+				while (x.size() > 1 && x.back() == 0) x.pop_back(); // leading zeros need no capacity
 				set(&x[0], x.size());
 			}
 			break;
-- 
2.43.0


From 921ba3b1edd02546911a67fc557c9ae1b471a438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:56 +0000
Subject: [PATCH 21/29] fix: NUL bytes in the text of a negative Vsint

Vsint::set passed the digits as a C string, so the text after a NUL byte was
ignored instead of being rejected as in Vuint::set.
---
 include/zm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index 44868a4..f97d74b 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -1017,7 +1017,7 @@ public:
 		isNeg_ = false;
 		if (str.size() > 0 && str[0] == '-') {
 			isNeg_ = true;
-			v_.set(&str[1], base);
+			v_.set(str.substr(1), base);
 		} else {
 			v_.set(str, base);
 		}
-- 
2.43.0


From 0937853afc4556f9eff735723213d97db56ed80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:56 +0000
Subject: [PATCH 22/29] fix: numerals under a global locale with digit grouping

Vuint::toString inserted the separators of the global C++ locale, giving text
that does not parse back.
---
 include/zm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zm.h b/include/zm.h
index f97d74b..99cdbef 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -413,6 +413,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 	std::string toString(int base = 10) const
 	{
 		std::ostringstream os;
+		os.imbue(std::locale::classic()); // no grouping of digits by the global locale
 		switch (base) {
 		case 10:
 			{
-- 
2.43.0


From aabd1722e5701a591810d11029e1134535eefd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:56 +0000
Subject: [PATCH 23/29] fix: field width when printing a negative Vsint

The width applied to the sign alone, so std::left and std::internal put the
padding between the sign and the digits, which does not parse back.
---
 include/zm.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 99cdbef..386d8ca 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -1123,8 +1123,7 @@ public:
 	}
 	inline friend std::ostream& operator<<(std::ostream& os, const VsintT& x)
 	{
-		if (x.isNegative()) os << "-";
-		return os << x.v_;
+		return os << x.toString(os.flags() & std::ios_base::hex ? 16 : 10);
 	}
 	inline friend std::istream& operator>>(std::istream& is, VsintT& x)
 	{
-- 
2.43.0


From aa27a0330d291e3ed673c9aa6296a1b9015a6a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:56 +0000
Subject: [PATCH 24/29] fix: field width when printing a point

The width applied to the x coordinate alone, so std::left put the padding in
front of the separator, which does not parse back.
---
 include/bn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bn.h b/include/bn.h
index 3d4d4f5..008853b 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -2929,7 +2929,7 @@ public:
 			return os << '0';
 		} else {
 			self.normalize();
-			return os << self.p[0].toString(16) << '_' << self.p[1].toString(16);
+			return os << self.p[0].toString(16) + '_' + self.p[1].toString(16);
 		}
 	}
 	friend inline std::istream& operator>>(std::istream& is, EcT& self)
-- 
2.43.0


From fd9b3191f34fc6ab9309d3e2704c807f936eb1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:34 +0000
Subject: [PATCH 25/29] fix: numbers at the end of a stream that throws on
 failure

The digits were read with operator>>(char), which fails at the end of the text;
the fail bit was taken back afterwards, but a stream with exceptions(failbit)
had thrown already (and was left with skipws off).
---
 include/zm.h | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 386d8ca..642ab93 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -83,10 +83,17 @@ namespace local {
 
 inline std::istream& getDigits(std::istream& is, std::string& str, bool allowNegative = false)
 {
-	std::ios_base::fmtflags keep = is.flags();
-	size_t pos = 0;
-	char c;
-	while (is >> c) {
+	std::istream::sentry ok(is); // skip white space
+	if (!ok) return is;
+	std::ios_base::iostate state = std::ios_base::goodbit;
+	for (;;) {
+		const std::streambuf::int_type i = is.rdbuf()->sgetc();
+		if (i == std::streambuf::traits_type::eof()) {
+			state |= std::ios_base::eofbit;
+			break;
+		}
+		const char c = std::streambuf::traits_type::to_char_type(i);
+		const size_t pos = str.size();
 		if (('0' <= c && c <= '9') /* digits */
 		  || (pos == 1 && (str[0] == '0' && c == 'x')) /* 0x.. */
 		  || (allowNegative && pos == 2 && str == "-0" && c == 'x') /* -0x.. */
@@ -94,21 +101,13 @@ inline std::istream& getDigits(std::istream& is, std::string& str, bool allowNeg
 		  || ('A' <= c && c <= 'F') /* uppercase hex */
 		  || (allowNegative && pos == 0 && c == '-')) { /* -digits */
 			str.push_back(c);
-			if (pos == 0) {
-				is >> std::noskipws;
-			}
-			pos++;
+			is.rdbuf()->sbumpc();
 		} else {
-			is.unget();
 			break;
 		}
 	}
-	is.flags(keep);
-	if (str.empty()) {
-		is.setstate(std::ios_base::failbit);
-	} else if (is.eof()) {
-		is.clear(is.rdstate() & ~std::ios_base::failbit); // the digits reach the end
-	}
+	if (str.empty()) state |= std::ios_base::failbit;
+	is.setstate(state);
 	return is;
 }
 
-- 
2.43.0


From 92db401925fda2061d8db9594076b0721fd6890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 26/29] fix: reject point text that is not on the curve

---
 include/bn.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/bn.h b/include/bn.h
index 008853b..864688f 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -2946,6 +2946,9 @@ public:
 			}
 			self.p[0].set(str.substr(0, pos));
 			self.p[1].set(str.substr(pos + 1));
+			if (!self.isValid()) {
+				throw std::runtime_error("operator>>:not on curve");
+			}
 		}
 		return is;
 	}
-- 
2.43.0


From 119895b70f92a8c0b2ffafff65662e1093bc9c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 27/29] fix: constructors and setters documented in java.md but
 missing

---
 java/bn254_if.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/java/bn254_if.hpp b/java/bn254_if.hpp
index cb1b08e..b530206 100644
--- a/java/bn254_if.hpp
+++ b/java/bn254_if.hpp
@@ -104,6 +104,11 @@ public:
 		: self_(Fp(a).self_, Fp(b).self_)
 	{
 	}
+	Fp2(const std::string& str) throw(std::exception)
+	{
+		set(str);
+	}
+	void set(int x) { self_ = x; }
 	Fp& getA() { return *reinterpret_cast<Fp*>(&self_.a_); }
 	Fp& getB() { return *reinterpret_cast<Fp*>(&self_.b_); }
 	void set(const std::string& str) throw(std::exception)
@@ -130,6 +135,11 @@ public:
 	Fp12() {}
 	Fp12(const Fp12& x) : self_(x.self_) {}
 	Fp12(int x) : self_(x) {}
+	Fp12(const std::string& str) throw(std::exception)
+	{
+		set(str);
+	}
+	void set(int x) { self_ = x; }
 	void set(const std::string& str) throw(std::exception)
 	{
 		std::istringstream iss(str);
@@ -166,6 +176,10 @@ public:
 	{
 		set(x, y, z);
 	}
+	Ec1(const std::string& str) throw(std::exception)
+	{
+		set(str);
+	}
 	bool isValid() const { return self_.isValid(); }
 	void set(const Fp& x, const Fp& y) throw(std::exception)
 	{
@@ -213,6 +227,10 @@ public:
 	{
 		set(x, y, z);
 	}
+	Ec2(const std::string& str) throw(std::exception)
+	{
+		set(str);
+	}
 	bool isValid() const { return self_.isValid(); }
 	void set(const Fp2& x, const Fp2& y) throw(std::exception)
 	{
-- 
2.43.0


From 7e8f45c9de89fc4def840008f5acfc2df24725cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 28/29] fix: the group order could be changed through the
 object returned by GetParamR

---
 java/bn254_if.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/java/bn254_if.hpp b/java/bn254_if.hpp
index b530206..e317079 100644
--- a/java/bn254_if.hpp
+++ b/java/bn254_if.hpp
@@ -269,10 +269,9 @@ void Fp12::pairing(const Ec2& ec2, const Ec1& ec1)
 	::bn::opt_atePairing(self_, ec2.self_, ec1.self_);
 }
 
-inline const Mpz& GetParamR()
+inline Mpz GetParamR()
 {
-	static Mpz r("16798108731015832284940804142231733909759579603404752749028378864165570215949");
-	return r;
+	return Mpz("16798108731015832284940804142231733909759579603404752749028378864165570215949");
 }
 
 #ifdef _MSC_VER
-- 
2.43.0


From e6dd614e7d9a30d44de43a30f285547bec06d365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 29/29] fix: keep a Java object alive while a reference to its
 member is used

---
 java/bn254_if.i | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/java/bn254_if.i b/java/bn254_if.i
index 1508fc3..6bba670 100644
--- a/java/bn254_if.i
+++ b/java/bn254_if.i
@@ -16,6 +16,7 @@
 %}
 
 %typemap(javacode) Fp %{
+  Object owner; // object which holds the memory if this is a reference to its member
   public boolean equals(Object obj) {
     if (this == obj) return true;
     if (!(obj instanceof $javaclassname)) return false;
@@ -24,6 +25,7 @@
 %}
 
 %typemap(javacode) Fp2 %{
+  Object owner; // object which holds the memory if this is a reference to its member
   public boolean equals(Object obj) {
     if (this == obj) return true;
     if (!(obj instanceof $javaclassname)) return false;
@@ -55,5 +57,18 @@
   }
 %}
 
+// keep the object alive while a reference to its member is used
+%typemap(javaout) Fp& getA, Fp& getB, Fp& getX, Fp& getY, Fp& getZ {
+    $javaclassname ret = new $javaclassname($jnicall, $owner);
+    ret.owner = this;
+    return ret;
+  }
+
+%typemap(javaout) Fp2& getX, Fp2& getY, Fp2& getZ {
+    $javaclassname ret = new $javaclassname($jnicall, $owner);
+    ret.owner = this;
+    return ret;
+  }
+
 %include "bn254_if.hpp"
 
-- 
2.43.0

