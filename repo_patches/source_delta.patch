From 1244fc7e4f280405e964cea73027499c2138de86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:24 +0000
Subject: [PATCH 01/70] fix: set_difference of intervals with a common upper
 bound

When both intervals share the upper bound, the pieces above the second
interval were built from two identical upper bounds. For infinite bounds
this yielded the whole line, for example (1,oo) minus (0,oo).
---
 src/carl/interval/set_theory.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/carl/interval/set_theory.h b/src/carl/interval/set_theory.h
index 4531a3b..3e5c0cc 100644
--- a/src/carl/interval/set_theory.h
+++ b/src/carl/interval/set_theory.h
@@ -68,8 +68,9 @@ bool set_difference(const Interval<Number>& lhs, const Interval<Number>& rhs, In
 		return false;
 	}
 	if (lhs.lowerBound() < rhs.lowerBound()) {
-		if (lhs.upperBound() < rhs.upperBound()) {
+		if (lhs.upperBound() <= rhs.upperBound()) {
 			resA = Interval<Number>(lhs.lowerBound(), rhs.lowerBound());
+			resB = Interval<Number>::emptyInterval();
 			return false;
 		} else {
 			resA = Interval<Number>(lhs.lowerBound(), rhs.lowerBound());
@@ -77,7 +78,7 @@ bool set_difference(const Interval<Number>& lhs, const Interval<Number>& rhs, In
 			return !resB.isEmpty();
 		}
 	} else {
-		if (lhs.upperBound() < rhs.upperBound()) {
+		if (lhs.upperBound() <= rhs.upperBound()) {
 			resA = Interval<Number>::emptyInterval();
 			resB = Interval<Number>::emptyInterval();
 			return false;
-- 
2.43.0


From aac6b8ac4c38956ffc8e098577102104bdba663d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:24 +0000
Subject: [PATCH 02/70] fix: the empty interval intersects no interval

set_have_intersection reported an intersection of the empty interval with
every interval around zero, because the empty interval stores zero bounds.
---
 src/carl/interval/set_theory.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/interval/set_theory.h b/src/carl/interval/set_theory.h
index 3e5c0cc..de56a0a 100644
--- a/src/carl/interval/set_theory.h
+++ b/src/carl/interval/set_theory.h
@@ -117,6 +117,7 @@ Interval<Number> set_intersection(const Interval<Number>& lhs, const Interval<Nu
 
 template<typename Number>
 bool set_have_intersection(const Interval<Number>& lhs, const Interval<Number>& rhs) {
+	if (lhs.isEmpty() || rhs.isEmpty()) return false;
 	if (lhs.lowerBound() <= rhs.lowerBound() && rhs.lowerBound() <= lhs.upperBound()) return true;
 	if (rhs.lowerBound() <= lhs.lowerBound() && lhs.lowerBound() <= rhs.upperBound()) return true;
 	return false;
-- 
2.43.0


From f6a34cc21792aa0a09203243c754593c431ae954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:24 +0000
Subject: [PATCH 03/70] fix: set_symmetric_difference of overlapping intervals

The two results of set_union were written to the same variable, so the
union was overwritten by the empty second part.
---
 src/carl/interval/set_theory.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl/interval/set_theory.h b/src/carl/interval/set_theory.h
index de56a0a..8e0627b 100644
--- a/src/carl/interval/set_theory.h
+++ b/src/carl/interval/set_theory.h
@@ -171,7 +171,8 @@ bool set_symmetric_difference(const Interval<Number>& lhs, const Interval<Number
 		return true;
 	} else {
 		Interval<Number> tmp;
-		bool res = set_union(lhs, rhs, tmp, tmp);
+		Interval<Number> rest;
+		bool res = set_union(lhs, rhs, tmp, rest);
 		assert(!res);
 		return set_difference(tmp, intersection, resA, resB);
 	}
-- 
2.43.0


From 79173db28c07ec6b7931b5980a4f7e01e7099c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:24 +0000
Subject: [PATCH 04/70] fix: set_union with an empty interval

The stored bounds of the empty interval were combined with the bounds of
the other interval, so the union with [0,1] lost the point zero.
---
 src/carl/interval/set_theory.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/carl/interval/set_theory.h b/src/carl/interval/set_theory.h
index 8e0627b..4d14330 100644
--- a/src/carl/interval/set_theory.h
+++ b/src/carl/interval/set_theory.h
@@ -190,6 +190,11 @@ template<typename Number>
 bool set_union(const Interval<Number>& lhs, const Interval<Number>& rhs, Interval<Number>& resA, Interval<Number>& resB) {
 	assert(lhs.isConsistent() && rhs.isConsistent());
 
+	if (lhs.isEmpty() || rhs.isEmpty()) {
+		resA = lhs.isEmpty() ? rhs : lhs;
+		resB = Interval<Number>::emptyInterval();
+		return false;
+	}
 	if (carl::bounds_connect(lhs.upperBound(), rhs.lowerBound())) {
 		resA = Interval<Number>(lhs.lowerBound(), rhs.upperBound());
 		resB = Interval<Number>::emptyInterval();
-- 
2.43.0


From 7f7dfaef6b53b809c7972c48366c3f48b960b3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:24 +0000
Subject: [PATCH 05/70] fix: constructing an empty interval from a boost
 interval

A missing else let the requested bounds overwrite the canonical empty
interval, so the result did not compare equal to the empty interval.
---
 src/carl/interval/Interval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/interval/Interval.h b/src/carl/interval/Interval.h
index 885befb..25d5868 100644
--- a/src/carl/interval/Interval.h
+++ b/src/carl/interval/Interval.h
@@ -240,7 +240,7 @@ namespace carl
                     mLowerBoundType = BoundType::STRICT;
                     mUpperBoundType = BoundType::STRICT;
                 }
-                if (IS_UNBOUNDED(content.lower(), lowerBoundType, content.upper(), upperBoundType))
+                else if (IS_UNBOUNDED(content.lower(), lowerBoundType, content.upper(), upperBoundType))
                 {
                     mContent = BoostInterval(carl::constant_zero<Number>().get());
                     mLowerBoundType = BoundType::INFTY;
-- 
2.43.0


From f17412abcdf49346bd4680e39b55c4b7c6961a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:24 +0000
Subject: [PATCH 06/70] fix: point intervals with two strict bounds are empty

The constructors from numbers of another type only recognised a point with
different bound types as empty and kept non-canonical empty intervals.
---
 src/carl/interval/Interval.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/carl/interval/Interval.h b/src/carl/interval/Interval.h
index 25d5868..f6c04e3 100644
--- a/src/carl/interval/Interval.h
+++ b/src/carl/interval/Interval.h
@@ -635,7 +635,7 @@ namespace carl
             {
                 mContent = BoostInterval(Num(dLeft));
             }
-            else if ((lower == upper && lowerBoundType != upperBoundType) || lower > upper)
+            else if ((lower == upper && (lowerBoundType == BoundType::STRICT || upperBoundType == BoundType::STRICT)) || lower > upper)
             {
                 mLowerBoundType = BoundType::STRICT;
                 mUpperBoundType = BoundType::STRICT;
@@ -705,7 +705,7 @@ namespace carl
             {
                 mContent = BoostInterval(left);
             }
-            else if ((lower == upper && lowerBoundType != upperBoundType) || lower > upper)
+            else if ((lower == upper && (lowerBoundType == BoundType::STRICT || upperBoundType == BoundType::STRICT)) || lower > upper)
             {
                 mLowerBoundType = BoundType::STRICT;
                 mUpperBoundType = BoundType::STRICT;
@@ -774,7 +774,7 @@ namespace carl
             {
                 mContent = BoostInterval(left);
             }
-            else if ((lower == upper && lowerBoundType != upperBoundType) || lower > upper)
+            else if ((lower == upper && (lowerBoundType == BoundType::STRICT || upperBoundType == BoundType::STRICT)) || lower > upper)
             {
                 mLowerBoundType = BoundType::STRICT;
                 mUpperBoundType = BoundType::STRICT;
-- 
2.43.0


From 97b28790f173378ecb428fdc26fb25334f52cb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:57 +0000
Subject: [PATCH 07/70] fix: sign_variations of empty or all-zero sequences

The end of the range was dereferenced before being compared against.
---
 src/carl/core/Sign.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl/core/Sign.h b/src/carl/core/Sign.h
index 9ec9a2f..6265505 100644
--- a/src/carl/core/Sign.h
+++ b/src/carl/core/Sign.h
@@ -67,8 +67,9 @@ Sign sgn(const Number& n) {
  */
 template<typename InputIterator>
 std::size_t sign_variations(InputIterator begin, InputIterator end) {
-	while ((*begin == Sign::ZERO) && (begin != end))
+	while ((begin != end) && (*begin == Sign::ZERO))
 		++begin;
+	if (begin == end) return 0;
 
 	std::size_t changes = 0;
 	for (Sign last = *begin; begin != end; ++begin) {
-- 
2.43.0


From 7c4fcb8e09ef54954c55ef27afa443777341d6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:54 +0000
Subject: [PATCH 08/70] fix: bound setters keep unbounded intervals canonical

Making the second bound infinite left the old finite value stored, so the
result did not compare equal to the unbounded interval.
---
 src/carl/interval/Interval.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/carl/interval/Interval.h b/src/carl/interval/Interval.h
index f6c04e3..ab5c98d 100644
--- a/src/carl/interval/Interval.h
+++ b/src/carl/interval/Interval.h
@@ -929,7 +929,8 @@ namespace carl
         {
 			/// TODO: Fix this.
         	if(b == BoundType::INFTY) {
-				this->set(mContent.upper(), mContent.upper());
+				if (mUpperBoundType == BoundType::INFTY) this->set(carl::constant_zero<Number>().get(), carl::constant_zero<Number>().get());
+				else this->set(mContent.upper(), mContent.upper());
         		mLowerBoundType = b;
         	} else {
         		if(mUpperBoundType == BoundType::INFTY){
@@ -951,7 +952,8 @@ namespace carl
         {
 			/// TODO: Fix this.
             if(b == BoundType::INFTY) {
-				this->set(mContent.lower(), mContent.lower());
+				if (mLowerBoundType == BoundType::INFTY) this->set(carl::constant_zero<Number>().get(), carl::constant_zero<Number>().get());
+				else this->set(mContent.lower(), mContent.lower());
         		mUpperBoundType = b;
         	} else {
         		if(mLowerBoundType == BoundType::INFTY){
@@ -974,7 +976,8 @@ namespace carl
 			mLowerBoundType = b;
             if (b == BoundType::INFTY) {
 				//setLower(carl::constant_zero<Number>().get());
-				setLower(upper());
+				if (mUpperBoundType == BoundType::INFTY) this->set(carl::constant_zero<Number>().get(), carl::constant_zero<Number>().get());
+				else setLower(upper());
             }
         }
 
@@ -987,7 +990,8 @@ namespace carl
 			mUpperBoundType = b;
             if (b == BoundType::INFTY) {
 				//setUpper(carl::constant_zero<Number>().get());
-				setUpper(lower());
+				if (mLowerBoundType == BoundType::INFTY) this->set(carl::constant_zero<Number>().get(), carl::constant_zero<Number>().get());
+				else setUpper(lower());
             }
         }
 
-- 
2.43.0


From 03ba6b592ec85184903a1b31eaced34a6476eb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:43 +0000
Subject: [PATCH 09/70] fix: signed bit-vector remainder of two negative
 operands

---
 src/carl/formula/bitvector/BVValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/formula/bitvector/BVValue.cpp b/src/carl/formula/bitvector/BVValue.cpp
index 4218f1e..3494a1c 100644
--- a/src/carl/formula/bitvector/BVValue.cpp
+++ b/src/carl/formula/bitvector/BVValue.cpp
@@ -83,7 +83,7 @@ BVValue BVValue::remSigned(const BVValue& _other) const {
 	} else if (!firstNegative && secondNegative) {
 		return (*this) % -_other;
 	} else {
-		return -((*this) % -_other);
+		return -(-(*this) % -_other);
 	}
 }
 
-- 
2.43.0


From d8d8ab7cb6430a8f5d508ab37ed365622be4b834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:43 +0000
Subject: [PATCH 10/70] fix: signed bit-vector modulo with a negative divisor

---
 src/carl/formula/bitvector/BVValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/formula/bitvector/BVValue.cpp b/src/carl/formula/bitvector/BVValue.cpp
index 3494a1c..48873cd 100644
--- a/src/carl/formula/bitvector/BVValue.cpp
+++ b/src/carl/formula/bitvector/BVValue.cpp
@@ -105,7 +105,7 @@ BVValue BVValue::modSigned(const BVValue& _other) const {
 	} else if (firstNegative && !secondNegative) {
 		return -u + _other;
 	} else if (!firstNegative && secondNegative) {
-		return (*this) + _other;
+		return u + _other;
 	} else {
 		return -u;
 	}
-- 
2.43.0


From bfedafb55d52a9f3d5dc1d3a1f45d490654bb585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:42 +0000
Subject: [PATCH 11/70] fix: signed bit-vector division by zero of constants
 follows SMT-LIB

---
 src/carl/formula/bitvector/BVTermPool.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/carl/formula/bitvector/BVTermPool.cpp b/src/carl/formula/bitvector/BVTermPool.cpp
index 3f52409..1151718 100644
--- a/src/carl/formula/bitvector/BVTermPool.cpp
+++ b/src/carl/formula/bitvector/BVTermPool.cpp
@@ -70,15 +70,12 @@ namespace carl
 					return create(BVTermType::CONSTANT, ~BVValue(_first.width(), 0));
 				case BVTermType::DIV_S:
 					if (_first.isConstant()) {
-						if (_first.value().isZero()) {
-							// Zero -> 1
-							return create(BVTermType::CONSTANT, BVValue(_first.width(), 1));
-						} else if (_first.value()[_first.width()-1]) {
+						if (_first.value()[_first.width()-1]) {
 							// Negative -> 1
 							return create(BVTermType::CONSTANT, BVValue(_first.width(), 1));
 						} else {
-							// Positive -> _first
-							return _first.mpContent;
+							// Zero or positive -> #b111...
+							return create(BVTermType::CONSTANT, ~BVValue(_first.width(), 0));
 						}
 					}
 					break;
-- 
2.43.0


From 39069e294cbbae4cb6d17039b1063d1c3ac756e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:58 +0000
Subject: [PATCH 12/70] fix: growing a bitset fills new positions with its
 default

---
 src/carl/util/Bitset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/util/Bitset.h b/src/carl/util/Bitset.h
index 8ea0fac..c67ddf5 100644
--- a/src/carl/util/Bitset.h
+++ b/src/carl/util/Bitset.h
@@ -92,7 +92,7 @@ namespace carl {
 		/// Resize mData to hold at least pos bits.
 		void ensureSize(std::size_t pos) {
 			if (pos >= mData.size()) {
-				mData.resize(pos+1);
+				mData.resize(pos+1, mDefault);
 			}
 		}
 	public:
-- 
2.43.0


From ce7cb72218aa0d57b18b08ce87a394136fff5c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:58 +0000
Subject: [PATCH 13/70] fix: in-place difference of bitsets updates the default

---
 src/carl/util/Bitset.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/util/Bitset.h b/src/carl/util/Bitset.h
index c67ddf5..4922458 100644
--- a/src/carl/util/Bitset.h
+++ b/src/carl/util/Bitset.h
@@ -121,6 +121,7 @@ namespace carl {
 			assert(mDefault == rhs.mDefault);
 			alignSize(*this, rhs);
 			mData -= rhs.mData;
+			mDefault = mDefault && !rhs.mDefault;
 			return *this;
 		}
 		/// Computes the bitwise and with rhs.
-- 
2.43.0


From c8862ca149e1b6a986fca9ff5169464ef6d255fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:58 +0000
Subject: [PATCH 14/70] fix: in-place conjunction of bitsets updates the
 default

---
 src/carl/util/Bitset.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/util/Bitset.h b/src/carl/util/Bitset.h
index 4922458..a7b5c53 100644
--- a/src/carl/util/Bitset.h
+++ b/src/carl/util/Bitset.h
@@ -128,6 +128,7 @@ namespace carl {
 		Bitset& operator&=(const Bitset& rhs) {
 			alignSize(*this, rhs);
 			mData &= rhs.mData;
+			mDefault = mDefault && rhs.mDefault;
 			return *this;
 		}
 		/// Computes the bitwise or with rhs.
-- 
2.43.0


From 621f98f655940898378fe9f9c575fba1e321d988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:58 +0000
Subject: [PATCH 15/70] fix: in-place disjunction of bitsets updates the
 default

---
 src/carl/util/Bitset.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/util/Bitset.h b/src/carl/util/Bitset.h
index a7b5c53..73e2ac7 100644
--- a/src/carl/util/Bitset.h
+++ b/src/carl/util/Bitset.h
@@ -135,6 +135,7 @@ namespace carl {
 		Bitset& operator|=(const Bitset& rhs) {
 			alignSize(*this, rhs);
 			mData |= rhs.mData;
+			mDefault = mDefault || rhs.mDefault;
 			return *this;
 		}
 		
-- 
2.43.0


From eeaf62865e9088b7d53ee00b3e9fe46b1d3ceec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:58 +0000
Subject: [PATCH 16/70] fix: bitset order is consistent with equality

---
 src/carl/util/Bitset.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/carl/util/Bitset.h b/src/carl/util/Bitset.h
index 73e2ac7..0b58a98 100644
--- a/src/carl/util/Bitset.h
+++ b/src/carl/util/Bitset.h
@@ -232,11 +232,9 @@ namespace carl {
 		}
 		/// Compares lhs and rhs according to some order.
 		friend bool operator<(const Bitset& lhs, const Bitset& rhs) {
-			if (lhs.size() < rhs.size()) {
-				return true;
-			}
-			if (lhs.size() > rhs.size()) {
-				return false;
+			alignSize(lhs, rhs);
+			if (lhs.mDefault != rhs.mDefault) {
+				return rhs.mDefault;
 			}
 			return lhs.mData < rhs.mData;
 		}
-- 
2.43.0


From 3b9743c4e9ad7b326d59850ddbcfa276896929d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:50:58 +0000
Subject: [PATCH 17/70] fix: equal bitsets have equal hashes

---
 src/carl/util/Bitset.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/carl/util/Bitset.h b/src/carl/util/Bitset.h
index 0b58a98..1cf2924 100644
--- a/src/carl/util/Bitset.h
+++ b/src/carl/util/Bitset.h
@@ -266,7 +266,12 @@ namespace std {
 template<>
 struct hash<carl::Bitset> {
 	std::size_t operator()(const carl::Bitset& bs) const {
-		return std::hash<carl::Bitset::BaseType>()(bs.mData);
+		// Trailing bits that equal the default must not influence the hash.
+		std::size_t size = bs.mData.size();
+		while (size > 0 && bs.mData.test(size - 1) == bs.mDefault) --size;
+		carl::Bitset::BaseType data = bs.mData;
+		data.resize(size);
+		return std::hash<carl::Bitset::BaseType>()(data);
 	}
 };
 
-- 
2.43.0


From 50fd26465ac371cd3298c08c68e5a5d23440f920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:13 +0000
Subject: [PATCH 18/70] fix: trivial set cover of an instance without sets

---
 src/carl-covering/heuristics/trivial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl-covering/heuristics/trivial.cpp b/src/carl-covering/heuristics/trivial.cpp
index daa27cd..fd3da54 100644
--- a/src/carl-covering/heuristics/trivial.cpp
+++ b/src/carl-covering/heuristics/trivial.cpp
@@ -7,7 +7,7 @@ namespace carl::covering::heuristic {
 /// Trivial heuristic: select all sets.
 Bitset trivial(SetCover& sc) {
 	Bitset result;
-	result.set_interval(0, sc.set_count() - 1);
+	if (sc.set_count() > 0) result.set_interval(0, sc.set_count() - 1);
 	return result;
 }
 
-- 
2.43.0


From 2130f65f6a32e86de119dfcbcfde5a0419177be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:52 +0000
Subject: [PATCH 19/70] fix: lock the variable pool for all lookups in
 thread-safe builds

findVariableWithName, printVariableNamesToStream and nrVariables read the
name map and the id counters without the mutex their writers hold.
---
 src/carl/core/VariablePool.cpp | 1 +
 src/carl/core/VariablePool.h   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/carl/core/VariablePool.cpp b/src/carl/core/VariablePool.cpp
index a6879fc..1d55162 100644
--- a/src/carl/core/VariablePool.cpp
+++ b/src/carl/core/VariablePool.cpp
@@ -54,6 +54,7 @@ Variable VariablePool::getFreshPersistentVariable(const std::string& name, Varia
 }
 
 Variable VariablePool::findVariableWithName(const std::string& name) const noexcept {
+	SETNAME_LOCK_GUARD
 	for (const auto& v: mVariableNames) {
 		if (v.second == name) return v.first;
 	}
diff --git a/src/carl/core/VariablePool.h b/src/carl/core/VariablePool.h
index 78334b7..4498996 100644
--- a/src/carl/core/VariablePool.h
+++ b/src/carl/core/VariablePool.h
@@ -160,6 +160,7 @@ public:
 	 * @return Number of variables.
 	 */
 	std::size_t nrVariables(VariableType type = VariableType::VT_REAL) const noexcept {
+		FRESHVAR_LOCK_GUARD
 		return nextID(type) - 1;
 	}
 
@@ -167,6 +168,7 @@ public:
 	 * Print variable names to the stream.
 	 */
 	void printVariableNamesToStream(std::ostream& os) {
+		SETNAME_LOCK_GUARD
 		for (auto const& v : mVariableNames) {
 			os << v.second << " ";
 		}
-- 
2.43.0


From 325163a589699357c33ca1bae82cf2f26e02c112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:52 +0000
Subject: [PATCH 20/70] fix: keep every persistent variable over
 VariablePool::clear

Persistent variables were stored by id, so one of a different type with the
same id replaced an earlier one, and the unused slots consumed ids when the
pool was cleared. A cleared pool then handed out ids of persistent variables
again and attached their names to other ids. The accesses also lacked locks.
---
 src/carl/core/VariablePool.cpp | 11 +++++------
 src/carl/core/VariablePool.h   | 10 +++++-----
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/carl/core/VariablePool.cpp b/src/carl/core/VariablePool.cpp
index 1d55162..a4dde5b 100644
--- a/src/carl/core/VariablePool.cpp
+++ b/src/carl/core/VariablePool.cpp
@@ -39,17 +39,16 @@ Variable VariablePool::getFreshVariable(const std::string& name, VariableType ty
 
 Variable VariablePool::getFreshPersistentVariable(VariableType type) noexcept {
 	Variable res = getFreshVariable(type);
-	if (res.id() >= mPersistentVariables.size()) {
-		mPersistentVariables.resize(res.id()+1, std::make_pair(Variable::NO_VARIABLE, ""));
-	}
-	mPersistentVariables[res.id()] = std::make_pair(res, "");
+	FRESHVAR_LOCK_GUARD
+	mPersistentVariables.emplace_back(res, "");
 	return res;
 }
 
 Variable VariablePool::getFreshPersistentVariable(const std::string& name, VariableType type) {
-	Variable res = getFreshPersistentVariable(type);
-	mPersistentVariables[res.id()] = std::make_pair(res, name);
+	Variable res = getFreshVariable(type);
 	setName(res, name);
+	FRESHVAR_LOCK_GUARD
+	mPersistentVariables.emplace_back(res, name);
 	return res;
 }
 
diff --git a/src/carl/core/VariablePool.h b/src/carl/core/VariablePool.h
index 4498996..f534707 100644
--- a/src/carl/core/VariablePool.h
+++ b/src/carl/core/VariablePool.h
@@ -107,17 +107,17 @@ public:
 	 * Clears everything already created in this pool.
 	 */
 	void clear() noexcept {
+		FRESHVAR_LOCK_GUARD
+		SETNAME_LOCK_GUARD
 		mVariableNames.clear();
 		mNextIDs.fill(1);
 		for (const auto& pv : mPersistentVariables) {
 			Variable v = pv.first;
-			while (nextID(v.type()) < v.id()) {
-				getFreshVariable(v.type());
+			if (nextID(v.type()) <= v.id()) {
+				nextID(v.type()) = v.id() + 1;
 			}
 			if (!pv.second.empty()) {
-				getFreshVariable(pv.second, v.type());
-			} else {
-				getFreshVariable(v.type());
+				mVariableNames[v] = pv.second;
 			}
 		}
 	}
-- 
2.43.0


From 9510f97f0b0aa7503bed79d17a1fa208bc48b4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:52 +0000
Subject: [PATCH 21/70] fix: lock pools while they are measured and printed

The size and output functions of the monomial, bit-vector and id pools read
the containers without the mutex that insertion holds.
---
 src/carl/core/MonomialPool.h      | 4 ++++
 src/carl/formula/bitvector/Pool.h | 1 +
 src/carl/util/IDPool.h            | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/src/carl/core/MonomialPool.h b/src/carl/core/MonomialPool.h
index 2d6e96d..65c0474 100644
--- a/src/carl/core/MonomialPool.h
+++ b/src/carl/core/MonomialPool.h
@@ -150,6 +150,7 @@ public:
 	}
 
 	std::size_t size() const {
+		MONOMIAL_POOL_LOCK_GUARD
 		return mPool.size();
 	}
 	std::size_t largestID() const {
@@ -158,6 +159,9 @@ public:
 };
 
 inline std::ostream& operator<<(std::ostream& os, const MonomialPool& mp) {
+#ifdef THREAD_SAFE
+	std::lock_guard<std::recursive_mutex> lock(mp.mMutex);
+#endif
 	os << "MonomialPool of size " << mp.size() << std::endl;
 	for (const auto& entry : mp.mPool) {
 		os << "\t" << entry << std::endl;
diff --git a/src/carl/formula/bitvector/Pool.h b/src/carl/formula/bitvector/Pool.h
index b73280a..28facec 100644
--- a/src/carl/formula/bitvector/Pool.h
+++ b/src/carl/formula/bitvector/Pool.h
@@ -70,6 +70,7 @@ namespace carl
 
 		void print() const
 		{
+			POOL_LOCK_GUARD
 			std::cout << "Pool contains:" << std::endl;
 			for(const auto& ele : mPool) {
 				std::cout << "- " << *ele << std::endl;
diff --git a/src/carl/util/IDPool.h b/src/carl/util/IDPool.h
index 727b41b..dd3b5df 100644
--- a/src/carl/util/IDPool.h
+++ b/src/carl/util/IDPool.h
@@ -51,6 +51,9 @@ namespace carl {
 			mFreeIDs = Bitset(true);
 		}
 		friend std::ostream& operator<<(std::ostream& os, const IDPool& p) {
+#ifdef THREAD_SAFE
+			std::lock_guard<std::mutex> lock(p.mMutex);
+#endif
 			return os << "Free: " << p.mFreeIDs;
 		}
 
-- 
2.43.0


From 95b941f754089b000afe77db91c2cfa105a7f6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:49 +0000
Subject: [PATCH 22/70] fix: print quantities of 2^63 and more

The value was converted to a signed integer before choosing the suffix, so
such quantities were printed as negative numbers.
---
 src/carl-settings/settings_utils.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/carl-settings/settings_utils.h b/src/carl-settings/settings_utils.h
index c4875ce..11eaf52 100644
--- a/src/carl-settings/settings_utils.h
+++ b/src/carl-settings/settings_utils.h
@@ -4,6 +4,7 @@
 #include <chrono>
 #include <iostream>
 #include <string>
+#include <type_traits>
 #include <utility>
 #include <vector>
 
@@ -21,15 +22,16 @@ namespace carl::settings {
  * The return value is the value converted to this unit suffix and the index into the array to retrieve the appropriate suffix string.
  * For the above example, `get_proper_suffix(30000000000, a) = {30, 3}`, that is `30s`.
  */
-template<typename Array>
-std::pair<std::intmax_t,std::size_t> get_proper_suffix(std::intmax_t value, const Array& a) {
+template<typename Value = std::intmax_t, typename Array>
+std::pair<Value,std::size_t> get_proper_suffix(std::common_type_t<Value> value, const Array& a) {
 	std::size_t id = 0;
-	std::intmax_t mult = 1;
+	Value mult = 1;
 	for (; id < a.size()-1; ++id) {
-		if (value < (a[id].second * mult)) {
+		const auto next = static_cast<Value>(a[id].second) * mult;
+		if (value < next) {
 			break;
 		}
-		mult *= a[id].second;
+		mult = next;
 	}
 	return std::make_pair(value / mult, id);
 }
@@ -103,7 +105,7 @@ inline std::ostream& operator<<(std::ostream& os, const binary_quantity& q) {
 		{"", 1024}, {"Ki", 1024}, {"Mi", 1024},
 		{"Gi", 1024}, {"Ti", 1024}, {"Pi", 1024}, {"Ei", 1},
 	}};
-	auto res = get_proper_suffix(static_cast<std::intmax_t>(q.n()), suffixes);
+	auto res = get_proper_suffix<std::size_t>(q.n(), suffixes);
 	return os << res.first << suffixes[res.second].first;
 }
 
@@ -149,7 +151,7 @@ inline std::ostream& operator<<(std::ostream& os, const metric_quantity& q) {
 		{"", 1000}, {"K", 1000}, {"M", 1000},
 		{"G", 1000}, {"T", 1000}, {"P", 1000}, {"E", 1},
 	}};
-	auto res = get_proper_suffix(static_cast<std::intmax_t>(q.n()), suffixes);
+	auto res = get_proper_suffix<std::size_t>(q.n(), suffixes);
 	return os << res.first << suffixes[res.second].first;
 }
 
-- 
2.43.0


From ad50168d5dee437d010343a385f02a8bc62a02c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:48 +0000
Subject: [PATCH 23/70] fix: keep the point when splitting a point interval

split() returned two empty intervals for a point interval, so the point was
lost. The second part now is the point itself.
---
 src/carl/interval/Interval.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 38cf2be..7600aaf 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -268,7 +268,7 @@ template<typename Number>
 	std::pair<BoostInterval, BoostInterval> bisection = boost::numeric::bisect(mContent);
 	if( this->isEmpty() || this->isPointInterval() )
 	{
-	    return std::pair<Interval<Number>, Interval<Number> >(Interval<Number>::emptyInterval(), Interval<Number>::emptyInterval());
+	    return std::pair<Interval<Number>, Interval<Number> >(Interval<Number>::emptyInterval(), *this);
 	}
 	return std::pair<Interval<Number>, Interval<Number> >(Interval(bisection.first, mLowerBoundType, BoundType::STRICT), Interval(bisection.second, BoundType::WEAK, mUpperBoundType));
     }
-- 
2.43.0


From dc1ab79e1ea6e0e79ce5a20332e94077efac2e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:48 +0000
Subject: [PATCH 24/70] fix: take the bound types of the convex hull from the
 outer bounds

convexHull() combined the bound types of both operands independently of
which bound is the outer one, so [1, 2] and (0, 1) gave (0, 2). It also used
the numbers stored for infinite bounds.
---
 src/carl/interval/Interval.tpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 7600aaf..9128184 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -361,12 +361,10 @@ Interval<Number> Interval<Number>::convexHull(const Interval<Number>& interval)
 	if(interval.isEmpty())
 		return *this;
 
-	BoundType newLowerBound = getStrictestBoundType(this->lowerBoundType(), interval.lowerBoundType());
-	BoundType newUpperBound = getStrictestBoundType(this->upperBoundType(), interval.upperBoundType());
-	Number newLower = interval.lower() < this->lower() ? interval.lower() : this->lower();
-	Number newUpper = interval.upper() > this->upper() ? interval.upper() : this->upper();
+	const auto newLower = interval.lowerBound() < this->lowerBound() ? interval.lowerBound() : this->lowerBound();
+	const auto newUpper = this->upperBound() < interval.upperBound() ? interval.upperBound() : this->upperBound();
 
-    return Interval(newLower, newLowerBound, newUpper, newUpperBound);
+	return Interval(newLower.number, newLower.bound_type, newUpper.number, newUpper.bound_type);
 }
 
 /*******************************************************************************
-- 
2.43.0


From cd5e0e3cacce58b66f657a21aef63d8762714251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:48 +0000
Subject: [PATCH 25/70] fix: closed bound when both corners of a product
 coincide

If both candidates for a bound of the product of two intervals around zero
are equal, the bound is attained if one of them is: (-2, 4] * (-2, 1]
contains 4.
---
 src/carl/interval/Interval.tpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 9128184..7369415 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -440,6 +440,8 @@ Interval<Number> Interval<Number>::mul(const Interval<Number>& rhs) const
                     else
                     {
                         lowerBoundType = getStrictestBoundType(xlt, yut);
+                        if( lowerA == lowerB )
+                            lowerBoundType = getWeakestBoundType(lowerBoundType, getStrictestBoundType(xut, ylt));
                     }
                     Number upperA = rnd.mul_up(xl, yl);
                     Number upperB = rnd.mul_up(xu, yu);
@@ -451,6 +453,8 @@ Interval<Number> Interval<Number>::mul(const Interval<Number>& rhs) const
                     else
                     {
                         upperBoundType = getStrictestBoundType(xlt, ylt);
+                        if( upperA == upperB )
+                            upperBoundType = getWeakestBoundType(upperBoundType, getStrictestBoundType(xut, yut));
                     }
                     resultInterval = BoostInterval(lowerA, upperA, true);
                 }
-- 
2.43.0


From d35a71a56280008a497dca4e7a01b15cd00d2338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:58 +0000
Subject: [PATCH 26/70] fix: divide by intervals with zero as an open bound

[1, 2] / (0, 1] gave [1, 1] as the division of the stored numbers has no
meaning if a bound of the divisor is zero. The bound types were only
guessed, so [0, 2] / (1, 2) lost zero.
---
 src/carl/interval/Interval.tpp | 38 ++++++++--------------------------
 1 file changed, 9 insertions(+), 29 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 7369415..bd9de17 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -607,36 +607,16 @@ Interval<Number> Interval<Number>::div(const Interval<Number>& rhs) const
 		assert(this->isConsistent());
 		assert(rhs.isConsistent());
 		assert(!rhs.contains(carl::constant_zero<Number>().get()));
-		BoundType lowerBoundType = BoundType::WEAK;
-        BoundType upperBoundType = BoundType::WEAK;
-		///@todo Correctly determine if bounds are strict or weak.
-		if (this->isOpenInterval() || rhs.isOpenInterval()) {
-			// just a quick heuristic, by no means complete.
-            lowerBoundType = BoundType::STRICT;
-            upperBoundType = BoundType::STRICT;
+		Interval<Number> reciprocalA, reciprocalB;
+		// As rhs does not contain zero, no split can occur.
+		rhs.reciprocal(reciprocalA, reciprocalB);
+		Interval<Number> result = this->mul(reciprocalA);
+		if (result.isEmpty() || result.lowerBoundType() == BoundType::INFTY || result.upperBoundType() == BoundType::INFTY
+			|| rhs.lowerBoundType() == BoundType::INFTY || rhs.upperBoundType() == BoundType::INFTY) {
+			return result;
 		}
-        const Number& xl = mContent.lower();
-        const Number& yl = rhs.lower();
-        const Number& yu = rhs.upper();
-        const BoundType& xlt = mLowerBoundType;
-        const BoundType& xut = mUpperBoundType;
-        const BoundType& ylt = rhs.lowerBoundType();
-        const BoundType& yut = rhs.upperBoundType();
-        if( (xlt == BoundType::INFTY && (carl::isPositive(yu) || yut == BoundType::INFTY))
-		   || (xut == BoundType::INFTY && (carl::isNegative(yl) || ylt == BoundType::INFTY))
-		   || (ylt == BoundType::INFTY && (carl::isPositive(xl) || xut == BoundType::INFTY))
-		   || (yut == BoundType::INFTY && (carl::isNegative(xl) || (carl::isNegative(xl) || xlt == BoundType::INFTY))) )
-        {
-            lowerBoundType = BoundType::INFTY;
-        }
-        if( (xlt == BoundType::INFTY && (carl::isNegative(yu) || (carl::isNegative(yl) || ylt == BoundType::INFTY)))
-		   || (xut == BoundType::INFTY && (carl::isPositive(yl) || (carl::isPositive(yu) || yut == BoundType::INFTY)))
-		   || (ylt == BoundType::INFTY && (carl::isNegative(xl) || (carl::isNegative(xl) || xlt == BoundType::INFTY)))
-		   || (yut == BoundType::INFTY && (carl::isPositive(xl) || (carl::isPositive(xl) || xut == BoundType::INFTY))) )
-        {
-            upperBoundType = BoundType::INFTY;
-        }
-        return Interval<Number>(BoostInterval( mContent/rhs.content() ), lowerBoundType, upperBoundType );
+		// All bounds are finite, dividing directly avoids to round twice.
+		return Interval<Number>(BoostInterval( mContent/rhs.content() ), result.lowerBoundType(), result.upperBoundType() );
 	}
 
 template<typename Number>
-- 
2.43.0


From e169f8a2e479edd4fdf9d61978c34a579e4cf26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:58 +0000
Subject: [PATCH 27/70] fix: absolute value of intervals around zero

The absolute value of the lower bound was ignored, so |[-5, 1]| was [0, 1].
Infinite lower bounds and open upper bounds at zero were wrong as well.
---
 src/carl/interval/Interval.tpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index bd9de17..2597391 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -705,11 +705,16 @@ void Interval<Number>::inverse_assign()
         {
             if(this->contains(carl::constant_zero<Number>().get()))
             {
-                Number max = mContent.upper() > mContent.lower() ? mContent.upper() : mContent.lower();
-                BoundType bt = mContent.upper() > mContent.lower() ? mUpperBoundType : mLowerBoundType;
-                return Interval<Number>( carl::constant_zero<Number>().get(), BoundType::WEAK, max, bt );
+                if( mLowerBoundType == BoundType::INFTY || mUpperBoundType == BoundType::INFTY )
+                    return Interval<Number>( carl::constant_zero<Number>().get(), BoundType::WEAK, carl::constant_zero<Number>().get(), BoundType::INFTY );
+                Number negLower = -mContent.lower();
+                if( negLower == mContent.upper() )
+                    return Interval<Number>( carl::constant_zero<Number>().get(), BoundType::WEAK, negLower, getWeakestBoundType( mLowerBoundType, mUpperBoundType ) );
+                if( negLower > mContent.upper() )
+                    return Interval<Number>( carl::constant_zero<Number>().get(), BoundType::WEAK, negLower, mLowerBoundType );
+                return Interval<Number>( carl::constant_zero<Number>().get(), BoundType::WEAK, mContent.upper(), mUpperBoundType );
             }
-            else if( mContent.upper() < carl::constant_zero<Number>().get()) // interval is fully negative
+            else if( mUpperBoundType != BoundType::INFTY && mContent.upper() <= carl::constant_zero<Number>().get()) // interval is fully negative
             {
                 return Interval<Number>(-mContent.upper(), mUpperBoundType, -mContent.lower(), mLowerBoundType);
             }
-- 
2.43.0


From e3a1896a439026253ce70d14ed3c5061a0671d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:58 +0000
Subject: [PATCH 28/70] fix: multiply an interval by zero

An open interval times zero gave the empty interval.
---
 src/carl/interval/operators.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/carl/interval/operators.h b/src/carl/interval/operators.h
index 19b6065..c95b5ed 100644
--- a/src/carl/interval/operators.h
+++ b/src/carl/interval/operators.h
@@ -395,6 +395,9 @@ inline Interval<Number> operator*(const Interval<Number>& lhs, const Interval<Nu
  */
 template<typename Number>
 inline Interval<Number> operator*(const Interval<Number>& lhs, const Number& rhs) {
+	if (carl::isZero(rhs)) {
+		return lhs.isEmpty() ? lhs : Interval<Number>(rhs);
+	}
 	if (rhs >= 0) {
 		return Interval<Number>(lhs.rContent() * rhs, lhs.lowerBoundType(), lhs.upperBoundType());
 	} else {
-- 
2.43.0


From 64a8c1d266ae37e9fb4561744ed2db2d9c5e5d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:58 +0000
Subject: [PATCH 29/70] fix: swap the bound types when scaling an interval by a
 negative number

operator*= only scaled the numbers.
---
 src/carl/interval/operators.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/carl/interval/operators.h b/src/carl/interval/operators.h
index c95b5ed..c039690 100644
--- a/src/carl/interval/operators.h
+++ b/src/carl/interval/operators.h
@@ -436,8 +436,7 @@ inline Interval<Number>& operator*=(Interval<Number>& lhs, const Interval<Number
  */
 template<typename Number>
 inline Interval<Number>& operator*=(Interval<Number>& lhs, const Number& rhs) {
-	lhs.rContent() *= rhs;
-	return lhs;
+	return lhs = lhs * rhs;
 }
 
 /**
-- 
2.43.0


From c17ec96a52eddb43c039136292be0f74fc5214b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:58 +0000
Subject: [PATCH 30/70] fix: interval to the power of zero

(-oo, -2) to the power of zero gave (1, oo) which does not contain 1.
---
 src/carl/interval/power.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/carl/interval/power.h b/src/carl/interval/power.h
index 81124d9..2f771f3 100644
--- a/src/carl/interval/power.h
+++ b/src/carl/interval/power.h
@@ -10,6 +10,9 @@ namespace carl {
 template<typename Number, typename Integer>
 Interval<Number> pow(const Interval<Number>& i, Integer exp) {
 	assert(i.isConsistent());
+	if (exp == 0 && !i.isEmpty()) {
+		return Interval<Number>(carl::constant_one<Number>().get());
+	}
 	if (exp % 2 == 0) {
 		if (i.isInfinite()) {
 			return Interval<Number>(carl::constant_zero<Number>().get(), BoundType::WEAK, carl::constant_zero<Number>().get(), BoundType::INFTY);
-- 
2.43.0


From 9618c1224425f737ee9d0fe712268151bd730f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:58 +0000
Subject: [PATCH 31/70] fix: closed bound for even powers of intervals with
 symmetric bounds

The square of [-2, 2) contains 4.
---
 src/carl/interval/power.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/interval/power.h b/src/carl/interval/power.h
index 2f771f3..e8a08b3 100644
--- a/src/carl/interval/power.h
+++ b/src/carl/interval/power.h
@@ -33,6 +33,8 @@ Interval<Number> pow(const Interval<Number>& i, Integer exp) {
 			BoundType lType = i.lowerBoundType();
 			if (carl::abs(i.lower()) > carl::abs(i.upper())) {
 				std::swap(lType, rType);
+			} else if (carl::abs(i.lower()) == carl::abs(i.upper())) {
+				rType = getWeakestBoundType(lType, rType);
 			}
 			if (i.contains(carl::constant_zero<Number>().get())) {
 				return Interval<Number>(boost::numeric::pow(i.rContent(), int(exp)), BoundType::WEAK, rType);
-- 
2.43.0


From e1955e245f941c6c1c5416a7f02d0265263fa0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:25 +0000
Subject: [PATCH 32/70] fix: place coefficients of a univariate polynomial
 built from a map at their exponents

---
 src/carl/core/UnivariatePolynomial.tpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index 162d281..f6a42b2 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -117,13 +117,10 @@ template<typename Coeff>
 UnivariatePolynomial<Coeff>::UnivariatePolynomial(Variable mainVar, const std::map<uint, Coeff>& coefficients)
 : mMainVar(mainVar)
 {
-	mCoefficients.reserve(coefficients.rbegin()->first);
+	if (!coefficients.empty()) mCoefficients.reserve(coefficients.rbegin()->first + 1);
 	for (const auto& expAndCoeff : coefficients)
 	{
-		if(expAndCoeff.first != mCoefficients.size() + 1)
-		{
-			mCoefficients.resize(expAndCoeff.first, Coeff(0));
-		}
+		mCoefficients.resize(expAndCoeff.first, Coeff(0));
 		mCoefficients.push_back(expAndCoeff.second);
 	}
 	this->stripLeadingZeroes();
-- 
2.43.0


From bbcf51d621a1e19daf669fee14bc3b97aff5fd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:25 +0000
Subject: [PATCH 33/70] fix: subtract the polynomial from the coefficient, not
 the other way around

---
 src/carl/core/UnivariatePolynomial.tpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index f6a42b2..46065bf 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -589,7 +589,9 @@ UnivariatePolynomial<C> operator-(const UnivariatePolynomial<C>& lhs, const C& r
 template<typename C>
 UnivariatePolynomial<C> operator-(const C& lhs, const UnivariatePolynomial<C>& rhs)
 {
-	return rhs - lhs;
+	UnivariatePolynomial<C> res(-rhs);
+	res += lhs;
+	return res;
 }
 
 template<typename Coefficient>
-- 
2.43.0


From e1eaba386afe0f99dd068c6a4ffe3f9c26caacb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:25 +0000
Subject: [PATCH 34/70] fix: keep a zero univariate polynomial empty when
 multiplying it by its main variable

---
 src/carl/core/UnivariatePolynomial.tpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index 46065bf..9ce5244 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -597,6 +597,7 @@ UnivariatePolynomial<C> operator-(const C& lhs, const UnivariatePolynomial<C>& r
 template<typename Coefficient>
 template<typename C, EnableIf<is_number<C>>>
 UnivariatePolynomial<Coefficient>& UnivariatePolynomial<Coefficient>::operator*=(Variable rhs) {
+	if (carl::isZero(*this)) return *this;
 	if (rhs == this->mMainVar) {
 		this->mCoefficients.insert(this->mCoefficients.begin(), Coefficient(0));
 		return *this;
@@ -607,6 +608,7 @@ UnivariatePolynomial<Coefficient>& UnivariatePolynomial<Coefficient>::operator*=
 template<typename Coefficient>
 template<typename C, DisableIf<is_number<C>>>
 UnivariatePolynomial<Coefficient>& UnivariatePolynomial<Coefficient>::operator*=(Variable rhs) {
+	if (carl::isZero(*this)) return *this;
 	if (rhs == this->mMainVar) {
 		this->mCoefficients.insert(this->mCoefficients.begin(), Coefficient(0));
 		return *this;
-- 
2.43.0


From ddc3be02d28f25c7ccca3705ab057f7be20f3374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:25 +0000
Subject: [PATCH 35/70] fix: reversing the coefficients of a zero univariate
 polynomial

---
 src/carl/core/UnivariatePolynomial.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/UnivariatePolynomial.h b/src/carl/core/UnivariatePolynomial.h
index 841720e..d941a70 100644
--- a/src/carl/core/UnivariatePolynomial.h
+++ b/src/carl/core/UnivariatePolynomial.h
@@ -447,6 +447,7 @@ public:
 	 */
 	UnivariatePolynomial reverseCoefficients() const {
 		UnivariatePolynomial<Coefficient> res(*this);
+		if (res.mCoefficients.empty()) return res;
 		std::reverse(res.mCoefficients.begin(), res.mCoefficients.end());
 		while(carl::isZero(*std::prev(res.mCoefficients.end())) && std::prev(res.mCoefficients.end()) != res.mCoefficients.begin()) {
 			res.mCoefficients.erase(std::prev(res.mCoefficients.end()));
-- 
2.43.0


From 3a97ab4cad51fdbaff705e91b9842061cc7cd072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:29 +0000
Subject: [PATCH 36/70] fix: strip leading coefficients that vanish modulo the
 given number

---
 src/carl/core/UnivariatePolynomial.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index 9ce5244..2d6f82a 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -153,6 +153,7 @@ UnivariatePolynomial<Coefficient>& UnivariatePolynomial<Coefficient>::mod(const
 	{
 		coeff = carl::mod(coeff, modulus);
 	}
+	stripLeadingZeroes();
 	return *this;
 }
 
-- 
2.43.0


From ce3f18763fc19990c012726f0128c6711f702a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:29 +0000
Subject: [PATCH 37/70] fix: make UnivariatePolynomial::mod usable on constant
 objects

---
 src/carl/core/UnivariatePolynomial.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index 2d6f82a..61813b3 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -160,11 +160,11 @@ UnivariatePolynomial<Coefficient>& UnivariatePolynomial<Coefficient>::mod(const
 template<typename Coefficient>
 UnivariatePolynomial<Coefficient> UnivariatePolynomial<Coefficient>::mod(const Coefficient& modulus) const
 {
-	UnivariatePolynomial<Coefficient> result;
+	UnivariatePolynomial<Coefficient> result(mMainVar);
 	result.mCoefficients.reserve(mCoefficients.size());
 	for(const Coefficient& coeff : mCoefficients)
 	{
-		result.mCoefficients.push_back(mod(coeff, modulus));
+		result.mCoefficients.push_back(carl::mod(coeff, modulus));
 	}
 	result.stripLeadingZeroes();
 	return result;
-- 
2.43.0


From 85161365581930d7e398a8cd91b68cc911b92cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:20 +0000
Subject: [PATCH 38/70] fix: Add the trivial monomial to a polynomial as a
 constant

---
 src/carl/core/MultivariatePolynomial.tpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 7a3f3ea..847bc20 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -761,6 +761,9 @@ MultivariatePolynomial<Coeff, Ordering, Policies>& MultivariatePolynomial<Coeff,
 template<typename Coeff, typename Ordering, typename Policies>
 MultivariatePolynomial<Coeff, Ordering, Policies>& MultivariatePolynomial<Coeff, Ordering, Policies>::operator+=(const Monomial::Arg& rhs)
 {
+	if (!rhs) {
+		return *this += constant_one<Coeff>::get();
+	}
 	if (mTerms.empty()) {
 		// Empty -> just insert.
 		mTerms.emplace_back(constant_one<Coeff>::get(), rhs);
-- 
2.43.0


From 5da8b2c8025b2cc9e198934c229c4dee13037475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:20 +0000
Subject: [PATCH 39/70] fix: Subtract a constant term from a polynomial as a
 constant

---
 src/carl/core/MultivariatePolynomial.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 847bc20..b321765 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -902,6 +902,7 @@ MultivariatePolynomial<Coeff, Ordering, Policies>& MultivariatePolynomial<Coeff,
 {
 	///@todo Check if this works with ordering.
 	if (carl::isZero(rhs.coeff())) return *this;
+	if (rhs.isConstant()) return *this -= rhs.coeff();
 	CARL_LOG_TRACE("carl.core", *this << " -= " << rhs);
 	if (Policies::searchLinear)
 	{
-- 
2.43.0


From 3f0f0f025233a091a07a0d7dfd230655946a856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:20 +0000
Subject: [PATCH 40/70] fix: Multiplying a polynomial with a zero term yields
 zero

---
 src/carl/core/MultivariatePolynomial.tpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index b321765..3b48752 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -1058,6 +1058,10 @@ template<typename Coeff, typename Ordering, typename Policies>
 MultivariatePolynomial<Coeff,Ordering,Policies>& MultivariatePolynomial<Coeff,Ordering,Policies>::operator*=(const Term<Coeff>& rhs)
 {
 	assert(this->isConsistent());
+	if (carl::isZero(rhs)) {
+		mTerms.clear();
+		return *this;
+	}
 	///@todo more efficient.
 	TermsType newTerms;
 	newTerms.reserve(mTerms.size());
-- 
2.43.0


From 84b06170e9c5a77b9ea113c8de1b9ced1c44d0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:20 +0000
Subject: [PATCH 41/70] fix: Keep the order of terms in
 MultivariatePolynomial::addTerm

---
 src/carl/core/MultivariatePolynomial.tpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 3b48752..30ac3ca 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -425,7 +425,10 @@ void MultivariatePolynomial<Coeff,Ordering,Policies>::addTerm(const Term<Coeff>&
 		for (; it != mTerms.end(); it++) {
 			CompareResult res = Ordering::compare(term, *it);
 			switch (res) {
-			case CompareResult::LESS: break;
+			case CompareResult::LESS: {
+				mTerms.insert(it, term);
+				return;
+			}
 			case CompareResult::EQUAL: {
 				it->coeff() += term.coeff();
 				if (carl::isZero(it->coeff())) {
-- 
2.43.0


From 569281d6c3fe1c1477f3377c098f4ad39908e4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:20 +0000
Subject: [PATCH 42/70] fix: Do not lose the added term in
 MultivariatePolynomial::addTerm

---
 src/carl/core/MultivariatePolynomial.tpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 30ac3ca..a67a442 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -464,9 +464,8 @@ void MultivariatePolynomial<Coeff,Ordering,Policies>::addTerm(const Term<Coeff>&
 					return;
 				}
 			}
-			auto lt = mTerms.back();
 			mTerms.push_back(term);
-			std::swap(lt, mTerms.back());
+			std::swap(mTerms[mTerms.size()-2], mTerms.back());
 		}
 		}
 	}
-- 
2.43.0


From 78504ce2c023555c76268a2490c705f81338f112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:20 +0000
Subject: [PATCH 43/70] fix: Subtract the product only once from a zero
 polynomial

---
 src/carl/core/MultivariatePolynomial.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index a67a442..b3e555e 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -383,6 +383,7 @@ void MultivariatePolynomial<Coeff,Ordering,Policies>::subtractProduct(const Term
 	if (carl::isZero(*this)) {
 		*this = - factor * p;
         assert(this->isConsistent());
+		return;
 	}
 	if (carl::isZero(factor.coeff())) return;
 	if (p.nrTerms() == 1) {
-- 
2.43.0


From 086b6c30b28f9e2c5aadff63cb82c9d991333209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:20 +0000
Subject: [PATCH 44/70] fix: Merge equal terms when constructing a polynomial
 from a list

---
 src/carl/core/MultivariatePolynomial.tpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index b3e555e..70a16e0 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -221,24 +221,14 @@ MultivariatePolynomial<Coeff, Ordering, Policies>::MultivariatePolynomial(const
 
 template<typename Coeff, typename Ordering, typename Policies>
 MultivariatePolynomial<Coeff, Ordering, Policies>::MultivariatePolynomial(const std::initializer_list<Term<Coeff>>& terms):
-	Policies(),
-	mTerms(terms),
-	mOrdered(false)
+	MultivariatePolynomial(TermsType(terms))
 {
-	makeMinimallyOrdered();
-	assert(this->isConsistent());
 }
 
 template<typename Coeff, typename Ordering, typename Policies>
 MultivariatePolynomial<Coeff, Ordering, Policies>::MultivariatePolynomial(const std::initializer_list<Variable>& terms):
-	mTerms(),
-	mOrdered(false)
+	MultivariatePolynomial(TermsType(terms.begin(), terms.end()))
 {
-	for (const Variable& t: terms) {
-		mTerms.emplace_back(t);
-	}
-	makeMinimallyOrdered();
-	assert(this->isConsistent());
 }
 
 template<typename Coeff, typename Ordering, typename Policies>
-- 
2.43.0


From b0b9f2ae25cf57c44d036b6b1ed6eda510f65a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:20 +0000
Subject: [PATCH 45/70] fix: The zeroth power of the zero polynomial is one

---
 src/carl/core/polynomialfunctions/Power.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/polynomialfunctions/Power.h b/src/carl/core/polynomialfunctions/Power.h
index 111dc2f..0a3e156 100644
--- a/src/carl/core/polynomialfunctions/Power.h
+++ b/src/carl/core/polynomialfunctions/Power.h
@@ -40,8 +40,8 @@ Term<Coeff> pow(const Term<Coeff>& t, uint exp) {
 template<typename C, typename O, typename P>
 MultivariatePolynomial<C,O,P> pow(const MultivariatePolynomial<C,O,P>& p, std::size_t exp) {
 	//std::cout << "pw(" << *this << " ^ " << exp << ")" << std::endl;
-	if (carl::isZero(p)) return MultivariatePolynomial<C,O,P>(constant_zero<C>::get());
 	if (exp == 0) return MultivariatePolynomial<C,O,P>(constant_one<C>::get());
+	if (carl::isZero(p)) return MultivariatePolynomial<C,O,P>(constant_zero<C>::get());
 	if (exp == 1) return MultivariatePolynomial<C,O,P>(p);
 	if (exp == 2) return p*p;
 	MultivariatePolynomial<C,O,P> res(constant_one<C>::get());
-- 
2.43.0


From e62bd0c4f658f2b797f93a3721fcd0761fa02653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:20 +0000
Subject: [PATCH 46/70] fix: The zeroth power of a variable is the trivial
 monomial

---
 src/carl/core/Monomial.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/Monomial.cpp b/src/carl/core/Monomial.cpp
index 5ce5277..87c081a 100644
--- a/src/carl/core/Monomial.cpp
+++ b/src/carl/core/Monomial.cpp
@@ -351,6 +351,7 @@ namespace carl
 	}
 	
 	Monomial::Arg pow(Variable v, std::size_t exp) {
+		if (exp == 0) return nullptr;
 		return createMonomial(v, exp);
 	}
 }
-- 
2.43.0


From 6e7d3c37e36be419e45630434bd9d97f61910551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:45:33 +0000
Subject: [PATCH 47/70] fix: Allow MultivariatePolynomial::addTerm on an
 unordered zero polynomial

---
 src/carl/core/MultivariatePolynomial.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 70a16e0..97293b5 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -411,7 +411,7 @@ void MultivariatePolynomial<Coeff,Ordering,Policies>::addTerm(const Term<Coeff>&
 		} else mTerms.insert(mTerms.begin(), term);
 		return;
 	}
-	if (mOrdered) {
+	if (mOrdered || mTerms.empty()) {
 		auto it = mTerms.begin();
 		for (; it != mTerms.end(); it++) {
 			CompareResult res = Ordering::compare(term, *it);
-- 
2.43.0


From 893754a044c25b7e94f2aec0a9cb54ee3a3e5c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:44 +0000
Subject: [PATCH 48/70] fix: A constant term is not divisible by a monomial

---
 src/carl/core/Term.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/Term.tpp b/src/carl/core/Term.tpp
index 6403d06..7deec99 100644
--- a/src/carl/core/Term.tpp
+++ b/src/carl/core/Term.tpp
@@ -99,6 +99,7 @@ bool Term<Coefficient>::divide(const Monomial::Arg& m, Term& res) const
 		}
 		return false;
 	}
+	if (m) return false;
 	res = *this;
 	return true;
 }
-- 
2.43.0


From 4c1fab8ad7cdfb96883baf92620a866b69e91342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:44 +0000
Subject: [PATCH 49/70] fix: Convert zero univariate polynomials to
 multivariate ones

---
 src/carl/core/MultivariatePolynomial.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 97293b5..3b3ab7b 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -153,7 +153,7 @@ MultivariatePolynomial<Coeff,Ordering,Policies>::MultivariatePolynomial(const Un
 	mOrdered(true)
 {
 	exponent exp = 0;
-	mTerms.reserve(p.degree());
+	mTerms.reserve(p.coefficients().size());
 	for (const auto& c: p.coefficients()) {
 		if (!carl::isZero(c)) {
 			if (exp == 0) mTerms.emplace_back(c);
-- 
2.43.0


From 573a68492c911c97c247cf6ad003fca5f1309a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:44 +0000
Subject: [PATCH 50/70] fix: Handle trivial monomials in
 Monomial::calcLcmAndDivideBy

---
 src/carl/core/Monomial.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/Monomial.h b/src/carl/core/Monomial.h
index a37e48a..3b9824d 100644
--- a/src/carl/core/Monomial.h
+++ b/src/carl/core/Monomial.h
@@ -450,6 +450,7 @@ namespace carl
 		 * Returns lcm(lhs, rhs) / rhs
 		 */
 		static Monomial::Arg calcLcmAndDivideBy(const Monomial::Arg& lhs, const Monomial::Arg& rhs) {
+			if (!lhs) return nullptr;
 			Monomial::Arg res;
 			bool works = lcm(lhs, rhs)->divide(rhs, res);
 			assert(works);
-- 
2.43.0


From 9db2ccc7dd290a8867459d0f36395cb5a20f9523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:57 +0000
Subject: [PATCH 51/70] fix: compare the zero polynomial with a term without
 accessing its leading term

---
 src/carl/core/MultivariatePolynomial_operators.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/MultivariatePolynomial_operators.h b/src/carl/core/MultivariatePolynomial_operators.h
index d4e1365..ecd9f0c 100644
--- a/src/carl/core/MultivariatePolynomial_operators.h
+++ b/src/carl/core/MultivariatePolynomial_operators.h
@@ -40,7 +40,7 @@ inline bool operator==(const MultivariatePolynomial<C,O,P>& lhs, const Multivari
 template<typename C, typename O, typename P>
 inline bool operator==(const MultivariatePolynomial<C,O,P>& lhs, const Term<C>& rhs) {
 	if (isZero(lhs) && isZero(rhs)) return true;
-	if (lhs.nrTerms() > 1) return false;
+	if (lhs.nrTerms() != 1) return false;
 	return lhs.lterm() == rhs;
 }
 template<typename C, typename O, typename P>
-- 
2.43.0


From 9b340028944f231981e1914017e0ac9d89fd0a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:57 +0000
Subject: [PATCH 52/70] fix: order the zero polynomial among the constants

---
 src/carl/core/MultivariatePolynomial_operators.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/carl/core/MultivariatePolynomial_operators.h b/src/carl/core/MultivariatePolynomial_operators.h
index ecd9f0c..67d6d3d 100644
--- a/src/carl/core/MultivariatePolynomial_operators.h
+++ b/src/carl/core/MultivariatePolynomial_operators.h
@@ -173,9 +173,6 @@ inline bool operator!=(const MultivariatePolynomial<C,O,P>& lhs, const Univariat
  */
 template<typename C, typename O, typename P>
 inline bool operator<(const MultivariatePolynomial<C,O,P>& lhs, const MultivariatePolynomial<C,O,P>& rhs) {
-	if (isZero(lhs) && isZero(rhs)) return false;
-	if (isZero(lhs)) return true;
-	if (isZero(rhs)) return false;
 	if (lhs.totalDegree() != rhs.totalDegree()) return lhs.totalDegree() < rhs.totalDegree();
 	if (lhs.totalDegree() == 0) return lhs.constantPart() < rhs.constantPart();
 	if (lhs.lterm() < rhs.lterm()) return true;
@@ -209,7 +206,7 @@ inline bool operator<(const MultivariatePolynomial<C,O,P>& lhs, Variable rhs) {
 }
 template<typename C, typename O, typename P>
 inline bool operator<(const MultivariatePolynomial<C,O,P>& lhs, const C& rhs) {
-	if (isZero(lhs)) return true;
+	if (isZero(lhs)) return carl::constant_zero<C>().get() < rhs;
 	return lhs.lterm() < rhs;
 }
 template<typename C, typename O, typename P>
-- 
2.43.0


From 36fb0c6563c247b9fe45e3c2c5d2b48b3c08d647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:57 +0000
Subject: [PATCH 53/70] fix: treat a missing variable as exponent zero in
 lexicalCompare

---
 src/carl/core/Monomial.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/core/Monomial.cpp b/src/carl/core/Monomial.cpp
index 87c081a..30ac29a 100644
--- a/src/carl/core/Monomial.cpp
+++ b/src/carl/core/Monomial.cpp
@@ -239,7 +239,7 @@ namespace carl
 		auto rhsend = rhs.mExponents.end();
 		while (lhsit != lhsend) {
 			if (rhsit == rhsend)
-				return CompareResult::GREATER;
+				return CompareResult::LESS;
 			//which variable occurs first
 			if (lhsit->first == rhsit->first) {
 				//equal variables
@@ -254,7 +254,7 @@ namespace carl
 			++rhsit;
 		}
 		assert(rhsit != rhsend);
-		return CompareResult::LESS;
+		return CompareResult::GREATER;
 	}
 	
 	Monomial::Arg operator*(const Monomial::Arg& lhs, const Monomial::Arg& rhs)
-- 
2.43.0


From a2dc6de3a16f8093d8e859bbe838374131afd125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:57 +0000
Subject: [PATCH 54/70] fix: make the lexical monomial ordering admissible

---
 src/carl/core/Monomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/Monomial.h b/src/carl/core/Monomial.h
index 3b9824d..37659a4 100644
--- a/src/carl/core/Monomial.h
+++ b/src/carl/core/Monomial.h
@@ -398,7 +398,7 @@ namespace carl
 				return CompareResult::LESS;
 			if( !rhs )
 				return CompareResult::GREATER;
-			return lexicalCompare(*lhs, *rhs);
+			return lexicalCompare(*rhs, *lhs);
 		}
 		
 		static CompareResult compareLexical(const Monomial::Arg& lhs, Variable rhs)
-- 
2.43.0


From 7ada9931904b6544c1555e6a6983a0a5710f2ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:57 +0000
Subject: [PATCH 55/70] fix: distinguish x*y from x in compareLexical with a
 variable

---
 src/carl/core/Monomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/Monomial.h b/src/carl/core/Monomial.h
index 37659a4..238ef76 100644
--- a/src/carl/core/Monomial.h
+++ b/src/carl/core/Monomial.h
@@ -406,7 +406,7 @@ namespace carl
 			if(!lhs) return CompareResult::LESS;
 			if(lhs->mExponents.front().first < rhs) return CompareResult::GREATER;
 			if(lhs->mExponents.front().first > rhs) return CompareResult::LESS;
-			if(lhs->mExponents.front().second > 1) return CompareResult::GREATER;
+			if(lhs->mTotalDegree > 1) return CompareResult::GREATER;
 			return CompareResult::EQUAL;
 		}
 
-- 
2.43.0


From 9e1aec39dc0a48acc1b2b2689d5de3bdf502803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:57 +0000
Subject: [PATCH 56/70] fix: compare a monomial with a variable like with the
 monomial of that variable

---
 src/carl/core/Monomial.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/core/Monomial.h b/src/carl/core/Monomial.h
index 238ef76..720fac5 100644
--- a/src/carl/core/Monomial.h
+++ b/src/carl/core/Monomial.h
@@ -428,8 +428,8 @@ namespace carl
 		{
 			if(!lhs) return CompareResult::LESS;
 			if(lhs->mTotalDegree > 1) return CompareResult::GREATER;
-			if(lhs->mExponents.front().first < rhs) return CompareResult::GREATER;
-			if(lhs->mExponents.front().first > rhs) return CompareResult::LESS;
+			if(lhs->mExponents.front().first < rhs) return CompareResult::LESS;
+			if(lhs->mExponents.front().first > rhs) return CompareResult::GREATER;
 			if(lhs->mExponents.front().second > 1) return CompareResult::GREATER;
 			return CompareResult::EQUAL;
 		}
-- 
2.43.0


From e546d9c5055bca795d38a30ce940dc22a3be3d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:18:32 +0000
Subject: [PATCH 57/70] fix: evaluate a univariate polynomial over intervals of
 its own number type

---
 src/carl/interval/IntervalEvaluation.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/carl/interval/IntervalEvaluation.h b/src/carl/interval/IntervalEvaluation.h
index 11f36e5..3bc1950 100644
--- a/src/carl/interval/IntervalEvaluation.h
+++ b/src/carl/interval/IntervalEvaluation.h
@@ -108,14 +108,14 @@ template<typename Numeric, typename Coeff, EnableIf<std::is_same<Numeric, Coeff>
 inline Interval<Numeric> IntervalEvaluation::evaluate(const UnivariatePolynomial<Coeff>& p, const std::map<Variable, Interval<Numeric>>& map) {
 	CARL_LOG_FUNC("carl.core.monomial", p << ", " << map);
 	assert(map.count(p.mainVar()) > 0);
-	Interval<Numeric> res = Interval<Numeric>::emptyInterval();
-	const Interval<Numeric> varValue = map.at(p.mainVar());
+	Interval<Numeric> res = Interval<Numeric>(carl::constant_zero<Numeric>().get());
+	const Interval<Numeric>& varValue = map.at(p.mainVar());
 	Interval<Numeric> exp(1);
-	for (unsigned i = 0; i < p.degree(); i++) {
+	for (uint i = 0; i < p.coefficients().size(); i++) {
 		res += p.coefficients()[i] * exp;
         if( res.isInfinite() )
             return res;
-		exp = varValue.pow(i+1);
+		exp = carl::pow(varValue, i+1);
 	}
 	return res;
 }
-- 
2.43.0


From 918706d0e9d7b851e686cfbc3fcb210cb9b81cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:18:32 +0000
Subject: [PATCH 58/70] fix: evaluate the zero univariate polynomial over
 intervals

---
 src/carl/interval/IntervalEvaluation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/interval/IntervalEvaluation.h b/src/carl/interval/IntervalEvaluation.h
index 3bc1950..d4456ec 100644
--- a/src/carl/interval/IntervalEvaluation.h
+++ b/src/carl/interval/IntervalEvaluation.h
@@ -127,7 +127,7 @@ inline Interval<Numeric> IntervalEvaluation::evaluate(const UnivariatePolynomial
 	Interval<Numeric> res = Interval<Numeric>(carl::constant_zero<Numeric>().get());
 	const Interval<Numeric>& varValue = map.at(p.mainVar());
 	Interval<Numeric> exp(1);
-	for (uint i = 0; i <= p.degree(); i++) {
+	for (uint i = 0; i < p.coefficients().size(); i++) {
 		res += IntervalEvaluation::evaluate(p.coefficients()[i], map) * exp;
         if( res.isInfinite() )
             return res;
-- 
2.43.0


From 345fa05f95f6a5533e414fb557b6c01b9c75ad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:18:32 +0000
Subject: [PATCH 59/70] fix: keep every interval when normalizing a contraction
 result

---
 src/carl/interval/Contractor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/interval/Contractor.h b/src/carl/interval/Contractor.h
index 0098a66..ce0e908 100644
--- a/src/carl/interval/Contractor.h
+++ b/src/carl/interval/Contractor.h
@@ -82,7 +82,7 @@ private:
 				bool res = set_union(intervals[last], intervals[i], intervals[last], dummy);
 				assert(!res);
 			} else {
-				++last;
+				intervals[++last] = intervals[i];
 			}
 		}
 		intervals.resize(last + 1);
-- 
2.43.0


From 1e2e092e40afb4c1df1791a5cec03ba816caac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:57:50 +0000
Subject: [PATCH 60/70] fix: respect open and excluded bounds in
 sample_stern_brocot

---
 src/carl/interval/sampling.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/carl/interval/sampling.h b/src/carl/interval/sampling.h
index 50014a6..a1a0ce5 100644
--- a/src/carl/interval/sampling.h
+++ b/src/carl/interval/sampling.h
@@ -55,17 +55,19 @@ Number sample_stern_brocot(const Interval<Number>& i, bool includingBounds = tru
 	Int rightnum = carl::constant_one<Int>::get();
 	Int rightden = carl::constant_zero<Int>::get();
 	Number cur = Number(leftnum) / Number(leftden);
-	if (i.contains(cur)) {
+	bool excludeLower = !includingBounds || i.lowerBoundType() == BoundType::STRICT;
+	bool excludeUpper = !includingBounds || i.upperBoundType() == BoundType::STRICT;
+	if (i.isUnbounded() || (i.lower() < cur && cur < i.upper()) || (includingBounds && i.contains(cur))) {
 		return cur;
 	}
 	while (true) {
 		Int curnum = leftnum + rightnum;
 		Int curden = leftden + rightden;
 		cur = Number(curnum) / Number(curden);
-		if ((cur < i.lower()) || (!includingBounds && cur == i.lower())) {
+		if ((cur < i.lower()) || (excludeLower && cur == i.lower())) {
 			leftnum = curnum;
 			leftden = curden;
-		} else if ((cur > i.upper()) || (!includingBounds && cur == i.upper())) {
+		} else if ((cur > i.upper()) || (excludeUpper && cur == i.upper())) {
 			rightnum = curnum;
 			rightden = curden;
 		} else {
-- 
2.43.0


From 8a6caf96fe21c27541afcefc224b62c54dd57588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:07:20 +0000
Subject: [PATCH 61/70] fix: the denominator of an integer is one

---
 src/carl/numbers/adaption_gmpxx/operations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/numbers/adaption_gmpxx/operations.h b/src/carl/numbers/adaption_gmpxx/operations.h
index 4cbfc99..329acd5 100644
--- a/src/carl/numbers/adaption_gmpxx/operations.h
+++ b/src/carl/numbers/adaption_gmpxx/operations.h
@@ -92,8 +92,8 @@ inline mpz_class getDenom(const mpq_class& n) {
 	return n.get_den();
 }
 
-inline mpz_class getDenom(const mpz_class& n) {
-	return n;
+inline mpz_class getDenom(const mpz_class& /*unused*/) {
+	return constant_one<mpz_class>::get();
 }
 
 inline bool isInteger(const mpq_class& n) {
-- 
2.43.0


From 0de599563bf638d70802cc741dd86e78caac5df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:20:02 +0000
Subject: [PATCH 62/70] fix: reduce negative numbers and fields of even size in
 symmetricModulo

---
 src/carl/numbers/GaloisField.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/carl/numbers/GaloisField.h b/src/carl/numbers/GaloisField.h
index defe330..95a9106 100644
--- a/src/carl/numbers/GaloisField.h
+++ b/src/carl/numbers/GaloisField.h
@@ -36,8 +36,7 @@ private:
 	const BaseIntType mP;
 	const BaseIntType mK;
 	const IntegerType mPK; // = mP ^ mK
-	const IntegerType mMaxValue; // = (mPK-1) / 2
-	const IntegerType mModulus; // = (mPK+1) / 2 = mMaxValue + 1
+	const IntegerType mMaxValue; // = mPK / 2
 	
 	public:
 	/**
@@ -49,8 +48,7 @@ private:
 	explicit GaloisField(BaseIntType p, BaseIntType k = 1):
 		mP(p), mK(k),
 		mPK(pow(p,k)),
-		mMaxValue((mPK-1)/2),
-		mModulus(mMaxValue+1)
+		mMaxValue(mPK/2)
 	{ 
 	}
 	
@@ -79,11 +77,13 @@ private:
 	}
 	
 	IntegerType symmetricModulo(const IntegerType& n) const	{
-		if (n > mMaxValue) {
-			return carl::mod(IntegerType(n-mModulus), mPK) - mMaxValue;
-		} else {
-			return carl::mod(n, mPK);
+		IntegerType res = carl::mod(n, mPK);
+		if (res > mMaxValue) {
+			res -= mPK;
+		} else if (res <= mMaxValue - mPK) {
+			res += mPK;
 		}
+		return res;
 	}
 	
 	friend bool operator==(const GaloisField& lhs, const GaloisField& rhs) {
-- 
2.43.0


From 836ab0d64458835c8cbd12ff828b2ed5e0f52e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:20:02 +0000
Subject: [PATCH 63/70] fix: GFNumber::normalize and the change of field reduce
 the number

---
 src/carl/numbers/GFNumber.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/carl/numbers/GFNumber.h b/src/carl/numbers/GFNumber.h
index 39209de..fbff543 100644
--- a/src/carl/numbers/GFNumber.h
+++ b/src/carl/numbers/GFNumber.h
@@ -32,7 +32,7 @@ class GFNumber
 	}
 	
 	GFNumber(const GFNumber& n, const GaloisField<IntegerType>* gf):
-		mN(n.mN),
+		mN(gf == nullptr ? n.mN : gf->symmetricModulo(n.mN)),
 		mGf(gf)
 	{
 	}
@@ -49,9 +49,7 @@ class GFNumber
 	
 	void normalize()
 	{
-		if(isZero() || isUnit()) return;
-		assert(mGf != nullptr);
-		mGf->modulo(mN);
+		if(mGf != nullptr) mN = mGf->modulo(mN);
 	}
 	
 	bool isZero() const
-- 
2.43.0


From eadbc1195475835c007437d6e40ae3268f2ff7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:20:02 +0000
Subject: [PATCH 64/70] fix: in-place operators of GFNumber stay in the field

---
 src/carl/numbers/GFNumber.tpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/carl/numbers/GFNumber.tpp b/src/carl/numbers/GFNumber.tpp
index c546ea6..f938d15 100644
--- a/src/carl/numbers/GFNumber.tpp
+++ b/src/carl/numbers/GFNumber.tpp
@@ -116,6 +116,7 @@ template<typename IntegerT>
 GFNumber<IntegerT>& GFNumber<IntegerT>::operator ++()
 {
 	mN++;
+	normalize();
 	return *this;
 }
 
@@ -127,6 +128,7 @@ GFNumber<IntegerType>& GFNumber<IntegerType>::operator +=(const GFNumber& rhs)
 		mGf = rhs.mGf;
 	}
 	mN += rhs.mN;
+	normalize();
 	return *this;
 }
 
@@ -134,6 +136,7 @@ template<typename IntegerType>
 GFNumber<IntegerType>& GFNumber<IntegerType>::operator +=(const IntegerType& rhs)
 {
 	mN += rhs;
+	normalize();
 	return *this;
 }
 
@@ -159,17 +162,18 @@ template<typename IntegerT>
 GFNumber<IntegerT>& GFNumber<IntegerT>::operator --()
 {
 	mN--;
+	normalize();
 	return *this;
 }
 
 template<typename IntegerType>
 GFNumber<IntegerType>& GFNumber<IntegerType>::operator -=(const GFNumber& rhs)
 {
-	if (rhs.isZero()) return *this;
 	if (mGf == nullptr) {
 		mGf = rhs.mGf;
 	}
 	mN -= rhs.mN;
+	normalize();
 	return *this;
 }
 
@@ -177,6 +181,7 @@ template<typename IntegerType>
 GFNumber<IntegerType>& GFNumber<IntegerType>::operator -=(const IntegerType& rhs)
 {
 	mN -= rhs;
+	normalize();
 	return *this;
 }
 
@@ -201,8 +206,12 @@ GFNumber<IntegerT> operator*(const IntegerT& lhs, const GFNumber<IntegerT>& rhs)
 template<typename IntegerT>
 GFNumber<IntegerT>& GFNumber<IntegerT>::operator *=(const GFNumber& rhs)
 {
-	assert(rhs.mGf == nullptr || *mGf == *(rhs.mGf));
+	assert(mGf == nullptr || rhs.mGf == nullptr || *mGf == *(rhs.mGf));
+	if (mGf == nullptr) {
+		mGf = rhs.mGf;
+	}
 	mN *= rhs.mN;
+	normalize();
 	return *this;
 }
 
@@ -210,6 +219,7 @@ template<typename IntegerType>
 GFNumber<IntegerType>& GFNumber<IntegerType>::operator *=(const IntegerType& rhs)
 {
 	mN *= rhs;
+	normalize();
 	return *this;
 }
 
-- 
2.43.0


From 6ab92da14546b84b717b9ec9f702ec00e55ed870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:20:02 +0000
Subject: [PATCH 65/70] fix: GFNumber::operator/= divides

---
 src/carl/numbers/GFNumber.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/numbers/GFNumber.tpp b/src/carl/numbers/GFNumber.tpp
index f938d15..e369a56 100644
--- a/src/carl/numbers/GFNumber.tpp
+++ b/src/carl/numbers/GFNumber.tpp
@@ -237,7 +237,7 @@ template<typename IntegerT>
 GFNumber<IntegerT>& GFNumber<IntegerT>::operator /=(const GFNumber<IntegerT>& rhs)
 {
 	assert(!rhs.isZero());
-	mN * rhs.inverse().mN;
+	*this = *this / rhs;
 	return *this;
 }
 
-- 
2.43.0


From b382016368f9b2f5ed529c917d2680a74cede24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:20:02 +0000
Subject: [PATCH 66/70] fix: GFNumber equals every integer of its residue class

---
 src/carl/numbers/GFNumber.tpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/carl/numbers/GFNumber.tpp b/src/carl/numbers/GFNumber.tpp
index e369a56..5f9891b 100644
--- a/src/carl/numbers/GFNumber.tpp
+++ b/src/carl/numbers/GFNumber.tpp
@@ -38,7 +38,7 @@ template<typename IntegerT>
 bool operator==(const GFNumber<IntegerT>& lhs, const IntegerT& rhs)
 {
 	assert(lhs.mGf != nullptr);
-	return lhs.mGf->modulo(lhs.mN) == rhs;
+	return lhs.mGf->modulo(lhs.mN - rhs) == 0;
 }
 template<typename IntegerT>
 bool operator==(const IntegerT& lhs, const GFNumber<IntegerT>& rhs)
@@ -50,10 +50,8 @@ bool operator==(const GFNumber<IntegerT>& lhs, int rhs)
 {
 	if(lhs.isZero() && rhs == 0) return true;
 	if(lhs.isUnit() && rhs == 1) return true;
-	if(lhs.isZero() && rhs != 0) return false;
-	if(lhs.isUnit() && rhs != 1) return false;
-	assert(lhs.mGf != nullptr);
-	return lhs.mGf->modulo(lhs.mN) == rhs;
+	if(lhs.mGf == nullptr) return lhs.mN == rhs;
+	return lhs.mGf->modulo(lhs.mN - rhs) == 0;
 }
 template<typename IntegerT>
 bool operator==(int lhs, const GFNumber<IntegerT>& rhs)
-- 
2.43.0


From c240c0570b9cafa897c90154fd98cbe4ebd4b2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:21:35 +0000
Subject: [PATCH 67/70] fix: compute the size of a field without machine
 overflow

---
 src/carl/numbers/GaloisField.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/numbers/GaloisField.h b/src/carl/numbers/GaloisField.h
index 95a9106..b6850fa 100644
--- a/src/carl/numbers/GaloisField.h
+++ b/src/carl/numbers/GaloisField.h
@@ -47,7 +47,7 @@ private:
      */
 	explicit GaloisField(BaseIntType p, BaseIntType k = 1):
 		mP(p), mK(k),
-		mPK(pow(p,k)),
+		mPK(pow(IntegerType(p),k)),
 		mMaxValue(mPK/2)
 	{ 
 	}
-- 
2.43.0


From c7e9ad996b11e3002db73061f340f414650e8ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:32:52 +0000
Subject: [PATCH 68/70] fix: equal univariate polynomials have equal hashes

---
 src/carl/core/UnivariatePolynomial.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/carl/core/UnivariatePolynomial.h b/src/carl/core/UnivariatePolynomial.h
index d941a70..356a9a7 100644
--- a/src/carl/core/UnivariatePolynomial.h
+++ b/src/carl/core/UnivariatePolynomial.h
@@ -877,7 +877,14 @@ struct hash<carl::UnivariatePolynomial<Coefficient>> {
 	 * @return Hash of p.
 	 */
 	std::size_t operator()(const carl::UnivariatePolynomial<Coefficient>& p) const {
-		return carl::hash_all(p.mainVar(), p.coefficients());
+		// Equal polynomials may have different main variables.
+		if constexpr (carl::is_number<Coefficient>::value) {
+			if (p.coefficients().size() <= 1) return carl::hash_all(p.coefficients());
+			return carl::hash_all(p.mainVar(), p.coefficients());
+		} else {
+			using MultiPoly = carl::MultivariatePolynomial<typename carl::UnderlyingNumberType<Coefficient>::type>;
+			return std::hash<MultiPoly>()(MultiPoly(p));
+		}
 	}
 };
 
-- 
2.43.0


From 9beb97566a864992e63dd74bf7808da6af4c6438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:42:27 +0000
Subject: [PATCH 69/70] fix: minimal degree of a variable collected from a
 polynomial

---
 src/carl/core/VariableInformation.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/carl/core/VariableInformation.h b/src/carl/core/VariableInformation.h
index 74fb553..ac9e121 100644
--- a/src/carl/core/VariableInformation.h
+++ b/src/carl/core/VariableInformation.h
@@ -81,7 +81,8 @@ public:
 		 * @return true if degree was smaller.
          */
 	bool lowerMinDegree(std::size_t degree) {
-		if (mMinDegree > degree) {
+		// Zero means that the variable did not occur yet.
+		if (mMinDegree == 0 || mMinDegree > degree) {
 			mMinDegree = degree;
 			return true;
 		}
@@ -104,10 +105,8 @@ public:
 			// One more term in which the variable occurs.
 			increaseOccurence();
 			// Update minimal/maximal degree.
-			if (!raiseMaxDegree(e)) {
-				// Only if raising failed, lowering can be successful.
-				lowerMinDegree(e);
-			}
+			raiseMaxDegree(e);
+			lowerMinDegree(e);
 		}
 	}
 };
@@ -179,10 +178,8 @@ public:
 			// One more term in which the variable occurs.
 			this->increaseOccurence();
 			// Update minimal/maximal degree.
-			if (!this->raiseMaxDegree(e)) {
-				// Only if raising failed, lowering can be successful.
-				this->lowerMinDegree(e);
-			}
+			this->raiseMaxDegree(e);
+			this->lowerMinDegree(e);
 		}
 	}
 };
-- 
2.43.0


From 7cba6cfabfa29a438f94744f0125a4afdca1a07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:34:07 +0000
Subject: [PATCH 70/70] fix: reject settings quantities whose scaled value
 exceeds the range

---
 src/carl-settings/settings_utils.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/carl-settings/settings_utils.cpp b/src/carl-settings/settings_utils.cpp
index be75833..a44a4b4 100644
--- a/src/carl-settings/settings_utils.cpp
+++ b/src/carl-settings/settings_utils.cpp
@@ -4,6 +4,8 @@
 #include <boost/program_options.hpp>
 #include <boost/spirit/include/qi.hpp>
 
+#include <limits>
+
 namespace carl::settings {
 
 // Adapted from https://stackoverflow.com/questions/45071699/
@@ -26,6 +28,9 @@ void validate(boost::any& v, const std::vector<std::string>& values, carl::setti
 		("h", std::chrono::hours(1))
 	;
 	if (qi::parse(s.begin(), s.end(), qi::long_ >> unit >> qi::eoi, value, factor)) {
+		if (value > std::numeric_limits<long>::max() / factor.count() || value < std::numeric_limits<long>::min() / factor.count()) {
+			throw boost::program_options::invalid_option_value(s);
+		}
 		v = duration(value * factor);
 	} else {
 		throw boost::program_options::invalid_option_value(s);
@@ -56,6 +61,9 @@ void validate(boost::any& v, const std::vector<std::string>& values, carl::setti
 		("Ei", static_cast<std::size_t>(1) << 60U)
 	;
 	if (qi::parse(s.begin(), s.end(), qi::ulong_long >> -unit >> qi::eoi, value, factor)) {
+		if (value > std::numeric_limits<std::size_t>::max() / factor) {
+			throw boost::program_options::invalid_option_value(s);
+		}
 		v = binary_quantity(value * factor);
 	} else {
 		throw boost::program_options::invalid_option_value(s);
@@ -80,6 +88,9 @@ void validate(boost::any& v, const std::vector<std::string>& values, carl::setti
 		("E", 1000000000000000000)
 	;
 	if (qi::parse(s.begin(), s.end(), qi::ulong_long >> -unit >> qi::eoi, value, factor)) {
+		if (value > std::numeric_limits<std::size_t>::max() / factor) {
+			throw boost::program_options::invalid_option_value(s);
+		}
 		v = metric_quantity(value * factor);
 	} else {
 		throw boost::program_options::invalid_option_value(s);
-- 
2.43.0

