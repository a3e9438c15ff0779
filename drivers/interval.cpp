// Query driver: names the interval API with concrete types; parsed only, never linked or run.
#include <carl/numbers/numbers.h>
#include <carl/interval/Interval.h>
#include <carl/interval/set_theory.h>
#include <carl/interval/sampling.h>
#include <carl/interval/power.h>
#include <carl/interval/IntervalEvaluation.h>
using Q = mpq_class;
using I = carl::Interval<Q>;
using B = carl::BoundType;
using LB = carl::LowerBound<Q>;
using UB = carl::UpperBound<Q>;
using BI = I::BoostInterval;
// construction and access
I q_mk4(const Q& a, B l, const Q& b, B u) { return I(a, l, b, u); }
I q_mk2(const Q& a, const Q& b) { return I(a, b); }
I q_mk1(const Q& a) { return I(a); }
I q_mkdef() { return I(); }
I q_mkboost(const Q& a, B l, const Q& b, B u) { return I(BI(a, b), l, u); }
I q_mkboost1(const Q& a, const Q& b) { return I(BI(a, b)); }
I q_mklu(const Q& a, B l, const Q& b, B u) { return I(LB{a, l}, UB{b, u}); }
I q_mkll(const Q& a, B l, const Q& b, B u) { return I(LB{a, l}, LB{b, u}); }
I q_mkuu(const Q& a, B l, const Q& b, B u) { return I(UB{a, l}, UB{b, u}); }
I q_mkint4(int a, B l, int b, B u) { return I(a, l, b, u); }
I q_mkint2(int a, int b) { return I(a, b); }
I q_mkint1(int a) { return I(a); }
I q_mkuint4(unsigned a, B l, unsigned b, B u) { return I(a, l, b, u); }
I q_mkuint2(unsigned a, unsigned b) { return I(a, b); }
I q_mkuint1(unsigned a) { return I(a); }
I q_mkdbl4(double a, B l, double b, B u) { return I(a, l, b, u); }
I q_copy(const I& a) { return I(a); }
void q_assign(I& a, const I& b) { a = b; }
I q_empty() { return I::emptyInterval(); }
I q_unbounded() { return I::unboundedInterval(); }
I q_zero() { return I::zeroInterval(); }
Q q_lower(const I& i) { return i.lower(); }
Q q_upper(const I& i) { return i.upper(); }
B q_lt(const I& i) { return i.lowerBoundType(); }
B q_ut(const I& i) { return i.upperBoundType(); }
Q q_lbn(const I& i) { return i.lowerBound().number; }
Q q_ubn(const I& i) { return i.upperBound().number; }
B q_lbt(const I& i) { return i.lowerBound().bound_type; }
B q_ubt(const I& i) { return i.upperBound().bound_type; }
void q_setLower(I& i, const Q& n) { i.setLower(n); }
void q_setUpper(I& i, const Q& n) { i.setUpper(n); }
void q_setLowerBound(I& i, const Q& n, B b) { i.setLowerBound(n, b); }
void q_setUpperBound(I& i, const Q& n, B b) { i.setUpperBound(n, b); }
void q_setLowerBoundType(I& i, B b) { i.setLowerBoundType(b); }
void q_setUpperBoundType(I& i, B b) { i.setUpperBoundType(b); }
// predicates
bool q_isInfinite(const I& i) { return i.isInfinite(); }
bool q_isUnbounded(const I& i) { return i.isUnbounded(); }
bool q_isHalfBounded(const I& i) { return i.isHalfBounded(); }
bool q_isEmpty(const I& i) { return i.isEmpty(); }
bool q_isPointInterval(const I& i) { return i.isPointInterval(); }
bool q_isOpenInterval(const I& i) { return i.isOpenInterval(); }
bool q_isClosedInterval(const I& i) { return i.isClosedInterval(); }
bool q_isZero(const I& i) { return i.isZero(); }
bool q_isOne(const I& i) { return i.isOne(); }
bool q_isZeroF(const I& i) { return carl::isZero(i); }
bool q_isOneF(const I& i) { return carl::isOne(i); }
bool q_isPositive(const I& i) { return i.isPositive(); }
bool q_isNegative(const I& i) { return i.isNegative(); }
bool q_isSemiPositive(const I& i) { return i.isSemiPositive(); }
bool q_isSemiNegative(const I& i) { return i.isSemiNegative(); }
carl::Sign q_sgn(const I& i) { return i.sgn(); }
bool q_containsN(const I& i, const Q& n) { return i.contains(n); }
bool q_containsI(const I& i, const I& n) { return i.contains(n); }
bool q_meets(const I& i, const Q& n) { return i.meets(n); }
// set operations
I q_intersection(const I& a, const I& b) { return carl::set_intersection(a, b); }
bool q_union(const I& a, const I& b, I& x, I& y) { return carl::set_union(a, b, x, y); }
bool q_difference(const I& a, const I& b, I& x, I& y) { return carl::set_difference(a, b, x, y); }
bool q_symdiff(const I& a, const I& b, I& x, I& y) { return carl::set_symmetric_difference(a, b, x, y); }
bool q_complement(const I& a, I& x, I& y) { return carl::set_complement(a, x, y); }
bool q_have(const I& a, const I& b) { return carl::set_have_intersection(a, b); }
bool q_subset(const I& a, const I& b) { return carl::set_is_subset(a, b); }
bool q_psubset(const I& a, const I& b) { return carl::set_is_proper_subset(a, b); }
// comparisons
bool q_eq(const I& a, const I& b) { return a == b; }
bool q_ne(const I& a, const I& b) { return a != b; }
bool q_lt2(const I& a, const I& b) { return a < b; }
bool q_gt2(const I& a, const I& b) { return a > b; }
bool q_le2(const I& a, const I& b) { return a <= b; }
bool q_ge2(const I& a, const I& b) { return a >= b; }
bool q_eqn(const I& a, const Q& b) { return a == b; }
bool q_nen(const I& a, const Q& b) { return a != b; }
bool q_ltn(const I& a, const Q& b) { return a < b; }
bool q_gtn(const I& a, const Q& b) { return a > b; }
bool q_len(const I& a, const Q& b) { return a <= b; }
bool q_gen(const I& a, const Q& b) { return a >= b; }
bool q_neq(const Q& a, const I& b) { return a == b; }
bool q_nne(const Q& a, const I& b) { return a != b; }
bool q_nlt(const Q& a, const I& b) { return a < b; }
bool q_ngt(const Q& a, const I& b) { return a > b; }
bool q_nle(const Q& a, const I& b) { return a <= b; }
bool q_nge(const Q& a, const I& b) { return a >= b; }
bool q_ll_lt(const Q& a, B l, const Q& b, B u) { return LB{a, l} < LB{b, u}; }
bool q_ll_le(const Q& a, B l, const Q& b, B u) { return LB{a, l} <= LB{b, u}; }
bool q_uu_lt(const Q& a, B l, const Q& b, B u) { return UB{a, l} < UB{b, u}; }
bool q_uu_le(const Q& a, B l, const Q& b, B u) { return UB{a, l} <= UB{b, u}; }
bool q_ul_lt(const Q& a, B l, const Q& b, B u) { return UB{a, l} < LB{b, u}; }
bool q_lu_le(const Q& a, B l, const Q& b, B u) { return LB{a, l} <= UB{b, u}; }
bool q_connect(const Q& a, B l, const Q& b, B u) { return carl::bounds_connect(UB{a, l}, LB{b, u}); }
// sampling
Q q_blower(const BI& b) { return b.lower(); }
Q q_bupper(const BI& b) { return b.upper(); }
Q q_center(const I& i) { return carl::center(i); }
Q q_sample(const I& i, bool b) { return carl::sample(i, b); }
Q q_sample_sb(const I& i, bool b) { return carl::sample_stern_brocot(i, b); }
Q q_sample_left(const I& i) { return carl::sample_left(i); }
Q q_sample_right(const I& i) { return carl::sample_right(i); }
Q q_sample_zero(const I& i) { return carl::sample_zero(i); }
Q q_sample_infty(const I& i) { return carl::sample_infty(i); }
bool q_containsInteger(const I& i) { return i.containsInteger(); }
std::size_t q_hash(const I& i) { return std::hash<I>()(i); }
