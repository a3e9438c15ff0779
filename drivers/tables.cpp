// Query driver: relation, sign and bound-kind tables; parsed only, never linked or run.
#include <carl/numbers/numbers.h>
#include <carl/core/Relation.h>
#include <carl/core/Sign.h>
#include <carl/interval/BoundType.h>
#include <carl/formula/bitvector/BVCompareRelation.h>
#include <vector>
using Q = mpq_class;
using Z = mpz_class;
using R = carl::Relation;
using S = carl::Sign;
using B = carl::BoundType;
using V = carl::BVCompareRelation;
R q_inverse(R r) { return carl::inverse(r); }
R q_turn(R r) { return carl::turn_around(r); }
bool q_isStrict(R r) { return carl::isStrict(r); }
bool q_isWeak(R r) { return carl::isWeak(r); }
bool q_evalS(S s, R r) { return carl::evaluate(s, r); }
bool q_evalQ(const Q& s, R r) { return carl::evaluate(s, r); }
bool q_evalQQ(const Q& a, R r, const Q& b) { return carl::evaluate(a, r, b); }
bool q_evalZZ(const Z& a, R r, const Z& b) { return carl::evaluate(a, r, b); }
S q_sgnQ(const Q& a) { return carl::sgn(a); }
S q_sgnZ(const Z& a) { return carl::sgn(a); }
S q_sgnI(int a) { return carl::sgn(a); }
std::string q_strR(R r) { return carl::toString(r); }
std::size_t q_varS(const std::vector<S>& v) { return carl::sign_variations(v.begin(), v.end()); }
std::size_t q_varF(const std::vector<Q>& v) { return carl::sign_variations(v.begin(), v.end(), [](const Q& x) { return carl::sgn(x); }); }
B q_weakest(B a, B b) { return carl::getWeakestBoundType(a, b); }
B q_strictest(B a, B b) { return carl::getStrictestBoundType(a, b); }
B q_other(B a) { return carl::getOtherBoundType(a); }
V q_vinverse(V r) { return carl::inverse(r); }
bool q_vstrict(V r) { return carl::relationIsStrict(r); }
bool q_vsigned(V r) { return carl::relationIsSigned(r); }
std::string q_strV(V r) { return carl::toString(r); }
std::size_t q_idV(V r) { return carl::toId(r); }
