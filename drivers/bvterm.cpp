// Query driver: bit-vector terms and constraints; parsed only, never linked or run.
#include <carl/numbers/numbers.h>
#include <carl/util/Common.h>
#include <carl/formula/bitvector/BVTermPool.h>
#include <carl/formula/bitvector/BVTermContent.h>
#include <carl/formula/bitvector/BVConstraintPool.h>
#include <carl/formula/bitvector/BVConstraint.h>
#include <carl/formula/bitvector/BVValue.cpp>
#include <carl/formula/bitvector/BVTerm.cpp>
#include <carl/formula/bitvector/BVTermPool.cpp>
#include <carl/formula/bitvector/BVConstraint.cpp>
#include <carl/formula/bitvector/BVConstraintPool.cpp>
using V = carl::BVValue;
using B = V::Base;
using N = std::size_t;
using T = carl::BVTerm;
using K = carl::BVTermType;
using X = carl::BVVariable;
using R = carl::BVCompareRelation;
using C = carl::BVConstraint;
V q_make(const B& b) { return V(B(b)); }
B q_base(const V& v) { return v.base(); }
T q_const(const V& v) { return T(K::CONSTANT, v); }
X q_bvvar(const carl::Variable& v, const carl::Sort& s) { return X(v, s); }
T q_var(const X& v) { return T(K::VARIABLE, v); }
T q_un(K k, const T& a, N i) { return T(k, a, i); }
T q_bin(K k, const T& a, const T& b) { return T(k, a, b); }
T q_ext(K k, const T& a, N h, N l) { return T(k, a, h, l); }
K q_type(const T& t) { return t.type(); }
N q_width(const T& t) { return t.width(); }
bool q_isConst(const T& t) { return t.isConstant(); }
bool q_isInvalid(const T& t) { return t.isInvalid(); }
V q_value(const T& t) { return t.value(); }
T q_operand(const T& t) { return t.operand(); }
T q_first(const T& t) { return t.first(); }
T q_second(const T& t) { return t.second(); }
N q_index(const T& t) { return t.index(); }
N q_highest(const T& t) { return t.highest(); }
N q_lowest(const T& t) { return t.lowest(); }
X q_variable(const T& t) { return t.variable(); }
bool q_teq(const T& a, const T& b) { return a == b; }
bool q_tless(const T& a, const T& b) { return a < b; }
bool q_xeq(const X& a, const X& b) { return a == b; }
bool q_xless(const X& a, const X& b) { return a < b; }
bool q_isUnary(K k) { return carl::typeIsUnary(k); }
bool q_isBinary(K k) { return carl::typeIsBinary(k); }
T q_subst(const T& t, const std::map<X, T>& m) { return t.substitute(m); }
std::set<X> q_vars(const T& t) { std::set<X> s; t.gatherBVVariables(s); return s; }
std::set<X> q_cvars(const C& c) { std::set<X> s; c.gatherBVVariables(s); return s; }
bool q_cvhas(const C& c, const carl::Variable& v) { carl::carlVariables s; c.gatherVariables(s); return s.has(v); }
N q_complexity(const T& t) { return t.complexity(); }
C q_constr(R r, const T& a, const T& b) { return C::create(r, a, b); }
C q_truth(bool b) { return C::create(b); }
bool q_cTrue(const C& c) { return c.isAlwaysConsistent(); }
bool q_cFalse(const C& c) { return c.isAlwaysInconsistent(); }
bool q_cConst(const C& c) { return c.isConstant(); }
T q_cl(const C& c) { return c.lhs(); }
T q_cr(const C& c) { return c.rhs(); }
R q_crel(const C& c) { return c.relation(); }
N q_cid(const C& c) { return c.id(); }
bool q_ceq(const C& a, const C& b) { return a == b; }
// operations the pools apply inside library containers
bool q_k1(const carl::BVUnaryContent& a, const carl::BVUnaryContent& b) { return a == b || a < b; }
bool q_k2(const carl::BVBinaryContent& a, const carl::BVBinaryContent& b) { return a == b || a < b; }
bool q_k3(const carl::BVExtractContent& a, const carl::BVExtractContent& b) { return a == b || a < b; }
bool q_k4(const V& a, const V& b) { return a == b || a < b; }
bool q_k5(const carl::BVTermContent& a, const carl::BVTermContent& b) { return a == b || a < b; }
N q_h1(const carl::BVUnaryContent& a) { return std::hash<carl::BVUnaryContent>()(a); }
N q_h2(const carl::BVBinaryContent& a) { return std::hash<carl::BVBinaryContent>()(a); }
N q_h3(const carl::BVExtractContent& a) { return std::hash<carl::BVExtractContent>()(a); }
N q_h4(const V& a) { return std::hash<V>()(a); }
N q_h5(const X& a) { return std::hash<X>()(a); }
N q_h6(const carl::BVTermContent& a) { return std::hash<carl::BVTermContent>()(a); }
N q_h7(const carl::BVConstraint& a) { return std::hash<carl::BVConstraint>()(a); }
N q_h8(const carl::BVTermContent* a) { return carl::pointerHash<carl::BVTermContent>()(a); }
N q_h9(const carl::BVConstraint* a) { return carl::pointerHash<carl::BVConstraint>()(a); }
bool q_e8(const carl::BVTermContent* a) { return carl::pointerEqual<carl::BVTermContent>()(a, a); }
bool q_e9(const carl::BVConstraint* a) { return carl::pointerEqual<carl::BVConstraint>()(a, a); }
