// Query driver: constraints over intervals and contractors; parsed only, never linked or run.
#include <carl/core/Monomial.cpp>
#include <carl/core/MonomialPool.cpp>
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/VariablePool.h>
#include <carl/formula/Constraint.h>
#include <carl/core/SimpleConstraint.h>
#include <carl/interval/evaluate.h>
using Q = mpq_class;
using P = carl::MultivariatePolynomial<Q>;
using C = carl::Constraint<P>;
using D = carl::Interval<double>;
using I = carl::Interval<Q>;
using V = carl::Variable;
using R = carl::Relation;
using MD = carl::EvaluationMap<D>;
using MI = carl::EvaluationMap<I>;
using B = carl::BoundType;
using M = carl::Monomial::Arg;
using T = carl::Term<Q>;
using Content = std::vector<std::pair<V, carl::exponent>>;
// values
V q_novar() { return V(); }
M q_null() { return nullptr; }
Content q_content() { return Content(); }
void q_push(Content& c, V v, carl::exponent e) { c.emplace_back(v, e); }
M q_mon(const Content& c) { return carl::createMonomial(Content(c)); }
T q_tcm(const Q& c, const M& m) { return T(c, m); }
P q_zero() { return P(); }
D q_dmk4(double a, B l, double b, B u) { return D(a, l, b, u); }
D q_dempty() { return D::emptyInterval(); }
D q_dmkdef() { return D(); }
double q_dlower(const D& i) { return i.lower(); }
double q_dupper(const D& i) { return i.upper(); }
B q_dlt(const D& i) { return i.lowerBoundType(); }
B q_dut(const D& i) { return i.upperBoundType(); }
I q_mk4(const Q& a, B l, const Q& b, B u) { return I(a, l, b, u); }
I q_empty() { return I::emptyInterval(); }
I q_mkdef() { return I(); }
Q q_lower(const I& i) { return i.lower(); }
Q q_upper(const I& i) { return i.upper(); }
B q_lt(const I& i) { return i.lowerBoundType(); }
B q_ut(const I& i) { return i.upperBoundType(); }
MD q_mapd() { return MD(); }
MI q_mapi() { return MI(); }
void q_putd(MD& m, V v, const D& d) { m.emplace(v, d); }
void q_puti(MI& m, V v, const I& d) { m.emplace(v, d); }
carl::carlVariables q_vars() { return carl::carlVariables(); }
void q_addvar(carl::carlVariables& s, V v) { s.add(v); }
// verdicts
unsigned q_consistent(const C& c, const MD& m) { return c.consistentWith(m); }
unsigned q_consistent2(const C& c, const MD& m, R& r) { return c.consistentWith(m, r); }
unsigned q_evaluate(const C& c, const MI& m) { return c.evaluate(m); }
boost::tribool q_tri(const I& i, R r) { return carl::evaluate(i, r); }
bool q_finite(const C& c, V v) { return c.hasFinitelyManySolutionsIn(v); }
// construction
C q_bound(V v, R r, const Q& b) { return C(v, r, b); }
C q_poly(const P& p, R r) { return C(p, r); }
C q_trivial(bool b) { return C(b); }
R q_rel(const C& c) { return c.relation(); }
P q_lhs(const C& c) { return c.lhs(); }
unsigned q_cons(const C& c) { return c.isConsistent(); }
unsigned q_satisfied(const C& c, const carl::EvaluationMap<Q>& m) { return c.satisfiedBy(m); }
carl::EvaluationMap<Q> q_mapq() { return carl::EvaluationMap<Q>(); }
void q_putq(carl::EvaluationMap<Q>& m, V v, const Q& q) { m.emplace(v, q); }
bool q_simpletrue(const P& p, R r) { return carl::SimpleConstraint<P>(p, r).isTrivialTrue(); }
bool q_simplefalse(const P& p, R r) { return carl::SimpleConstraint<P>(p, r).isTrivialFalse(); }
// the constraint pool (C16)
unsigned q_cid(const C& c) { return c.id(); }
bool q_ceq(const C& a, const C& b) { return a == b; }
bool q_cless(const C& a, const C& b) { return a < b; }
C q_copy(const C& a) { return C(a); }
