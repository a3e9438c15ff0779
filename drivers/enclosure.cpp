// Entry points for interval evaluation and contraction (C35); parsed only.
#include <carl/core/Monomial.cpp>
#include <carl/core/Variable.cpp>
#include <carl/core/MonomialPool.cpp>
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/MultivariateHorner.h>
#include <carl/formula/Constraint.h>
#include <carl/interval/IntervalEvaluation.h>
#include <carl/interval/Contractor.h>
using Q = mpq_class;
using P = carl::MultivariatePolynomial<Q>;
using U = carl::UnivariatePolynomial<Q>;
using UP = carl::UnivariatePolynomial<P>;
using M = carl::Monomial::Arg;
using T = carl::Term<Q>;
using V = carl::Variable;
using D = carl::Interval<double>;
using I = carl::Interval<Q>;
using MD = std::map<V, D>;
using MI = std::map<V, I>;
using C = carl::Constraint<P>;
using E = carl::contractor::Evaluation<P>;
using K = carl::contractor::Contractor<int, P, double>;
using Content = std::vector<std::pair<V, carl::exponent>>;
struct GreedyI : carl::strategy {};
struct GreedyIs : carl::strategy { static constexpr carl::variableSelectionHeurisics selectionType = carl::GREEDY_Is; };
// objects
V q_novar() { return V(); }
M q_null() { return nullptr; }
Content q_content() { return Content(); }
void q_push(Content& c, V v, carl::exponent e) { c.emplace_back(v, e); }
M q_mon(const Content& c) { return carl::createMonomial(Content(c)); }
T q_tcm(const Q& c, const M& m) { return T(c, m); }
P q_zero() { return P(); }
std::vector<Q> q_cq() { return {}; }
std::vector<P> q_cp() { return {}; }
void q_pushq(std::vector<Q>& v, const Q& q) { v.push_back(q); }
void q_pushp(std::vector<P>& v, const P& q) { v.push_back(q); }
U q_mku(V v, const std::vector<Q>& c) { return U(v, c); }
UP q_mkup(V v, const std::vector<P>& c) { return UP(v, c); }
carl::carlVariables q_vars() { return carl::carlVariables(); }
void q_addvar(carl::carlVariables& s, V v) { s.add(v); }
D q_d() { return D(); }
I q_i() { return I(); }
MD q_mapd() { return MD(); }
MI q_mapi() { return MI(); }
void q_putd(MD& m, V v, const D& d) { m.emplace(v, d); }
void q_puti(MI& m, V v, const I& d) { m.emplace(v, d); }
// evaluation
D q_emonod(const M& m, const MD& a) { return carl::IntervalEvaluation::evaluate(*m, a); }
I q_emonoi(const M& m, const MI& a) { return carl::IntervalEvaluation::evaluate(*m, a); }
D q_etermd(const T& t, const MD& a) { return carl::IntervalEvaluation::evaluate(t, a); }
I q_etermi(const T& t, const MI& a) { return carl::IntervalEvaluation::evaluate(t, a); }
D q_epolyd(const P& t, const MD& a) { return carl::IntervalEvaluation::evaluate(t, a); }
I q_epolyi(const P& t, const MI& a) { return carl::IntervalEvaluation::evaluate(t, a); }
I q_euni(const U& t, const MI& a) { return carl::IntervalEvaluation::evaluate(t, a); }
D q_eunip(const UP& t, const MD& a) { return carl::IntervalEvaluation::evaluate(t, a); }
D q_ehorner(const P& p, const MD& a) { carl::MultivariateHorner<P, GreedyI> h(p); return carl::IntervalEvaluation::evaluate(h, a); }
D q_ehorners(const P& p, const MD& a) { carl::MultivariateHorner<P, GreedyIs> h(p); return carl::IntervalEvaluation::evaluate(h, a); }
// contraction
std::vector<D> q_contract(const C& c, V v, const MD& m) { K k(1, c, v); return k.contract(m); }
std::vector<D> q_keval(const C& c, V v, const MD& m) { K k(1, c, v); return k.evaluate(m); }
