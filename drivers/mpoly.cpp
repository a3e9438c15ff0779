// Entry points for the multivariate polynomial analyses (C10, C11, C13, C15).
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/polynomialfunctions/Derivative.h>
#include <carl/core/polynomialfunctions/Division.h>
#include <carl/core/polynomialfunctions/Evaluation.h>
#include <carl/core/polynomialfunctions/Power.h>
#include <carl/core/polynomialfunctions/Quotient.h>
#include <carl/core/polynomialfunctions/Remainder.h>
#include <carl/core/polynomialfunctions/SPolynomial.h>
#include <carl/core/polynomialfunctions/Substitution.h>
#include <carl/core/polynomialfunctions/to_univariate_polynomial.h>
#include <carl/core/Monomial.cpp>
#include <carl/core/MonomialPool.cpp>

using Q = mpq_class;
using P = carl::MultivariatePolynomial<Q>;
using U = carl::UnivariatePolynomial<Q>;
using UP = carl::UnivariatePolynomial<P>;
using T = carl::Term<Q>;
using M = carl::Monomial::Arg;
using V = carl::Variable;
using Map = std::map<V, P>;
using MapQ = std::map<V, Q>;
using MapT = std::map<V, T>;
using Content = std::vector<std::pair<V, carl::exponent>>;
using CR = carl::CompareResult;

V q_novar() { return V(); }
// monomials
M q_null() { return nullptr; }
M q_mon(const Content& c) { return carl::createMonomial(Content(c)); }
M q_mond(const Content& c, carl::exponent d) { return carl::createMonomial(Content(c), d); }
M q_monv(V v, carl::exponent e) { return carl::createMonomial(v, e); }
M q_mulmm(const M& a, const M& b) { return a * b; }
M q_mulmv(const M& a, V b) { return a * b; }
M q_mulvm(V a, const M& b) { return a * b; }
M q_mulvv(V a, V b) { return a * b; }
M q_fpowm(const M& a, carl::uint e) { return carl::pow(a, e); }
M q_fpowv(V a, carl::uint e) { return carl::pow(a, e); }
bool q_divm(const M& a, const M& b, M& r) { return a->divide(b, r); }
bool q_divv(const M& a, V b, M& r) { return a->divide(b, r); }
bool q_divisible(const M& a, const M& b) { return a->divisible(b); }
M q_lcm(const M& a, const M& b) { return carl::Monomial::lcm(a, b); }
M q_lcmdiv(const M& a, const M& b) { return carl::Monomial::calcLcmAndDivideBy(a, b); }
M q_dropm(const M& a, V v) { return a->dropVariable(v); }
M q_sqrtm(const M& a) { return a->sqrt(); }
bool q_squarem(const M& a) { return a->isSquare(); }
carl::exponent q_expm(const M& a, V v) { return a->exponentOfVariable(v); }
carl::exponent q_tdegm(const M& a) { return a->tdeg(); }
bool q_hasm(const M& a, V v) { return a->has(v); }
bool q_noother(const M& a, V v) { return a->hasNoOtherVariable(v); }
bool q_linm(const M& a) { return a->isLinear(); }
bool q_alm(const M& a) { return a->isAtMostLinear(); }
// orderings
CR q_glex(const M& a, const M& b) { return carl::GrLexOrdering::compare(a, b); }
CR q_lex(const M& a, const M& b) { return carl::LexOrdering::compare(a, b); }
bool q_glexless(const M& a, const M& b) { return carl::GrLexOrdering::less(a, b); }
bool q_lexless(const M& a, const M& b) { return carl::LexOrdering::less(a, b); }
bool q_glexeq(const M& a, const M& b) { return carl::GrLexOrdering::equal(a, b); }
bool q_lexeq(const M& a, const M& b) { return carl::LexOrdering::equal(a, b); }
CR q_glext(const T& a, const T& b) { return carl::GrLexOrdering::compare(a, b); }
CR q_lext(const T& a, const T& b) { return carl::LexOrdering::compare(a, b); }
bool q_glextless(const T& a, const T& b) { return carl::GrLexOrdering::less(a, b); }
bool q_glexteq(const T& a, const T& b) { return carl::GrLexOrdering::equal(a, b); }
CR q_glexv(const M& a, V b) { return carl::Monomial::compareGradedLexical(a, b); }
CR q_lexv(const M& a, V b) { return carl::Monomial::compareLexical(a, b); }
bool q_glexfn(const M& a, const M& b) { return carl::GrLexOrdering()(a, b); }
bool q_lexfn(const M& a, const M& b) { return carl::LexOrdering()(a, b); }
bool q_glextfn(const T& a, const T& b) { return carl::GrLexOrdering()(a, b); }
bool q_lextless(const T& a, const T& b) { return carl::LexOrdering::less(a, b); }
bool q_lexteq(const T& a, const T& b) { return carl::LexOrdering::equal(a, b); }
bool q_lextfn(const T& a, const T& b) { return carl::LexOrdering()(a, b); }
// terms
T q_tnull() { return T(); }
T q_tc(const Q& c) { return T(c); }
T q_tcm(const Q& c, const M& m) { return T(c, m); }
T q_tm(const M& m) { return T(m); }
T q_tv(V v) { return T(v); }
T q_tcv(const Q& c, V v, carl::uint e) { return T(c, v, e); }
T q_negt(const T& a) { return -a; }
T q_mult(const T& a, const T& b) { return a * b; }
T q_multm(const T& a, const M& b) { return a * b; }
T q_multv(const T& a, V b) { return a * b; }
T q_multc(const T& a, const Q& b) { return a * b; }
T q_mulmt(const M& a, const T& b) { return a * b; }
T q_mulvt(V a, const T& b) { return a * b; }
T q_mulct(const Q& a, const T& b) { return a * b; }
T q_mulmc(const M& a, const Q& b) { return a * b; }
T q_mulcm(const Q& a, const M& b) { return a * b; }
T q_mulvc(V a, const Q& b) { return a * b; }
T q_mulcv(const Q& a, V b) { return a * b; }
T q_divtc(const T& a, const Q& b) { return a / b; }
T q_powt(const T& a, carl::uint e) { return carl::pow(a, e); }
bool q_divtt(const T& a, const T& b, T& r) { return a.divide(b, r); }
bool q_divtm(const T& a, const M& b, T& r) { return a.divide(b, r); }
bool q_divtv(const T& a, V b, T& r) { return a.divide(b, r); }
bool q_tdivisible(const T& a, const T& b) { return a.divisible(b); }
T q_derivt(const T& a, V v, std::size_t n) { return carl::derivative(a, v, n); }
T q_substt(const T& a, const MapQ& s) { return carl::substitute(a, s); }
T q_substtt(const T& a, const MapT& s) { return carl::substitute(a, s); }
// polynomials: construction
P q_zero() { return P(); }
P q_pc(const Q& c) { return P(c); }
P q_pi(int c) { return P(c); }
P q_pv(V v) { return P(v); }
P q_pt(const T& t) { return P(t); }
P q_pm(const M& m) { return P(m); }
P q_terms(const std::vector<T>& t) { return P(t); }
P q_termsm(std::vector<T>& t) { return P(std::move(t)); }
P q_termsnd(const std::vector<T>& t) { return P(t, false, false); }
P q_termsndm(std::vector<T>& t) { return P(std::move(t), false, false); }
P q_termsord(const std::vector<T>& t) { return P(t, false, true); }
P q_init3(const T& a, const T& b, const T& c) { return P({a, b, c}); }
P q_initv(V a, V b, V c) { return P({a, b, c}); }
P q_viaup(const P& p, V v) { return P(carl::to_univariate_polynomial(p, v)); }
P q_fromuc(V v, const Q& c) { return P(U(v, c)); }
P q_fromucs(V v, const Q& a, const Q& b, const Q& c) { return P(U(v, {a, b, c})); }
UP q_toup(const P& p, V v) { return carl::to_univariate_polynomial(p, v); }
U q_tou(const P& p) { return carl::to_univariate_polynomial(p); }
P q_opadd(const P& p, const P& r) { return P(P::ConstructorOperation::ADD, {p, r}); }
P q_opsub(const P& p, const P& r) { return P(P::ConstructorOperation::SUB, {p, r}); }
P q_opneg(const P& p) { return P(P::ConstructorOperation::SUB, {p}); }
P q_opmul(const P& p, const P& r) { return P(P::ConstructorOperation::MUL, {p, r}); }
P q_copy(const P& p) { return P(p); }
P q_move(P& p) { return P(std::move(p)); }
P& q_assign(P& p, const P& r) { return p = r; }
P& q_massign(P& p, P& r) { return p = std::move(r); }
// polynomials: operators
P q_neg(const P& p) { return -p; }
P q_addpp(const P& p, const P& r) { return p + r; }
P q_addpt(const P& p, const T& r) { return p + r; }
P q_addpm(const P& p, const M& r) { return p + r; }
P q_addpv(const P& p, V r) { return p + r; }
P q_addpc(const P& p, const Q& r) { return p + r; }
P q_addtp(const T& r, const P& p) { return r + p; }
P q_addtt(const T& r, const T& p) { return r + p; }
P q_addtm(const T& r, const M& p) { return r + p; }
P q_addtv(const T& r, V p) { return r + p; }
P q_addtc(const T& r, const Q& p) { return r + p; }
P q_addmp(const M& r, const P& p) { return r + p; }
P q_addmt(const M& r, const T& p) { return r + p; }
P q_addmc(const M& r, const Q& p) { return r + p; }
P q_addvp(V r, const P& p) { return r + p; }
P q_addvt(V r, const T& p) { return r + p; }
P q_addvc(V r, const Q& p) { return r + p; }
P q_addcp(const Q& r, const P& p) { return r + p; }
P q_addct(const Q& r, const T& p) { return r + p; }
P q_addcm(const Q& r, const M& p) { return r + p; }
P q_addcv(const Q& r, V p) { return r + p; }
P& q_addasp(P& p, const P& r) { return p += r; }
P& q_addast(P& p, const T& r) { return p += r; }
P& q_addasm(P& p, const M& r) { return p += r; }
P& q_addasv(P& p, V r) { return p += r; }
P& q_addasc(P& p, const Q& r) { return p += r; }
P q_subpp(const P& p, const P& r) { return p - r; }
P q_subpt(const P& p, const T& r) { return p - r; }
P q_subpm(const P& p, const M& r) { return p - r; }
P q_subpv(const P& p, V r) { return p - r; }
P q_subpc(const P& p, const Q& r) { return p - r; }
P q_subtp(const T& r, const P& p) { return r - p; }
P q_subtt(const T& r, const T& p) { return r - p; }
P q_subtm(const T& r, const M& p) { return r - p; }
P q_subtv(const T& r, V p) { return r - p; }
P q_subtc(const T& r, const Q& p) { return r - p; }
P q_submp(const M& r, const P& p) { return r - p; }
P q_submt(const M& r, const T& p) { return r - p; }
P q_submc(const M& r, const Q& p) { return r - p; }
P q_subvp(V r, const P& p) { return r - p; }
P q_subvt(V r, const T& p) { return r - p; }
P q_subvc(V r, const Q& p) { return r - p; }
P q_subcp(const Q& r, const P& p) { return r - p; }
P q_subct(const Q& r, const T& p) { return r - p; }
P q_subcm(const Q& r, const M& p) { return r - p; }
P q_subcv(const Q& r, V p) { return r - p; }
P& q_subasp(P& p, const P& r) { return p -= r; }
P& q_subast(P& p, const T& r) { return p -= r; }
P& q_subasm(P& p, const M& r) { return p -= r; }
P& q_subasv(P& p, V r) { return p -= r; }
P& q_subasc(P& p, const Q& r) { return p -= r; }
P q_mulpp(const P& p, const P& r) { return p * r; }
P q_mulpt(const P& p, const T& r) { return p * r; }
P q_mulpm(const P& p, const M& r) { return p * r; }
P q_mulpv(const P& p, V r) { return p * r; }
P q_mulpc(const P& p, const Q& r) { return p * r; }
P q_multp(const T& r, const P& p) { return r * p; }
P q_mulmp(const M& r, const P& p) { return r * p; }
P q_mulvp(V r, const P& p) { return r * p; }
P q_mulcp(const Q& r, const P& p) { return r * p; }
P& q_mulasp(P& p, const P& r) { return p *= r; }
P& q_mulast(P& p, const T& r) { return p *= r; }
P& q_mulasm(P& p, const M& r) { return p *= r; }
P& q_mulasv(P& p, V r) { return p *= r; }
P& q_mulasc(P& p, const Q& r) { return p *= r; }
P q_divpc(const P& p, const Q& r) { return p / r; }
P& q_divasc(P& p, const Q& r) { return p /= r; }
P& q_addself(P& p) { return p += p; }
P& q_subself(P& p) { return p -= p; }
P& q_mulself(P& p) { return p *= p; }
P& q_asself(P& p) { return p = p; }
bool q_eqself(const P& p) { return p == p; }
P q_pow(const P& p, std::size_t n) { return carl::pow(p, n); }
P q_npow(const P& p, std::size_t n) { return carl::pow_naive(p, n); }
P q_deriv(const P& p, V v, std::size_t n) { return carl::derivative(p, v, n); }
P q_subst(const P& p, V v, const P& r) { return carl::substitute(p, v, r); }
void q_substas(P& p, V v, const P& r) { carl::substitute_inplace(p, v, r); }
P q_substm(const P& p, const Map& m) { return carl::substitute(p, m); }
P q_substq(const P& p, const MapQ& m) { return carl::substitute(p, m); }
P q_substmt(const P& p, const MapT& m) { return carl::substitute(p, m); }
Q q_eval(const P& p, const MapQ& m) { return carl::evaluate(p, m); }
void q_addterm(P& p, const T& t) { p.addTerm(t); }
void q_subprod(P& p, const T& t, const P& r) { p.subtractProduct(t, r); }
P q_tail(const P& p) { return p.tail(); }
P q_tailord(const P& p) { return p.tail(true); }
P& q_strip(P& p) { return p.stripLT(); }
P q_norm(const P& p) { return p.normalize(); }
P q_rem(const P& p, const P& r) { return carl::remainder(p, r); }
P q_quo(const P& p, const P& r) { return carl::quotient(p, r); }
P q_remself(const P& p) { return carl::remainder(p, p); }
bool q_trydivmul(const P& p, const P& r, P& q) { return carl::try_divide(p * r, r, q); }
bool q_trydiv(const P& p, const P& r, P& q) { return carl::try_divide(p, r, q); }
P q_fdivc(const P& p, const Q& r) { return carl::divide(p, r); }
P q_coeff(const P& p, V v, std::size_t n) { return p.coeff(v, n); }
P q_lcoeffv(const P& p, V v) { return p.lcoeff(v); }
void q_makeord(const P& p) { p.makeOrdered(); }
P q_addsub(const P& p, const P& r) { return (p + r) - r; }
P q_subadd(const P& p, const P& r) { P a = p; a -= r; a += r; return a; }
P q_divadd(const P& p, const P& r) { P a; carl::try_divide(p, r, a); return p + r; }
P q_upmul(const P& p, V v) { return P(carl::to_univariate_polynomial(p, v)) * p; }
// polynomials: views
Q q_lcoeff(const P& p) { return p.lcoeff(); }
M q_lmon(const P& p) { return p.lmon(); }
T q_tt(const P& p) { return p.trailingTerm(); }
Q q_cpart(const P& p) { return p.constantPart(); }
bool q_hasc(const P& p) { return p.hasConstantTerm(); }
std::size_t q_tdeg(const P& p) { return p.totalDegree(); }
std::size_t q_deg(const P& p, V v) { return p.degree(v); }
bool q_iszero(const P& p) { return carl::isZero(p); }
bool q_isone(const P& p) { return carl::isOne(p); }
bool q_isconst(const P& p) { return p.isConstant(); }
bool q_islin(const P& p) { return p.isLinear(); }
bool q_isvar(const P& p) { return p.isVariable(); }
bool q_isuni(const P& p) { return p.isUnivariate(); }
bool q_has(const P& p, V v) { return p.has(v); }
// comparisons
#define CMP(N, A, B) \
	bool q_eq##N(A a, B b) { return a == b; } \
	bool q_ne##N(A a, B b) { return a != b; } \
	bool q_lt##N(A a, B b) { return a < b; } \
	bool q_le##N(A a, B b) { return a <= b; } \
	bool q_gt##N(A a, B b) { return a > b; } \
	bool q_ge##N(A a, B b) { return a >= b; }
CMP(_pp, const P&, const P&)
CMP(_pt, const P&, const T&)
CMP(_pm, const P&, const M&)
CMP(_pv, const P&, V)
CMP(_pc, const P&, const Q&)
CMP(_tp, const T&, const P&)
CMP(_mp, const M&, const P&)
CMP(_vp, V, const P&)
CMP(_cp, const Q&, const P&)
CMP(_tt, const T&, const T&)
CMP(_tm, const T&, const M&)
CMP(_tv, const T&, V)
CMP(_tc, const T&, const Q&)
CMP(_mt, const M&, const T&)
CMP(_vt, V, const T&)
CMP(_ct, const Q&, const T&)
CMP(_mm, const M&, const M&)
CMP(_mv, const M&, V)
CMP(_vm, V, const M&)
CMP(_vv, V, V)
// containers
Content q_content() { return Content(); }
void q_push(Content& c, V v, carl::exponent e) { c.emplace_back(v, e); }
std::vector<T> q_tvec() { return std::vector<T>(); }
void q_tpush(std::vector<T>& c, const T& t) { c.push_back(t); }
Map q_map() { return Map(); }
void q_put(Map& m, V v, const P& p) { m.emplace(v, p); }
MapQ q_mapq() { return MapQ(); }
void q_putq(MapQ& m, V v, const Q& p) { m.emplace(v, p); }
MapT q_mapt() { return MapT(); }
void q_putt(MapT& m, V v, const T& p) { m.emplace(v, p); }
UP q_upzero(V v) { return UP(v); }
U q_uzero(V v) { return U(v); }
// hashes (C12)
std::size_t q_hash_p(const P& a) { return std::hash<P>()(a); }
std::size_t q_hash_t(const T& a) { return std::hash<T>()(a); }
std::size_t q_hash_m(const carl::Monomial::Arg& a) { return std::hash<carl::Monomial::Arg>()(a); }
std::size_t q_hash_mm(const carl::Monomial& a) { return std::hash<carl::Monomial>()(a); }
std::size_t q_hash_v(const carl::Variable& a) { return std::hash<carl::Variable>()(a); }
bool q_eq_uu(const U& a, const U& b) { return a == b; }
bool q_eq_upup(const UP& a, const UP& b) { return a == b; }
std::size_t q_hash_u(const U& a) { return std::hash<U>()(a); }
std::size_t q_hash_up(const UP& a) { return std::hash<UP>()(a); }
// the monomial pool (C16)
carl::Monomial::Arg q_mkmon(V v, std::size_t e) { return carl::MonomialPool::getInstance().create(v, e); }
carl::Monomial::Arg q_mon2(std::vector<std::pair<V, std::size_t>>& c, std::size_t d) { return d == 0 ? carl::createMonomial(std::move(c)) : carl::createMonomial(std::move(c), d); }
std::size_t q_monid(const carl::Monomial::Arg& m) { return m->id(); }
bool q_samemon(const carl::Monomial& a, const carl::Monomial& b) { return a == b; }
void q_free(const carl::Monomial* m) { carl::MonomialPool::getInstance().free(m); }
