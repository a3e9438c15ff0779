// Entry points for the univariate polynomial analyses (C14, C15).
#include <carl/core/UnivariatePolynomial.h>
#include <carl/core/polynomialfunctions/Derivative.h>
#include <carl/core/polynomialfunctions/Division.h>
#include <carl/core/polynomialfunctions/Evaluation.h>
#include <carl/core/polynomialfunctions/Power.h>
#include <carl/core/polynomialfunctions/Remainder.h>
#include <carl/core/polynomialfunctions/RootElimination.h>
#include <carl/core/polynomialfunctions/Substitution.h>

using Q = mpq_class;
using U = carl::UnivariatePolynomial<Q>;
using V = carl::Variable;
using D = carl::DivisionResult<U>;

V q_novar() { return V(); }
U q_zero(V v) { return U(v); }
U q_mono(V v, const Q& c, std::size_t d) { return U(v, c, d); }
U q_vec(V v, const std::vector<Q>& c) { return U(v, c); }
U q_vecm(V v, std::vector<Q>& c) { return U(v, std::move(c)); }
U q_init3(V v, const Q& a, const Q& b, const Q& c) { return U(v, {a, b, c}); }
U q_map(V v, const std::map<carl::uint, Q>& m) { return U(v, m); }
U q_copy(const U& p) { return U(p); }
U q_move(U& p) { return U(std::move(p)); }
U& q_assign(U& p, const U& r) { return p = r; }
U& q_massign(U& p, U& r) { return p = std::move(r); }

U q_neg(const U& p) { return -p; }
U q_add(const U& p, const U& r) { return p + r; }
U& q_addas(U& p, const U& r) { return p += r; }
U q_addc(const U& p, const Q& r) { return p + r; }
U q_cadd(const Q& r, const U& p) { return r + p; }
U& q_addcas(U& p, const Q& r) { return p += r; }
U q_sub(const U& p, const U& r) { return p - r; }
U& q_subas(U& p, const U& r) { return p -= r; }
U q_subc(const U& p, const Q& r) { return p - r; }
U q_csub(const Q& r, const U& p) { return r - p; }
U& q_subcas(U& p, const Q& r) { return p -= r; }
U q_mul(const U& p, const U& r) { return p * r; }
U& q_mulas(U& p, const U& r) { return p *= r; }
U q_mulc(const U& p, const Q& r) { return p * r; }
U q_cmul(const Q& r, const U& p) { return r * p; }
U& q_mulcas(U& p, const Q& r) { return p *= r; }
U q_mulv(const U& p, V v) { return p * v; }
U q_vmul(V v, const U& p) { return v * p; }
U& q_mulvas(U& p, V v) { return p *= v; }
U q_divc(const U& p, const Q& r) { return p / r; }
U& q_divcas(U& p, const Q& r) { return p /= r; }
U q_pow(const U& p, std::size_t e) { return p.pow(e); }
U q_fpow(const U& p, std::size_t e) { return carl::pow(p, e); }

Q q_eval(const U& p, const Q& x) { return p.evaluate(x); }
Q q_feval(const U& p, const Q& x) { return carl::evaluate(p, x); }
bool q_isroot(const U& p, const Q& x) { return p.isRoot(x); }
bool q_isrootof(const U& p, const Q& x) { return carl::is_root_of(p, x); }
carl::Sign q_sgn(const U& p, const Q& x) { return p.sgn(x); }
U q_subst(const U& p, V v, const Q& x) { return carl::substitute(p, v, x); }
void q_substas(U& p, V v, const Q& x) { carl::substitute_inplace(p, v, x); }
U q_deriv(const U& p, std::size_t n) { return carl::derivative(p, n); }
U q_derivv(const U& p, V v, std::size_t n) { return carl::derivative(p, v, n); }
D q_divide(const U& p, const U& r) { return carl::divide(p, r); }
U q_rem(const U& p, const U& r) { return carl::remainder(p, r); }
U q_prem(const U& p, const U& r, const Q& c) { return carl::remainder(p, r, c); }
U q_norm(const U& p) { return p.normalized(); }
Q q_unit(const U& p) { return p.unitPart(); }
U q_negvar(const U& p) { return p.negateVariable(); }
U q_reverse(const U& p) { return p.reverseCoefficients(); }
void q_truncate(U& p) { p.truncate(); }
U q_one(const U& p) { return p.one(); }
Q q_synth(U& p, const Q& z) { return p.syntheticDivision(z); }
void q_elim0(U& p) { carl::eliminate_zero_root(p); }
void q_elim(U& p, const Q& z) { carl::eliminate_root(p, z); }

carl::uint q_degree(const U& p) { return p.degree(); }
carl::uint q_tdegree(const U& p) { return p.totalDegree(); }
const Q& q_lcoeff(const U& p) { return p.lcoeff(); }
const Q& q_tcoeff(const U& p) { return p.tcoeff(); }
bool q_iszero(const U& p) { return carl::isZero(p); }
bool q_isone(const U& p) { return carl::isOne(p); }
bool q_zeroroot(const U& p) { return p.zeroIsRoot(); }
bool q_has(const U& p, V v) { return p.has(v); }
bool q_eq(const U& p, const U& r) { return p == r; }
bool q_ne(const U& p, const U& r) { return p != r; }
bool q_lt(const U& p, const U& r) { return p < r; }
bool q_eqc(const U& p, const Q& r) { return p == r; }
bool q_ceq(const Q& r, const U& p) { return r == p; }
bool q_less(const U& p, const U& r) { return p.less(r, carl::PolynomialComparisonOrder::LowDegree); }
std::map<carl::uint, Q> q_emptymap() { return std::map<carl::uint, Q>(); }
void q_put(std::map<carl::uint, Q>& m, carl::uint k, const Q& v) { m[k] = v; }

// aliased operands
U& q_addself(U& p) { return p += p; }
U& q_subself(U& p) { return p -= p; }
U& q_mulself(U& p) { return p *= p; }
U& q_asself(U& p) { return p = p; }
bool q_eqself(const U& p) { return p == p; }

// integer coefficients
using Z = mpz_class;
using UZ = carl::UnivariatePolynomial<Z>;
UZ q_zzero(V v) { return UZ(v); }
UZ& q_zmod(UZ& p, const Z& m) { return p.mod(m); }
UZ q_zcmod(const UZ& p, const Z& m) { return p.mod(m); }
UZ& q_zdivas(UZ& p, const Z& m) { return p /= m; }
UZ q_zdiv(const UZ& p, const Z& m) { return p / m; }
UZ q_znorm(const UZ& p) { return p.normalized(); }
Z q_zunit(const UZ& p) { return p.unitPart(); }
UZ q_toint(const U& p) { return p.toIntegerDomain(); }
U q_convert(const UZ& p) { return p.convert<Q>(); }
UZ q_zadd(const UZ& p, const UZ& r) { return p + r; }
UZ q_zmul(const UZ& p, const UZ& r) { return p * r; }
