// Query driver: number operations (C18, C19); parsed only, never linked or run.
#include <carl/numbers/numbers.h>
#include <carl/numbers/adaption_gmpxx/operations.cpp>
using Q = mpq_class;
using Z = mpz_class;
using carl::sint;

// rounding and parts of rationals
Z q_floorq(const Q& a) { return carl::floor(a); }
Z q_ceilq(const Q& a) { return carl::ceil(a); }
Z q_roundq(const Q& a) { return carl::round(a); }
bool q_isintq(const Q& a) { return carl::isInteger(a); }
Z q_numq(const Q& a) { return carl::getNum(a); }
Z q_denq(const Q& a) { return carl::getDenom(a); }
Q q_absq(const Q& a) { return carl::abs(a); }
bool q_iszeroq(const Q& a) { return carl::isZero(a); }
bool q_isoneq(const Q& a) { return carl::isOne(a); }
bool q_iszeroq2(const Q& a) { return carl::is_zero(a); }
bool q_isoneq2(const Q& a) { return carl::is_one(a); }
bool q_isposq(const Q& a) { return carl::isPositive(a); }
bool q_isnegq(const Q& a) { return carl::isNegative(a); }
Z q_tointq(const Q& a) { return carl::toInt<Z>(a); }
Q q_recq(const Q& a) { return carl::reciprocal(a); }
Q q_quoq(const Q& a, const Q& b) { return carl::quotient(a, b); }
Q q_divq(const Q& a, const Q& b) { return carl::div(a, b); }
Q q_divasq(Q& a, const Q& b) { return carl::div_assign(a, b); }
Q q_opdivq(const Q& a, const Q& b) { return carl::operator/(a, b); }
Q q_opmulq(const Q& a, const Q& b) { return carl::operator*(a, b); }
Q q_powq(const Q& a, std::size_t n) { return carl::pow(a, n); }
Q q_powasq(Q& a, std::size_t n) { carl::pow_assign(a, n); return a; }
// integers
Z q_floorz(const Z& a) { return carl::floor(a); }
Z q_ceilz(const Z& a) { return carl::ceil(a); }
Z q_roundz(const Z& a) { return carl::round(a); }
bool q_isintz(const Z& a) { return carl::isInteger(a); }
Z q_numz(const Z& a) { return carl::getNum(a); }
Z q_denz(const Z& a) { return carl::getDenom(a); }
Z q_absz(const Z& a) { return carl::abs(a); }
bool q_iszeroz(const Z& a) { return carl::isZero(a); }
bool q_isonez(const Z& a) { return carl::isOne(a); }
bool q_iszeroz2(const Z& a) { return carl::is_zero(a); }
bool q_isonez2(const Z& a) { return carl::is_one(a); }
bool q_isposz(const Z& a) { return carl::isPositive(a); }
bool q_isnegz(const Z& a) { return carl::isNegative(a); }
Z q_modz(const Z& a, const Z& b) { return carl::mod(a, b); }
Z q_remz(const Z& a, const Z& b) { return carl::remainder(a, b); }
Z q_quoz(const Z& a, const Z& b) { return carl::quotient(a, b); }
Z q_opdivz(const Z& a, const Z& b) { return carl::operator/(a, b); }
Z q_divz(const Z& a, const Z& b) { return carl::div(a, b); }
Z q_divasz(Z& a, const Z& b) { return carl::div_assign(a, b); }
void q_dividez(const Z& a, const Z& b, Z& q, Z& r) { carl::divide(a, b, q, r); }
Z q_powz(const Z& a, std::size_t n) { return carl::pow(a, n); }
Z q_powasz(Z& a, std::size_t n) { carl::pow_assign(a, n); return a; }
// machine integers
sint q_mods(sint a, sint b) { return carl::mod(a, b); }
carl::uint q_modu(carl::uint a, carl::uint b) { return carl::mod(a, b); }
sint q_rems(sint a, sint b) { return carl::remainder(a, b); }
sint q_quos(sint a, sint b) { return carl::quotient(a, b); }
sint q_divs(sint a, sint b) { return carl::div(a, b); }
void q_divides(sint a, sint b, sint& q, sint& r) { carl::divide(a, b, q, r); }
// roots
bool q_sqrtexact(const Q& a, Q& b) { return carl::sqrt_exact(a, b); }
std::pair<Q, Q> q_sqrtsafe(const Q& a) { return carl::sqrt_safe(a); }
std::pair<Q, Q> q_sqrtfast(const Q& a) { return carl::sqrt_fast(a); }
std::pair<Q, Q> q_rootsafe(const Q& a, carl::uint n) { return carl::root_safe(a, n); }
Q q_sqrt(const Q& a) { return carl::sqrt(a); }
