// Entry points for structural queries (C36); parsed only, never linked or run.
#include "mpoly.cpp"
#include <carl/core/polynomialfunctions/Definiteness.h>
#include <carl/core/VariablesInformation.h>

using N = std::size_t;
// polynomials
N q_nterms(const P& p) { return p.nrTerms(); }
N q_ftdeg(const P& p) { return carl::total_degree(p); }
bool q_fiszero(const P& p) { return carl::is_zero(p); }
bool q_fisone(const P& p) { return carl::is_one(p); }
bool q_fisconst(const P& p) { return carl::is_constant(p); }
bool q_fislin(const P& p) { return carl::is_linear(p); }
bool q_isnum(const P& p) { return p.isNumber(); }
bool q_single(const P& p) { return p.hasSingleVariable(); }
bool q_tsos(const P& p) { return p.isTsos(); }
V q_thesingle(const P& p) { return p.getSingleVariable(); }
int q_definite(const P& p) { return static_cast<int>(carl::definiteness(p, false)); }
// collected variables
bool q_vhas(const P& p, V v) { return carl::variables(p).has(v); }
N q_vsize(const P& p) { return carl::variables(p).size(); }
bool q_vreal(const P& p, V v) { return carl::real_variables(p).has(v); }
bool q_varith(const P& p, V v) { return carl::arithmetic_variables(p).has(v); }
N q_vint(const P& p) { return carl::integer_variables(p).size() + carl::boolean_variables(p).size() + carl::bitvector_variables(p).size() + carl::uninterpreted_variables(p).size(); }
bool q_vsum(const P& p, const P& r, V v) { carl::carlVariables s; carl::variables(p, s); carl::variables(r, s); return s.has(v); }
N q_vsumsize(const P& p, const P& r) { carl::carlVariables s; carl::variables(p, s); carl::variables(r, s); return s.size(); }
bool q_verase(const P& p, V v, V w) { auto s = carl::variables(p); s.erase(v); return s.has(w); }
bool q_vsame(const P& p, const P& r) { return carl::variables(p) == carl::variables(r); }
// information on one or all variables
N q_imax(const P& p, V v) { return p.getVarInfo<false>(v).maxDegree(); }
N q_imin(const P& p, V v) { return p.getVarInfo<false>(v).minDegree(); }
N q_iocc(const P& p, V v) { return p.getVarInfo<false>(v).occurence(); }
N q_cmax(const P& p, V v) { return p.getVarInfo<true>(v).maxDegree(); }
N q_cmin(const P& p, V v) { return p.getVarInfo<true>(v).minDegree(); }
N q_cocc(const P& p, V v) { return p.getVarInfo<true>(v).occurence(); }
P q_ccoeff(const P& p, V v, N n) { auto i = p.getVarInfo<true>(v); auto it = i.coeffs().find(n); return it == i.coeffs().end() ? P() : it->second; }
bool q_aocc(const P& p, V v) { return p.getVarInfo<false>().occurs(v); }
N q_amax(const P& p, V v) { return p.getVarInfo<false>().getVarInfo(v)->maxDegree(); }
N q_amin(const P& p, V v) { return p.getVarInfo<false>().getVarInfo(v)->minDegree(); }
N q_anum(const P& p, V v) { return p.getVarInfo<false>().getVarInfo(v)->occurence(); }
P q_acoeff(const P& p, V v, N n) { auto a = p.getVarInfo<true>(); auto i = a.getVarInfo(v); auto it = i->coeffs().find(n); return it == i->coeffs().end() ? P() : it->second; }
// recursive univariate polynomials
N q_utdeg(const P& p, V v) { return carl::total_degree(carl::to_univariate_polynomial(p, v)); }
N q_utdegm(const P& p, V v) { return carl::to_univariate_polynomial(p, v).totalDegree(); }
bool q_uhas(const P& p, V v, V w) { return carl::to_univariate_polynomial(p, v).has(w); }
bool q_uvhas(const P& p, V v, V w) { return carl::variables(carl::to_univariate_polynomial(p, v)).has(w); }
N q_uvsize(const P& p, V v) { return carl::variables(carl::to_univariate_polynomial(p, v)).size(); }
bool q_unum(const P& p, V v) { return carl::to_univariate_polynomial(p, v).isNumber(); }
bool q_uuni(const P& p, V v) { return carl::to_univariate_polynomial(p, v).isUnivariate(); }
bool q_ulin(const P& p, V v) { return carl::to_univariate_polynomial(p, v).isLinearInMainVar(); }
Q q_ucpart(const P& p, V v) { return carl::to_univariate_polynomial(p, v).constantPart(); }
N q_udeg(const P& p, V v) { return carl::to_univariate_polynomial(p, v).degree(); }
// terms
N q_tterm(const T& t) { return t.tdeg(); }
N q_ftterm(const T& t) { return carl::total_degree(t); }
bool q_tconst(const T& t) { return t.isConstant(); }
bool q_tfconst(const T& t) { return carl::is_constant(t); }
bool q_tlin(const T& t) { return t.isLinear(); }
bool q_tfalin(const T& t) { return carl::is_at_most_linear(t); }
bool q_tflin(const T& t) { return carl::is_linear(t); }
bool q_tfone(const T& t) { return carl::is_one(t); }
N q_tvars(const T& t) { return t.getNrVariables(); }
bool q_thas(const T& t, V v) { return t.has(v); }
bool q_tnoother(const T& t, V v) { return t.hasNoOtherVariable(v); }
bool q_tsingle(const T& t) { return t.isSingleVariable(); }
bool q_tsquare(const T& t) { return t.isSquare(); }
V q_tthesingle(const T& t) { return t.getSingleVariable(); }
bool q_tvhas(const T& t, V v) { return carl::variables(t).has(v); }
int q_tdefinite(const T& t) { return static_cast<int>(carl::definiteness(t)); }
// monomials
N q_mvars(const M& m) { return m->nrVariables(); }
bool q_mvhas(const M& m, V v) { return carl::variables(*m).has(v); }
N q_mftdeg(const M& m) { return carl::total_degree(*m); }
bool q_mconst(const M& m) { return m->isConstant(); }
bool q_mfalin(const M& m) { return carl::is_at_most_linear(*m); }
bool q_mflin(const M& m) { return carl::is_linear(*m); }
V q_mthesingle(const M& m) { return m->getSingleVariable(); }
