// Query driver: sorts, uninterpreted functions and their instances (C12, C16); parsed only, never linked or run.
#include <cassert>
#include <carl/formula/SortManager.h>
#include <carl/formula/SortManager.cpp>
#include <carl/formula/uninterpreted/UFManager.h>
#include <carl/formula/uninterpreted/UFManager.cpp>
#include <carl/formula/uninterpreted/UFInstanceManager.h>
#include <carl/formula/uninterpreted/UFInstanceManager.cpp>
#include <carl/formula/uninterpreted/UEquality.h>
#include <carl/formula/uninterpreted/UTerm.cpp>
#include <carl/formula/uninterpreted/UFInstance.cpp>
#include <carl/formula/uninterpreted/UninterpretedFunction.cpp>
#include <carl/formula/uninterpreted/UEquality.cpp>
using N = std::size_t;
using S = carl::Sort;
using V = carl::Variable;
using F = carl::UninterpretedFunction;
using I = carl::UFInstance;
using T = carl::UTerm;
using X = carl::UVariable;
using E = carl::UEquality;
using L = std::vector<S>;
using W = std::vector<N>;
static carl::SortManager& sm() { return carl::SortManager::getInstance(); }
V q_novar() { return V(); }
L q_sorts() { return L(); }
void q_psort(L& l, S s) { l.push_back(s); }
W q_nums() { return W(); }
void q_pnum(W& l, N s) { l.push_back(s); }
std::vector<T> q_terms() { return std::vector<T>(); }
void q_pterm(std::vector<T>& l, const T& s) { l.push_back(s); }
std::string q_str(const char* c) { return std::string(c); }
// sorts
bool q_declare(const std::string& n, N arity) { return sm().declare(n, arity); }
bool q_define(const std::string& n, const std::vector<std::string>& p, S s) { return sm().define(n, p, s); }
S q_add(const std::string& n) { return sm().addSort(n); }
S q_addi(const std::string& n, carl::VariableType t) { return sm().addInterpretedSort(n, t); }
void q_indexable(S s, N n, carl::VariableType t) { sm().makeSortIndexable(s, n, t); }
S q_get0(const std::string& n) { return sm().getSort(n); }
S q_getp(const std::string& n, const L& p) { return sm().getSort(n, p); }
S q_geti(const std::string& n, const W& i) { return sm().getSort(n, i); }
S q_getpi(const std::string& n, const W& i, const L& p) { return sm().getSort(n, i, p); }
S q_index(S s, const W& i) { return sm().index(s, i); }
N q_sid(S s) { return s.id(); }
bool q_seq(S a, S b) { return a == b; }
const std::string& q_sname(S s) { return sm().getName(s); }
const L* q_sparams(S s) { return sm().getParameters(s); }
const W* q_sindices(S s) { return sm().getIndices(s); }
N q_sarity(S s) { return sm().getArity(s); }
carl::VariableType q_stype(S s) { return sm().getType(s); }
N q_shash(S s) { return std::hash<S>()(s); }
// functions
F q_uf(const std::string& n, const L& d, S c) { return carl::newUninterpretedFunction(n, d, c); }
N q_fid(const F& f) { return f.id(); }
bool q_feq(const F& a, const F& b) { return a == b; }
bool q_flt(const F& a, const F& b) { return a < b; }
const std::string& q_fname(const F& f) { return f.name(); }
const L& q_fdomain(const F& f) { return f.domain(); }
S q_fcodomain(const F& f) { return f.codomain(); }
N q_fhash(const F& f) { return std::hash<F>()(f); }
// instances and terms
X q_uvar(V v, S s) { return X(v, s); }
T q_tvar(const X& x) { return T(x); }
T q_tinst(const I& x) { return T(x); }
I q_inst(const F& f, const std::vector<T>& a) { return carl::UFInstanceManager::getInstance().newUFInstance(f, a); }
I q_instm(const F& f, std::vector<T>& a) { return carl::UFInstanceManager::getInstance().newUFInstance(f, std::move(a)); }
N q_iid(const I& i) { return i.id(); }
bool q_ieq(const I& a, const I& b) { return a == b; }
F q_iuf(const I& i) { return i.uninterpretedFunction(); }
const std::vector<T>& q_iargs(const I& i) { return i.args(); }
N q_ihash(const I& f) { return std::hash<I>()(f); }
bool q_teq(const T& a, const T& b) { return a == b; }
bool q_tne(const T& a, const T& b) { return a != b; }
bool q_tlt(const T& a, const T& b) { return a < b; }
S q_tdomain(const T& a) { return a.domain(); }
N q_thash(const T& f) { return std::hash<T>()(f); }
// equalities
E q_eq(const T& a, const T& b, bool n) { return E(a, b, n); }
E q_neg(const E& a) { return a.negation(); }
E q_inv(const E& a, bool b) { return E(a, b); }
bool q_eeq(const E& a, const E& b) { return a == b; }
bool q_ene(const E& a, const E& b) { return a != b; }
bool q_elt(const E& a, const E& b) { return a < b; }
bool q_enegated(const E& a) { return a.negated(); }
N q_ehash(const E& f) { return std::hash<E>()(f); }
// occurring variables and functions (C36)
bool q_tvars(const T& t, V v) { carl::carlVariables s; t.gatherVariables(s); return s.has(v); }
N q_tnvars(const T& t) { carl::carlVariables s; t.gatherVariables(s); return s.size(); }
bool q_tfuns(const T& t, const F& f) { std::set<F> s; t.gatherUFs(s); return s.find(f) != s.end(); }
N q_tnfuns(const T& t) { std::set<F> s; t.gatherUFs(s); return s.size(); }
bool q_evars(const E& t, V v) { carl::carlVariables s; t.gatherVariables(s); return s.has(v); }
N q_envars(const E& t) { carl::carlVariables s; t.gatherVariables(s); return s.size(); }
bool q_efuns(const E& t, const F& f) { std::set<F> s; t.gatherUFs(s); return s.find(f) != s.end(); }
N q_enfuns(const E& t) { std::set<F> s; t.gatherUFs(s); return s.size(); }
bool q_euvars(const E& t, const X& x) { std::set<X> s; t.gatherUVariables(s); return s.find(x) != s.end(); }
N q_enuvars(const E& t) { std::set<X> s; t.gatherUVariables(s); return s.size(); }
bool q_k13(const X& a, const X& b) { return a < b; }
bool q_k14(const F& a, const F& b) { return a < b; }
// operations the managers apply inside library containers
bool q_k1(const carl::UFContent* a) { return carl::pointerEqual<carl::UFContent>()(a, a); }
bool q_k2(const carl::UFInstanceContent* a) { return carl::pointerEqual<carl::UFInstanceContent>()(a, a); }
bool q_k3(const carl::SortContent* a) { return carl::less<const carl::SortContent*>()(a, a); }
N q_k4(const carl::UFContent* a) { return carl::pointerHash<carl::UFContent>()(a); }
N q_k5(const carl::UFInstanceContent* a) { return carl::pointerHash<carl::UFInstanceContent>()(a); }
N q_k6(const carl::UFContent& a) { return std::hash<carl::UFContent>()(a); }
N q_k7(const carl::UFInstanceContent& a) { return std::hash<carl::UFInstanceContent>()(a); }
N q_k8(const L& a) { std::size_t s = 0; carl::hash_add(s, a); return s; }
bool q_k9(S a, S b) { return a < b || a == b; }
N q_k10(const X& a) { return std::hash<X>()(a); }
bool q_k11(const carl::UFContent& a, const carl::UFContent& b) { return a == b; }
bool q_k12(const carl::UFInstanceContent& a, const carl::UFInstanceContent& b) { return a == b; }
std::unique_ptr<carl::UFContent> q_fcont(const std::string& n, const L& d, S c) { return std::make_unique<carl::UFContent>(std::string(n), L(d), c); }
std::unique_ptr<carl::UFInstanceContent> q_icont(const F& f, const std::vector<T>& a) { return std::make_unique<carl::UFInstanceContent>(f, a); }
