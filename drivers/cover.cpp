// Query driver: set covers; parsed only, never linked or run.
#include <algorithm>
#include <map>
#include <carl/util/Bitset.h>
#include <carl/util/Covering.h>
#include <carl-covering/carl-covering.h>
#include <carl-covering/SetCover.cpp>
#include <carl-covering/heuristics/exact.cpp>
#include <carl-covering/heuristics/greedy.cpp>
#include <carl-covering/heuristics/remove_duplicates.cpp>
#include <carl-covering/heuristics/select_essential.cpp>
#include <carl-covering/heuristics/trivial.cpp>
using namespace carl::covering;
using S = SetCover;
using T = TypedSetCover<int>;
using C = carl::Covering<int>;
namespace h = carl::covering::heuristic;
carl::Bitset q_bits(carl::Bitset::BaseType&& d) { return carl::Bitset(std::move(d), false); }
bool q_test(const carl::Bitset& b, std::size_t n) { return b.test(n); }
std::size_t q_bsize(const carl::Bitset& b) { return b.size(); }
S q_mk() { return S(); }
void q_add(S& s, std::size_t i, const carl::Bitset& b) { s.set(i, b); }
void q_add1(S& s, std::size_t i, std::size_t e) { s.set(i, e); }
const carl::Bitset& q_get(const S& s, std::size_t i) { return s.get_set(i); }
std::size_t q_elements(const S& s) { return s.element_count(); }
std::size_t q_count(const S& s) { return s.set_count(); }
std::size_t q_active(const S& s) { return s.active_set_count(); }
std::size_t q_largest(const S& s) { return s.largest_set(); }
std::size_t q_largestw(const S& s, const std::vector<double>& w) { return s.largest_set(w); }
carl::Bitset q_uncovered(const S& s) { return s.get_uncovered(); }
void q_select(S& s, std::size_t i) { s.select_set(i); }
void q_prune(S& s) { s.prune_sets(); }
carl::Bitset q_exact(S& s) { return h::exact(s); }
carl::Bitset q_greedy(S& s) { return h::greedy(s); }
carl::Bitset q_greedyb(S& s, std::size_t n) { return h::greedy_bounded(s, n); }
carl::Bitset q_greedyw(S& s, const std::vector<double>& w, std::size_t n) { return h::greedy_weighted(s, w, n); }
carl::Bitset q_dups(S& s) { return h::remove_duplicates(s); }
carl::Bitset q_essential(S& s) { return h::select_essential(s); }
carl::Bitset q_trivial(S& s) { return h::trivial(s); }
T q_tmk() { return T(); }
void q_tadd(T& t, int s, const carl::Bitset& b) { t.set(s, b); }
void q_tadd1(T& t, int s, std::size_t e) { t.set(s, e); }
std::vector<int> q_tgreedy(T& t) { return t.get_cover(h::greedy); }
std::vector<int> q_ttrivial(T& t) { return t.get_cover(h::trivial); }
const S& q_tsc(T& t) { return t.set_cover(); }
carl::Bitset q_tweighted(T& t, const std::vector<double>& w) { return h::greedy_weighted(t, [&w](int s) { return w[static_cast<std::size_t>(s)]; }, 0); }
C q_cmk(std::size_t n) { return C(n); }
void q_cadd(C& c, int t, const carl::Bitset& b) { c.add(t, b); }
bool q_cconf(const C& c) { return c.conflicts(); }
std::size_t q_csat(const C& c) { return c.satisfyingInterval(); }
void q_ccore(const C& c, std::vector<int>& v) { c.buildConflictingCore(v); }
