// Query driver: the infinite bitset; parsed only, never linked or run.
#include <carl/util/Bitset.h>
using S = carl::Bitset;
S q_mk(S::BaseType&& d, bool def) { return S(std::move(d), def); }
S q_def(bool def) { return S(def); }
S q_def0() { return S(); }
S q_list(std::size_t a, std::size_t b, bool def) { return S({a, b}, def); }
S q_copy(const S& a) { return S(a); }
bool q_test(const S& a, std::size_t n) { return a.test(n); }
void q_set(S& a, std::size_t n, bool v) { a.set(n, v); }
void q_set1(S& a, std::size_t n) { a.set(n); }
void q_setint(S& a, std::size_t n, std::size_t m, bool v) { a.set_interval(n, m, v); }
void q_reset(S& a, std::size_t n) { a.reset(n); }
bool q_any(const S& a) { return a.any(); }
bool q_none(const S& a) { return a.none(); }
std::size_t q_count(const S& a) { return a.count(); }
std::size_t q_size(const S& a) { return a.size(); }
bool q_subset(const S& a, const S& b) { return a.is_subset_of(b); }
std::size_t q_first(const S& a) { return a.find_first(); }
std::size_t q_next(const S& a, std::size_t n) { return a.find_next(n); }
void q_resize(const S& a, std::size_t n) { a.resize(n); }
void q_resizev(const S& a, std::size_t n, bool v) { a.resize(n, v); }
void q_align(const S& a, const S& b) { alignSize(a, b); }
void q_subas(S& a, const S& b) { a -= b; }
void q_andas(S& a, const S& b) { a &= b; }
void q_oras(S& a, const S& b) { a |= b; }
bool q_eq(const S& a, const S& b) { return a == b; }
bool q_less(const S& a, const S& b) { return a < b; }
S q_not(const S& a) { return ~a; }
S q_and(const S& a, const S& b) { return a & b; }
S q_or(const S& a, const S& b) { return a | b; }
std::size_t q_hash(const S& a) { return std::hash<S>()(a); }
bool q_iter(const S& a, std::size_t* out, std::size_t& n) {
	n = 0;
	for (std::size_t i : a) { out[n] = i; n++; }
	return true;
}
