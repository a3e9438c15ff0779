// Query driver: quantities of the settings library; parsed only, never linked or run.
#include <carl-settings/settings_utils.h>
#include <carl-settings/settings_utils.cpp>
using namespace carl::settings;
using V = std::vector<std::string>;
duration q_pdur(const V& v) { boost::any a; validate(a, v, static_cast<duration*>(nullptr), 0); return boost::any_cast<duration>(a); }
binary_quantity q_pbin(const V& v) { boost::any a; validate(a, v, static_cast<binary_quantity*>(nullptr), 0); return boost::any_cast<binary_quantity>(a); }
metric_quantity q_pmet(const V& v) { boost::any a; validate(a, v, static_cast<metric_quantity*>(nullptr), 0); return boost::any_cast<metric_quantity>(a); }
std::intmax_t q_count(const duration& d) { return d.count(); }
duration q_mkdur(std::intmax_t n) { return duration(n); }
std::size_t q_bn(const binary_quantity& q) { return q.n(); }
std::size_t q_mn(const metric_quantity& q) { return q.n(); }
binary_quantity q_mkbin(std::size_t n) { return binary_quantity(n); }
metric_quantity q_mkmet(std::size_t n) { return metric_quantity(n); }
void q_sdur(std::ostream& os, const duration& d) { os << d; }
void q_sbin(std::ostream& os, const binary_quantity& d) { os << d; }
void q_smet(std::ostream& os, const metric_quantity& d) { os << d; }
std::intmax_t q_d_us(const duration& d) { return std::chrono::microseconds(d).count(); }
std::intmax_t q_d_ms(const duration& d) { return std::chrono::milliseconds(d).count(); }
std::intmax_t q_d_s(const duration& d) { return std::chrono::seconds(d).count(); }
std::intmax_t q_d_m(const duration& d) { return std::chrono::minutes(d).count(); }
std::intmax_t q_d_h(const duration& d) { return std::chrono::hours(d).count(); }
#define ACC(T, f) std::size_t q_a_##f(const T& q) { return q.f(); }
ACC(binary_quantity, kibi) ACC(binary_quantity, mebi) ACC(binary_quantity, gibi) ACC(binary_quantity, tebi) ACC(binary_quantity, pebi) ACC(binary_quantity, exbi)
ACC(metric_quantity, kilo) ACC(metric_quantity, mega) ACC(metric_quantity, giga) ACC(metric_quantity, tera) ACC(metric_quantity, peta) ACC(metric_quantity, exa)
bool q_beq(const binary_quantity& a, const binary_quantity& b) { return a == b; }
bool q_blt(const binary_quantity& a, const binary_quantity& b) { return a < b; }
bool q_meq(const metric_quantity& a, const metric_quantity& b) { return a == b; }
bool q_mlt(const metric_quantity& a, const metric_quantity& b) { return a < b; }
