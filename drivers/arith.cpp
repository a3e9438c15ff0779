// Query driver: interval arithmetic; parsed only, never linked or run.
#include "interval.cpp"
// operations of two intervals
I q_add(const I& a, const I& b) { return a.add(b); }
I q_opadd(const I& a, const I& b) { return a + b; }
I q_addas(const I& a, const I& b) { I r(a); r += b; return r; }
I q_sub(const I& a, const I& b) { return a.sub(b); }
I q_opsub(const I& a, const I& b) { return a - b; }
I q_subas(const I& a, const I& b) { I r(a); r -= b; return r; }
I q_mul(const I& a, const I& b) { return a.mul(b); }
I q_opmul(const I& a, const I& b) { return a * b; }
I q_mulas(const I& a, const I& b) { I r(a); r *= b; return r; }
I q_div(const I& a, const I& b) { return a.div(b); }
I q_divas(const I& a, const I& b) { I r(a); r.div_assign(b); return r; }
bool q_divext(const I& a, const I& b, I& x, I& y) { return a.div_ext(b, x, y); }
I q_hull(const I& a, const I& b) { return a.convexHull(b); }
// an interval and a number
I q_addn(const I& a, const Q& n) { return a + n; }
I q_nadd(const I& a, const Q& n) { return n + a; }
I q_addnas(const I& a, const Q& n) { I r(a); r += n; return r; }
I q_subn(const I& a, const Q& n) { return a - n; }
I q_nsub(const I& a, const Q& n) { return n - a; }
I q_subnas(const I& a, const Q& n) { I r(a); r -= n; return r; }
I q_muln(const I& a, const Q& n) { return a * n; }
I q_nmul(const I& a, const Q& n) { return n * a; }
I q_mulnas(const I& a, const Q& n) { I r(a); r *= n; return r; }
I q_divn(const I& a, const Q& n) { return a / n; }
I q_divnas(const I& a, const Q& n) { I r(a); r /= n; return r; }
I q_bloat(const I& a, const Q& n) { I r(a); r.bloat_by(n); return r; }
// one interval
I q_neg(const I& a) { return -a; }
I q_inverse(const I& a) { return a.inverse(); }
I q_inverseas(const I& a) { I r(a); r.inverse_assign(); return r; }
I q_abs(const I& a) { return a.abs(); }
I q_absas(const I& a) { I r(a); r.abs_assign(); return r; }
I q_fabs(const I& a) { return carl::abs(a); }
bool q_recip(const I& a, I& x, I& y) { return a.reciprocal(x, y); }
I q_pow(const I& a, unsigned e) { return carl::pow(a, e); }
I q_powas(const I& a, unsigned e) { I r(a); carl::pow_assign(r, e); return r; }
std::pair<I, I> q_split(const I& a) { return a.split(); }
std::list<I> q_splitn(const I& a, unsigned n) { return a.split(n); }
