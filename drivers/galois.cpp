// Query driver: finite fields (C26); parsed only, never linked or run.
#include <carl/numbers/numbers.h>
using Z = mpz_class;
using F = carl::GaloisField<Z>;
using G = carl::GFNumber<Z>;
F q_field(unsigned p, unsigned k) { return F(p, k); }
G q_mk(const Z& n, const F& f) { return G(n, &f); }
G q_mk0(const Z& n) { return G(n); }
G q_refield(const G& a, const F& f) { return G(a, &f); }
G q_togf(const G& a, const F& f) { return a.toGF(&f); }
Z q_rep(const G& a) { return a.representingInteger(); }
bool q_hasfield(const G& a) { return a.gf() != nullptr; }
Z q_fieldsize(const G& a) { return a.gf()->size(); }
void q_normalize(G& a) { a.normalize(); }
bool q_iszero(const G& a) { return a.isZero(); }
bool q_isone(const G& a) { return a.isOne(); }
bool q_isunit(const G& a) { return a.isUnit(); }
bool q_iszerof(const G& a) { return carl::isZero(a); }
bool q_isonef(const G& a) { return carl::isOne(a); }
G q_inverse(const G& a) { return a.inverse(); }
G q_neg(const G& a) { return -a; }
G q_inc(G& a) { return ++a; }
G q_dec(G& a) { return --a; }
G q_add(const G& a, const G& b) { return a + b; }
G q_sub(const G& a, const G& b) { return a - b; }
G q_mul(const G& a, const G& b) { return a * b; }
G q_div(const G& a, const G& b) { return a / b; }
G q_quo(const G& a, const G& b) { return carl::quotient(a, b); }
G q_addas(G& a, const G& b) { return a += b; }
G q_subas(G& a, const G& b) { return a -= b; }
G q_mulas(G& a, const G& b) { return a *= b; }
G q_divas(G& a, const G& b) { return a /= b; }
G q_addn(const G& a, const Z& n) { return a + n; }
G q_nadd(const Z& n, const G& a) { return n + a; }
G q_subn(const G& a, const Z& n) { return a - n; }
G q_nsub(const Z& n, const G& a) { return n - a; }
G q_muln(const G& a, const Z& n) { return a * n; }
G q_nmul(const Z& n, const G& a) { return n * a; }
G q_addnas(G& a, const Z& n) { return a += n; }
G q_subnas(G& a, const Z& n) { return a -= n; }
G q_mulnas(G& a, const Z& n) { return a *= n; }
bool q_eq(const G& a, const G& b) { return a == b; }
bool q_ne(const G& a, const G& b) { return a != b; }
bool q_eqn(const G& a, const Z& n) { return a == n; }
bool q_neq(const Z& n, const G& a) { return n == a; }
bool q_nen(const G& a, const Z& n) { return a != n; }
bool q_nne(const Z& n, const G& a) { return n != a; }
bool q_eqi(const G& a, int n) { return a == n; }
bool q_ieq(int n, const G& a) { return n == a; }
bool q_nei(const G& a, int n) { return a != n; }
bool q_ine(int n, const G& a) { return n != a; }
const F* q_get(unsigned p, unsigned k) { return carl::GaloisFieldManager<Z>::getInstance().getField(p, k); }
bool q_same(const F* a, const F* b) { return a == b; }
Z q_size(const F& a) { return a.size(); }
unsigned q_p(const F& a) { return a.p(); }
unsigned q_k(const F& a) { return a.k(); }
