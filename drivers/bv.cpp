// Query driver: bit-vector values; parsed only, never linked or run.
#include <carl/numbers/numbers.h>
#include <carl/formula/bitvector/BVValue.h>
#include <carl/formula/bitvector/BVValue.cpp>
using V = carl::BVValue;
using B = V::Base;
using Z = mpz_class;
using N = std::size_t;
V q_make(const B& b) { return V(B(b)); }
B q_base(const V& v) { return v.base(); }
N q_width(const V& v) { return v.width(); }
bool q_isZero(const V& v) { return v.isZero(); }
V q_ctorU(N w, carl::uint v) { return V(w, v); }
V q_ctorZ(N w, const Z& v) { return V(w, v); }
V q_ctorS(const std::string& s) { return V(s); }
std::string q_str(const V& v) { return v.toString(); }
V q_rotl(const V& v, N n) { return v.rotateLeft(n); }
V q_rotr(const V& v, N n) { return v.rotateRight(n); }
V q_repeat(const V& v, N n) { return v.repeat(n); }
V q_extu(const V& v, N n) { return v.extendUnsignedBy(n); }
V q_exts(const V& v, N n) { return v.extendSignedBy(n); }
bool q_at(const V& v, N i) { return v[i]; }
V q_put(const V& v, N i, bool b) { V r(v); r[i] = b; return r; }
V q_concat(const V& a, const V& b) { return a.concat(b); }
V q_sdiv(const V& a, const V& b) { return a.divideSigned(b); }
V q_srem(const V& a, const V& b) { return a.remSigned(b); }
V q_smod(const V& a, const V& b) { return a.modSigned(b); }
V q_ashr(const V& a, const V& b) { return a.rightShiftArithmetic(b); }
V q_shl(const V& a, const V& b) { return a << b; }
V q_lshr(const V& a, const V& b) { return a >> b; }
V q_extract(const V& a, N h, N l) { return a.extract(h, l); }
bool q_eq(const V& a, const V& b) { return a == b; }
bool q_less(const V& a, const V& b) { return a < b; }
V q_not(const V& a) { return ~a; }
V q_neg(const V& a) { return -a; }
V q_add(const V& a, const V& b) { return a + b; }
V q_sub(const V& a, const V& b) { return a - b; }
V q_mul(const V& a, const V& b) { return a * b; }
V q_urem(const V& a, const V& b) { return a % b; }
V q_udiv(const V& a, const V& b) { return a / b; }
V q_and(const V& a, const V& b) { return a & b; }
V q_or(const V& a, const V& b) { return a | b; }
V q_xor(const V& a, const V& b) { return a ^ b; }
std::size_t q_hash(const V& a) { return std::hash<V>()(a); }
