// Client lemmas: small functions that only call the library's public
// operators. They are verified like every other function, against the
// contracts of the operators they call. A comment names what is proved.
namespace bnlaw {
// each of these returns true for all well formed finite numbers
template <class N> bool law_add_comm(const N& a, const N& b) { return a + b == b + a; }
template <class N> bool law_mul_comm(const N& a, const N& b) { return a * b == b * a; }
template <class N> bool law_add_sub(const N& a, const N& b) { return (a + b) - b == a; }
template <class N> bool law_sub_neg(const N& a, const N& b) { return a - b == a + (N() - b); }
template <class N> bool law_add_assoc(const N& a, const N& b, const N& c) { return (a + b) + c == a + (b + c); }
template <class N> bool law_mul_assoc(const N& a, const N& b, const N& c) { return (a * b) * c == a * (b * c); }
template <class N> bool law_distrib(const N& a, const N& b, const N& c) { return a * (b + c) == a * b + a * c; }
template <class N> bool law_divmod(const N& a, const N& b) { return b == N() || a == (a / b) * b + (a - (a / b) * b); }
template <class N> bool law_rem_small(const N& a, const N& b) {
    if (b == N()) return true;
    const N r = a - (a / b) * b;
    const N ar = r < N() ? N() - r : r;
    const N ab = b < N() ? N() - b : b;
    return ar < ab;
}
template <class N> bool law_rem_sign(const N& a, const N& b) {
    if (b == N()) return true;
    const N r = a - (a / b) * b;
    return r == N() || r.isNegative() == a.isNegative();
}
template <class N> bool law_order(const N& a, const N& b) {
    const N d = a - b;
    return (a < b) == (d.isNegative() && d != N());
}
template <class N> bool law_trichotomy(const N& a, const N& b) { return int(a < b) + int(a == b) + int(a > b) == 1; }
template <class N> bool law_order_add(const N& a, const N& b, const N& c) { return (a < b) == (a + c < b + c); }
template <class N> bool law_order_trans(const N& a, const N& b, const N& c) { return !(a <= b && b <= c) || a <= c; }
template <class N> bool law_mul_div(const N& a, const N& b) { return b == N() || (a * b) / b == a; }
// each of these leaves c and d with the same descriptor and the same digits, for any operands
template <class N> void same_add(const N& a, const N& b, N& c, N& d) { c = a; c += b; d = a + b; }
template <class N> void same_sub(const N& a, const N& b, N& c, N& d) { c = a; c -= b; d = a - b; }
template <class N> void same_mul(const N& a, const N& b, N& c, N& d) { c = a; c *= b; d = a * b; }
template <class N> void same_div(const N& a, const N& b, N& c, N& d) { c = a; c /= b; d = a / b; }
template <class N> void same_self_add(const N& a, N& c, N& d) { c = a; c += c; d = a; const N b(a); d += b; }
template <class N> void same_self_sub(const N& a, N& c, N& d) { c = a; c -= c; d = a; const N b(a); d -= b; }
template <class N> void same_self_mul(const N& a, N& c, N& d) { c = a; c *= c; d = a; const N b(a); d *= b; }
template <class N> void same_self_div(const N& a, N& c, N& d) { c = a; c /= c; d = a; const N b(a); d /= b; }
template <class N> void same_selfb_add(const N& a, N& c, N& d) { c = a + a; const N b(a); d = a + b; }
template <class N> void same_selfb_sub(const N& a, N& c, N& d) { c = a - a; const N b(a); d = a - b; }
template <class N> void same_selfb_mul(const N& a, N& c, N& d) { c = a * a; const N b(a); d = a * b; }
template <class N> void same_selfb_div(const N& a, N& c, N& d) { c = a / a; const N b(a); d = a / b; }
template <class F> void law_fft_there(cmplx_list_t<F>& x) { fft_complex<F>(x); ifft_complex<F>(x); }
template <class F> void law_fft_back(cmplx_list_t<F>& x) { ifft_complex<F>(x); fft_complex<F>(x); }
}
#define LAWS(N) \
  template bool bnlaw::law_add_comm<N>(const N&, const N&); \
  template bool bnlaw::law_mul_comm<N>(const N&, const N&); \
  template bool bnlaw::law_add_sub<N>(const N&, const N&); \
  template bool bnlaw::law_sub_neg<N>(const N&, const N&); \
  template bool bnlaw::law_add_assoc<N>(const N&, const N&, const N&); \
  template bool bnlaw::law_mul_assoc<N>(const N&, const N&, const N&); \
  template bool bnlaw::law_distrib<N>(const N&, const N&, const N&); \
  template bool bnlaw::law_divmod<N>(const N&, const N&); \
  template bool bnlaw::law_rem_small<N>(const N&, const N&); \
  template bool bnlaw::law_rem_sign<N>(const N&, const N&); \
  template bool bnlaw::law_order<N>(const N&, const N&); \
  template bool bnlaw::law_trichotomy<N>(const N&, const N&); \
  template bool bnlaw::law_order_add<N>(const N&, const N&, const N&); \
  template bool bnlaw::law_order_trans<N>(const N&, const N&, const N&); \
  template bool bnlaw::law_mul_div<N>(const N&, const N&); \
  template void bnlaw::same_add<N>(const N&, const N&, N&, N&); \
  template void bnlaw::same_sub<N>(const N&, const N&, N&, N&); \
  template void bnlaw::same_mul<N>(const N&, const N&, N&, N&); \
  template void bnlaw::same_div<N>(const N&, const N&, N&, N&); \
  template void bnlaw::same_self_add<N>(const N&, N&, N&); \
  template void bnlaw::same_self_sub<N>(const N&, N&, N&); \
  template void bnlaw::same_self_mul<N>(const N&, N&, N&); \
  template void bnlaw::same_self_div<N>(const N&, N&, N&); \
  template void bnlaw::same_selfb_add<N>(const N&, N&, N&); \
  template void bnlaw::same_selfb_sub<N>(const N&, N&, N&); \
  template void bnlaw::same_selfb_mul<N>(const N&, N&, N&); \
  template void bnlaw::same_selfb_div<N>(const N&, N&, N&);
LAWS(bignum_lowp) LAWS(bignum_medp) LAWS(bignum_highp)
#ifndef BN_DRIVER_BUILTIN
LAWS(bignum_base2) LAWS(bignum_base8) LAWS(bignum_base10) LAWS(bignum_base16)
#endif
