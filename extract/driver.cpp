// Driver translation unit of the extraction: the library's own sources, plus
// explicit instantiations of the templates its public headers offer, for the
// types the library itself defines. It contains no code of its own; the client lemmas are in
// laws.h.
//
// BN_DRIVER_SHIMS (used when clang rejects the tree without it): `x op y` with a wrapper x and an integer y of another
// type is ambiguous in ISO C++; the compiler of this project (g++) takes the member which converts y to the wrapped type,
// clang gives up. The shims name that member. They are chosen for no other call.
// BN_DRIVER_BUILTIN (used when that fails as well): only the three bases with built-in digits are extracted.
#ifdef BN_DRIVER_SHIMS
#include "bignum/bn_int_type.h"
#define SHIM(R, op, U) template <typename T, BN_UINT64 I> constexpr R operator op (const BNIntType<T, I>& x, U y) { return x.operator op ((T)y); }
#define SHIM_W(op, U) template <typename T, BN_UINT64 I> constexpr BNIntType<T, I> operator op (const BNIntType<T, I>& x, U y) { return x.operator op ((T)y); }
#define SHIMS(U) SHIM(bool, ==, U) SHIM(bool, !=, U) SHIM(bool, <, U) SHIM(bool, <=, U) SHIM(bool, >, U) SHIM(bool, >=, U) \
  SHIM_W(+, U) SHIM_W(-, U) SHIM_W(*, U) SHIM_W(/, U) SHIM_W(%, U) SHIM_W(&, U) SHIM_W(|, U) SHIM_W(^, U) SHIM_W(>>, U) SHIM_W(<<, U)
SHIMS(int) SHIMS(unsigned) SHIMS(long) SHIMS(unsigned long) SHIMS(long long) SHIMS(unsigned long long)
SHIMS(short) SHIMS(unsigned short) SHIMS(char) SHIMS(signed char) SHIMS(unsigned char) SHIMS(bool)
#endif
#ifdef BN_DRIVER_BUILTIN
#include <iostream>
#include "bignum/bignum.h"
BN_DEFINE_CLASS(Bignum, bn_limits_lowp, bn_default_container_t<bn_limits_lowp::base_single>);
BN_DEFINE_CLASS(Bignum, bn_limits_medp, bn_default_container_t<bn_limits_medp::base_single>);
BN_DEFINE_CLASS(Bignum, bn_limits_highp, bn_default_container_t<bn_limits_highp::base_single>);
#else
#include "src/bn_type.cpp"
#endif
#include "src/bn_int_type.cpp"
#include "src/bn_limits.cpp"
#include "src/bn_except.cpp"
#include "src/bn_setup.cpp"
#include "src/bignum.cpp"
#ifndef BN_DRIVER_MINIMAL
#define C(L) bn_default_container_t<L::base_single>
#define ARITH(L) \
  template void abs_val_add<L, C(L)>(C(L)&, const C(L)&); \
  template void abs_val_sub<L, C(L)>(C(L)&, const C(L)&); \
  template void abs_val_div<L, C(L)>(C(L)&, const C(L)&); \
  template C(L) mul_naive<L, C(L)>(const C(L)&, const C(L)&); \
  template C(L) mul_strassen<L, C(L)>(const C(L)&, const C(L)&); \
  template std::ostream& operator<< <L, C(L)>(std::ostream&, const Bignum<L, C(L)>&);
#define CMP(L) \
  template bool abs_val_is_eq<C(L)>(const C(L)&, const C(L)&); \
  template bool abs_val_is_gt<C(L)>(const C(L)&, const C(L)&); \
  template bool abs_val_is_ge<C(L)>(const C(L)&, const C(L)&); \
  template bool abs_val_is_lt<C(L)>(const C(L)&, const C(L)&); \
  template bool abs_val_is_le<C(L)>(const C(L)&, const C(L)&); \
  template cmplx_list_t<double> create_fft_table<C(L), double>(const C(L)&, const C(L)&);
#ifdef BN_DRIVER_BUILTIN
#define FORL(X) X(bn_limits_lowp) X(bn_limits_medp) X(bn_limits_highp)
#else
#define FORL(X) X(bn_limits_lowp) X(bn_limits_medp) X(bn_limits_highp) X(bn_limits_base2) X(bn_limits_base8) X(bn_limits_base10) X(bn_limits_base16)
#endif
// bases 10 and 16 share one digit type only if their id agrees: it does not
FORL(ARITH)
FORL(CMP)
template void fft_complex<double>(cmplx_list_t<double>&);
template void ifft_complex<double>(cmplx_list_t<double>&);
template void convolute_fft<double>(cmplx_list_t<double>&);
template bool isPow2<uint64_t>(uint64_t);
template uint64_t nextPow2<uint64_t>(uint64_t);
#define BINOP(T, I, op) \
  template T operator op <T, I>(const T&, const BNIntType<T, I>&); \
  template T& operator op##= <T, I>(T&, const BNIntType<T, I>&);
#define BOOLOP(T, I, op) template bool operator op <T, I>(const T&, const BNIntType<T, I>&);
#define RV(T, I) \
  BINOP(T,I,+) BINOP(T,I,-) BINOP(T,I,*) BINOP(T,I,/) BINOP(T,I,%) BINOP(T,I,&) BINOP(T,I,|) BINOP(T,I,^) BINOP(T,I,>>) BINOP(T,I,<<) \
  BOOLOP(T,I,==) BOOLOP(T,I,!=) BOOLOP(T,I,<) BOOLOP(T,I,<=) BOOLOP(T,I,>) BOOLOP(T,I,>=) \
  template std::ostream& operator<< <T, I>(std::ostream&, const BNIntType<T, I>&);
RV(BN_UINT8, 2)
RV(BN_UINT16, 8)
RV(BN_UINT32, 10)
RV(BN_UINT64, 10)
#include "laws.h"
template void bnlaw::law_fft_there<double>(cmplx_list_t<double>&);
template void bnlaw::law_fft_back<double>(cmplx_list_t<double>&);
#endif
