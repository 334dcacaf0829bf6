// BNIntType against the built-in integers (property C14).
//   ints search C14 <seed> <seconds> [constants...]
//   ints case C14 <width> <a> <b>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <time.h>
#include "bignum/bignum.h"
typedef uint64_t u64;
typedef std::string S;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static u64 count;

template <class T, class W> struct Test {
    static T raw(const W& w) { T t; static_assert(sizeof t == sizeof w, "layout"); memcpy(&t, &w, sizeof t); return t; }
    static W mk(T t) { W w(0); memcpy((void*)&w, &t, sizeof t); return w; }
    typedef decltype(T() + T()) Pr;
    static S bad(const char* f, T got, T want) { return S(f) + " gives " + std::to_string(+got) + ", expected " + std::to_string(+want); }

    static S run(T a, T b) {
        const unsigned PW = sizeof(Pr) * 8;
#define CHK(f, got, want) do { ++count; T g_ = (T)(got), w_ = (T)(want); if (g_ != w_) return bad(f, g_, w_); } while (0)
#define SAMEOPS(f) do { if (raw(x) != a || raw(y) != b || n != b) return S(f) + " changes an operand"; } while (0)
#define BIN(op) do { \
        const W x = mk(a), y = mk(b); const T n = b; const T want = (T)(a op b); \
        CHK("wrapper " #op " wrapper", raw(x op y), want); CHK("wrapper " #op " integer", raw(x op n), want); \
        CHK("integer " #op " wrapper", (a op y), want); SAMEOPS(#op); \
        { W z = mk(a); W* r = &(z op##= y); CHK("wrapper " #op "= wrapper", raw(z), want); if (r != &z) return #op "= does not yield its left operand"; SAMEOPS(#op "="); } \
        { W z = mk(a); W* r = &(z op##= n); CHK("wrapper " #op "= integer", raw(z), want); if (r != &z) return #op "= does not yield its left operand"; SAMEOPS(#op "="); } \
        { T z = a; T* r = &(z op##= y); CHK("integer " #op "= wrapper", z, want); if (r != &z) return "integer " #op "= does not yield its left operand"; SAMEOPS(#op "="); } \
        if (a == b) { W z = mk(a); z op##= z; CHK("wrapper " #op "= itself", raw(z), want); } \
    } while (0)
#define REL(op) do { \
        const W x = mk(a), y = mk(b); const T n = b; const bool want = a op b; ++count; \
        if ((x op y) != want) return "wrapper " #op " wrapper is wrong"; if ((x op n) != want) return "wrapper " #op " integer is wrong"; \
        if ((a op y) != want) return "integer " #op " wrapper is wrong"; SAMEOPS(#op); } while (0)
        BIN(+); BIN(-);
        if (sizeof(T) != 2 || (u64)a * b < ((u64)1 << 31)) BIN(*);
        if (b) { BIN(/); BIN(%); }
        BIN(&); BIN(|); BIN(^);
        if (b < PW) { BIN(>>); BIN(<<); }
        REL(==); REL(!=); REL(<); REL(<=); REL(>); REL(>=);
        { W x = mk(a), y = x++; CHK("x++ (value)", raw(y), a); CHK("x++", raw(x), (T)(a + 1)); }
        { W x = mk(a), y = x--; CHK("x-- (value)", raw(y), a); CHK("x--", raw(x), (T)(a - 1)); }
        { W x = mk(a); W* r = &++x; CHK("++x", raw(x), (T)(a + 1)); if (r != &x) return "++x does not yield x"; }
        { W x = mk(a); W* r = &--x; CHK("--x", raw(x), (T)(a - 1)); if (r != &x) return "--x does not yield x"; }
        { const W x = mk(a); CHK("!x", raw(!x), (T)!a); CHK("+x", raw(+x), a); CHK("-x", raw(-x), (T)-a); CHK("~x", raw(~x), (T)~a); if (raw(x) != a) return "a unary operator changes its operand"; }
        { W x(a); CHK("construction", raw(x), a); W y(x); CHK("copy construction", raw(y), a); CHK("copied from", raw(x), a); W z(std::move(y)); CHK("move construction", raw(z), a); const T ca = a; W w(ca); CHK("construction from a const integer", raw(w), a); }
        { W d{}; CHK("default construction", raw(d), 0); }
        { W x = mk(b); const W s = mk(a); W* r = &(x = s); CHK("assignment", raw(x), a); CHK("assigned from", raw(s), a); if (r != &x) return "= does not yield its left operand"; }
        { W x = mk(b); W s = mk(a); W* r = &(x = std::move(s)); CHK("move assignment", raw(x), a); if (r != &x) return "= does not yield its left operand"; }
        { W x = mk(b); const T s = a; W* r = &(x = s); CHK("assignment of an integer", raw(x), a); if (r != &x) return "= does not yield its left operand"; }
        { W x = mk(b); W* r = &(x = (T)a); CHK("assignment of an integer temporary", raw(x), a); if (r != &x) return "= does not yield its left operand"; }
        { W x = mk(a); W& q = x; x = q; CHK("assignment to itself", raw(x), a); }
        { const W x = mk(a); T t = (T)x; CHK("conversion", t, a); }
        return "";
    }
};
template <unsigned K> struct Ty;
template <> struct Ty<8> { typedef BN_UINT8 T; };
template <> struct Ty<16> { typedef BN_UINT16 T; };
template <> struct Ty<32> { typedef BN_UINT32 T; };
template <> struct Ty<64> { typedef BN_UINT64 T; };
template <unsigned K, u64 I> static S one(u64 a, u64 b) { typedef typename Ty<K>::T T; return Test<T, BNIntType<T, I>>::run((T)a, (T)b); }
static S run(unsigned w, u64 a, u64 b) {
    S s;
    switch (w) {
        case 8: s = one<8, 2>(a, b); if (s.empty()) s = one<8, 8>(a, b); if (s.empty()) s = one<8, 10>(a, b); if (s.empty()) s = one<8, 16>(a, b); return s;
        case 16: return one<16, 10>(a, b); case 32: return one<32, 10>(a, b); default: return one<64, 10>(a, b);
    }
}
int main(int argc, char** argv) {
    if (argc < 4) return 2;
    S mode = argv[1];
    if (mode == "case") {
        if (argc < 6) return 2;
        S e = run(atoi(argv[3]), strtoull(argv[4], 0, 10), strtoull(argv[5], 0, 10));
        printf("%s\n", e.empty() ? "ok" : ("FAIL " + e).c_str());
        return e.empty() ? 0 : 1;
    }
    std::mt19937_64 rng(strtoull(argv[3], 0, 10));
    double end = now() + atof(argv[4]);
    std::vector<u64> k;
    for (int i = 5; i < argc; ++i) { u64 c = strtoull(argv[i], 0, 10); for (int d = -1; d < 2; ++d) k.push_back(c + d); }
    u64 cases = 0;
    auto test = [&](unsigned w, u64 a, u64 b) {
        u64 m = w == 64 ? ~(u64)0 : ((u64)1 << w) - 1;
        a &= m; b &= m; ++cases;
        S e = run(w, a, b);
        if (!e.empty()) { printf("FAIL %u %llu %llu :: %s\nCOUNT %llu %llu\n", w, (unsigned long long)a, (unsigned long long)b, e.c_str(), (unsigned long long)cases, (unsigned long long)cases); exit(1); }
    };
    for (u64 a = 0; a < 256; ++a) for (u64 b = 0; b < 256; ++b) test(8, a, b);
    std::vector<u64> e;
    for (int i = 0; i <= 64; ++i) { u64 p = i == 64 ? 0 : (u64)1 << i; for (int d = -2; d <= 2; ++d) e.push_back(p + (u64)d); }
    e.insert(e.end(), k.begin(), k.end());
    for (unsigned w : { 16u, 32u, 64u }) for (u64 a : e) for (u64 b : e) test(w, a, b);
    for (u64 b = 0; b < 65536 && now() < end; ++b) for (u64 a : { (u64)0, (u64)1, (u64)0x8000, (u64)0xffff, (u64)rng() }) { test(16, a, b); test(16, b, a); }
    while (now() < end) for (int i = 0; i < 1000; ++i) for (unsigned w : { 16u, 32u, 64u }) { u64 a = rng() >> (rng() % 64), b = rng() >> (rng() % 64); test(w, a, b); test(w, a, rng() % 70); test(w, a, a); test(w, a, e[rng() % e.size()]); }
    printf("COUNT %llu %llu\n", (unsigned long long)cases, (unsigned long long)cases);
    return 0;
}
