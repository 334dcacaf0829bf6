// Runs the real code of /repo on concrete inputs and compares it with an
// independent reference (schoolbook arithmetic on digit lists below).
//   harness search <property> <seed> <seconds> [constants...]
//   harness case   <property> <op> [num]... [=int]...      one case (replay)
// One binary per number type: -DBNT=bignum_base10 -DBBASE=10
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <iostream>
#include <new>
#include <random>
#include <sstream>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <vector>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "bignum/bignum.h"

typedef BNT N;
typedef N::container_type C;
typedef N::value_t D;
#ifndef LIMITS
#error LIMITS
#endif
typedef LIMITS L;
typedef uint64_t u64;
typedef unsigned __int128 u128;
static const u64 B = BBASE;
typedef std::vector<u64> Mag;      // least significant digit first

// ------------------------------------------------------- failing allocations
static long g_fail = -1;           // allocations until one fails (-1: never)
static long g_allocs = 0;
struct FailAlloc : std::bad_alloc { const char* what() const noexcept override { return "planned"; } };
#if defined(FAULTS)
void* operator new(size_t n) {
    ++g_allocs;
    if (g_fail >= 0 && g_fail-- == 0) { throw FailAlloc(); }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
#endif

// ----------------------------------------------------------------- reference
struct Num { int desc; Mag d; };
static void trim(Mag& a) { while (!a.empty() && !a.back()) a.pop_back(); }
static Mag norm(const Mag& a) {    // digits may exceed the base
    Mag r; u128 c = 0;
    for (u64 x : a) { c += x; r.push_back((u64)(c % B)); c /= B; }
    while (c) { r.push_back((u64)(c % B)); c /= B; }
    trim(r); return r;
}
static int mcmp(const Mag& a, const Mag& b) {   // both trimmed
    if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1;
    for (size_t i = a.size(); i-- > 0;) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return 0;
}
static Mag madd(const Mag& a, const Mag& b) {
    Mag r; u64 c = 0;
    for (size_t i = 0; i < std::max(a.size(), b.size()) || c; ++i) {
        u64 s = c + (i < a.size() ? a[i] : 0) + (i < b.size() ? b[i] : 0);
        r.push_back(s % B); c = s / B;
    }
    trim(r); return r;
}
static Mag msub(const Mag& a, const Mag& b) {   // a >= b
    Mag r; long long c = 0;
    for (size_t i = 0; i < a.size(); ++i) {
        long long s = (long long)a[i] - (long long)(i < b.size() ? b[i] : 0) - c;
        c = s < 0; if (c) s += (long long)B;
        r.push_back((u64)s);
    }
    trim(r); return r;
}
static Mag mmul(const Mag& a, const Mag& b) {
    if (a.empty() || b.empty()) return Mag();
    std::vector<u64> r(a.size() + b.size(), 0);
    for (size_t i = 0; i < a.size(); ++i) {
        u64 c = 0;
        if (!a[i]) continue;
        for (size_t j = 0; j < b.size(); ++j) {
            u128 t = (u128)a[i] * b[j] + r[i + j] + c;
            r[i + j] = (u64)(t % B); c = (u64)(t / B);
        }
        for (size_t k = i + b.size(); c; ++k) { u64 t = r[k] + c; r[k] = t % B; c = t / B; }
    }
    trim(r); return r;
}
static bool neg(const Num& n) { return n.desc == BN_NEG; }
static bool fin(const Num& n) { return n.desc == BN_POS || n.desc == BN_NEG; }
struct SMag { bool n; Mag m; };
static SMag sm(const Num& a) { SMag r; r.m = norm(a.d); r.n = neg(a) && !r.m.empty(); return r; }
static SMag sadd(const SMag& a, const SMag& b) {
    SMag r;
    if (a.n == b.n) { r.n = a.n; r.m = madd(a.m, b.m); }
    else if (mcmp(a.m, b.m) >= 0) { r.n = a.n; r.m = msub(a.m, b.m); }
    else { r.n = b.n; r.m = msub(b.m, a.m); }
    if (r.m.empty()) r.n = false;
    return r;
}
static SMag sneg(SMag a) { if (!a.m.empty()) a.n = !a.n; return a; }
static SMag smul(const SMag& a, const SMag& b) { SMag r; r.m = mmul(a.m, b.m); r.n = (a.n != b.n) && !r.m.empty(); return r; }
static int scmp(const SMag& a, const SMag& b) {
    if (a.n != b.n) return a.n ? -1 : 1;
    int c = mcmp(a.m, b.m);
    return a.n ? -c : c;
}

// ------------------------------------------------------- library <-> harness
static u64 digit(const D& d) { u64 r = 0; memcpy(&r, &d, sizeof d); return r; }
static D mkdigit(u64 x) { D d(0); memcpy(&d, &x, sizeof d); return d; }
static C mkc(const Mag& m, int extra = 0) {
    C c; if (extra) c.reserve(m.size() + extra);
    for (u64 x : m) c.push_back(mkdigit(x));
    return c;
}
static N mk(const Num& n, int extra = 0) {
    N r;
    C& c = const_cast<C&>(r.getData());
    c = mkc(n.d, extra);
    bn_desc_t d = (bn_desc_t)n.desc;
    r.descriptor = d;
    return r;
}
static Mag getm(const C& c) { Mag m; for (size_t i = 0; i < c.size(); ++i) m.push_back(digit(c[i])); return m; }
static Num get(const N& n) { Num r; r.desc = n.descriptor; r.d = getm(n.getData()); return r; }
static bool same(const Num& a, const Num& b) { return a.desc == b.desc && a.d == b.d; }

static std::string show(const Num& n) {
    std::string s = std::to_string(n.desc) + ":";
    for (size_t i = 0, k; i < n.d.size(); i = k) {   // 9x100: the digit 9, 100 times
        for (k = i + 1; k < n.d.size() && n.d[k] == n.d[i];) ++k;
        if (k - i < 8) k = i + 1;
        if (i) s += ',';
        s += std::to_string(n.d[i]);
        if (k - i > 1) s += "x" + std::to_string(k - i);
    }
    return s;
}
static std::string shows(const SMag& s) { Num n; n.desc = s.n ? BN_NEG : BN_POS; n.d = s.m; return show(n); }
static std::string wf(const Num& n) {   // "" when well formed
    if (!fin(n)) return "not a finite number";
    for (u64 x : n.d) if (x >= B) return "digit " + std::to_string(x) + " is not below the base";
    if (!n.d.empty() && !n.d.back()) return "the most significant digit is zero";
    if (n.d.empty() && neg(n)) return "zero is negative";
    return "";
}

// --------------------------------------------------------------------- cases
enum Op { ADD, SUB, MUL, DIV, LT, LE, GT, GE, EQ, NE, MLT, MLE, MGT, MGE, MEQ, NAIVE, FFTM, CTOR, DEF, PRINT,
          PUSHF, POPF, PUSHB, POPB, PUSH, POP, RESIZE, INDEX, CLEAR, SETD, STATE, COPY, ASSIGN, MOVEC, MOVEA, LAWS, SEQ,
          POW2, NPOW2, TABLE, CONV, THERE, EXACT, NOPS };
static const char* OPN[] = { "add", "sub", "mul", "div", "lt", "le", "gt", "ge", "eq", "ne", "mag_lt", "mag_le", "mag_gt", "mag_ge", "mag_eq",
    "mul_naive", "mul_strassen", "ctor", "default", "print", "push_front", "pop_front", "push_back", "pop_back", "push", "pop", "resize",
    "index", "clear", "set_descriptor", "state", "copy", "assign", "move_ctor", "move_assign", "laws", "sequence", "isPow2", "nextPow2", "fft_table", "convolve", "there_and_back", "convolution" };
// i[0]: form / argument; n: up to 3 numbers
struct Case { int op; std::vector<Num> n; std::vector<u64> i; };
static std::string line(const Case& c) {
    std::string s = OPN[c.op];
    for (auto& x : c.n) s += " " + show(x);
    for (auto& x : c.i) s += " =" + std::to_string(x);
    return s;
}
// forms of an arithmetic operation
enum Form { BINARY, COMPOUND, SELFB, SELFC, NFORMS };
static const char* FN[] = { "binary", "compound", "binary, one object", "compound, one object" };

static N apply2(int op, const N& a, const N& b) {
    switch (op) { case ADD: return a + b; case SUB: return a - b; case MUL: return a * b; default: return a / b; }
}
static N* applyc(int op, N& a, const N& b) {
    switch (op) { case ADD: return &(a += b); case SUB: return &(a -= b); case MUL: return &(a *= b); default: return &(a /= b); }
}
static bool rel(int op, const N& a, const N& b) {
    switch (op) { case LT: return a < b; case LE: return a <= b; case GT: return a > b; case GE: return a >= b; case EQ: return a == b; default: return a != b; }
}
static bool relw(int op, int c) {
    switch (op) { case LT: case MLT: return c < 0; case LE: case MLE: return c <= 0; case GT: case MGT: return c > 0; case GE: case MGE: return c >= 0; case EQ: case MEQ: return c == 0; default: return c != 0; }
}
typedef std::string S;
static bool is(const char* p, const char* q) { return !strcmp(p, q); }

// expected result class of an operation on special operands (C08)
static int special(int op, const Num& a, const Num& b) {
    bool ia = a.desc >= BN_POS_INF, ib = b.desc >= BN_POS_INF;
    bool pa = a.desc == BN_POS || a.desc == BN_POS_INF, pb = b.desc == BN_POS || b.desc == BN_POS_INF;
    if (a.desc == BN_NAN || b.desc == BN_NAN) return BN_NAN;
    bool az = fin(a) && norm(a.d).empty(), bz = fin(b) && norm(b.d).empty();
    switch (op) {
        case ADD: if (ia && ib) return a.desc == b.desc ? a.desc : (int)BN_NAN; return ia ? a.desc : b.desc;
        case SUB: if (ia && ib) return a.desc == b.desc ? (int)BN_NAN : a.desc; if (ia) return a.desc; return pb ? BN_NEG_INF : BN_POS_INF;
        case MUL: if (az || bz) return BN_NAN; return pa == pb ? BN_POS_INF : BN_NEG_INF;
        default: if (ia && ib) return BN_NAN; if (ia) return pa == pb ? BN_POS_INF : BN_NEG_INF; return BN_POS;
    }
}

// value check of a finite result; "" if right
static S value(int op, const Num& a, const Num& b, const Num& r) {
    SMag x = sm(a), y = sm(b);
    if (op == DIV && y.m.empty()) {
        int w = neg(a) ? BN_NEG_INF : BN_POS_INF;
        if (r.desc != w || !r.d.empty()) return "dividing by zero gives " + show(r) + ", not the infinity " + std::to_string(w) + " without digits";
        return "";
    }
    if (!fin(r)) return "the result " + show(r) + " is not finite";
    SMag z = sm(r);
    if (op == DIV) {
        Mag p = mmul(z.m, y.m);
        if (mcmp(p, x.m) > 0 || mcmp(x.m, madd(p, y.m)) >= 0) return "the quotient " + show(r) + " is wrong";
        if (z.n != ((x.n != y.n) && !z.m.empty())) return "the quotient " + show(r) + " has the wrong sign";
        return "";
    }
    SMag w = op == ADD ? sadd(x, y) : op == SUB ? sadd(x, sneg(y)) : smul(x, y);
    if (scmp(z, w)) return "the result is " + show(r) + ", expected " + shows(w);
    return "";
}

static S arith(const char* P, const Case& c) {
    int f = c.i.size() ? (int)c.i[0] : 0;
    const Num& a = c.n[0];
    const Num& b = f >= SELFB ? c.n[0] : c.n[1];
    S form = FN[f];
    int extra = c.i.size() > 1 ? (int)c.i[1] : 0;
    N x = mk(a, extra), y = mk(b);
    if (is(P, "C15")) {
        // fail every allocation in turn
        for (long k = 0; k < 100000; ++k) {
            N x1 = mk(a, extra), y1 = mk(b);
            bool thrown = false;
            S bad;
            N* ret = nullptr;
            g_fail = k;
            try {
                if (f == BINARY) { N r = apply2(c.op, x1, y1); g_fail = -1; }
                else if (f == SELFB) { N r = apply2(c.op, x1, x1); g_fail = -1; }
                else if (f == COMPOUND) ret = applyc(c.op, x1, y1);
                else ret = applyc(c.op, x1, x1);
                g_fail = -1;
            }
            catch (const FailAlloc& e) { g_fail = -1; thrown = true; if (typeid(e) != typeid(FailAlloc)) bad = "a different exception is seen"; }
            catch (const std::exception& e) { g_fail = -1; thrown = true; bad = S("the exception the caller sees is ") + typeid(e).name() + ", not the one that was raised"; }
            catch (...) { g_fail = -1; thrown = true; bad = "the caller sees another exception"; }
            (void)ret;
            S at = form + ", allocation " + std::to_string(k) + " fails: ";
            if (!bad.empty()) return at + bad;
            Num xa = get(x1), ya = get(y1);
            if (!thrown) {
                // either no allocation was left, or the failure was swallowed
                if (f != BINARY && f != SELFB) {
                    if (fin(a) && fin(b)) { S v = value(c.op, a, b, xa); if (!v.empty()) return at + "no exception is seen and " + v; }
                }
                return "";
            }
            if (f == COMPOUND || f == SELFC) {
                if (xa.desc < BN_POS_INF || !xa.d.empty()) return at + "the left operand is " + show(xa) + ", not an infinity without digits";
                if (f == COMPOUND && !same(ya, b)) return at + "the right operand became " + show(ya);
            }
            else {
                if (!same(xa, a)) return at + "the left operand became " + show(xa);
                if (!same(ya, b)) return at + "the right operand became " + show(ya);
            }
        }
        return "";
    }
    N r;
    N* ret = nullptr;
    if (f == BINARY) r = apply2(c.op, x, y);
    else if (f == SELFB) r = apply2(c.op, x, x);
    else if (f == COMPOUND) { ret = applyc(c.op, x, y); r = x; }
    else { ret = applyc(c.op, x, x); r = x; }
    Num R = get(r), X = get(x), Y = get(y);
    bool finite = fin(a) && fin(b);
    if (is(P, "C01") || is(P, "C02") || is(P, "C03") || is(P, "C04")) {
        if (!finite) return "";
        S v = value(c.op, a, b, R);
        return v.empty() ? v : form + ": " + v;
    }
    if (is(P, "C06")) {
        if (!finite) return "";
        if (c.op == DIV && norm(b.d).empty()) {
            if (R.desc < BN_POS_INF || !R.d.empty()) return form + ": dividing by zero gives " + show(R) + ", not an infinity without digits";
            return "";
        }
        S w = wf(R);
        return w.empty() ? w : form + ": the result " + show(R) + " is not well formed: " + w;
    }
    if (is(P, "C07")) {
        if (f == BINARY || f == SELFB) {
            if (!same(X, a)) return form + ": the left operand became " + show(X);
            if (f == BINARY && !same(Y, b)) return form + ": the right operand became " + show(Y);
            N z = mk(a), w = mk(b);
            applyc(c.op, z, w);
            if (!same(get(z), R)) return form + ": gives " + show(R) + ", the compound form on equal copies " + show(get(z));
        }
        else {
            if (ret != &x) return form + ": does not return a reference to its left operand";
            if (f == COMPOUND && !same(Y, b)) return form + ": the right operand became " + show(Y);
            if (f == SELFC) {
                N z = mk(a), w = mk(a);
                applyc(c.op, z, w);
                if (!same(get(z), R)) return form + ": gives " + show(R) + ", equal copies give " + show(get(z));
            }
        }
        return "";
    }
    if (is(P, "C08")) {
        if (finite) return "";
        int w = special(c.op, a, b);
        if (R.desc != w || !R.d.empty()) return form + ": gives " + show(R) + ", expected descriptor " + std::to_string(w) + " and no digits";
        return "";
    }
    return "";
}

static S relation(const char* P, const Case& c) {
    bool self = c.i.size() && c.i[0];
    const Num& a = c.n[0];
    const Num& b = self ? c.n[0] : c.n[1];
    N x = mk(a), y = mk(b);
    bool r = self ? rel(c.op, x, x) : rel(c.op, x, y);
    if (is(P, "C05")) {
        if (!fin(a) || !fin(b)) return "";
        if (!same(get(x), a) || !same(get(y), b)) return "an operand was changed";
        bool w = relw(c.op, scmp(sm(a), sm(b)));
        if (r != w) return S("gives ") + (r ? "true" : "false") + ", the values say " + (w ? "true" : "false");
    }
    if (is(P, "C09")) {
        if (fin(a) && fin(b)) return "";
        bool nan = a.desc == BN_NAN || b.desc == BN_NAN;
        if (nan) { if (c.op != EQ && c.op != NE && r) return "is true with a NaN operand"; return ""; }
        auto rank = [](const Num& n) { return n.desc == BN_POS_INF ? 1 : n.desc == BN_NEG_INF ? -1 : 0; };
        bool w = relw(c.op, rank(a) - rank(b));
        if (c.op == NE) w = !(rank(a) == rank(b));
        if (r != w) return S("gives ") + (r ? "true" : "false") + ", expected " + (w ? "true" : "false");
    }
    return "";
}

static S magnitude(const Case& c) {
    C x = mkc(c.n[0].d), y = mkc(c.n[1].d);
    const C& b = c.i.size() && c.i[0] ? x : y;
    const Mag& bm = c.i.size() && c.i[0] ? c.n[0].d : c.n[1].d;
    bool r;
    switch (c.op) {
        case MLT: r = abs_val_is_lt<C>(x, b); break; case MLE: r = abs_val_is_le<C>(x, b); break;
        case MGT: r = abs_val_is_gt<C>(x, b); break; case MGE: r = abs_val_is_ge<C>(x, b); break;
        default: r = abs_val_is_eq<C>(x, b); break;
    }
    bool w = relw(c.op, mcmp(c.n[0].d, bm));
    if (r != w) return S("gives ") + (r ? "true" : "false") + ", the values say " + (w ? "true" : "false");
    if (getm(x) != c.n[0].d || getm(y) != c.n[1].d) return "an operand was changed";
    return "";
}

static S product(const Case& c) {
    C x = mkc(c.n[0].d), y = mkc(c.n[1].d);
    const C& b = c.i.size() && c.i[0] ? x : y;
    C r = c.op == NAIVE ? mul_naive<L, C>(x, b) : mul_strassen<L, C>(x, b);
    Mag w = mmul(c.n[0].d, c.i.size() && c.i[0] ? c.n[0].d : c.n[1].d);
    Mag m = norm(getm(r));
    Num e; e.desc = 0; e.d = m;
    Num ew; ew.desc = 0; ew.d = w;
    if (m != w) return "gives " + show(e) + ", expected " + show(ew);
    if (getm(r) != w) return "gives the product with leading zeroes or digits that are not below the base";
    if (getm(x) != c.n[0].d || getm(y) != c.n[1].d) return "an operand was changed";
    return "";
}

template <size_t K> struct Mk {
    template <size_t... I> static N go(bn_desc_t s, const Mag& d, std::integer_sequence<size_t, I...>) { return N(s, { mkdigit(d[I])... }); }
};
template <size_t K> static N viaList(bn_desc_t s, const Mag& d) { return Mk<K>::go(s, d, std::make_integer_sequence<size_t, K>()); }
template <> N viaList<0>(bn_desc_t s, const Mag&) { return N(s, {}); }
template <size_t K> struct Pick {
    static N go(bn_desc_t s, const Mag& d) { return d.size() == K ? viaList<K>(s, d) : Pick<K - 1>::go(s, d); }
};
template <> struct Pick<0> { static N go(bn_desc_t s, const Mag& d) { return viaList<0>(s, d); } };
static const size_t MAXLIST = 34;
static N construct(bn_desc_t s, const Mag& d) {
    if (d.size() <= MAXLIST) return Pick<MAXLIST>::go(s, d);
    // a longer list: same layout as the library's initializer_list
    std::vector<D> v; for (u64 x : d) v.push_back(mkdigit(x));
    struct { const D* p; size_t n; } raw = { v.data(), v.size() };
    std::initializer_list<D> il;
    static_assert(sizeof raw == sizeof il, "initializer_list layout");
    memcpy((void*)&il, &raw, sizeof il);
    return N(s, il);
}
static S ctor(const char* P, const Case& c) {
    // the digits of n[0] in the order of the list (most significant first)
    N r = construct((bn_desc_t)c.n[0].desc, c.n[0].d);
    Mag w(c.n[0].d.rbegin(), c.n[0].d.rend());
    trim(w);
    Num R = get(r);
    if (is(P, "C06")) {
        S s = wf(R);
        return s.empty() ? s : "constructed " + show(R) + " is not well formed: " + s;
    }
    Num W; W.desc = w.empty() ? BN_POS : c.n[0].desc; W.d = w;
    if (!same(R, W)) return "constructed " + show(R) + ", expected " + show(W);
    return "";
}

static S print(const Case& c) {
    N x = mk(c.n[0]);
    std::ostringstream o;
    o << x;
    S w;
    const Num& n = c.n[0];
    if (n.desc == BN_POS_INF) w = "+INF"; else if (n.desc == BN_NEG_INF) w = "-INF"; else if (n.desc == BN_NAN) w = "NaN";
    else {
        if (neg(n)) w = "-";
        for (size_t i = n.d.size(); i-- > 0;) w += std::to_string(n.d[i]);
        if (n.d.empty()) w += "0";
    }
    if (o.str() != w) return "writes '" + o.str() + "', expected '" + w + "'";
    if (!same(get(x), n)) return "the number became " + show(get(x));
    return "";
}

static S edit(const Case& c) {
    const Num& a = c.n[0];
    N x = mk(a, c.i.size() > 2 ? (int)c.i[2] : 0);
    Num w = a;
    u64 p = c.i.size() ? c.i[0] : 0, d = c.i.size() > 1 ? c.i[1] : 0;
    switch (c.op) {
        case PUSHF: x.push_front(mkdigit(d)); w.d.insert(w.d.begin(), d); break;
        case PUSHB: x.push_back(mkdigit(d)); w.d.push_back(d); break;
        case POPF: x.pop_front(); w.d.erase(w.d.begin()); break;
        case POPB: x.pop_back(); w.d.pop_back(); break;
        case PUSH: x.push(mkdigit(d), p); w.d.insert(w.d.begin() + p, d); break;
        case POP: x.pop(p); w.d.erase(w.d.begin() + p); break;
        case RESIZE: if (d) x.resize(p, mkdigit(d)); else x.resize(p); w.d.resize(p, d); break;
        case CLEAR: x.clear(); w.d.clear(); w.desc = BN_POS; break;
        case SETD: x.setDescriptor((bn_desc_t)p); w.desc = (int)p; if (p >= BN_NAN) w.d.clear(); break;
        case INDEX: {
            if (p < a.d.size()) {
                if (&x[p] != &x.getData()[p]) return "does not yield the digit";
                const N& cx = x;
                if (digit(cx[p]) != a.d[p]) return "yields the wrong digit";
                x[p] = mkdigit(d); w.d[p] = d;
            }
            else {
                // the error text goes to cerr
                std::streambuf* e = std::cerr.rdbuf(nullptr);
                std::streambuf* o = std::cout.rdbuf(nullptr);
                int t = 0;
                try { volatile u64 z = digit(x[p]); (void)z; } catch (...) { ++t; }
                try { const N& cx = x; volatile u64 z = digit(cx[p]); (void)z; } catch (...) { ++t; }
                std::cerr.rdbuf(e); std::cout.rdbuf(o);
                std::cerr.clear(); std::cout.clear();
                if (t != 2) return "an index out of range does not throw";
            }
            break;
        }
        case STATE: {
            const N& y = x;
            if (y.size() != a.d.size()) return "size() is wrong";
            if (y.getDescriptor() != a.desc) return "getDescriptor() is wrong";
            if (y.isPositive() != (a.desc == BN_POS || a.desc == BN_POS_INF)) return "isPositive() is wrong";
            if (y.isNegative() != (a.desc == BN_NEG || a.desc == BN_NEG_INF)) return "isNegative() is wrong";
            if (y.isInfinite() != (a.desc == BN_POS_INF || a.desc == BN_NEG_INF)) return "isInfinite() is wrong";
            if (y.isNan() != (a.desc == BN_NAN)) return "isNan() is wrong";
            if (N::isComputable((bn_desc_t)a.desc) != fin(a)) return "isComputable() is wrong";
            break;
        }
    }
    if (!same(get(x), w)) return "gives " + show(get(x)) + ", expected " + show(w);
    return "";
}

static S copies(const Case& c) {
    const Num& a = c.n[0];
    const Num& b = c.n[1];
    N x = mk(a);
    Num other; other.desc = a.desc == BN_NEG ? BN_POS : BN_NEG; other.d = Mag(a.d.size() + 2, 1);
    bool self = c.i.size() && c.i[0];
    switch (c.op) {
        case COPY: {
            N y(x);
            if (!same(get(y), a)) return "the copy is " + show(get(y));
            if (!same(get(x), a)) return "the source became " + show(get(x));
            y.numData.push_back(mkdigit(1)); y.descriptor = (bn_desc_t)other.desc; if (y.numData.size() > 1) y.numData[0] = mkdigit(digit(y.numData[0]) ^ 1);
            if (!same(get(x), a)) return "a change of the copy changes the source";
            N z(x);
            x.descriptor = (bn_desc_t)other.desc; if (!a.d.empty()) x.numData[0] = mkdigit(a.d[0] ^ 1);
            if (!same(get(z), a)) return "a change of the source changes the copy";
            return "";
        }
        case ASSIGN: {
            if (self) { N& r = x; x = r; if (!same(get(x), a)) return "assignment to itself gives " + show(get(x)); return ""; }
            N y = mk(b, 3);
            N* r = &(y = x);
            (void)r;
            if (!same(get(y), a)) return "the target is " + show(get(y));
            if (!same(get(x), a)) return "the source became " + show(get(x));
            y.numData.push_back(mkdigit(1)); y.descriptor = (bn_desc_t)other.desc; if (y.numData.size() > 1) y.numData[0] = mkdigit(digit(y.numData[0]) ^ 1);
            if (!same(get(x), a)) return "a change of the copy changes the source";
            N z = mk(b); z = x;
            x.descriptor = (bn_desc_t)other.desc; if (!a.d.empty()) x.numData[0] = mkdigit(a.d[0] ^ 1);
            if (!same(get(z), a)) return "a change of the source changes the copy";
            return "";
        }
        case MOVEC: { N y(std::move(x)); if (!same(get(y), a)) return "the new number is " + show(get(y)); x = y; if (!same(get(x), a)) return "the moved-from number can't be assigned"; return ""; }
        default: { N y = mk(b, 2); y = std::move(x); if (!same(get(y), a)) return "the target is " + show(get(y)); return ""; }
    }
}

static S laws(const Case& c) {
    const N a = mk(c.n[0]), b = mk(c.n[1]), z = mk(c.n[2]);
    N zero;
    if (!(a + b == b + a)) return "a+b != b+a";
    if (!(a * b == b * a)) return "a*b != b*a";
    if (!((a + b) - b == a)) return "(a+b)-b != a";
    if (!(a - b == a + (zero - b))) return "a-b != a+(0-b)";
    if (!((a + b) + z == a + (b + z))) return "(a+b)+c != a+(b+c)";
    if (!((a * b) * z == a * (b * z))) return "(a*b)*c != a*(b*c)";
    if (!(a * (b + z) == a * b + a * z)) return "a*(b+c) != a*b + a*c";
    if (!norm(c.n[1].d).empty()) {
        N q = a / b;
        N r = a - q * b;
        if (!(a == q * b + r)) return "a != (a/b)*b + r";
        N rr = r < zero ? zero - r : r, bb = b < zero ? zero - b : b;
        if (!(rr < bb)) return "the remainder is not below the divisor";
        if (!(r == zero) && (r < zero) != (a < zero)) return "the remainder has the wrong sign";
    }
    N d = a - b;
    bool isneg = d.isNegative() && d.size() != 0;
    if ((a < b) != isneg) return "a < b disagrees with the sign of a-b";
    return "";
}

// a history: i = list of (op, x, y) on a pool that starts with n
static S sequence(const char* P, const Case& c) {
    std::vector<N> pool;
    std::vector<SMag> ref;
    for (auto& n : c.n) { pool.push_back(mk(n)); ref.push_back(sm(n)); }
    for (size_t k = 0; k + 2 < c.i.size(); k += 3) {
        int op = (int)c.i[k]; size_t x = c.i[k + 1] % pool.size(), y = c.i[k + 2] % pool.size();
        bool inplace = op >= 4; op %= 4;
        if (op == DIV && ref[y].m.empty()) continue;
        SMag w;
        if (op == DIV) {
            // expected quotient from the library's own result, checked
            N r = pool[x]; r /= pool[y];
            Num R = get(r); S wfr = wf(R);
            if (!wfr.empty()) return "step " + std::to_string(k / 3) + ": " + show(R) + " is not well formed: " + wfr;
            w = sm(R);
        }
        else w = op == ADD ? sadd(ref[x], ref[y]) : op == SUB ? sadd(ref[x], sneg(ref[y])) : smul(ref[x], ref[y]);
        if (w.m.size() > 60) continue;
        if (inplace) { applyc(op, pool[x], pool[y]); ref[x] = w; }
        else { pool.push_back(apply2(op, pool[x], pool[y])); ref.push_back(w); x = pool.size() - 1; }
        Num R = get(pool[x]);
        S e = wf(R);
        if (!e.empty()) return "step " + std::to_string(k / 3) + ": " + show(R) + " is not well formed: " + e;
        for (size_t q = 0; q < pool.size(); ++q)
            if (q != x && !scmp(ref[q], ref[x]) && !scmp(sm(get(pool[q])), sm(R)) && !(pool[q] == pool[x])) return "step " + std::to_string(k / 3) + ": two results of the value " + show(R) + " are not equal";
    }
    return "";
}

// C19. list kind i[1] of length 2^i[0] from the random seed i[2]; i[3]: inverse transform first
static cmplx_list_t<double> clist(const Case& c) {
    std::mt19937_64 g(c.i[2] * 977 + c.i[0]);
    size_t n = (size_t)1 << c.i[0];
    cmplx_list_t<double> x(n);
    auto u = [&] { return (double)(int64_t)g() / 9223372036854775808.0; };
    double sc = std::ldexp(1.0, (int)(g() % 400) - 200);
    for (size_t k = 0; k < n; ++k) switch (c.i[1]) {
        case 0: x[k] = { u(), u() }; break;
        case 1: x[k] = { u() * sc, u() * sc }; break;                                  // another magnitude
        case 2: x[k] = { (double)(g() % B), (double)(g() % B) }; break;                // digits
        case 3: x[k] = { (double)(g() % B), 0 }; break;
        case 4: x[k] = { 0, u() }; break;
        case 5: x[k] = { std::ldexp(u(), (int)(g() % 40)), std::ldexp(u(), (int)(g() % 40)) }; break;
        default: x[k] = { 0, 0 };                                                      // one or two elements
    }
    if (c.i[1] >= 6) { x[g() % n] = { u(), u() }; if (c.i[1] == 7) x[g() % n] = { 1, 0 }; if (c.i[1] == 8) x[n - 1] = { 0, 1 }; if (c.i[1] == 9) x[0] = { 3, -2 }; }
    return x;
}
static const double EPS = 2.220446049250313e-16;
static S transforms(const Case& c) {
    if (c.op == THERE) {
        cmplx_list_t<double> x = clist(c), y = x;
        if (c.i[3]) { ifft_complex<double>(y); fft_complex<double>(y); } else { fft_complex<double>(y); ifft_complex<double>(y); }
        if (y.size() != x.size()) return "the length changes";
        long double e = 0, s = 0;
        size_t w = 0; long double we = -1;
        for (size_t k = 0; k < x.size(); ++k) {
            long double a = (long double)y[k].real() - x[k].real(), b = (long double)y[k].imag() - x[k].imag(), d = a * a + b * b;
            e += d; if (d > we) { we = d; w = k; }
            s += (long double)x[k].real() * x[k].real() + (long double)x[k].imag() * x[k].imag();
        }
        long double tol = EPS * (1000.0L * (c.i[0] + 2) + x.size());
        if (!(e <= tol * tol * s)) {
            char b[400];
            snprintf(b, sizeof b, "one transform after the other gives a list at distance %.3Lg from the original, which has norm %.3Lg; element %zu is (%.17g, %.17g) instead of (%.17g, %.17g)",
                     sqrtl(e), sqrtl(s), w, y[w].real(), y[w].imag(), x[w].real(), x[w].imag());
            return b;
        }
        return "";
    }
    const Mag& a = c.n[0].d, & b = c.n[1].d;
    cmplx_list_t<double> t = create_fft_table<C, double>(mkc(a), mkc(b));
    convolute_fft<double>(t);
    ifft_complex<double>(t);
    std::vector<u64> w(t.size() < a.size() + b.size() ? a.size() + b.size() : t.size());
    for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) w[i + j] += a[i] * b[j];
    for (size_t k = 0; k < t.size(); ++k) if (!(std::fabs(t[k].real() - (double)w[k]) < 0.5)) {
        char s[300];
        snprintf(s, sizeof s, "element %zu of the convolution is %.17g, which does not round to %llu", k, t[k].real(), (unsigned long long)w[k]);
        return s;
    }
    for (size_t k = t.size(); k < w.size(); ++k) if (w[k]) return "the convolution has " + std::to_string(t.size()) + " elements, too few";
    return "";
}

static S helpers(const Case& c) {
    if (c.op == POW2) {
        u64 v = c.i[0];
        bool r = isPow2<uint64_t>(v), w = v && !(v & (v - 1));
        return r == w ? "" : S("gives ") + (r ? "true" : "false");
    }
    if (c.op == NPOW2) {
        u64 v = c.i[0], r = nextPow2<uint64_t>(v), w = v ? 1 : 0;
        while (w < v) w <<= 1;
        return r == w ? "" : "gives " + std::to_string(r) + ", expected " + std::to_string(w);
    }
    C x = mkc(c.n[0].d), y = mkc(c.n[1].d);
    cmplx_list_t<double> t = create_fft_table<C, double>(x, y);
    u64 n = x.size() + y.size(), w = 1;
    while (w < n) w <<= 1;
    if (t.size() != w) return "the table has " + std::to_string(t.size()) + " entries, expected " + std::to_string(w);
    if (c.op == TABLE) {
        for (u64 i = 0; i < w; ++i) {
            double re = i < c.n[0].d.size() ? (double)c.n[0].d[i] : 0, im = i < c.n[1].d.size() ? (double)c.n[1].d[i] : 0;
            if (t[i].real() != re || t[i].imag() != im) return "entry " + std::to_string(i) + " of the table is wrong";
        }
        if (getm(x) != c.n[0].d || getm(y) != c.n[1].d) return "an operand was changed";
        return "";
    }
    cmplx_list_t<double> u = t;
    fft_complex<double>(u);
    if (u.size() != w) return "the transform changes the length";
    ifft_complex<double>(u);
    if (u.size() != w) return "the inverse transform changes the length";
    convolute_fft<double>(t);
    if (t.size() != w) return "the convolution changes the length";
    return "";
}

static S run(const char* P, const Case& c) {
    try {
        if (c.op <= DIV) return arith(P, c);
        if (c.op <= NE) return relation(P, c);
        if (c.op <= MEQ) return magnitude(c);
        if (c.op <= FFTM) return product(c);
        switch (c.op) {
            case CTOR: return ctor(P, c);
            case DEF: { N n; Num r = get(n); return r.desc == BN_POS && r.d.empty() ? "" : "a default constructed number is " + show(r); }
            case PRINT: return print(c);
            case COPY: case ASSIGN: case MOVEC: case MOVEA: return copies(c);
            case LAWS: return laws(c);
            case SEQ: return sequence(P, c);
            case THERE: case EXACT: return transforms(c);
            case POW2: case NPOW2: case TABLE: case CONV: return helpers(c);
            default: return edit(c);
        }
    }
    catch (const std::exception& e) { g_fail = -1; return S("an exception escapes: ") + e.what(); }
    catch (...) { g_fail = -1; return "an exception escapes"; }
}

// ---------------------------------------------------------------- generators
struct Shared { volatile u64 count, distinct; volatile u64 len; volatile int done, failed; char fail[1 << 16]; u64 sampleslen; char samples[4096]; char cur[1 << 25]; };
static Shared* sh;
static std::unordered_set<u64> seen;
static std::mt19937_64 rng;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double g_end;
static const char* g_P;
struct Stop {};

static void put(char*& p, const void* x, size_t n) { memcpy(p, x, n); p += n; }
static void record(const Case& c) {     // the case that runs, for the parent
    char* p = sh->cur;
    u64 h = 1469598103934665603ull;
    auto w = [&](u64 x) { if ((size_t)(p - sh->cur) < sizeof sh->cur - 16) put(p, &x, 8); h = (h ^ x) * 1099511628211ull; h ^= h >> 29; };
    w(c.op); w(c.n.size());
    for (auto& n : c.n) { w(n.desc); w(n.d.size()); for (u64 d : n.d) w(d); }
    w(c.i.size()); for (u64 x : c.i) w(x);
    sh->len = p - sh->cur;
    if (seen.size() < 3000000 && seen.insert(h).second) { bool nt = c.n.empty() ? true : false; for (auto& n : c.n) nt = nt || !n.d.empty() || n.desc > BN_NEG; if (nt) sh->distinct++; }
}
static Case decode() {
    Case c; const u64* p = (const u64*)sh->cur;
    c.op = (int)*p++; u64 nn = *p++;
    for (u64 k = 0; k < nn; ++k) { Num n; n.desc = (int)*p++; u64 l = *p++; n.d.assign(p, p + l); p += l; c.n.push_back(n); }
    u64 ni = *p++; c.i.assign(p, p + ni);
    return c;
}
static bool late() { return now() > g_end; }
static void test(const Case& c) {
    record(c);
    S e = run(g_P, c);
    u64 k = ++sh->count;
    if ((k & (k - 1)) == 0 && k >= 64 && k <= 65536) {
        S l = line(c);
        if (l.size() < 300 && sh->sampleslen + l.size() + 2 < sizeof sh->samples) { memcpy(sh->samples + sh->sampleslen, l.c_str(), l.size()); sh->sampleslen += l.size(); sh->samples[sh->sampleslen++] = '\n'; }
    }
    if (!e.empty()) {
        S l = line(c) + " :: " + e;
        if (l.size() > sizeof sh->fail - 1) l = l.substr(0, 2000) + " ...";
        strncpy(sh->fail, l.c_str(), sizeof sh->fail - 1);
        sh->failed = 1;
        throw Stop();
    }
    if ((k & 255) == 0 && late()) throw Stop();
}

static std::vector<u64> consts;       // mined from the source
static u64 rd(u64 n) { return n ? rng() % n : 0; }
static u64 rdigit() {
    switch (rd(8)) {
        case 0: return 0; case 1: return B - 1; case 2: return 1 % B; case 3: return B / 2; case 4: return B - 1 - rd(std::min<u64>(B, 3));
        case 5: if (!consts.empty()) return consts[rd(consts.size())] % B;
        default: return rd(B);
    }
}
static Mag canon(Mag m) { if (!m.empty() && !m.back()) m.back() = 1 + rd(B - 1); return m; }
// a structured random magnitude of n digits
static Mag rmag(size_t n) {
    Mag m(n);
    switch (rd(6)) {
        case 0: for (auto& d : m) d = rd(B); break;
        case 1: for (auto& d : m) d = B - 1; break;
        case 2: for (auto& d : m) d = 0; break;
        case 3: { u64 d0 = rdigit(); for (auto& d : m) { if (!rd(5)) d0 = rdigit(); d = d0; } break; }
        default: for (auto& d : m) d = rdigit(); break;
    }
    for (u64 k = rd(3); n && k-- > 0;) m[rd(n)] = rdigit();
    return canon(m);
}
static size_t rlen(size_t mx) {
    switch (rd(5)) { case 0: return rd(4); case 1: return rd(9); case 2: return rd(std::min<size_t>(mx, 20) + 1);
        case 3: if (!consts.empty()) { u64 c = consts[rd(consts.size())]; if (c <= mx) return c - (c ? rd(2) : 0) + rd(2); }
        default: return rd(mx + 1); }
}
static Num mknum(Mag m, bool n) { Num r; r.d = m; r.desc = n && !m.empty() ? BN_NEG : BN_POS; return r; }
static Num rnum(size_t mx) { return mknum(rmag(rlen(mx)), rd(2)); }
static Num rspec() { Num r; r.desc = BN_NAN + (int)rd(3); return r; }
// the second operand is often close to the first
static Num near(const Num& a, size_t mx) {
    switch (rd(6)) {
        case 0: { Num b = a; if (rd(2) && !b.d.empty()) b.desc = b.desc == BN_NEG ? BN_POS : BN_NEG; return b; }
        case 1: case 2: { Num b = a; for (u64 k = 1 + rd(2); k-- > 0;) if (!b.d.empty()) b.d[rd(b.d.size())] = rdigit(); b.d = canon(b.d); b.desc = b.d.empty() ? BN_POS : (int)rd(2); return b; }
        case 3: { Num b; b.d = rd(2) ? madd(a.d, Mag(1, 1)) : a.d.empty() ? a.d : msub(a.d, Mag(1, 1)); b.desc = b.d.empty() ? BN_POS : (int)rd(2); return b; }
        default: return rnum(mx);
    }
}
// all canonical magnitudes over an alphabet
static void strings(const std::vector<u64>& al, size_t n, std::vector<Mag>& out) {
    std::vector<Mag> cur(1);
    out.push_back(Mag());
    for (size_t l = 1; l <= n; ++l) {
        std::vector<Mag> nx;
        for (auto& m : cur) for (u64 d : al) { Mag x = m; x.push_back(d); nx.push_back(x); }
        for (auto& m : nx) if (m.back()) out.push_back(m);
        cur.swap(nx);
    }
}
static std::vector<u64> alphabet(bool wide) {
    std::vector<u64> a;
    if (B <= 4) { for (u64 d = 0; d < B; ++d) a.push_back(d); return a; }
    for (u64 d : { (u64)0, (u64)1, B - 1 }) a.push_back(d);
    if (wide) for (u64 d : { (u64)2, B / 2, B / 2 - 1, B - 2, B / 2 + 1 }) if (std::find(a.begin(), a.end(), d) == a.end()) a.push_back(d);
    return a;
}
typedef std::function<void(const Num&, const Num&)> PairFn;
static void pairs(size_t mx, const PairFn& f, double share = 1.0, bool deep = true) {
    std::vector<Mag> s;
    // every small value
    u64 top = 40; for (u64 v = 0; v <= top; ++v) { Mag m; u64 x = v; while (x) { m.push_back(x % B); x /= B; } s.push_back(m); }
    for (auto& a : s) for (auto& b : s) for (int k = 0; k < 4; ++k) { if ((a.empty() && (k & 1)) || (b.empty() && (k & 2))) continue; f(mknum(a, k & 1), mknum(b, k & 2)); }
    s.clear(); strings(alphabet(true), B <= 4 ? 5 : 2, s);
    for (auto& a : s) for (auto& b : s) for (int k = 0; k < 4; ++k) { if ((a.empty() && (k & 1)) || (b.empty() && (k & 2))) continue; f(mknum(a, k & 1), mknum(b, k & 2)); }
    // digits mined from the source
    for (u64 c : consts) { if (c >= B) continue;
        for (size_t l = 1; l < 4; ++l) for (size_t p = 0; p < l; ++p) { Mag m(l, B - 1); m[p] = c; m = canon(m); Num a = mknum(m, rd(2)); f(a, near(a, 6)); f(near(a, 6), a); f(a, rnum(6)); f(rnum(6), a); }
    }
    // lengths mined from the source
    for (u64 c : consts) { if (c < 2 || c > mx * 8 || c > 3000) continue;
        for (int dl = -1; dl <= 2; ++dl) { Num a = mknum(rmag(c + dl), rd(2)); f(a, near(a, mx)); f(rnum(mx), a); f(a, rnum(3)); f(a, mknum(rmag(c + dl), rd(2))); }
    }
    if (deep) { s.clear(); strings(alphabet(false), B <= 4 ? 7 : 4, s);
        for (auto& a : s) for (auto& b : s) { int k = (int)rd(4); if (a.empty()) k &= 2; if (b.empty()) k &= 1; f(mknum(a, k & 1), mknum(b, k & 2)); } }
    (void)share;
    while (!late()) for (int k = 0; k < 100; ++k) { Num a = rnum(mx); f(a, near(a, mx)); Num b = rnum(mx); f(near(b, mx), b); }
}

static void arithCases(int op, size_t mx) {
    // carries and borrows over many digits
    if (op <= SUB) {
        std::vector<u64> ns = { 260, 66000 };
        for (u64 c : consts) if (c > 2 && c < 70000) { ns.push_back(c); ns.push_back(c + 2); }
        for (u64 n : ns) for (u64 k : { 1, 3 }) {
            Mag one(n + k + 1, 0); one.back() = 1;
            Num top = mknum(Mag(n + k, B - 1), 0), pow = mknum(one, 0), low = mknum(Mag(k, B - 1), 0);
            for (int s = 0; s < 4; ++s) for (const Num* p : { &top, &pow }) {
                Num a = *p, b = low; if (s & 1) a.desc = BN_NEG; if (s & 2) b.desc = BN_NEG;
                test(Case{op, {a, b}, {BINARY}});
                test(Case{op, {b, a}, {COMPOUND}});
            }
        }
    }
    pairs(mx, [&](const Num& a, const Num& b) {
        test(Case{op, {a, b}, {BINARY}});
        test(Case{op, {a, b}, {COMPOUND, rd(3) ? 0 : 8}});
        if (a.d == b.d) { test(Case{op, {a}, {SELFB}}); test(Case{op, {a}, {SELFC}}); }
    });
}
static Num anynum(size_t mx) { return rd(4) ? rnum(mx) : rspec(); }

static void generate(const char* P) {
    size_t mx = 40;
    double t0 = now(), total = g_end - t0;
    auto slice = [&](int k, int n, const std::function<void()>& f) {
        // a share of the time for each part
        double e = g_end;
        g_end = t0 + total * (k + 1) / n;
        try { f(); } catch (Stop&) { if (sh->failed) throw; }
        g_end = e;
    };
    if (is(P, "C01")) slice(0, 1, [&] { arithCases(ADD, mx); });
    else if (is(P, "C02")) slice(0, 1, [&] { arithCases(SUB, mx); });
    else if (is(P, "C03")) {
        slice(0, 4, [&] { pairs(20, [&](const Num& a, const Num& b) { test(Case{NAIVE, {a, b}, {}}); test(Case{FFTM, {a, b}, {}}); if (a.d == b.d) { test(Case{NAIVE, {a, b}, {1}}); test(Case{FFTM, {a, b}, {1}}); } }); });
        slice(1, 4, [&] { arithCases(MUL, mx); });
        slice(2, 4, [&] {
            // lengths around the powers of two of the FFT, all digits at their maximum
            for (size_t n : { 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1024, 1025, 2048, 3000, 4096 }) for (size_t m : { (size_t)1, n / 2, n - 1, n, n + 1 }) {
                if (late()) throw Stop();
                test(Case{FFTM, {mknum(Mag(n, B - 1), 0), mknum(Mag(m, B - 1), 0)}, {}});
                test(Case{MUL, {mknum(rmag(n), 0), mknum(rmag(m), 1)}, {BINARY}});
                if (n * m < 3000000) test(Case{NAIVE, {mknum(rmag(n), 0), mknum(rmag(m), 1)}, {}});
            }
            // the point where the library gives up the FFT
            u64 lim = ((u64)1 << 31) / ((B - 1) * (B - 1));
            if (lim && lim < 40000) for (u64 n = lim - 1; n <= lim + 1; ++n) { test(Case{FFTM, {mknum(Mag(n, B - 1), 0), mknum(Mag(n, B - 1), 0)}, {}}); }
        });
        slice(3, 4, [&] { pairs(300, [&](const Num& a, const Num& b) { test(Case{FFTM, {a, b}, {}}); test(Case{MUL, {a, b}, {COMPOUND}}); if (a.d.size() * b.d.size() < 4000) test(Case{NAIVE, {a, b}, {}}); }, 1, false); });
    }
    else if (is(P, "C04")) {
        slice(0, 3, [&] { arithCases(DIV, 12); });
        slice(1, 3, [&] { // dividends built from quotient, divisor and remainder
            while (!late()) { Num b = rnum(10), q = rnum(10); if (b.d.empty()) continue; Mag r = rd(3) ? Mag() : msub(b.d, Mag(1, 1)); Mag p = madd(mmul(q.d, b.d), r);
                Num a = mknum(p, rd(2)); test(Case{DIV, {a, b}, {rd(2)}}); if (!p.empty()) { a.d = msub(p, Mag(1, 1)); if (a.d.empty()) a.desc = BN_POS; test(Case{DIV, {a, b}, {rd(2)}}); } }
        });
        slice(2, 3, [&] { arithCases(DIV, 40); });
    }
    else if (is(P, "C05")) {
        slice(0, 2, [&] { pairs(mx, [&](const Num& a, const Num& b) { for (int o = LT; o <= NE; ++o) test(Case{o, {a, b}, {}}); if (a.d == b.d) for (int o = LT; o <= NE; ++o) test(Case{o, {a, b}, {1}}); }); });
        slice(1, 2, [&] { pairs(mx, [&](const Num& a, const Num& b) { for (int o = MLT; o <= MEQ; ++o) test(Case{o, {a, b}, {}}); if (a.d == b.d) for (int o = MLT; o <= MEQ; ++o) test(Case{o, {a, b}, {1}}); }); });
    }
    else if (is(P, "C06")) {
        slice(0, 7, [&] { arithCases(ADD, mx); }); slice(1, 7, [&] { arithCases(SUB, mx); }); slice(2, 7, [&] { arithCases(MUL, mx); }); slice(3, 7, [&] { arithCases(DIV, 10); });
        slice(4, 7, [&] { for (int k = 0; k < 200000; ++k) { Num n; n.desc = (int)rd(2); n.d = rmag(rlen(30)); for (u64 z = rd(4); z-- > 0;) n.d.insert(n.d.begin(), 0); if (!rd(9)) std::fill(n.d.begin(), n.d.end(), 0); test(Case{CTOR, {n}, {}}); } });
        slice(6, 7, [&] { while (!late()) { Case c; c.op = SEQ; for (int k = 0; k < 3; ++k) c.n.push_back(rnum(6)); for (u64 k = 3 + rd(8); k-- > 0;) { c.i.push_back(rd(8)); c.i.push_back(rd(9)); c.i.push_back(rd(9)); } test(c); } });
    }
    else if (is(P, "C07")) {
        for (int op = ADD; op <= DIV; ++op) slice(op, 5, [&] { arithCases(op, op == DIV ? 10 : 30); });
        slice(4, 5, [&] { while (!late()) { Num a = anynum(10), b = anynum(10); if (!rd(4)) b = a; for (int op = ADD; op <= DIV; ++op) for (u64 f = 0; f < NFORMS; ++f) test(Case{op, f >= SELFB ? std::vector<Num>{a} : std::vector<Num>{a, b}, {f}}); } });
    }
    else if (is(P, "C08") || is(P, "C09")) {
        bool cmp = is(P, "C09");
        auto go = [&](const Num& a, const Num& b) {
            if (cmp) for (int o = LT; o <= NE; ++o) { test(Case{o, {a, b}, {}}); if (same(a, b)) test(Case{o, {a, b}, {1}}); }
            else for (int op = ADD; op <= DIV; ++op) for (u64 f = 0; f < NFORMS; ++f) { if (f >= SELFB && !same(a, b)) continue; test(Case{op, f >= SELFB ? std::vector<Num>{a} : std::vector<Num>{a, b}, {f}}); }
        };
        std::vector<Mag> s; strings(alphabet(true), 2, s);
        for (u64 c : consts) { if (c < B) { s.push_back(canon(Mag(1, c))); } if (c > 1 && c < 2000) for (int dl = -1; dl < 2; ++dl) s.push_back(rmag(c + dl)); }
        for (int d = BN_NAN; d <= BN_NEG_INF; ++d) { Num x; x.desc = d;
            for (int e = BN_NAN; e <= BN_NEG_INF; ++e) { Num y; y.desc = e; go(x, y); }
            for (auto& m : s) for (int n = 0; n < 2; ++n) { go(x, mknum(m, n)); go(mknum(m, n), x); } }
        while (!late()) { Num a = rspec(), b = anynum(200); go(a, b); go(b, a); }
    }
    else if (is(P, "C11")) {
        test(Case{DEF, {}, {}});
        std::vector<u64> al = alphabet(true);
        std::vector<Mag> all(1), cur(1);
        for (size_t l = 1; l <= (B <= 4 ? 7 : 4); ++l) { std::vector<Mag> nx; for (auto& m : cur) for (u64 d : al) { Mag x = m; x.push_back(d); nx.push_back(x); } all.insert(all.end(), nx.begin(), nx.end()); cur.swap(nx); }
        for (auto& m : all) for (int s = 0; s < 2; ++s) { Num n; n.desc = s; n.d = m; test(Case{CTOR, {n}, {}}); }
        for (u64 c : consts) { if (c < B) for (size_t l = 1; l < 4; ++l) for (size_t p = 0; p < l; ++p) { Num n; n.desc = (int)rd(2); n.d = rmag(l); n.d[p] = c; test(Case{CTOR, {n}, {}}); }
            if (c < 5000) for (int k = 0; k < 4; ++k) for (int dl = -1; dl < 2; ++dl) { Num n; n.desc = (int)rd(2); n.d = rmag(c + (c ? dl : 0)); if (k & 1) n.d.insert(n.d.begin(), k, 0); test(Case{CTOR, {n}, {}}); Num z; z.desc = (int)rd(2); z.d = Mag(c + (c ? dl : 0), 0); test(Case{CTOR, {z}, {}}); } }
        for (size_t l = 0; l < 300; ++l) for (int k = 0; k < 3; ++k) { Num n; n.desc = (int)rd(2); n.d = Mag(l, 0); if (k && l) n.d[k == 1 ? l - 1 : rd(l)] = 1; test(Case{CTOR, {n}, {}}); }
        while (!late()) { Num n; n.desc = (int)rd(2); n.d = rmag(rlen(rd(10) ? 34 : 400)); for (u64 z = rd(6); z-- > 0;) n.d.insert(n.d.begin(), 0); test(Case{CTOR, {n}, {}}); }
    }
    else if (is(P, "C12")) {
        for (int d = BN_POS; d <= BN_NEG_INF; ++d) { Num x; x.desc = d; test(Case{PRINT, {x}, {}}); }
        for (u64 v = 0; v < std::min<u64>(B, 70000); ++v) for (int s = 0; s < 2; ++s) { Num n; n.desc = s; n.d = Mag(1, v); test(Case{PRINT, {n}, {}}); }
        std::vector<Mag> s; strings(alphabet(true), B <= 4 ? 8 : 3, s);
        for (auto& m : s) for (int k = 0; k < 2; ++k) test(Case{PRINT, {mknum(m, k)}, {}});
        for (u64 c : consts) { if (c < B) for (int k = 0; k < 3; ++k) test(Case{PRINT, {mknum(canon(Mag{(u64)0, c, c}), k & 1)}, {}}); if (c < 5000) for (int dl = -1; dl < 2; ++dl) test(Case{PRINT, {mknum(rmag(c + (c ? dl : 0)), rd(2))}, {}}); }
        while (!late()) { Num n; n.desc = (int)rd(2); n.d = rmag(rlen(300)); test(Case{PRINT, {n}, {}}); }
    }
    else if (is(P, "C13")) {
        auto go = [&](const Num& a) {
            u64 n = a.d.size(), d = rdigit();
            u64 ex = rd(3) ? 0 : 5;
            test(Case{STATE, {a}, {}}); test(Case{CLEAR, {a}, {}});
            for (u64 k = 0; k <= BN_NEG_INF; ++k) test(Case{SETD, {a}, {k}});
            test(Case{PUSHF, {a}, {0, d, ex}}); test(Case{PUSHB, {a}, {0, d, ex}});
            if (n) { test(Case{POPF, {a}, {}}); test(Case{POPB, {a}, {}}); u64 p = rd(n); test(Case{POP, {a}, {p}}); test(Case{POP, {a}, {n - 1}}); test(Case{POP, {a}, {0}}); test(Case{INDEX, {a}, {p, d}}); test(Case{INDEX, {a}, {n - 1, d}}); }
            test(Case{PUSH, {a}, {rd(n + 1), d, ex}}); test(Case{PUSH, {a}, {n, d, ex}}); test(Case{PUSH, {a}, {0, d}});
            for (u64 z : { (u64)0, n, n + 1, n ? n - 1 : 0, rd(n + 1), n + rd(20) }) { test(Case{RESIZE, {a}, {z, 0, ex}}); test(Case{RESIZE, {a}, {z, rdigit(), ex}}); }
            for (u64 z : { n, n + 1, n + 7, ~(u64)0, (u64)1 << 32, (u64)1 << 63, ((u64)1 << 32) + (n ? n - 1 : 0) }) test(Case{INDEX, {a}, {z, d}});
        };
        std::vector<Mag> s; strings(alphabet(true), 3, s);
        for (auto& m : s) { Num a; a.d = m; a.desc = (int)rd(2); go(a); if (rd(8) == 0) { a.desc = BN_NAN + (int)rd(3); go(a); } if (late()) break; }
        for (u64 c : consts) if (c < 2000) for (int dl = -1; dl < 2; ++dl) { Num a; a.desc = (int)rd(5); a.d = rmag(c + (c ? dl : 0)); go(a); }
        while (!late()) { Num a; a.desc = (int)rd(5); a.d = rmag(rlen(60)); if (rd(2) && !a.d.empty()) a.d.back() = 0; go(a); }
    }
    else if (is(P, "C15")) {
        while (!late()) {
            Num a = rnum(12), b = near(a, 12);
            for (int op = ADD; op <= DIV; ++op) for (u64 f = 0; f < NFORMS; ++f) test(Case{op, f >= SELFB ? std::vector<Num>{a} : std::vector<Num>{a, b}, {f, rd(2) ? 0 : 4}});
        }
    }
    else if (is(P, "C16")) {
        auto go = [&](const Num& a, const Num& b) { for (int o = COPY; o <= MOVEA; ++o) test(Case{o, {a, b}, {}}); test(Case{ASSIGN, {a, b}, {1}}); };
        std::vector<Mag> s; strings(alphabet(false), 2, s);
        for (auto& m : s) for (auto& k : s) for (int d = 0; d < 5; ++d) for (int e = 0; e < 5; ++e) { Num a, b; a.d = m; a.desc = d; b.d = k; b.desc = e; go(a, b); }
        for (u64 c : consts) if (c < 3000) for (int dl = -1; dl < 2; ++dl) { Num a; a.desc = (int)rd(5); a.d = rmag(c + (c ? dl : 0)); go(a, rnum(20)); go(rnum(20), a); }
        while (!late()) { Num a, b; a.desc = (int)rd(5); a.d = rmag(rlen(100)); b.desc = (int)rd(5); b.d = rmag(rlen(100)); go(a, b); }
    }
    else if (is(P, "C17")) {
        std::vector<Mag> s; strings(alphabet(false), 2, s);
        std::vector<Num> v; for (auto& m : s) for (int k = 0; k < 2; ++k) if (!m.empty() || !k) v.push_back(mknum(m, k));
        slice(0, 2, [&] { for (auto& a : v) for (auto& b : v) for (auto& c : v) test(Case{LAWS, {a, b, c}, {}}); });
        slice(1, 2, [&] { for (u64 c : consts) { if (c < B) for (int k = 0; k < 30; ++k) { Num a = rnum(5), b = rnum(5), z = rnum(5); if (!a.d.empty()) a.d[rd(a.d.size())] = c; a.d = canon(a.d); test(Case{LAWS, {a, b, z}, {}}); test(Case{LAWS, {b, a, z}, {}}); }
                if (c > 1 && c < 300) for (int k = 0; k < 6; ++k) { Num a = mknum(rmag(c - 1 + rd(3)), rd(2)), b = mknum(rmag(c - 1 + rd(3)), rd(2)); test(Case{LAWS, {a, b, rnum(6)}, {}}); test(Case{LAWS, {rnum(6), b, a}, {}}); } }
            while (!late()) { size_t m = rd(6) ? 8 : 40; Num a = rnum(m), b = near(a, m); test(Case{LAWS, {a, b, rnum(m)}, {}}); } });
    }
    else if (is(P, "C18")) {
        if (B == 10 || B == 256) {
            for (int k = 0; k < 64; ++k) for (long d = -70; d <= 70; ++d) { u64 v = ((u64)1 << k) + (u64)d; test(Case{POW2, {}, {v}}); if (v <= ((u64)1 << 63)) test(Case{NPOW2, {}, {v}}); }
            for (u64 v = 0; v < 70000; ++v) { test(Case{POW2, {}, {v}}); test(Case{NPOW2, {}, {v}}); }
            for (int k = 0; k < 200000; ++k) { u64 v = rng() >> rd(64); if (rd(2)) v &= rng(); if (!rd(4)) v = ((u64)1 << rd(64)) | ((u64)1 << rd(64)); test(Case{POW2, {}, {v}}); if (v <= ((u64)1 << 63)) test(Case{NPOW2, {}, {v}}); }
            for (u64 c : consts) for (int d = -2; d <= 2; ++d) { test(Case{POW2, {}, {c + d}}); if (c + d <= ((u64)1 << 63)) test(Case{NPOW2, {}, {c + d}}); }
        }
        auto go = [&](const Mag& a, const Mag& b) { if (a.empty() && b.empty()) return; test(Case{TABLE, {mknum(a, 0), mknum(b, 0)}, {}}); test(Case{CONV, {mknum(a, 0), mknum(b, 0)}, {}}); };
        for (size_t n = 0; n < 40; ++n) for (size_t m = 0; m < 40; ++m) go(rmag(n), rmag(m));
        for (u64 c : consts) if (c < 5000) for (int dl = -1; dl < 2; ++dl) { go(rmag(c + (c ? dl : 0)), rmag(rlen(30))); go(rmag(rlen(30)), rmag(c + (c ? dl : 0))); }
        for (size_t n : { 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4096 }) { go(rmag(n), rmag(0)); go(rmag(0), rmag(n)); go(rmag(n), rmag(n)); go(rmag(1), rmag(n)); }
        while (!late()) go(rmag(rlen(200)), rmag(rlen(200)));
    }
    else if (is(P, "C19")) {
        // the library multiplies through the transform as long as the sums stay below 2^31
        auto fits = [&](size_t m) { return B - 1 <= 46340 && m * (B - 1) * (B - 1) <= ((u64)1 << 31); };
        auto go = [&](const Mag& a, const Mag& b) { if (a.size() + b.size() && fits(std::min(a.size(), b.size()))) test(Case{EXACT, {mknum(a, 0), mknum(b, 0)}, {}}); };
        for (u64 l = 0; l <= 9; ++l) for (u64 k = 0; k < 10; ++k) for (u64 f = 0; f < 2; ++f) test(Case{THERE, {}, {l, k, rng() >> 40, f}});
        for (size_t n = 0; n < 20; ++n) for (size_t m = 0; m < 20; ++m) { go(rmag(n), rmag(m)); go(Mag(n, B - 1), Mag(m, B - 1)); }
        if (B <= 256) for (u64 k = 0; k < 10; k += 3) test(Case{THERE, {}, {14 + rd(4), k, rng() >> 40, 0}});
        if (B <= 16) for (u64 k : {3, 5, 9}) test(Case{THERE, {}, {B == 2 ? 18u : B == 8 ? 19u : B == 10 ? 20u : 17u, k, rng() >> 40, k == 5}});
        for (size_t n : { 100, 128, 129, 500, 512, 1000, 1023, 1024, 1025, 3000, 4096 }) { go(Mag(n, B - 1), Mag(n, B - 1)); go(rmag(n), rmag(n)); go(rmag(1), rmag(n)); go(rmag(n), rmag(rd(n))); }
        for (u64 c : consts) if (c < 20000) for (int dl = -1; dl < 2; ++dl) { u64 m = c + (c ? dl : 0); go(rmag(m), rmag(rlen(30))); go(Mag(m, B - 1), Mag(m, B - 1)); u64 l = 0; while (((u64)1 << l) < m) ++l; test(Case{THERE, {}, {l, rd(10), rng() >> 40, rd(2)}}); }
        while (!late()) {
            if (rd(3)) test(Case{THERE, {}, {rd(12), rd(10), rng() >> 40, rd(2)}});
            else { size_t m = rd(9) ? 40 : 1500; go(rd(4) ? rmag(rlen(m)) : Mag(rlen(m), B - 1), rd(4) ? rmag(rlen(m)) : Mag(rlen(m), B - 1)); }
        }
    }
    else if (is(P, "C10")) {
        auto go = [&](const Num& a, const Num& b) {
            for (int op = ADD; op <= DIV; ++op) { if (op == DIV && a.d.size() > 30 && b.d.size() < a.d.size() && rd(8)) continue; test(Case{op, {a, b}, {rd(2)}}); if (same(a, b)) { test(Case{op, {a}, {SELFB}}); test(Case{op, {a}, {SELFC}}); } }
            for (int o = LT; o <= NE; ++o) test(Case{o, {a, b}, {}});
            if (fin(a) && fin(b)) { for (int o = MLT; o <= MEQ; ++o) test(Case{o, {a, b}, {}}); test(Case{NAIVE, {a, b}, {}}); test(Case{FFTM, {a, b}, {}}); }
            test(Case{PRINT, {a}, {}}); Num n = b; n.desc = (int)rd(2); std::reverse(n.d.begin(), n.d.end()); for (u64 z = rd(3); z-- > 0;) n.d.insert(n.d.begin(), 0); test(Case{CTOR, {n}, {}});
            if (fin(a) && fin(b) && !(a.d.empty() && b.d.empty())) test(Case{CONV, {a, b}, {}});
        };
        for (int d = BN_NAN; d <= BN_NEG_INF; ++d) { Num x; x.desc = d; for (int k = 0; k < 20; ++k) { Num y = anynum(5); go(x, y); go(y, x); go(x, x); } }
        slice(0, 1, [&] { pairs(24, go, 1, false); });
    }
}

static int child(const char* P, u64 seed) {
    rng.seed(seed * 1000003 + B);
    try { generate(P); } catch (Stop&) {}
    sh->done = 1;
    return 0;
}

int main(int argc, char** argv) {
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (argc < 3) return 2;
    S mode = argv[1];
    g_P = argv[2];
    if (mode == "case") {
        Case c; c.op = -1;
        for (int k = 0; k < NOPS; ++k) if (argc > 3 && !strcmp(argv[3], OPN[k])) c.op = k;
        if (c.op < 0) return 2;
        for (int k = 4; k < argc; ++k) {
            if (argv[k][0] == '=') { c.i.push_back(strtoull(argv[k] + 1, nullptr, 10)); continue; }
            Num n; char* e; n.desc = (int)strtol(argv[k], &e, 10);
            while (*e == ':' || *e == ',') {
                if (!e[1]) break;
                u64 x = strtoull(e + 1, &e, 10), times = *e == 'x' ? strtoull(e + 1, &e, 10) : 1;
                n.d.insert(n.d.end(), (size_t)times, x);
            }
            c.n.push_back(n);
        }
        rng.seed(1);
        S e = run(g_P, c);
        printf("%s %s\n", OPN[c.op], e.empty() ? "ok" : ("FAIL " + e).c_str());
        return e.empty() ? 0 : 1;
    }
    u64 seed = strtoull(argv[3], nullptr, 10);
    double secs = atof(argv[4]);
    for (int k = 5; k < argc; ++k) consts.push_back(strtoull(argv[k], nullptr, 10));
    g_end = now() + secs;
    pid_t p = fork();
    if (!p) { _exit(child(g_P, seed)); }
    double limit = 40, last = now(); u64 cnt = 0; int st = 0; bool hang = false;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (sh->count != cnt) { cnt = sh->count; last = now(); }
        if (now() - last > limit) { hang = true; kill(p, SIGKILL); waitpid(p, &st, 0); break; }
        usleep(20000);
    }
    int rc = 0;
    if (sh->failed) { printf("FAIL %s\n", sh->fail); rc = 1; }
    else if (hang || !sh->done) {
        S why = hang ? "does not terminate within 40 s" : WIFSIGNALED(st) ? S("the program dies with signal ") + std::to_string(WTERMSIG(st)) : S("the program is stopped (exit code ") + std::to_string(WEXITSTATUS(st)) + ")";
        if (sh->len) { S l = line(decode()); if (l.size() > 60000) l = l.substr(0, 2000) + " ..."; printf("%s %s :: %s\n", hang ? "HANG" : "CRASH", l.c_str(), why.c_str()); rc = 1; }
        else { printf("ERROR %s\n", why.c_str()); rc = 2; }
    }
    printf("COUNT %llu %llu\n", (unsigned long long)sh->count, (unsigned long long)sh->distinct);
    fwrite(sh->samples, 1, sh->sampleslen, stdout);
    return rc;
}
