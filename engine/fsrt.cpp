// fsym runtime: expression DAG, shadow memory, path constraints, exploration.
// Compiled without instrumentation and without sanitizers.
#include "fsops.h"
#include "fsrt.h"
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <limits>
#include <map>
#include <poll.h>
#include <queue>
#include <set>
#include <string>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

extern "C" {
u32 __fs_args[64];
u64 __fs_argvals[64];
u32 __fs_argany;
void* __fs_argcallee;
u32 __fs_ret[64];
u32 __fs_retany;
void* __fs_retfrom;
unsigned char __fs_pageflag[1 << 20];
const char* __asan_locate_address(void* addr, char* name, size_t name_size, void** region_address, size_t* region_size) __attribute__((weak));
void* __asan_region_is_poisoned(void* beg, size_t size) __attribute__((weak));
void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
void __asan_set_error_report_callback(void (*)(const char*)) __attribute__((weak));
const char* __asan_default_options()
{
    return "detect_leaks=0:malloc_context_size=3:quarantine_size_mb=4:allocator_may_return_null=0:handle_abort=1:handle_segv=1:"
           "max_allocation_size_mb=2000:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0:detect_odr_violation=0:print_legend=0:symbolize=0";
}
}

namespace fs {
std::vector<Node> nodes(1);
std::vector<VarInfo> vars;
std::vector<Decision> decisions;
Opts opts;
Stats st;

static double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
double fs_now() { return now(); }

// ---------------------------------------------------------------- nodes
struct NodeKey
{
    u32 op, w, a, b, c;
    u64 imm;
    bool operator==(const NodeKey& o) const { return op == o.op && w == o.w && a == o.a && b == o.b && c == o.c && imm == o.imm; }
};
struct NodeHash
{
    size_t operator()(const NodeKey& k) const
    {
        u64 h = k.op * 0x9E3779B97F4A7C15ull;
        auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
        mix(k.w); mix(k.a); mix(k.b); mix(k.c); mix(k.imm);
        return h;
    }
};
static std::unordered_map<NodeKey, u32, NodeHash>* cons;
static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w))) >> (64 - w); }

static double bd(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static float bf(u64 b) { float d; u32 x = (u32)b; memcpy(&d, &x, 4); return d; }
static u64 db(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static u64 fb(float d) { u32 b; memcpy(&b, &d, 4); return b; }

static bool evalIcmp(unsigned p, unsigned w, u64 a, u64 b)
{
    a &= mask(w); b &= mask(w);
    i64 sa = sx(a, w), sb = sx(b, w);
    switch (p) {
    case 0: return a == b;
    case 1: return a != b;
    case 2: return a > b;
    case 3: return a >= b;
    case 4: return a < b;
    case 5: return a <= b;
    case 6: return sa > sb;
    case 7: return sa >= sb;
    case 8: return sa < sb;
    default: return sa <= sb;
    }
}
static bool evalFcmp(unsigned p, double a, double b)
{
    bool un = a != a || b != b;
    bool r = false;
    if (p & 8) r = r || un;
    if (!un) {
        if ((p & 1) && a == b) r = true;
        if ((p & 2) && a > b) r = true;
        if ((p & 4) && a < b) r = true;
    }
    return r;
}
static double fget(u64 v, unsigned w) { return w == 32 ? (double)bf(v) : bd(v); }
static u64 fput(double v, unsigned w) { return w == 32 ? fb((float)v) : db(v); }
static bool fpclass(double x, bool isF, u64 m)
{
    int c = std::fpclassify(isF ? (float)x : x);
    bool neg = std::signbit(x);
    bool r = false;
    if ((m & 3) && c == FP_NAN) r = true;
    if ((m & 0x204) && c == FP_INFINITE) r = r || ((m & 0x200) && !neg) || ((m & 4) && neg);
    if ((m & 0x108) && c == FP_NORMAL) r = r || ((m & 0x100) && !neg) || ((m & 8) && neg);
    if ((m & 0x90) && c == FP_SUBNORMAL) r = r || ((m & 0x80) && !neg) || ((m & 0x10) && neg);
    if ((m & 0x60) && c == FP_ZERO) r = r || ((m & 0x40) && !neg) || ((m & 0x20) && neg);
    return r;
}
static u64 fpToInt(double x, unsigned w, bool sgn)
{
    // x86-64 semantics of the code clang emits
    if (sgn) {
        if (w <= 32) {
            int r = (x != x || x >= 2147483648.0 || x <= -2147483649.0) ? INT32_MIN : (int)x;
            return (u64)(i64)r & mask(w);
        }
        i64 r = (x != x || x >= 9223372036854775808.0 || x < -9223372036854775808.0) ? INT64_MIN : (i64)x;
        return (u64)r & mask(w);
    }
    if (w <= 16) {
        int r = (x != x || x >= 2147483648.0 || x <= -2147483649.0) ? INT32_MIN : (int)x;
        return (u64)(i64)r & mask(w);
    }
    if (w <= 32) {
        i64 r = (x != x || x >= 9223372036854775808.0 || x < -9223372036854775808.0) ? INT64_MIN : (i64)x;
        return (u64)r & mask(w);
    }
    if (x != x || x < -9223372036854775808.0) return 1ull << 63;
    if (x >= 18446744073709551616.0) return 1ull << 63;
    if (x >= 9223372036854775808.0) return (u64)(i64)(x - 9223372036854775808.0) ^ (1ull << 63);
    return (u64)(i64)x;
}
static u64 evalFun(unsigned k, unsigned w, unsigned sw, u64 a, u64 b)
{
    double x = fget(a, sw), y = fget(b, sw);
    switch (k) {
    case FS_F_FABS: return sw == 32 ? (a & 0x7fffffffu) : (a & 0x7fffffffffffffffull);
    case FS_F_FNEG: return sw == 32 ? (a ^ 0x80000000u) : (a ^ 0x8000000000000000ull);
    case FS_F_FLOOR: return fput(std::floor(x), w);
    case FS_F_CEIL: return fput(std::ceil(x), w);
    case FS_F_TRUNC: return fput(std::trunc(x), w);
    case FS_F_RINT: return fput(std::nearbyint(x), w);
    case FS_F_ROUND: return fput(std::round(x), w);
    case FS_F_SQRT: return sw == 32 ? fb(std::sqrt(bf(a))) : db(std::sqrt(x));
    case FS_F_EXP: return sw == 32 ? fb(expf(bf(a))) : db(exp(x));
    case FS_F_LOG: return sw == 32 ? fb(logf(bf(a))) : db(log(x));
    case FS_F_FMOD: return sw == 32 ? fb(fmodf(bf(a), bf(b))) : db(fmod(x, y));
    case FS_F_COPYSIGN: return fput(std::copysign(x, y), w);
    case FS_F_FPCLASS: return fpclass(x, sw == 32, b);
    case FS_F_BSWAP:
        if (w == 16) return __builtin_bswap16(a);
        if (w == 32) return __builtin_bswap32(a);
        return __builtin_bswap64(a);
    case FS_F_CTPOP: return __builtin_popcountll(a & mask(w));
    case FS_F_CTLZ: { a &= mask(w); u64 n = 0; for (int i = (int)w - 1; i >= 0 && !((a >> i) & 1); --i) ++n; return n; }
    case FS_F_CTTZ: { u64 n = 0; while (n < w && !((a >> n) & 1)) ++n; return n; }
    }
    return 0;
}
u64 evalNode(const Node& n, u64 a, u64 b, u64 c, unsigned aw)
{
    unsigned w = n.w;
    u64 m = mask(w);
    switch (n.op) {
    case FS_ADD: return (a + b) & m;
    case FS_SUB: return (a - b) & m;
    case FS_MUL: return (a * b) & m;
    case FS_UDIV: return (b & m) ? ((a & m) / (b & m)) : m;
    case FS_UREM: return (b & m) ? ((a & m) % (b & m)) : (a & m);
    case FS_SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return (x >= 0 ? m : 1); if (y == -1) return (0 - (u64)x) & m; return (u64)(x / y) & m; }
    case FS_SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a & m; if (y == -1) return 0; return (u64)(x % y) & m; }
    case FS_SHL: return b >= w ? 0 : (a << b) & m;
    case FS_LSHR: return b >= w ? 0 : ((a & m) >> b);
    case FS_ASHR: return (u64)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
    case FS_AND: return a & b & m;
    case FS_OR: return (a | b) & m;
    case FS_XOR: return (a ^ b) & m;
    case FS_FADD: return w == 32 ? fb(bf(a) + bf(b)) : db(bd(a) + bd(b));
    case FS_FSUB: return w == 32 ? fb(bf(a) - bf(b)) : db(bd(a) - bd(b));
    case FS_FMUL: return w == 32 ? fb(bf(a) * bf(b)) : db(bd(a) * bd(b));
    case FS_FDIV: return w == 32 ? fb(bf(a) / bf(b)) : db(bd(a) / bd(b));
    case FS_ZEXT: return a & mask(aw);
    case FS_SEXT: return (u64)sx(a, aw) & m;
    case FS_EXTRACT: return (a >> n.imm) & m;
    case FS_CONCAT: return ((a << (w - aw)) | b) & m;
    case FS_FPTRUNC: return fb((float)bd(a));
    case FS_FPEXT: return db((double)bf(a));
    case FS_FPTOSI: return fpToInt(fget(a, aw), w, true);
    case FS_FPTOUI: return fpToInt(fget(a, aw), w, false);
    case FS_SITOFP: return w == 32 ? fb((float)sx(a, aw)) : db((double)sx(a, aw));
    case FS_UITOFP: return w == 32 ? fb((float)(a & mask(aw))) : db((double)(a & mask(aw)));
    case FS_ICMP: return evalIcmp(n.imm, aw, a, b);
    case FS_FCMP: return evalFcmp(n.imm, fget(a, aw), fget(b, aw));
    case FS_ITE: return a ? b : c;
    case FS_FUN: return evalFun(n.imm & 0xff, w, aw, a, n.b ? b : (n.imm >> 8));
    }
    return 0;
}
typedef __int128 i128;
static bool fits(i128 lo, i128 hi, unsigned w)
{
    i128 mx = ((i128)1 << (w - 1)) - 1, mn = -mx - 1;
    return lo >= mn && hi <= mx;
}
static void setRange(Node& n, i128 lo, i128 hi)
{
    if (fits(lo, hi, n.w)) { n.lo = (i64)lo; n.hi = (i64)hi; }
}
static int bitlen(u64 x) { return x ? 64 - __builtin_clzll(x) : 0; }
// intervals of floating point nodes: [lo, hi], nan = may be NaN; unknown = +-inf
struct FI { double lo, hi; bool nan; };
static std::unordered_map<u32, FI> fiCache;
static FI fpInterval(u32 id);
// rounding is monotone: bounds rounded like the operation itself are bounds of the result
static FI fiOut(double lo, double hi, bool nan, unsigned w)
{
    const double U = std::numeric_limits<double>::infinity();
    if (!(lo >= -1e290 && hi <= 1e290 && lo <= hi)) return {-U, U, true};
    if (w == 32) {
        if (!(lo >= -3e38 && hi <= 3e38)) return {-U, U, true};
        return {(double)(float)lo, (double)(float)hi, nan};
    }
    return {lo, hi, nan};
}
static FI calcFI(u32 id)
{
    const Node n = nodes[id];
    const double U = std::numeric_limits<double>::infinity();
    const FI unk = {-U, U, true};
    switch (n.op) {
    case FS_CONST: {
        double d;
        if (n.w == 32) { float f; u32 b = n.imm; memcpy(&f, &b, 4); d = f; }
        else if (n.w == 64) memcpy(&d, &n.imm, 8);
        else return unk;
        if (d != d) return {0, 0, true};
        if (std::isinf(d)) return unk;
        return {d, d, false};
    }
    case FS_SITOFP:
        if (nodes[n.a].w == 1) return {-1, 0, false};
        {
            double l = (double)nodes[n.a].lo, h = (double)nodes[n.a].hi;
            if (n.w == 32 && !(std::fabs(l) < 9e15 && std::fabs(h) < 9e15)) { l -= std::fabs(l) * 1e-6; h += std::fabs(h) * 1e-6; }
            return fiOut(l, h, false, n.w);
        }
    case FS_UITOFP:
        if (nodes[n.a].w == 1) return {0, 1, false};
        if (nodes[n.a].lo >= 0) {
            double l = (double)nodes[n.a].lo, h = (double)nodes[n.a].hi;
            if (n.w == 32 && !(std::fabs(l) < 9e15 && std::fabs(h) < 9e15)) { l -= std::fabs(l) * 1e-6; h += std::fabs(h) * 1e-6; }
            return fiOut(l, h, false, n.w);
        }
        return fiOut(0, std::ldexp(1.0, nodes[n.a].w) * 1.000001, false, n.w);
    case FS_FPTRUNC: { FI a = fpInterval(n.a); if (!(std::fabs(a.lo) < 1e38 && std::fabs(a.hi) < 1e38)) return unk; return fiOut(a.lo, a.hi, a.nan, n.w); }
    case FS_FPEXT: return fpInterval(n.a);
    case FS_FADD: { FI a = fpInterval(n.a), b = fpInterval(n.b); return fiOut(a.lo + b.lo, a.hi + b.hi, a.nan || b.nan, n.w); }
    case FS_FSUB: { FI a = fpInterval(n.a), b = fpInterval(n.b); return fiOut(a.lo - b.hi, a.hi - b.lo, a.nan || b.nan, n.w); }
    case FS_FMUL: {
        FI a = fpInterval(n.a), b = fpInterval(n.b);
        if (std::isinf(a.lo) || std::isinf(b.lo) || std::isinf(a.hi) || std::isinf(b.hi)) return unk;
        double p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
        return fiOut(*std::min_element(p, p + 4), *std::max_element(p, p + 4), a.nan || b.nan, n.w);
    }
    case FS_FDIV: {
        FI a = fpInterval(n.a), b = fpInterval(n.b);
        if (std::isinf(a.lo) || std::isinf(b.lo) || std::isinf(a.hi) || std::isinf(b.hi) || (b.lo <= 1e-30 && b.hi >= -1e-30)) return unk;
        double p[4] = {a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi};
        return fiOut(*std::min_element(p, p + 4), *std::max_element(p, p + 4), a.nan || b.nan, n.w);
    }
    case FS_ITE: { FI a = fpInterval(n.b), b = fpInterval(n.c); return {std::min(a.lo, b.lo), std::max(a.hi, b.hi), a.nan || b.nan}; }
    case FS_FUN:
        switch (n.imm & 0xff) {
        case FS_F_FABS: { FI a = fpInterval(n.a); double m = std::max(std::fabs(a.lo), std::fabs(a.hi)); return {0, m, a.nan}; }
        case FS_F_FNEG: { FI a = fpInterval(n.a); return {-a.hi, -a.lo, a.nan}; }
        case FS_F_FLOOR: { FI a = fpInterval(n.a); return fiOut(std::floor(a.lo), std::floor(a.hi), a.nan, n.w); }
        case FS_F_CEIL: { FI a = fpInterval(n.a); return fiOut(std::ceil(a.lo), std::ceil(a.hi), a.nan, n.w); }
        case FS_F_TRUNC: { FI a = fpInterval(n.a); return fiOut(std::trunc(a.lo), std::trunc(a.hi), a.nan, n.w); }
        case FS_F_ROUND: { FI a = fpInterval(n.a); return fiOut(std::round(a.lo), std::round(a.hi), a.nan, n.w); }
        case FS_F_RINT: { FI a = fpInterval(n.a); return fiOut(std::nearbyint(a.lo), std::nearbyint(a.hi), a.nan, n.w); }
        }
    }
    return unk;
}
static FI fpInterval(u32 id)
{
    auto it = fiCache.find(id);
    if (it != fiCache.end()) return it->second;
    FI r = calcFI(id);
    fiCache[id] = r;
    return r;
}
static void computeRange(Node& n)
{
    unsigned w = n.w;
    n.lo = w >= 64 ? INT64_MIN : -((i64)1 << (w - 1));
    n.hi = w >= 64 ? INT64_MAX : ((i64)1 << (w - 1)) - 1;
    const Node &A = nodes[n.a], &B = nodes[n.b], &Cn = nodes[n.c];
    switch (n.op) {
    case FS_CONST: n.lo = n.hi = sx(n.imm, w); break;
    case FS_ADD: setRange(n, (i128)A.lo + B.lo, (i128)A.hi + B.hi); break;
    case FS_SUB: setRange(n, (i128)A.lo - B.hi, (i128)A.hi - B.lo); break;
    case FS_MUL: {
        i128 p[4] = {(i128)A.lo * B.lo, (i128)A.lo * B.hi, (i128)A.hi * B.lo, (i128)A.hi * B.hi};
        setRange(n, *std::min_element(p, p + 4), *std::max_element(p, p + 4));
        break;
    }
    case FS_ZEXT:
        if (A.lo >= 0) setRange(n, A.lo, A.hi);
        else if (A.w < w) setRange(n, 0, ((i128)1 << A.w) - 1);
        break;
    case FS_SEXT: setRange(n, A.lo, A.hi); break;
    case FS_EXTRACT:
        if (n.imm == 0) { if (fits(A.lo, A.hi, w)) setRange(n, A.lo, A.hi); }
        break;
    case FS_AND:
        if (A.lo >= 0 && B.lo >= 0) setRange(n, 0, std::min(A.hi, B.hi));
        else if (A.lo >= 0) setRange(n, 0, A.hi);
        else if (B.lo >= 0) setRange(n, 0, B.hi);
        break;
    case FS_OR:
    case FS_XOR:
        if (A.lo >= 0 && B.lo >= 0) {
            int k = std::max(bitlen(A.hi), bitlen(B.hi));
            setRange(n, n.op == FS_OR ? std::max(A.lo, B.lo) : 0, ((i128)1 << k) - 1);
        }
        break;
    case FS_SHL:
        if (B.op == FS_CONST && B.imm < w) { i128 f = (i128)1 << B.imm; setRange(n, A.lo * f, A.hi * f); }
        break;
    case FS_LSHR:
        if (A.lo >= 0) { if (B.op == FS_CONST && B.imm < w) setRange(n, A.lo >> B.imm, A.hi >> B.imm); else setRange(n, 0, A.hi); }
        else if (B.op == FS_CONST && B.imm < w && B.imm > 0) setRange(n, 0, ((i128)1 << (w - B.imm)) - 1);
        break;
    case FS_ASHR:
        if (B.op == FS_CONST && B.imm < w) setRange(n, A.lo >> B.imm, A.hi >> B.imm);
        break;
    case FS_UDIV:
        if (A.lo >= 0 && B.lo > 0) setRange(n, A.lo / B.hi, A.hi / B.lo);
        break;
    case FS_UREM:
        if (A.lo >= 0 && B.lo > 0) setRange(n, 0, std::min(A.hi, B.hi - 1));
        break;
    case FS_SDIV:
        if (B.lo > 0) {
            i128 p[4] = {(i128)A.lo / B.lo, (i128)A.lo / B.hi, (i128)A.hi / B.lo, (i128)A.hi / B.hi};
            setRange(n, *std::min_element(p, p + 4), *std::max_element(p, p + 4));
        }
        break;
    case FS_SREM:
        if (B.lo > 0) setRange(n, A.lo >= 0 ? 0 : -(i128)(B.hi - 1), A.hi <= 0 ? 0 : (i128)(B.hi - 1));
        break;
    case FS_FPTOSI:
    case FS_FPTOUI: {
        FI f = fpInterval(n.a);
        bool sgn = n.op == FS_FPTOSI;
        unsigned hw = sgn ? (w <= 32 ? 32 : 64) : (w <= 16 ? 32 : 64);
        double lim = std::ldexp(1.0, hw - 1) - (hw == 64 ? 2048 : 2);
        if (f.lo > -lim && f.hi < lim) {
            i128 lo = (i128)std::trunc(f.lo), hi = (i128)std::trunc(f.hi);
            if (f.nan && hw == w) lo = -((i128)1 << (w - 1));
            else if (f.nan) { lo = std::min<i128>(lo, 0); hi = std::max<i128>(hi, 0); }
            if (f.nan && !sgn && hw != w && w == 32) break;
            setRange(n, lo, hi);
        }
        break;
    }
    case FS_ITE: setRange(n, std::min(B.lo, Cn.lo), std::max(B.hi, Cn.hi)); break;
    case FS_CONCAT:
        if (A.lo >= 0) { unsigned lw = nodes[n.b].w; setRange(n, (i128)A.lo << lw, (((i128)A.hi + 1) << lw) - 1); }
        break;
    case FS_FUN:
        switch (n.imm & 0xff) {
        case FS_F_CTPOP: case FS_F_CTLZ: case FS_F_CTTZ: setRange(n, 0, w); break;
        case FS_F_LROUND: {
            FI f = fpInterval(n.a);
            if (f.lo > -1e18 && f.hi < 1e18 && !f.nan) setRange(n, (i128)std::round(f.lo), (i128)std::round(f.hi));
            break;
        }
        }
        break;
    }
}
static u32 rawNode(u32 op, u32 w, u32 a, u32 b, u32 c, u64 imm)
{
    NodeKey k{op, w, a, b, c, imm};
    if (!cons) cons = new std::unordered_map<NodeKey, u32, NodeHash>();
    auto it = cons->find(k);
    if (it != cons->end()) return it->second;
    Node n;
    n.op = op; n.w = w; n.a = a; n.b = b; n.c = c; n.imm = imm;
    n.cval = op == FS_CONST ? (imm & mask(w)) : evalNode(n, nodes[a].cval, nodes[b].cval, nodes[c].cval, nodes[a].w);
    computeRange(n);
    if (op != FS_CONST && op != FS_VAR && n.lo == n.hi && w <= 64) return rawNode(FS_CONST, w, 0, 0, 0, (u64)n.lo & mask(w));
    u32 id = nodes.size();
    nodes.push_back(n);
    (*cons)[k] = id;
    if (nodes.size() > opts.maxNodes) { st.nodeLimit = 1; }
    return id;
}
u32 mkConst(unsigned w, u64 v) { return rawNode(FS_CONST, w, 0, 0, 0, v & mask(w)); }
static bool isC(u32 i) { return nodes[i].op == FS_CONST; }
static bool isC(u32 i, u64 v) { return nodes[i].op == FS_CONST && nodes[i].imm == v; }
static u64 cv(u32 i) { return nodes[i].imm; }

u32 mkNot(u32 a);
u32 mkIte(u32 c, u32 a, u32 b);
u32 mkCast(unsigned op, unsigned w, u32 a);
u32 mkExtract(unsigned lo, unsigned w, u32 a);
u32 mkIcmp(unsigned p, u32 a, u32 b);
static bool comm(unsigned op) { return op == FS_ADD || op == FS_MUL || op == FS_AND || op == FS_OR || op == FS_XOR || op == FS_FADD || op == FS_FMUL; }

u32 mkBin(unsigned op, unsigned w, u32 a, u32 b)
{
    if (isC(a) && isC(b)) {
        Node n; n.op = op; n.w = w; n.imm = 0; n.b = b;
        return mkConst(w, evalNode(n, cv(a), cv(b), 0, w));
    }
    if (comm(op) && (isC(a) || (!isC(b) && a > b))) std::swap(a, b);
    u64 m = mask(w);
    switch (op) {
    case FS_ADD:
        if (isC(b, 0)) return a;
        if (isC(b) && nodes[a].op == FS_ADD && isC(nodes[a].b)) return mkBin(FS_ADD, w, nodes[a].a, mkConst(w, cv(b) + cv(nodes[a].b)));
        break;
    case FS_SUB:
        if (isC(b, 0)) return a;
        if (a == b) return mkConst(w, 0);
        if (isC(b)) return mkBin(FS_ADD, w, a, mkConst(w, 0 - cv(b)));
        // (x + c) - x
        if (nodes[a].op == FS_ADD && nodes[a].a == b) return nodes[a].b;
        if (nodes[a].op == FS_ADD && nodes[a].b == b) return nodes[a].a;
        break;
    case FS_MUL:
        if (isC(b, 0)) return b;
        if (isC(b, 1)) return a;
        break;
    case FS_AND:
        if (isC(b, 0)) return b;
        if (isC(b, m) || a == b) return a;
        if (isC(b) && nodes[a].lo >= 0 && bitlen(nodes[a].hi) <= __builtin_ctzll(~cv(b))) return a;
        break;
    case FS_OR:
        if (isC(b, 0) || a == b) return a;
        if (isC(b, m)) return b;
        break;
    case FS_XOR:
        if (isC(b, 0)) return a;
        if (a == b) return mkConst(w, 0);
        if (w == 1 && isC(b, 1)) return mkNot(a);
        break;
    case FS_UDIV:
    case FS_SDIV:
        if (isC(b, 1)) return a;
        break;
    case FS_SHL:
    case FS_LSHR:
    case FS_ASHR:
        if (isC(b, 0)) return a;
        break;
    }
    return rawNode(op, w, a, b, 0, 0);
}
u32 mkNot(u32 a)
{
    if (isC(a)) return mkConst(1, !cv(a));
    const Node n = nodes[a];
    if (n.op == FS_ICMP) {
        static const unsigned inv[10] = {1, 0, 5, 4, 3, 2, 9, 8, 7, 6};
        return mkIcmp(inv[n.imm], n.a, n.b);
    }
    if (n.op == FS_FCMP) return rawNode(FS_FCMP, 1, n.a, n.b, 0, n.imm ^ 15);
    if (n.op == FS_XOR && isC(n.b, 1)) return n.a;
    return rawNode(FS_XOR, 1, a, mkConst(1, 1), 0, 0);
}
u32 mkIcmp(unsigned p, u32 a, u32 b)
{
    unsigned w = nodes[a].w;
    if (isC(a) && isC(b)) return mkConst(1, evalIcmp(p, w, cv(a), cv(b)));
    if (a == b) return mkConst(1, p == 0 || p == 3 || p == 5 || p == 7 || p == 9);
    if (isC(a)) {
        static const unsigned sw[10] = {0, 1, 4, 5, 2, 3, 8, 9, 6, 7};
        std::swap(a, b);
        p = sw[p];
    }
    const Node &A = nodes[a], &B = nodes[b];
    if (w == 1) { // booleans
        if (p == 0 || p == 1) {
            if (isC(b)) return (cv(b) == (p == 0 ? 1u : 0u)) ? a : mkNot(a);
            u32 x = mkBin(FS_XOR, 1, a, b);
            return p == 1 ? x : mkNot(x);
        }
    }
    // range folding
    i64 al = A.lo, ah = A.hi, bl = B.lo, bh = B.hi;
    bool nonneg = al >= 0 && bl >= 0;
    unsigned q = p;
    if (p >= 2 && p <= 5) q = nonneg ? p + 4 : 99;
    if (p <= 1) {
        if (ah < bl || bh < al) return mkConst(1, p == 1);
    } else if (q == 6) {
        if (al > bh) return mkConst(1, 1);
        if (ah <= bl) return mkConst(1, 0);
    } else if (q == 7) {
        if (al >= bh) return mkConst(1, 1);
        if (ah < bl) return mkConst(1, 0);
    } else if (q == 8) {
        if (ah < bl) return mkConst(1, 1);
        if (al >= bh) return mkConst(1, 0);
    } else if (q == 9) {
        if (ah <= bl) return mkConst(1, 1);
        if (al > bh) return mkConst(1, 0);
    }
    if (q != 99) p = q;
    if (isC(b)) {
        // look through extensions
        if ((A.op == FS_ZEXT || A.op == FS_SEXT) && p <= 1) {
            u32 x = A.a;
            unsigned xw = nodes[x].w;
            u64 c = cv(b);
            u64 back = A.op == FS_ZEXT ? (c & mask(xw)) : ((u64)sx(c, xw) & mask(w));
            if (back != c) return mkConst(1, p == 1);
            return mkIcmp(p, x, mkConst(xw, c));
        }
        if (A.op == FS_ADD && isC(A.b) && (p <= 1 || (p >= 6 && fits((i128)sx(cv(b), w) - sx(cv(A.b), w), (i128)sx(cv(b), w) - sx(cv(A.b), w), w) &&
                                                       (i128)nodes[A.a].lo + sx(cv(A.b), w) == A.lo && (i128)nodes[A.a].hi + sx(cv(A.b), w) == A.hi)))
            return mkIcmp(p, A.a, mkConst(w, cv(b) - cv(A.b)));
        if (A.op == FS_ITE && isC(A.b) && isC(A.c)) {
            u32 c = A.a;
            bool t = evalIcmp(p, w, cv(A.b), cv(b)), f = evalIcmp(p, w, cv(A.c), cv(b));
            if (t == f) return mkConst(1, t);
            return t ? c : mkNot(c);
        }
    }
    return rawNode(FS_ICMP, 1, a, b, 0, p);
}
u32 mkFcmp(unsigned p, u32 a, u32 b)
{
    if (p == 0) return mkConst(1, 0);
    if (p == 15) return mkConst(1, 1);
    unsigned w = nodes[a].w;
    if (isC(a) && isC(b)) return mkConst(1, evalFcmp(p, fget(cv(a), w), fget(cv(b), w)));
    if (a == b) { // x ? x : only NaN matters
        bool e = p & 1, u = p & 8;
        if (e == u) return mkConst(1, e);
        p = e ? 7 : 8;
        if (!fpInterval(a).nan) return mkConst(1, p == 7);
    }
    else {
        // decided by the ranges (finite ranges exclude infinity)
        FI x = fpInterval(a), y = fpInterval(b);
        if (!x.nan && !y.nan) {
            unsigned poss = 0; // possible relations
            if (x.lo < y.hi) poss |= 4;
            if (x.hi > y.lo) poss |= 2;
            if (x.lo <= y.hi && x.hi >= y.lo) poss |= 1;
            if (!(p & poss)) return mkConst(1, 0);
            if ((p & poss) == poss) return mkConst(1, 1);
        }
    }
    // canonical: negated-ordered forms are expressed as NOT of an ordered compare
    return rawNode(FS_FCMP, 1, a, b, 0, p);
}
u32 mkIte(u32 c, u32 a, u32 b)
{
    if (isC(c)) return cv(c) ? a : b;
    if (a == b) return a;
    unsigned w = nodes[a].w;
    if (w == 1) {
        if (isC(a, 1) && isC(b, 0)) return c;
        if (isC(a, 0) && isC(b, 1)) return mkNot(c);
        if (isC(b, 0)) return mkBin(FS_AND, 1, c, a);
        if (isC(a, 1)) return mkBin(FS_OR, 1, c, b);
        if (isC(a, 0)) return mkBin(FS_AND, 1, mkNot(c), b);
        if (isC(b, 1)) return mkBin(FS_OR, 1, mkNot(c), a);
    }
    if (nodes[b].op == FS_ITE && nodes[b].a == c) b = nodes[b].c;
    if (nodes[a].op == FS_ITE && nodes[a].a == c) a = nodes[a].b;
    if (a == b) return a;
    return rawNode(FS_ITE, w, c, a, b, 0);
}
u32 mkExtract(unsigned lo, unsigned w, u32 a)
{
    const Node n = nodes[a];
    if (lo == 0 && w == n.w) return a;
    if (isC(a)) return mkConst(w, cv(a) >> lo);
    if (n.op == FS_EXTRACT) return mkExtract(lo + n.imm, w, n.a);
    if (n.op == FS_CONCAT) {
        unsigned lw = nodes[n.b].w;
        if (lo + w <= lw) return mkExtract(lo, w, n.b);
        if (lo >= lw) return mkExtract(lo - lw, w, n.a);
    }
    if (n.op == FS_ZEXT || n.op == FS_SEXT) {
        unsigned sw = nodes[n.a].w;
        if (lo + w <= sw) return mkExtract(lo, w, n.a);
        if (n.op == FS_ZEXT && lo >= sw) return mkConst(w, 0);
        if (lo == 0) return rawNode(n.op, w, n.a, 0, 0, 0);
    }
    if (n.op == FS_ITE && isC(n.b) && isC(n.c)) return mkIte(n.a, mkConst(w, cv(n.b) >> lo), mkConst(w, cv(n.c) >> lo));
    return rawNode(FS_EXTRACT, w, a, 0, 0, lo);
}
u32 mkConcat(u32 hi, u32 lo)
{
    unsigned w = nodes[hi].w + nodes[lo].w;
    if (isC(hi) && isC(lo)) return mkConst(w, (cv(hi) << nodes[lo].w) | cv(lo));
    const Node &H = nodes[hi], &L = nodes[lo];
    if (H.op == FS_EXTRACT && L.op == FS_EXTRACT && H.a == L.a && H.imm == L.imm + L.w) return mkExtract(L.imm, w, L.a);
    if (isC(hi, 0)) return mkCast(FS_ZEXT, w, lo);
    // hi extract directly above a whole value's own truncation
    return rawNode(FS_CONCAT, w, hi, lo, 0, 0);
}
u32 mkCast(unsigned op, unsigned w, u32 a)
{
    unsigned sw = nodes[a].w;
    if (op == FS_TRUNC) return mkExtract(0, w, a);
    if ((op == FS_ZEXT || op == FS_SEXT) && w == sw) return a;
    if (isC(a)) {
        Node n; n.op = op; n.w = w; n.imm = 0; n.b = 0;
        return mkConst(w, evalNode(n, cv(a), 0, 0, sw));
    }
    const Node n = nodes[a];
    if (op == FS_ZEXT && n.op == FS_ZEXT) return rawNode(FS_ZEXT, w, n.a, 0, 0, 0);
    if (op == FS_SEXT && (n.op == FS_SEXT)) return rawNode(FS_SEXT, w, n.a, 0, 0, 0);
    if (op == FS_SEXT && n.op == FS_ZEXT && nodes[n.a].w < sw) return rawNode(FS_ZEXT, w, n.a, 0, 0, 0);
    if (op == FS_SEXT && n.lo >= 0) op = FS_ZEXT;
    if (op == FS_FPEXT && n.op == FS_FPTRUNC) {}
    if ((op == FS_ZEXT || op == FS_SEXT) && n.op == FS_ITE && isC(n.b) && isC(n.c)) return mkIte(n.a, mkCast(op, w, n.b), mkCast(op, w, n.c));
    return rawNode(op, w, a, 0, 0, 0);
}
u32 mkFun(unsigned k, unsigned w, u32 a, u32 b, u64 imm)
{
    unsigned sw = nodes[a].w;
    switch (k) {
    case FS_F_UMIN: return mkIte(mkIcmp(4, a, b), a, b);
    case FS_F_UMAX: return mkIte(mkIcmp(2, a, b), a, b);
    case FS_F_SMIN: return mkIte(mkIcmp(8, a, b), a, b);
    case FS_F_SMAX: return mkIte(mkIcmp(6, a, b), a, b);
    case FS_F_USUBSAT: return mkIte(mkIcmp(4, a, b), mkConst(w, 0), mkBin(FS_SUB, w, a, b));
    case FS_F_UADDSAT: { u32 s = mkBin(FS_ADD, w, a, b); return mkIte(mkIcmp(4, s, a), mkConst(w, ~0ull), s); }
    case FS_F_ABS: return mkIte(mkIcmp(8, a, mkConst(w, 0)), mkBin(FS_SUB, w, mkConst(w, 0), a), a);
    case FS_F_LROUND: return mkCast(FS_FPTOSI, w, mkFun(FS_F_ROUND, sw, a, 0, 0));
    case FS_F_LRINT: return mkCast(FS_FPTOSI, w, mkFun(FS_F_RINT, sw, a, 0, 0));
    case FS_F_FMIN: return mkIte(mkFcmp(8, b, b), a, mkIte(mkFcmp(8, a, a), b, mkIte(mkFcmp(4, b, a), b, a)));
    case FS_F_FMAX: return mkIte(mkFcmp(8, b, b), a, mkIte(mkFcmp(8, a, a), b, mkIte(mkFcmp(2, b, a), b, a)));
    case FS_F_FPCLASS: {
        u64 m = imm & 0x3ff;
        if (m == 3) return mkFcmp(8, a, a);
        if (m == 0x3fc) return mkFcmp(7, a, a);
        u64 inf = sw == 32 ? 0x7f800000ull : 0x7ff0000000000000ull;
        u32 ab = mkFun(FS_F_FABS, sw, a, 0, 0);
        if (m == 0x204) return mkFcmp(1, ab, mkConst(sw, inf));
        if (m == 0x1f8) return mkFcmp(4, ab, mkConst(sw, inf));
        if (m == 0x207) return mkFcmp(9, ab, mkConst(sw, inf));
        if (m == 0x1fb) return mkFcmp(12, ab, mkConst(sw, inf));
        break;
    }
    case FS_F_BSWAP: {
        u32 r = mkExtract(0, 8, a);
        for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(i, 8, a));
        return r;
    }
    }
    if (isC(a) && (b == 0 || isC(b))) return mkConst(w, evalFun(k, w, sw, cv(a), b ? cv(b) : imm));
    return rawNode(FS_FUN, w, a, b, 0, k | (imm << 8));
}
// values the path condition pins to their value in this run
static std::vector<u8> pinned;
static inline bool isPinned(u32 id) { return id < pinned.size() && pinned[id]; }
static void pin(u32 id)
{
    if (id >= pinned.size()) pinned.resize(id + 4096, 0);
    pinned[id] = 1;
}
static u32 opnd(u32 id, unsigned w, u64 v)
{
    if (id && isPinned(id)) return mkConst(nodes[id].w, nodes[id].cval);
    return id ? id : mkConst(w, v);
}
static u32 outId(u32 n) { return isC(n) ? 0 : n; }

// ---------------------------------------------------------------- decisions
static std::unordered_map<u32, int> decided;
static bool aborting;
static bool finished;
void finish(const char* kind, const char* msg);

static bool g_active; // only record inside the harness
static void checkEval(u32 id, u64 v)
{
    u64 m = mask(nodes[id].w);
    if ((nodes[id].cval & m) != (v & m)) {
        st.evalMismatch++;
        if (st.mismatchInfo.size() < 400) {
            char b[160];
            snprintf(b, sizeof b, "op%u/%u w%u expr=%llx real=%llx; ", nodes[id].op, (unsigned)nodes[id].imm, nodes[id].w, (unsigned long long)nodes[id].cval, (unsigned long long)v);
            st.mismatchInfo += b;
        }
    }
}
static void decide(int kind, u32 expr, u64 val, u32 site)
{
    if (!g_active || aborting) return;
    if (isC(expr)) return;
    if (kind == D_BRANCH || kind == D_BOUNDS || kind == D_VALUE) {
        auto it = decided.find(expr);
        if (it != decided.end()) return;
        decided[expr] = 1;
        if (nodes[expr].w == 1) {
            u32 ne = mkNot(expr);
            if (decided.count(ne)) return;
        }
    }
    Decision d;
    d.kind = kind; d.expr = expr; d.val = val; d.site = site;
    decisions.push_back(d);
    if (kind == D_BRANCH || kind == D_BOUNDS || kind == D_VALUE) pin(expr);
    if (decisions.size() >= opts.maxDecisions) {
        st.decisionLimit = 1;
        finish("limit", "decision limit");
        _exit(0);
    }
}
static std::map<std::string, int> concAt;
static std::string fnName(void* f);
static void concretize(u32 id, u64 v, u32 site, void* ra = nullptr)
{
    if (!id) return;
    checkEval(id, v);
    const u32 orig = id;
    // base address + offset: decide the offset, addresses differ between runs
    while (nodes[id].op == FS_ADD && nodes[id].w == 64 && isC(nodes[id].b) && cv(nodes[id].b) >= 0x100000000ull && cv(nodes[id].b) < 0x800000000000ull) {
        v -= cv(nodes[id].b);
        id = nodes[id].a;
    }
    if (g_active && !isC(id) && !decided.count(id) && site != 0x79) {
        char b[64];
        snprintf(b, sizeof b, " op%u/%u w%u", nodes[id].op, (unsigned)(nodes[id].imm & 0xff), nodes[id].w);
        concAt[(ra ? fnName(ra) : "site " + std::to_string(site)) + b]++;
    }
    decide(D_VALUE, id, v & mask(nodes[id].w), site);
    if (!g_active || aborting) return;
    if (orig != id && !isC(orig)) { decided[orig] = 1; pin(orig); }
    // operands that are determined by the value of an injective operation
    while (!isC(id)) {
        const Node n = nodes[id];
        if (n.op == FS_SEXT || n.op == FS_ZEXT) id = n.a;
        else if ((n.op == FS_ADD || n.op == FS_SUB || n.op == FS_XOR) && isC(n.b)) id = n.a;
        else if ((n.op == FS_ADD || n.op == FS_SUB || n.op == FS_XOR) && isC(n.a)) id = n.b;
        else if (n.op == FS_MUL && isC(n.b) && (cv(n.b) & 1)) id = n.a;
        else if (n.op == FS_MUL && isC(n.b) && cv(n.b) && cv(n.b) < 65536 && nodes[n.a].lo > -(1ll << 40) && nodes[n.a].hi < (1ll << 40) && n.w == 64) id = n.a;
        else break;
        if (isC(id)) break;
        decided[id] = 1;
        pin(id);
    }
}

// ---------------------------------------------------------------- shadow memory
struct SB { u32 id; unsigned char byte, cb, pad[2]; };
struct Page { SB b[4096]; };
static std::unordered_map<u64, Page*> pages;
static Page* pageOf(u64 addr, bool create)
{
    u64 p = addr >> 12;
    static u64 lastP = ~0ull;
    static Page* lastPg;
    if (p == lastP && lastPg) return lastPg;
    auto it = pages.find(p);
    Page* pg;
    if (it == pages.end()) {
        if (!create) return nullptr;
        pg = (Page*)calloc(1, sizeof(Page));
        pages[p] = pg;
        __fs_pageflag[p & 0xfffff] = 1;
        __fs_pageflag[((addr & ~0xfffull) - 1) >> 12 & 0xfffff] |= 1; // unaligned accesses that start on the previous page
    } else
        pg = it->second;
    lastP = p; lastPg = pg;
    return pg;
}
static inline SB* sbAt(u64 addr)
{
    if (!__fs_pageflag[(addr >> 12) & 0xfffff]) return nullptr;
    Page* pg = pageOf(addr, false);
    return pg ? &pg->b[addr & 4095] : nullptr;
}
// expression for memory [addr, addr+size), or 0 if entirely concrete
static u32 memRead(u64 addr, unsigned size, u64 actual)
{
    bool any = false;
    SB e[8];
    for (unsigned i = 0; i < size; ++i) {
        SB* s = sbAt(addr + i);
        unsigned char ab = (unsigned char)(actual >> (8 * i));
        e[i].id = 0; e[i].cb = ab;
        if (s && s->id) {
            if (s->cb != ab) { s->id = 0; st.stale++; }
            else { e[i] = *s; any = true; }
        }
    }
    if (!any) return 0;
    bool whole = e[0].id != 0;
    for (unsigned i = 0; i < size && whole; ++i) whole = e[i].id == e[0].id && e[i].byte == i;
    if (whole) {
        unsigned nw = nodes[e[0].id].w;
        if (nw == size * 8) return e[0].id;
    }
    u32 r = 0;
    for (unsigned i = 0; i < size; ++i) {
        u32 b;
        if (e[i].id) {
            u32 n = e[i].id;
            unsigned nw = nodes[n].w;
            if (e[i].byte * 8 + 8 <= nw) b = mkExtract(e[i].byte * 8, 8, n);
            else b = mkCast(FS_ZEXT, 8, mkExtract(e[i].byte * 8, nw - e[i].byte * 8, n));
        } else
            b = mkConst(8, e[i].cb);
        r = i == 0 ? b : mkConcat(b, r);
    }
    return outId(r);
}
static void memWrite(u64 addr, unsigned size, u32 id, u64 actual)
{
    for (unsigned i = 0; i < size; ++i) {
        if (!id) {
            SB* s = sbAt(addr + i);
            if (s) s->id = 0;
        } else {
            Page* pg = pageOf(addr + i, true);
            SB* s = &pg->b[(addr + i) & 4095];
            s->id = id; s->byte = i; s->cb = (unsigned char)(actual >> (8 * i));
        }
    }
}
static unsigned tzOf(u32 id, int depth = 0)
{
    const Node& n = nodes[id];
    if (depth > 12) return 0;
    switch (n.op) {
    case FS_CONST: return n.imm ? std::min<unsigned>(__builtin_ctzll(n.imm), n.w) : n.w;
    case FS_ADD: case FS_SUB: case FS_OR: case FS_XOR: return std::min(tzOf(n.a, depth + 1), tzOf(n.b, depth + 1));
    case FS_AND: return std::max(tzOf(n.a, depth + 1), tzOf(n.b, depth + 1));
    case FS_MUL: return std::min<unsigned>(n.w, tzOf(n.a, depth + 1) + tzOf(n.b, depth + 1));
    case FS_SHL: return isC(n.b) ? std::min<unsigned>(n.w, tzOf(n.a, depth + 1) + cv(n.b)) : 0;
    case FS_ZEXT: case FS_SEXT: return tzOf(n.a, depth + 1);
    case FS_ITE: return std::min(tzOf(n.b, depth + 1), tzOf(n.c, depth + 1));
    }
    return 0;
}
static bool regionOf(u64 addr, u64& base, u64& size)
{
    if (!__asan_locate_address) return false;
    void* ra = nullptr;
    size_t rs = 0;
    char nm[8];
    const char* k = __asan_locate_address((void*)addr, nm, sizeof nm, &ra, &rs);
    if (!k || !ra || !rs) return false;
    if (addr < (u64)ra || addr >= (u64)ra + rs) return false;
    base = (u64)ra; size = rs;
    return true;
}
// ---------------------------------------------------------------- registry
struct Ent { void* f; const char* name; unsigned char* hit; };
static std::unordered_set<void*>* reg;
struct FnHit { const char* name; unsigned char* hit; bool known; };
static std::vector<FnHit>* fnhits;
static std::map<std::string, int> opaque;
static int textLossy, forkIndex;
static std::map<std::string, int> opaqueMem;
static std::set<std::string> reached;
static std::set<std::string> knownLabels;

struct HReg { const char* n; void (*f)(); HReg* next; };
static HReg* harnesses;
static std::map<std::string, i64> inputs;
static std::map<std::string, int> nameSeen;

// ---------------------------------------------------------------- explorer state in child
static int outfd = -1;
static Item item;
static bool singleRun;
// a probe repeats a path with other values of the variables that are not enumerated, without solving: it
// can only find violations early (they are replayed like all others), it never counts as exploration
static u64 probeSeed;
static double tStart;

static void emit(const std::string& s)
{
    if (outfd < 0) return;
    size_t o = 0;
    while (o < s.size()) {
        ssize_t k = write(outfd, s.data() + o, s.size() - o);
        if (k <= 0) break;
        o += k;
    }
}
static std::string inputsText()
{
    std::string s;
    for (auto& v : vars) s += v.name + "=" + std::to_string(v.lo + (i64)nodes[v.node].cval) + " ";
    return s;
}
static std::string enumeratedText()
{
    std::vector<char> seen(nodes.size(), 0);
    std::vector<u32> stk;
    for (auto& d : decisions) if (d.kind == D_VALUE) stk.push_back(d.expr);
    while (!stk.empty()) {
        u32 i = stk.back();
        stk.pop_back();
        if (!i || seen[i]) continue;
        seen[i] = 1;
        stk.push_back(nodes[i].a); stk.push_back(nodes[i].b); stk.push_back(nodes[i].c);
    }
    std::string s;
    for (auto& v : vars) if (seen[v.node]) s += v.name + "=" + std::to_string(v.lo + (i64)nodes[v.node].cval) + " ";
    return s;
}
static u64 hashPrefix(size_t n, bool withOutcome)
{
    u64 h = 1469598103934665603ull;
    for (size_t i = 0; i < n && i < decisions.size(); ++i) {
        const Decision& d = decisions[i];
        h = (h ^ d.site) * 1099511628211ull;
        h = (h ^ d.kind) * 1099511628211ull;
        if (withOutcome) h = (h ^ d.val) * 1099511628211ull;
    }
    return h;
}
void finish(const char* kind, const char* msg)
{
    if (finished) return;
    finished = true;
    g_active = false;
    aborting = true;
    alarm(0);
    double t1 = now();
    std::string out;
    if (probeSeed && !strcmp(kind, "timeout")) kind = "ok";
    if (strcmp(kind, "ok") && strcmp(kind, "abandon") && strcmp(kind, "limit"))
        out += std::string("V ") + kind + "\t" + msg + "\t" + inputsText() + "\n";
    if (!strcmp(kind, "abandon")) st.abandoned++;
    if (probeSeed) { emit(out + "E\n"); return; }
    if (!strcmp(kind, "ok")) out += "P " + enumeratedText() + "\n";
    emit(out);
    out.clear();
    bool diverged = false;
    if (item.k >= 0) {
        if ((int)decisions.size() <= item.k || hashPrefix(item.k, true) != item.hash || decisions[item.k].val == item.notval) {
            diverged = true;
            st.diverged++;
        }
    }
    st.paths = 1;
    st.decisions = decisions.size();
    st.nodes = nodes.size();
    st.runTime = t1 - tStart;
    if (!diverged && !singleRun) solveFlips(item, emit);
    for (auto& f : *fnhits)
        if (!f.known && *f.hit == 1) out += std::string("F ") + f.name + "\n";
    for (auto& r : reached)
        if (!knownLabels.count(r)) out += "R " + r + "\n";
    for (auto& o : opaque) out += "O " + std::to_string(o.second) + " " + o.first + "\n";
    for (auto& o : concAt) out += "C " + std::to_string(o.second) + " " + o.first + "\n";
    for (auto& o : opaqueMem) out += "M " + std::to_string(o.second) + " " + o.first + "\n";
    char b[1200];
    snprintf(b, sizeof b,
             "S paths %d\nS decisions %zu\nS nodes %zu\nS diverged %d\nS stale %d\nS evalMismatch %d\nS abandoned %d\nS sat %d\nS unsat %d\nS unknown %d\nS assertQ %d\nS "
             "assertUnsat %d\nS flipQ %d\nS nodeLimit %d\nS decisionLimit %d\nS noise %d\nS fpq %d\nS skippedFlips %d\nS asserts %d\nT solver %.6f\nT run %.6f\n",
             st.paths, st.decisions, st.nodes, st.diverged, st.stale, st.evalMismatch, st.abandoned, st.sat, st.unsat, st.unknown, st.assertQ, st.assertUnsat,
             st.flipQ, st.nodeLimit, st.decisionLimit, st.noise, st.fpq, st.skippedFlips, st.asserts, st.solverTime, st.runTime);
    out += b;
    if (!st.mismatchInfo.empty()) out += "X " + st.mismatchInfo + "\n";
    if (diverged) {
        out += "D " + std::to_string(item.k) + " of " + std::to_string(decisions.size());
        if ((int)decisions.size() <= item.k) out += " short";
        else if (hashPrefix(item.k, true) != item.hash) out += " prefix";
        else { char q[120]; const Decision& d = decisions[item.k]; const Node& n = nodes[d.expr]; snprintf(q, sizeof q, " same outcome kind %d val %llx op %u/%llu w%u site %x in=", d.kind, (unsigned long long)d.val, n.op, (unsigned long long)n.imm, n.w, d.site); out += q + inputsText(); }
        out += "\n";
    }
    out += "E\n";
    emit(out);
}
static void deathCb() { finish("asan", "memory error or fatal signal (see replay)"); _exit(0); }
static std::string asanMsg;
static void asanReport(const char* r)
{
    asanMsg = r;
    size_t p = asanMsg.find("ERROR:");
    if (p != std::string::npos) asanMsg = asanMsg.substr(p, 200);
    for (char& c : asanMsg) if (c == '\n' || c == '\t') c = ' ';
    finish("asan", asanMsg.c_str());
    _exit(0);
}
static void onAlarm(int) { finish("timeout", "no termination within the time limit"); _exit(0); }
static void onAbrt(int) { finish("abort", "abort()"); _exit(0); }
} // namespace fs
using namespace fs;

// ------------------------------------------------------------------ instrumentation entry points
extern "C" {
u32 __fs_bin(u32 op, u32 w, u32 ia, u64 a, u32 ib, u64 b)
{
    if (op == FS_CONCAT) {
        unsigned hw = w / 1000, lw = w % 1000;
        return outId(mkConcat(opnd(ia, hw, a), opnd(ib, lw, b)));
    }
    if (op == FS_FREM) return outId(mkFun(FS_F_FMOD, w, opnd(ia, w, a), opnd(ib, w, b), 0));
    return outId(mkBin(op, w, opnd(ia, w, a), opnd(ib, w, b)));
}
u32 __fs_icmp(u32 p, u32 w, u32 ia, u64 a, u32 ib, u64 b) { return outId(mkIcmp(p, opnd(ia, w, a), opnd(ib, w, b))); }
u32 __fs_fcmp(u32 p, u32 w, u32 ia, u64 a, u32 ib, u64 b) { return outId(mkFcmp(p, opnd(ia, w, a), opnd(ib, w, b))); }
u32 __fs_cast(u32 op, u32 w, u32 sw, u32 ia, u64 a)
{
    (void)a; (void)sw;
    if (op == FS_EXTRACT) return outId(mkExtract(w / 1000, w % 1000, ia));
    return outId(mkCast(op, w, ia));
}
u32 __fs_select(u32 ic, u32 c, u32 ia, u64 a, u32 ib, u64 b, u32 w)
{
    if (!ic) return c ? ia : ib;
    return outId(mkIte(ic, opnd(ia, w, a), opnd(ib, w, b)));
}
u32 __fs_ovf(u32 op, u32 w, u32 ia, u64 a, u32 ib, u64 b)
{
    bool sgn = op & 0x100;
    op &= 0xff;
    u32 x = opnd(ia, w, a), y = opnd(ib, w, b);
    const Node &X = nodes[x], &Y = nodes[y];
    // by range
    i128 lo, hi;
    if (op == FS_ADD) { lo = (i128)X.lo + Y.lo; hi = (i128)X.hi + Y.hi; }
    else if (op == FS_SUB) { lo = (i128)X.lo - Y.hi; hi = (i128)X.hi - Y.lo; }
    else {
        i128 p[4] = {(i128)X.lo * Y.lo, (i128)X.lo * Y.hi, (i128)X.hi * Y.lo, (i128)X.hi * Y.hi};
        lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4);
    }
    if (sgn && fits(lo, hi, w)) return 0;
    if (!sgn && X.lo >= 0 && Y.lo >= 0 && lo >= 0 && (w < 64 ? hi <= (i128)mask(w) : hi <= (i128)mask(64))) return 0;
    if (!sgn && op == FS_SUB) return outId(mkIcmp(4, x, y));
    if (!sgn && op == FS_ADD) return outId(mkIcmp(4, mkBin(FS_ADD, w, x, y), x));
    if (sgn && op == FS_ADD) { // overflow iff sign(a)==sign(b)!=sign(r)
        u32 r = mkBin(FS_ADD, w, x, y), z = mkConst(w, 0);
        u32 sa = mkIcmp(8, x, z), sb = mkIcmp(8, y, z), sr = mkIcmp(8, r, z);
        return outId(mkBin(FS_AND, 1, mkNot(mkBin(FS_XOR, 1, sa, sb)), mkBin(FS_XOR, 1, sa, sr)));
    }
    if (sgn && op == FS_SUB) {
        u32 r = mkBin(FS_SUB, w, x, y), z = mkConst(w, 0);
        u32 sa = mkIcmp(8, x, z), sb = mkIcmp(8, y, z), sr = mkIcmp(8, r, z);
        return outId(mkBin(FS_AND, 1, mkBin(FS_XOR, 1, sa, sb), mkBin(FS_XOR, 1, sa, sr)));
    }
    // multiplication: (a*b)/a != b
    if (!sgn) {
        u32 r = mkBin(FS_MUL, w, x, y), z = mkConst(w, 0);
        u32 ne = mkIcmp(1, mkBin(FS_UDIV, w, r, x), y);
        return outId(mkBin(FS_AND, 1, mkIcmp(1, x, z), ne));
    }
    concretize(ia, a, 77001);
    concretize(ib, b, 77002);
    return 0;
}
u32 __fs_fun(u32 k, u32 w, u32 sw, u32 ia, u64 a, u32 ib, u64 b)
{
    switch (k) {
    case FS_F_SQRT: case FS_F_EXP: case FS_F_LOG:
        if (ia) { concretize(ia, a, 78000 + k); char n[32]; snprintf(n, sizeof n, "libm#%u", k); opaque[n]++; }
        return 0;
    case FS_F_COPYSIGN:
        concretize(ia, a, 78000 + k);
        concretize(ib, b, 78100 + k);
        return 0;
    case FS_F_FPCLASS: return outId(mkFun(k, w, opnd(ia, sw, a), 0, b));
    case FS_F_UMIN: case FS_F_UMAX: case FS_F_SMIN: case FS_F_SMAX: case FS_F_USUBSAT: case FS_F_UADDSAT: case FS_F_FMIN: case FS_F_FMAX: case FS_F_FMOD:
        return outId(mkFun(k, w, opnd(ia, sw, a), opnd(ib, sw, b), 0));
    }
    return outId(mkFun(k, w, opnd(ia, sw, a), 0, 0));
}
u32 __fs_gep(u32 iacc, u64 acc, u32 iidx, u64 idx, u32 iw, u64 scale)
{
    u32 base = opnd(iacc, 64, acc);
    u32 t;
    if (iidx) {
        u32 x = iw < 64 ? mkCast(FS_SEXT, 64, iidx) : (iw > 64 ? iidx : iidx);
        t = mkBin(FS_MUL, 64, x, mkConst(64, scale));
    } else
        t = mkConst(64, idx * scale);
    return outId(mkBin(FS_ADD, 64, base, t));
}
// Address that is a choice between known objects: ite(c, p, q) [+ const]
static bool ptrLeaves(u32 id, u64 off, u32 size, int& budget)
{
    const Node n = nodes[id];
    if (n.op == FS_CONST) {
        u64 a = n.imm + off;
        if (--budget < 0 || a < 65536) return false;
        u64 b, r;
        return regionOf(a, b, r) && a - b + size <= r && !(__asan_region_is_poisoned && __asan_region_is_poisoned((void*)a, size));
    }
    if (n.op == FS_ADD && isC(n.b)) return ptrLeaves(n.a, off + cv(n.b), size, budget);
    if (n.op == FS_ITE) return ptrLeaves(n.b, off, size, budget) && ptrLeaves(n.c, off, size, budget);
    return false;
}
static u32 ptrLoad(u32 id, u64 off, u32 size)
{
    const Node n = nodes[id];
    if (n.op == FS_CONST) {
        u64 v = 0, q = n.imm + off;
        memcpy(&v, (void*)q, size);
        u32 e = memRead(q, size, v);
        return e ? e : mkConst(size * 8, v);
    }
    if (n.op == FS_ADD) return ptrLoad(n.a, off + cv(n.b), size);
    u32 x = ptrLoad(n.b, off, size), y = ptrLoad(n.c, off, size);
    return mkIte(n.a, x, y);
}
static u32 decidePtr(u32 id, u32 site)
{
    const Node n = nodes[id];
    if (n.op == FS_ADD) {
        u32 a = decidePtr(n.a, site), b = decidePtr(n.b, site);
        return (a == n.a && b == n.b) ? id : mkBin(FS_ADD, 64, a, b);
    }
    if (n.op == FS_ITE && ((n.hi > 65536 || n.hi < -65536) || n.lo < -65536)) {
        bool t = nodes[n.a].cval & 1;
        decide(D_BRANCH, n.a, t, site);
        return decidePtr(t ? n.b : n.c, site);
    }
    return id;
}
void __fs_chkaddr(u32 id, u64 addr, u32 size, u32 site)
{
    if (!id || !g_active) return;
    bool store = size & 0x80000000u;
    size &= 0x7fffffffu;
    checkEval(id, addr);
    if (decided.count(id)) return;
    if (!store && !forkIndex) {
        int budget = 32;
        if (ptrLeaves(id, 0, size, budget)) return;
    }
    id = decidePtr(id, site ^ 0x3333);
    if (isC(id)) return;
    u64 base, rs;
    if (regionOf(addr, base, rs) && rs >= size) {
        u32 off = mkBin(FS_SUB, 64, id, mkConst(64, base));
        u32 c = mkIcmp(5, off, mkConst(64, rs - size));
        bool in = addr - base <= rs - size;
        if (!isC(c)) decide(D_BOUNDS, c, in, site);
        if (!in) concretize(id, addr, site ^ 0x5555, __builtin_return_address(0));
    } else
        concretize(id, addr, site ^ 0x5555, __builtin_return_address(0));
    if (store || forkIndex) concretize(id, addr, site ^ 0xaaaa, __builtin_return_address(0));
}
static const unsigned MAXITE = 96;
u32 __fs_load(u32 idaddr, u64 addr, u32 size, u64 actual, u32 wspec)
{
    unsigned w = wspec & 0xffff;
    unsigned leafoff = wspec >> 16;
    u32 r = 0;
    if (idaddr && g_active && !decided.count(idaddr)) {
        // candidate addresses inside the object
        u64 base, rs;
        bool done = false;
        int budget = 32;
        if (ptrLeaves(idaddr, leafoff, size, budget)) {
            r = outId(ptrLoad(idaddr, leafoff, size));
            done = true;
        } else
            idaddr = decidePtr(idaddr, 79002);
        u32 aexpr = leafoff ? mkBin(FS_ADD, 64, idaddr, mkConst(64, leafoff)) : idaddr;
        if (!done && isC(aexpr)) {
            r = memRead(addr, size, actual);
            done = true;
        }
        if (!done && regionOf(addr, base, rs)) {
            unsigned tz = std::min(tzOf(aexpr), 12u);
            // constant part of the address carries the offset
            const Node& an = nodes[aexpr];
            if (an.op == FS_ADD && isC(an.b)) tz = std::min(tzOf(an.a), 12u);
            u64 stride = 1ull << tz;
            u64 lo = base, hi = base + rs - size;
            if (an.lo > 0 && (u64)an.lo > lo) lo = an.lo;
            if (an.hi > 0 && (u64)an.hi < hi) hi = an.hi;
            u64 first = lo + ((addr - lo) % stride);
            if (addr < lo) first = addr;
            u64 cnt = hi >= first ? (hi - first) / stride + 1 : 1;
            if (cnt <= MAXITE) {
                u32 acc = 0;
                for (u64 q = first; q <= hi; q += stride) {
                    u64 v = 0;
                    memcpy(&v, (void*)q, size);
                    u32 e = memRead(q, size, v);
                    e = e ? e : mkConst(size * 8, v);
                    if (!acc) acc = e;
                    else acc = mkIte(mkIcmp(0, aexpr, mkConst(64, q)), e, acc);
                }
                r = outId(acc);
                done = true;
            }
        }
        if (!done) {
            concretize(idaddr, addr - leafoff, 79001, __builtin_return_address(0));
            r = memRead(addr, size, actual);
        }
    } else
        r = memRead(addr, size, actual);
    if (!r) return 0;
    if (nodes[r].w != w) r = outId(mkCast(w < nodes[r].w ? FS_TRUNC : FS_ZEXT, w, r));
    if (r && ((nodes[r].cval ^ actual) & (w >= 64 ? ~0ull : ((1ull << w) - 1)))) { st.evalMismatch++; if (st.mismatchInfo.size() < 400) st.mismatchInfo += "load; "; return 0; }
    return r;
}
void __fs_store(u32, u64 addr, u32 size, u32 id, u64 val)
{
    if (id && nodes[id].w != size * 8) {
        id = outId(mkCast(FS_ZEXT, size * 8, id));
    }
    memWrite(addr, size, id, val);
}
void __fs_branch(u32 id, u32 taken, u32 site)
{
    if (!id || !g_active) return;
    checkEval(id, taken);
    decide(D_BRANCH, id, taken & 1, site);
}
void __fs_switch(u32 id, u64 val, const u64* cases, u32 n, u32 site)
{
    if (!id || !g_active) return;
    checkEval(id, val);
    // a chain of equality branches
    unsigned w = nodes[id].w;
    if (decided.count(id)) return;
    for (u32 i = 0; i < n; ++i) {
        u32 c = mkIcmp(0, id, mkConst(w, cases[i]));
        bool t = ((val ^ cases[i]) & (w >= 64 ? ~0ull : ((1ull << w) - 1))) == 0;
        if (!isC(c)) decide(D_BRANCH, c, t, site + i);
        if (t) break;
    }
}
void __fs_conc(u32 id, u64 v, u32 site)
{
    if (!g_active) return;
    concretize(id, v, site, __builtin_return_address(0));
}
namespace fs {
static std::string fnName(void* f)
{
    Dl_info di;
    if (dladdr(f, &di) && di.dli_sname) return di.dli_sname;
    char b[40];
    snprintf(b, sizeof b, "%p", f);
    return b;
}
} // namespace fs
void __fs_precall(void* callee, u32 n)
{
    if (reg->count(callee)) return;
    if (g_active) {
        std::string nm = fnName(callee);
        opaque[nm]++;
        if (textLossy && !strncmp(nm.c_str(), "_ZNSo", 5)) { __fs_argany = 0; return; }
        for (u32 i = 0; i < n; ++i)
            if (__fs_args[i]) concretize(__fs_args[i], __fs_argvals[i], 80000 + i);
    }
    __fs_argany = 0;
}
void __fs_ptrcheck(void* callee, unsigned char* cache, u32 n, ...)
{
    if (*cache == 0) {
        if (!callee || reg->count(callee)) { *cache = 1; return; }
        std::string nm = fnName(callee);
        *cache = 2;
        static const char* ignore[] = {"_ZdlPv", "_ZdaPv", "__cxa", "_Unwind", "__dynamic_cast", "_ZSt29_Rb_tree", "_ZSt28_Rb_tree", "_ZSt18_Rb_tree", "_ZNSt8__detail15_List", "_ZSt24__throw",
                                       "_ZNSt6locale", "_ZNSt8ios_base", "_ZNSaI", "__asan", "pthread", "_ZNSt15_Sp_counted", "free", "_ZSt16__throw", "_ZNKSt6locale", "_ZNSt14_Optional", "ut_", "fs_", "_ZNSt12__basic_file", "_ZNSt9basic_ios", "_ZNSt13runtime_error", "_ZNSt9exception", "_ZNKSt9exception", "_ZNSt16invalid", "_ZNSt11logic"};
        for (const char* p : ignore)
            if (!strncmp(nm.c_str(), p, strlen(p))) *cache = 1;
        if (*cache == 1) return;
    }
    if (!g_active) return;
    va_list ap;
    va_start(ap, n);
    for (u32 i = 0; i < n; ++i) {
        u64 p = (u64)va_arg(ap, void*);
        if (p < 4096 || !__fs_pageflag[(p >> 12) & 0xfffff]) continue;
        u64 base, rs, lim = 64;
        if (regionOf(p, base, rs)) lim = std::min<u64>(64, base + rs - p);
        for (u64 k = 0; k < lim; ++k) {
            SB* s = sbAt(p + k);
            if (!s || !s->id) continue;
            unsigned char ab = *(unsigned char*)(p + k);
            if (s->cb != ab) { s->id = 0; continue; }
            opaqueMem[fnName(callee)]++;
            u32 e = memRead(p + k, 1, ab);
            // prefer concretising the whole stored value
            if (s->byte == 0 && nodes[s->id].w >= 8) concretize(s->id, nodes[s->id].cval, 81000);
            else if (e) concretize(e, ab, 81001);
        }
    }
    va_end(ap);
}
static inline bool anyFlag(u64 a, u64 n)
{
    for (u64 p = a >> 12; p <= (a + n - 1) >> 12; ++p)
        if (__fs_pageflag[p & 0xfffff]) return true;
    return false;
}
void __fs_clear(void* p, u64 n)
{
    u64 a = (u64)p;
    if (!p || !n) return;
    if (n > (1ull << 32)) return;
    if (!anyFlag(a, n)) return;
    u64 e = a + n;
    while (a < e) {
        u64 pe = std::min<u64>(e, (a & ~4095ull) + 4096);
        if (Page* pg = __fs_pageflag[(a >> 12) & 0xfffff] ? pageOf(a, false) : nullptr)
            for (u64 q = a; q < pe; ++q) pg->b[q & 4095].id = 0;
        a = pe;
    }
}
void __fs_memcpy(void* d, void* s, u64 n)
{
    if (!n) return;
    bool fsrc = anyFlag((u64)s, n), fdst = anyFlag((u64)d, n);
    if (!fsrc && !fdst) return;
    if (!fsrc) { __fs_clear(d, n); return; }
    if (n > (1u << 26)) return;
    std::vector<SB> tmp(n);
    for (u64 i = 0; i < n; ++i) {
        SB* b = sbAt((u64)s + i);
        if (b && b->id && b->cb == ((unsigned char*)s)[i]) tmp[i] = *b;
        else tmp[i].id = 0;
    }
    for (u64 i = 0; i < n; ++i) {
        if (tmp[i].id) {
            Page* pg = pageOf((u64)d + i, true);
            pg->b[((u64)d + i) & 4095] = tmp[i];
        } else if (SB* b = sbAt((u64)d + i))
            b->id = 0;
    }
}
void __fs_memset(void* d, u32 id, u32 v, u64 n)
{
    if (!id) { __fs_clear(d, n); return; }
    for (u64 i = 0; i < n; ++i) memWrite((u64)d + i, 1, id, v);
}
static void* byvalSrc[64];
void __fs_byval_out(u32 i, void* p) { if (i < 64) byvalSrc[i] = p; }
void __fs_byval_in(u32 i, void* p, u64 n)
{
    if (i >= 64 || !byvalSrc[i]) return;
    if (!memcmp(byvalSrc[i], p, n)) __fs_memcpy(p, byvalSrc[i], n);
    else __fs_clear(p, n);
    byvalSrc[i] = nullptr;
}
void __fs_register(void* t, u32 n)
{
    Ent* e = (Ent*)t;
    if (!reg) reg = new std::unordered_set<void*>();
    if (!fnhits) fnhits = new std::vector<FnHit>();
    for (u32 i = 0; i < n; ++i) {
        reg->insert(e[i].f);
        if (e[i].name) fnhits->push_back({e[i].name, e[i].hit, false});
    }
}
// ------------------------------------------------------------------ harness API
void fs_register_harness(const char* name, void (*fn)()) { harnesses = new HReg{name, fn, harnesses}; }
int fs_thorough() { return opts.thorough; }
void fs_text_lossy(int on) { textLossy = on; }
void fs_fork_index(int on) { forkIndex = on; }
i64 fs_int_(const char* name, i64 lo, i64 hi, i64 dflt)
{
    __fs_argany = 0;
    std::string n(name);
    int k = nameSeen[n]++;
    if (k) n += "#" + std::to_string(k);
    i64 v = dflt;
    auto it = inputs.find(n);
    if (it != inputs.end()) v = it->second;
    else if (probeSeed) {
        u64 x = 1469598103934665603ull ^ (probeSeed * 0x9e3779b97f4a7c15ull);
        for (char c : n) x = (x ^ (unsigned char)c) * 1099511628211ull;
        x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 32;
        u64 range = (u64)hi - (u64)lo + 1;
        v = (i64)((u64)lo + (range ? x % range : x));
    }
    if (v < lo) v = lo;
    if (v > hi) v = hi;
    if (lo == hi) return lo;
    u64 max = (u64)hi - (u64)lo;
    unsigned bits = 64 - __builtin_clzll(max);
    unsigned w = bits < 64 ? bits + 1 : 64;
    u32 id = nodes.size();
    Node nd;
    nd.op = FS_VAR; nd.w = w; nd.a = nd.b = nd.c = 0; nd.imm = vars.size();
    nd.cval = (u64)v - (u64)lo;
    if (bits < 64) { nd.lo = 0; nd.hi = (i64)max; } else { nd.lo = INT64_MIN; nd.hi = INT64_MAX; }
    nodes.push_back(nd);
    vars.push_back({n, lo, max, id});
    u32 e = id;
    if (w < 64) e = mkCast(FS_ZEXT, 64, id);
    e = mkBin(FS_ADD, 64, e, mkConst(64, (u64)lo));
    __fs_ret[0] = e;
    __fs_retany = 1;
    __fs_retfrom = (void*)&fs_int_;
    return v;
}
static u32 takeArg(void* self)
{
    u32 id = 0;
    if (__fs_argany && __fs_argcallee == self) id = __fs_args[0];
    __fs_argany = 0;
    return id;
}
void fs_fail_(const char* msg)
{
    __fs_argany = 0;
    finish("assert", msg);
    _exit(0);
}
void fs_assert_(bool c, const char* msg)
{
    u32 id = takeArg((void*)&fs_assert_);
    st.asserts++;
    if (id && g_active) {
        checkEval(id, c);
        decide(D_ASSERT, id, c, 0x77);
    }
    if (!c) {
        finish("assert", msg);
        _exit(0);
    }
}
void fs_assume_(bool c)
{
    u32 id = takeArg((void*)&fs_assume_);
    if (id && g_active) {
        checkEval(id, c);
        decide(D_ASSUME, id, c, 0x78);
    }
    if (!c) {
        finish("abandon", "");
        _exit(0);
    }
}
void fs_reach_(const char* l) { reached.insert(l); }
void fs_note_double_(const char*, double) { __fs_argany = 0; }
i64 fs_enum_(i64 v)
{
    u32 id = takeArg((void*)&fs_enum_);
    if (id && g_active) concretize(id, v, 0x79);
    return v;
}
}

// ------------------------------------------------------------------ coordinator
namespace {
struct Child { int fd; pid_t pid; std::string buf; bool end = false; double t0; bool probe = false, probed = false; double solving = 0; std::string enumerated; };
struct Q
{
    double prio;
    u64 seq;
    Item it;
    bool operator<(const Q& o) const { return prio != o.prio ? prio < o.prio : seq > o.seq; }
};
std::string jesc(const std::string& s)
{
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if ((unsigned char)c < 32) r += ' ';
        else r += c;
    }
    return r;
}
} // namespace

static void runChild(HReg* h)
{
    tStart = fs::fs_now();
    if (__asan_set_death_callback) __asan_set_death_callback(deathCb);
    if (__asan_set_error_report_callback) __asan_set_error_report_callback(asanReport);
    signal(SIGALRM, onAlarm);
    signal(SIGABRT, onAbrt);
    alarm(opts.runTimeout);
    g_active = true;
    try {
        h->f();
        g_active = false;
        finish("ok", "");
    } catch (std::exception& e) {
        std::string m = std::string("uncaught exception: ") + e.what();
        for (char& c : m) if (c == '\n' || c == '\t') c = ' ';
        finish("exception", m.c_str());
    } catch (...) {
        finish("exception", "uncaught exception");
    }
    _exit(0);
}

int main(int argc, char** argv)
{
    if (!reg) reg = new std::unordered_set<void*>();
    if (!fnhits) fnhits = new std::vector<FnHit>();
    for (void* p : {(void*)&fs_int_, (void*)&fs_assert_, (void*)&fs_assume_, (void*)&fs_enum_}) reg->insert(p);
    std::string hname, outFile, inFile;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "-j") opts.jobs = atoi(argv[++i]);
        else if (a == "-t") opts.budget = atof(argv[++i]);
        else if (a == "-q") opts.queryMs = atoi(argv[++i]);
        else if (a == "-p") opts.maxPaths = atoll(argv[++i]);
        else if (a == "-o") outFile = argv[++i];
        else if (a == "-i") inFile = argv[++i];
        else if (a == "-v") opts.verbose++;
        else if (a == "-T") opts.thorough = 1;
        else if (a == "-V") opts.maxViol = atoi(argv[++i]);
        else if (a == "-rt") opts.runTimeout = atoi(argv[++i]);
        else hname = a;
    }
    if (hname == "-l" || hname.empty()) {
        for (HReg* h = harnesses; h; h = h->next) puts(h->n);
        return 0;
    }
    HReg* h = harnesses;
    while (h && hname != h->n) h = h->next;
    if (!h) { fprintf(stderr, "no harness %s\n", hname.c_str()); return 3; }
    if (!opts.verbose) { if (!freopen("/dev/null", "w", stderr)) {} }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    auto readInputs = [&](const std::string& text) {
        inputs.clear();
        size_t p = 0;
        while (p < text.size()) {
            size_t e = text.find_first_of(" \n", p);
            if (e == std::string::npos) e = text.size();
            std::string kv = text.substr(p, e - p);
            size_t q = kv.rfind('=');
            if (q != std::string::npos) inputs[kv.substr(0, q)] = strtoll(kv.c_str() + q + 1, 0, 10);
            p = e + 1;
        }
    };
    double t0 = fs::fs_now();
    std::priority_queue<Q> queue;
    u64 seq = 0;
    {
        Item it0;
        it0.k = -1;
        if (!inFile.empty()) {
            FILE* f = fopen(inFile.c_str(), "r");
            char b[4096];
            size_t n;
            while (f && (n = fread(b, 1, sizeof b, f)) > 0) it0.inputs.append(b, n);
            if (f) fclose(f);
        }
        queue.push({1e9, seq++, it0});
    }
    std::vector<Child> ch;
    std::map<std::string, u64> stats;
    std::map<std::string, double> times;
    std::map<std::string, int> opq, opm, cnc;
    std::set<std::string> fns, labels;
    std::vector<std::string> viol;
    std::map<std::string, int> violKind;
    std::map<u32, u64> siteCount;
    std::string mism, divInfo;
    std::map<std::string, u8> fnIndexByName;
    u64 launched = 0, crashed = 0;
    bool budgetHit = false;
    u64 probes = 0;
    signal(SIGPIPE, SIG_IGN);
    auto launch = [&](const Item& it, u64 seed) -> bool {
        int pf[2];
        if (pipe(pf)) return false;
        pid_t pid = fork();
        if (pid == 0) {
            close(pf[0]);
            for (auto& c : ch) close(c.fd);
            outfd = pf[1];
            item = it;
            probeSeed = seed;
            knownLabels = labels;
            if (!opts.verbose) { if (!freopen("/dev/null", "w", stdout)) {} }
            readInputs(it.inputs);
            runChild(h);
        }
        close(pf[1]);
        if (pid < 0) { close(pf[0]); return false; }
        Child c;
        c.fd = pf[0]; c.pid = pid; c.t0 = fs::fs_now(); c.probe = seed != 0;
        ch.push_back(c);
        return true;
    };
    auto line = [&](Child& cur, std::string& l) {
        if (l.size() < 1) return;
        switch (l[0]) {
        case 'I': {
            // I k notval hash site kind nexcl excl... | inputs
            Item it;
            char* c = &l[2];
            it.k = strtol(c, &c, 10);
            it.notval = strtoull(c, &c, 10);
            it.hash = strtoull(c, &c, 10);
            u32 site = strtoul(c, &c, 10);
            int kind = strtol(c, &c, 10);
            int nx = strtol(c, &c, 10);
            for (int q = 0; q < nx; ++q) it.excl.push_back(strtoull(c, &c, 10));
            c += 2;
            it.inputs = c;
            double prio = -(double)siteCount[site]++;
            if (kind == D_ASSERT || kind == D_BOUNDS) prio = 1e6;
            queue.push({prio, seq++, it});
            break;
        }
        case 'P': cur.solving = fs::fs_now(); cur.enumerated = l.substr(2); break;
        case 'V': viol.push_back(l.substr(2)); break;
        case 'F': fns.insert(l.substr(2)); break;
        case 'R': labels.insert(l.substr(2)); break;
        case 'O': { char* c; long k = strtol(&l[2], &c, 10); opq[c + 1] += k; break; }
        case 'C': { char* c; long k = strtol(&l[2], &c, 10); cnc[c + 1] += k; break; }
        case 'M': { char* c; long k = strtol(&l[2], &c, 10); opm[c + 1] += k; break; }
        case 'S': { size_t q = l.find(' ', 2); stats[l.substr(2, q - 2)] += strtoull(l.c_str() + q, 0, 10); break; }
        case 'T': { size_t q = l.find(' ', 2); times[l.substr(2, q - 2)] += atof(l.c_str() + q); break; }
        case 'X': if (mism.size() < 1000) mism += l.substr(2); break;
        case 'D': if (divInfo.size() < 300) divInfo += l.substr(2) + "; "; break;
        case 'E': cur.end = true; break;
        }
    };
    while (true) {
        double el = fs::fs_now() - t0;
        if (el > opts.budget || launched >= opts.maxPaths) { if (!queue.empty()) budgetHit = true; while (!queue.empty()) queue.pop(); }
        if ((int)viol.size() >= opts.maxViol) { budgetHit = budgetHit || !queue.empty(); while (!queue.empty()) queue.pop(); }
        int running = 0;
        for (auto& c : ch) running += !c.probe;
        for (; running < opts.jobs && !queue.empty(); ++running) {
            Item it = queue.top().it;
            queue.pop();
            if (launch(it, 0)) launched++;
            else crashed++;
        }
        for (size_t i = 0, n = ch.size(); i < n && el < opts.budget; ++i)
            if (!ch[i].probe && ch[i].solving && !ch[i].probed && fs::fs_now() - ch[i].solving > 2 && probes < 400) {
                ch[i].probed = true;
                Item it;
                it.k = -1;
                it.inputs = ch[i].enumerated;
                for (u64 sd = 1; sd <= 4; ++sd) probes += launch(it, sd);
            }
        if (ch.empty()) break;
        std::vector<struct pollfd> pfd;
        for (auto& c : ch) pfd.push_back({c.fd, POLLIN, 0});
        poll(pfd.data(), pfd.size(), 200);
        for (size_t i = 0; i < ch.size();) {
            bool closed = false;
            if (pfd[i].revents & (POLLIN | POLLHUP | POLLERR)) {
                char b[65536];
                ssize_t n = read(ch[i].fd, b, sizeof b);
                if (n > 0) ch[i].buf.append(b, n);
                else closed = true;
            }
            {
                std::string& s = ch[i].buf;
                size_t p = 0, e;
                while ((e = s.find('\n', p)) != std::string::npos) {
                    std::string l = s.substr(p, e - p);
                    p = e + 1;
                    line(ch[i], l);
                }
                s.erase(0, p);
            }
            if (!closed && fs::fs_now() - ch[i].t0 > opts.runTimeout + opts.childSolve + 30) { kill(ch[i].pid, SIGKILL); budgetHit = true; }
            // hard stop some time after the budget
            if (!closed && fs::fs_now() - t0 > opts.budget + opts.grace) { kill(ch[i].pid, SIGKILL); budgetHit = true; }
            // enough violations: no need to wait for the other queries
            if (!closed && (int)viol.size() >= opts.maxViol) { kill(ch[i].pid, SIGKILL); budgetHit = true; }
            if (!closed) { ++i; continue; }
            int stt;
            waitpid(ch[i].pid, &stt, 0);
            close(ch[i].fd);
            if (!ch[i].end && !ch[i].probe) {
                crashed++;
                if (opts.verbose) fprintf(stderr, "child ended without report, status %x\n", stt);
            }
            static size_t lastFns = 0;
            if (fns.size() != lastFns) {
                for (auto& f : *fnhits) if (!f.known && fns.count(f.name)) f.known = true;
                lastFns = fns.size();
            }
            ch.erase(ch.begin() + i);
            pfd.erase(pfd.begin() + i);
        }
        if (opts.verbose) {
            static double last = 0;
            if (fs::fs_now() - last > 2) {
                last = fs::fs_now();
                fprintf(stderr, "[%.0fs] launched %llu queue %zu viol %zu unsat %llu sat %llu unknown %llu\n", last - t0, (unsigned long long)launched, queue.size(), viol.size(),
                        (unsigned long long)stats["unsat"], (unsigned long long)stats["sat"], (unsigned long long)stats["unknown"]);
            }
        }
    }
    double wall = fs::fs_now() - t0;
    bool exhaustive = !budgetHit && !stats["unknown"] && !crashed && !stats["nodeLimit"] && !stats["decisionLimit"] && !stats["skippedFlips"] && !stats["evalMismatch"] && !stats["diverged"];
    FILE* o = outFile.empty() ? stdout : fopen(outFile.c_str(), "w");
    fprintf(o, "{\"harness\":\"%s\",\"exhaustive\":%s,\"wall_s\":%.2f,\"launched\":%llu,\"crashed\":%llu,\"probes\":%llu,\"budget_hit\":%s", hname.c_str(), exhaustive ? "true" : "false", wall,
            (unsigned long long)launched, (unsigned long long)crashed, (unsigned long long)probes, budgetHit ? "true" : "false");
    for (auto& s : stats) fprintf(o, ",\"%s\":%llu", s.first.c_str(), (unsigned long long)s.second);
    for (auto& s : times) fprintf(o, ",\"%s_s\":%.3f", s.first.c_str(), s.second);
    fprintf(o, ",\"mismatch\":\"%s\",\"divergence\":\"%s\"", jesc(mism).c_str(), jesc(divInfo).c_str());
    auto list = [&](const char* n, const std::set<std::string>& v) {
        fprintf(o, ",\"%s\":[", n);
        bool first = true;
        for (auto& x : v) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; }
        fprintf(o, "]");
    };
    list("functions", fns);
    list("reached", labels);
    auto dict = [&](const char* n, const std::map<std::string, int>& v) {
        fprintf(o, ",\"%s\":{", n);
        bool first = true;
        for (auto& x : v) { fprintf(o, "%s\"%s\":%d", first ? "" : ",", jesc(x.first).c_str(), x.second); first = false; }
        fprintf(o, "}");
    };
    dict("opaque_calls", opq);
    dict("opaque_memory", opm);
    dict("enumerated_at", cnc);
    fprintf(o, ",\"violations\":[");
    for (size_t i = 0; i < viol.size(); ++i) {
        std::string v = viol[i];
        size_t a = v.find('\t'), b = v.rfind('\t');
        fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"inputs\":\"%s\"}", i ? "," : "", jesc(v.substr(0, a)).c_str(), jesc(v.substr(a + 1, b - a - 1)).c_str(), jesc(v.substr(b + 1)).c_str());
    }
    fprintf(o, "]}\n");
    if (o != stdout) fclose(o);
    return 0;
}
