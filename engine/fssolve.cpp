// Path-constraint translation to SMT (bit-vectors) and branch/assertion flipping.
//
// Integers are translated at the narrowest signed width that holds their
// statically known range.  Floating point values are translated as exact
// rationals N/(D*2^s) over bit-vectors as long as the IEEE operation is exact
// (which the translation decides from the ranges); when rounding may occur the
// value carries an absolute error bound and every comparison that falls within
// the bound is left undetermined by a fresh boolean, i.e. the encoding
// over-approximates (UNSAT is sound; a SAT answer is replayed on the real
// code).  Operations outside this fragment use Z3's floating point theory.
#include "fsops.h"
#include "fsrt.h"
#include <algorithm>
#include <cfloat>
#include <cmath>
#include <cstring>
#include <map>
#include <memory>
#include <unordered_map>
#include <z3.h>

namespace fs {
typedef __int128 i128;
static Z3_context C;
static Z3_ast R(Z3_ast a) { Z3_inc_ref(C, a); return a; }
struct Fail {};
static std::string dec128(i128 v)
{
    bool neg = v < 0;
    unsigned __int128 u = neg ? -(unsigned __int128)v : v;
    std::string s;
    do { s += char('0' + (int)(u % 10)); u /= 10; } while (u);
    if (neg) s += '-';
    std::reverse(s.begin(), s.end());
    return s;
}
static Z3_sort bvs(unsigned w)
{
    static std::map<unsigned, Z3_sort> m;
    auto it = m.find(w);
    if (it != m.end()) return it->second;
    Z3_sort s = Z3_mk_bv_sort(C, w);
    Z3_inc_ref(C, Z3_sort_to_ast(C, s));
    return m[w] = s;
}
static Z3_ast num(unsigned w, i128 v) { return R(Z3_mk_numeral(C, dec128(v).c_str(), bvs(w))); }
static unsigned W(Z3_ast a) { return Z3_get_bv_sort_size(C, Z3_get_sort(C, a)); }
static Z3_ast rs(Z3_ast a, unsigned w)
{
    unsigned k = W(a);
    if (k == w) return a;
    if (k < w) return R(Z3_mk_sign_ext(C, w - k, a));
    return R(Z3_mk_extract(C, w - 1, 0, a));
}
static unsigned blen(i128 v)
{
    unsigned __int128 u = v < 0 ? -(unsigned __int128)v : (unsigned __int128)v;
    unsigned n = 0;
    while (u) { ++n; u >>= 1; }
    return n;
}
static unsigned sw(i128 lo, i128 hi) // minimal signed width
{
    unsigned n = 1;
    for (i128 v : {lo, hi}) {
        unsigned k = v < 0 ? blen(-(v + 1)) + 1 : blen(v) + 1;
        n = std::max(n, k);
    }
    return n;
}
static Z3_ast T() { static Z3_ast t = R(Z3_mk_true(C)); return t; }
static Z3_ast Fa() { static Z3_ast t = R(Z3_mk_false(C)); return t; }
// booleans; nullptr means false
typedef Z3_ast B;
static B nt(B a) { return !a ? T() : a == T() ? nullptr : R(Z3_mk_not(C, a)); }
static B an(B a, B b) { if (!a || !b) return nullptr; if (a == T()) return b; if (b == T()) return a; Z3_ast x[2] = {a, b}; return R(Z3_mk_and(C, 2, x)); }
static B orr(B a, B b) { if (!a) return b; if (!b) return a; if (a == T() || b == T()) return T(); Z3_ast x[2] = {a, b}; return R(Z3_mk_or(C, 2, x)); }
static B xo(B a, B b) { return orr(an(a, nt(b)), an(nt(a), b)); }
static B iteB(B c, B a, B b) { if (a == b) return a; return orr(an(c, a), an(nt(c), b)); }
static Z3_ast real(B a) { return a ? a : Fa(); }
static B freshB()
{
    st.noise++;
    static int n = 0;
    char nm[32];
    snprintf(nm, sizeof nm, "!n%d", n++);
    return R(Z3_mk_const(C, Z3_mk_string_symbol(C, nm), Z3_mk_bool_sort(C)));
}
static Z3_ast ite(B c, Z3_ast a, Z3_ast b) { if (!c) return b; if (c == T()) return a; return R(Z3_mk_ite(C, c, a, b)); }
static Z3_ast add(Z3_ast a, Z3_ast b) { return R(Z3_mk_bvadd(C, a, b)); }
static Z3_ast sub(Z3_ast a, Z3_ast b) { return R(Z3_mk_bvsub(C, a, b)); }
static Z3_ast mul(Z3_ast a, Z3_ast b) { return R(Z3_mk_bvmul(C, a, b)); }
static Z3_ast neg(Z3_ast a) { return R(Z3_mk_bvneg(C, a)); }
static B slt(Z3_ast a, Z3_ast b) { unsigned w = std::max(W(a), W(b)); return R(Z3_mk_bvslt(C, rs(a, w), rs(b, w))); }
static B sle(Z3_ast a, Z3_ast b) { unsigned w = std::max(W(a), W(b)); return R(Z3_mk_bvsle(C, rs(a, w), rs(b, w))); }
static B eq(Z3_ast a, Z3_ast b) { unsigned w = std::max(W(a), W(b)); return R(Z3_mk_eq(C, rs(a, w), rs(b, w))); }

struct Big { i128 v; };
static const i128 LIM = (i128)1 << 120;
static i128 ck(i128 v) { if (v > LIM || v < -LIM) throw Fail(); return v; }
static i128 mul128(i128 a, i128 b) { i128 r; if (__builtin_mul_overflow(a, b, &r)) throw Fail(); return ck(r); }
static i128 shl128(i128 a, int k) { if (k < 0) throw Fail(); if (a == 0) return 0; if (k > 120) throw Fail(); return mul128(a, (i128)1 << k); }

// N as a polynomial over atoms, so that terms cancel before they reach the solver
struct Atom { Z3_ast a; i128 lo, hi; };
static std::vector<Atom> atoms;
static std::unordered_map<Z3_ast, u32> atomIdx;
typedef std::vector<u32> Mono; // sorted atom numbers
typedef std::map<Mono, i128> PolyT;
typedef std::shared_ptr<const PolyT> Poly;
static const size_t MAXTERM = 80;
static Poly pAtom(Z3_ast a, i128 lo, i128 hi)
{
    auto it = atomIdx.find(a);
    u32 k;
    if (it == atomIdx.end()) {
        k = atoms.size();
        atoms.push_back({a, lo, hi});
        atomIdx[a] = k;
    } else {
        k = it->second;
        atoms[k].lo = std::max(atoms[k].lo, lo);
        atoms[k].hi = std::min(atoms[k].hi, hi);
    }
    auto p = std::make_shared<PolyT>();
    (*p)[Mono{k}] = 1;
    return p;
}
static Poly pConst(i128 c)
{
    auto p = std::make_shared<PolyT>();
    if (c) (*p)[Mono{}] = c;
    return p;
}
static bool pOk(i128 v) { return v < ((i128)1 << 118) && v > -((i128)1 << 118); }
static Poly pScale(const Poly& a, i128 k)
{
    if (!a || k == 1) return a;
    auto p = std::make_shared<PolyT>();
    if (k)
        for (auto& t : *a) {
            i128 v;
            if (__builtin_mul_overflow(t.second, k, &v) || !pOk(v)) return nullptr;
            (*p)[t.first] = v;
        }
    return p;
}
static Poly pAdd(const Poly& a, const Poly& b, bool minus, bool* merged = nullptr)
{
    if (!a || !b) return nullptr;
    auto p = std::make_shared<PolyT>(*a);
    bool m = false;
    for (auto& t : *b) {
        auto it = p->find(t.first);
        i128 v = minus ? -t.second : t.second;
        if (it == p->end()) (*p)[t.first] = v;
        else {
            if (!t.first.empty()) m = true;
            it->second += v;
            if (!pOk(it->second)) return nullptr;
            if (it->second == 0) p->erase(it);
        }
    }
    if (merged) *merged = m;
    if (p->size() > MAXTERM) return nullptr;
    return p;
}
static Poly pMul(const Poly& a, const Poly& b)
{
    if (!a || !b || a->size() * b->size() > MAXTERM) return nullptr;
    auto p = std::make_shared<PolyT>();
    for (auto& x : *a)
        for (auto& y : *b) {
            Mono m = x.first;
            m.insert(m.end(), y.first.begin(), y.first.end());
            if (m.size() > 4) return nullptr;
            std::sort(m.begin(), m.end());
            i128 v;
            if (__builtin_mul_overflow(x.second, y.second, &v) || !pOk(v)) return nullptr;
            i128& e = (*p)[m];
            e += v;
            if (!pOk(e)) return nullptr;
        }
    for (auto it = p->begin(); it != p->end();)
        if (it->second == 0) it = p->erase(it);
        else ++it;
    return p;
}
static bool pRange(const PolyT& p, i128& lo, i128& hi)
{
    lo = hi = 0;
    for (auto& t : p) {
        i128 l = t.second, h = t.second;
        for (size_t k = 0; k < t.first.size(); ++k) {
            const Atom& a = atoms[t.first[k]];
            i128 q[4];
            if (__builtin_mul_overflow(l, a.lo, &q[0]) || __builtin_mul_overflow(l, a.hi, &q[1]) || __builtin_mul_overflow(h, a.lo, &q[2]) || __builtin_mul_overflow(h, a.hi, &q[3])) return false;
            l = *std::min_element(q, q + 4);
            h = *std::max_element(q, q + 4);
            if (!pOk(l) || !pOk(h)) return false;
        }
        lo += l; hi += h;
        if (!pOk(lo) || !pOk(hi)) return false;
    }
    return true;
}
static Z3_ast pBuild(const PolyT& p, i128 lo, i128 hi)
{
    if (lo == hi) return num(sw(lo, hi), lo);
    // wide enough for every partial sum modulo 2^w: only the result matters
    unsigned w = sw(lo, hi);
    Z3_ast sum = nullptr;
    for (auto& t : p) {
        Z3_ast m = nullptr;
        for (u32 k : t.first) { Z3_ast x = rs(atoms[k].a, w); m = m ? mul(m, x) : x; }
        Z3_ast c = num(w, t.second);
        Z3_ast v = !m ? c : t.second == 1 ? m : t.second == -1 ? neg(m) : mul(m, c);
        sum = sum ? add(sum, v) : v;
    }
    return sum ? sum : num(1, 0);
}

struct Rep
{
    Poly P;             // of N, may be null
    Z3_ast N = nullptr; // signed BV
    i128 lo = 0, hi = 0;
    Z3_ast D = nullptr; // positive BV or null
    i128 dlo = 1, dhi = 1;
    int s = 0;
    double err = 0;
    B nan = nullptr, pinf = nullptr, ninf = nullptr;
    double amax() const { return std::ldexp((double)std::max(lo < 0 ? -lo : lo, hi < 0 ? -hi : hi) / (double)dlo, -s) * (1 + 1e-15); }
    bool isConst() const { return lo == hi && !D; }
};
static Poly getP(const Rep& r)
{
    if (r.lo == r.hi) return pConst(r.lo);
    if (r.P) return r.P;
    return pAtom(r.N, r.lo, r.hi);
}
static Poly getPs(const Rep& r, int k) // at a larger scale
{
    if (k < 0 || k > 100) return nullptr;
    return pScale(getP(r), (i128)1 << k);
}
static void fixw(Rep& r) { r.N = rs(r.N, sw(r.lo, r.hi)); }
static Rep mkN(Z3_ast N, i128 lo, i128 hi, int s)
{
    Rep r; r.N = N; r.lo = ck(lo); r.hi = ck(hi); r.s = s; fixw(r); return r;
}
static Rep constRep(double v)
{
    Rep r;
    if (v != v) { r.nan = T(); r.N = num(1, 0); return r; }
    if (std::isinf(v)) { (v > 0 ? r.pinf : r.ninf) = T(); r.N = num(1, 0); return r; }
    if (v == 0) { r.N = num(1, 0); return r; }
    int e;
    double m = std::frexp(v, &e);
    i64 M = (i64)std::ldexp(m, 53);
    e -= 53;
    while (!(M & 1)) { M /= 2; ++e; }
    if (e > 0 && e < 60) { r.lo = r.hi = (i128)M << e; r.s = 0; }
    else { r.lo = r.hi = M; r.s = -e; }
    r.N = num(sw(r.lo, r.hi), r.lo);
    return r;
}
static Z3_ast shlTo(const Rep& a, int s, i128& lo, i128& hi) // N at scale s >= a.s
{
    int k = s - a.s;
    lo = shl128(a.lo, k); hi = shl128(a.hi, k);
    if (k == 0) return a.N;
    if (a.lo == 0 && a.hi == 0) return num(1, 0);
    return R(Z3_mk_concat(C, a.N, num(k, 0)));
}
static Z3_ast mulR(Z3_ast a, i128 alo, i128 ahi, Z3_ast b, i128 blo, i128 bhi, i128& lo, i128& hi)
{
    i128 p[4] = {mul128(alo, blo), mul128(alo, bhi), mul128(ahi, blo), mul128(ahi, bhi)};
    lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4);
    if (lo == hi) return num(sw(lo, hi), lo);
    if (blo == bhi && blo == 1) return a;
    if (alo == ahi && alo == 1) return b;
    unsigned w = sw(lo, hi);
    return mul(rs(a, w), rs(b, w));
}
static void roundTo(Rep& r, unsigned prec)
{
    bool exact = !r.D;
    if (exact) {
        i128 m = std::max(r.lo < 0 ? -r.lo : r.lo, r.hi < 0 ? -r.hi : r.hi);
        if (blen(m) > prec) {
            exact = false;
            if (r.lo == r.hi) {
                i128 v = m; unsigned tz = 0;
                while (v && !(v & 1)) { v >>= 1; ++tz; }
                if (blen(m) - tz <= prec) exact = true;
            }
        }
    }
    double am = r.amax();
    if (!(am < 1e300)) throw Fail();
    if (prec == 24 && !(am < 3e38)) throw Fail();
    if (r.s > 900 || (prec == 24 && r.s > 120)) throw Fail();
    if (r.err > 0) exact = false;
    if (!exact) r.err += (am + r.err) * std::ldexp(1.0, -(int)prec) * 1.0001;
}
static bool sameD(const Rep& a, const Rep& b) { return a.D == b.D || (a.D && b.D && a.dlo == a.dhi && b.dlo == b.dhi && a.dlo == b.dlo); }
// bring to common denominator; outputs numerators
struct Common { Z3_ast Na, Nb, D; i128 alo, ahi, blo, bhi, dlo, dhi; int s; };
static Common common(const Rep& a0, const Rep& b0)
{
    Rep a = a0, b = b0;
    Common c;
    c.s = std::max(a.s, b.s);
    if (a.lo == 0 && a.hi == 0 && !a.D) c.s = b.s; // zero constants adapt
    else if (b.lo == 0 && b.hi == 0 && !b.D) c.s = a.s;
    auto sh = [&](const Rep& r, i128& lo, i128& hi) -> Z3_ast { if (r.lo == 0 && r.hi == 0) { lo = hi = 0; return num(1, 0); } return shlTo(r, c.s, lo, hi); };
    c.Na = sh(a, c.alo, c.ahi);
    c.Nb = sh(b, c.blo, c.bhi);
    if (sameD(a, b)) { c.D = a.D; c.dlo = a.dlo; c.dhi = a.dhi; return c; }
    Z3_ast one = num(2, 1);
    Z3_ast da = a.D ? a.D : one, db = b.D ? b.D : one;
    i128 l, h;
    if (b.D) { c.Na = mulR(c.Na, c.alo, c.ahi, db, b.dlo, b.dhi, l, h); c.alo = l; c.ahi = h; }
    if (a.D) { c.Nb = mulR(c.Nb, c.blo, c.bhi, da, a.dlo, a.dhi, l, h); c.blo = l; c.bhi = h; }
    c.D = mulR(da, a.dlo, a.dhi, db, b.dlo, b.dhi, c.dlo, c.dhi);
    return c;
}
static Rep rAdd(const Rep& a, const Rep& b, bool minus)
{
    Common c = common(a, b);
    Rep r;
    i128 bl = minus ? -c.bhi : c.blo, bh = minus ? -c.blo : c.bhi;
    r.lo = ck(c.alo + bl); r.hi = ck(c.ahi + bh);
    unsigned w = sw(r.lo, r.hi);
    r.N = minus ? sub(rs(c.Na, w), rs(c.Nb, w)) : add(rs(c.Na, w), rs(c.Nb, w));
    r.D = c.D; r.dlo = c.dlo; r.dhi = c.dhi; r.s = c.s;
    r.err = a.err + b.err;
    if (!a.D == !b.D && sameD(a, b)) {
        bool merged = false;
        Poly pa = a.lo == 0 && a.hi == 0 ? pConst(0) : getPs(a, c.s - a.s), pb = b.lo == 0 && b.hi == 0 ? pConst(0) : getPs(b, c.s - b.s);
        r.P = pAdd(pa, pb, minus, &merged);
        i128 l, h;
        if (r.P && merged && pRange(*r.P, l, h)) {
            l = std::max(l, r.lo); h = std::min(h, r.hi);
            if (l <= h) { r.lo = l; r.hi = h; r.N = pBuild(*r.P, l, h); fixw(r); }
        }
    } else if ((!a.D || a.dlo == a.dhi) && (!b.D || b.dlo == b.dhi)) {
        Poly pa = a.lo == 0 && a.hi == 0 ? pConst(0) : pScale(getPs(a, c.s - a.s), b.D ? b.dlo : 1), pb = b.lo == 0 && b.hi == 0 ? pConst(0) : pScale(getPs(b, c.s - b.s), a.D ? a.dlo : 1);
        bool merged = false;
        r.P = pAdd(pa, pb, minus, &merged);
        i128 l, h;
        if (r.P && merged && pRange(*r.P, l, h)) {
            l = std::max(l, r.lo); h = std::min(h, r.hi);
            if (l <= h) { r.lo = l; r.hi = h; r.N = pBuild(*r.P, l, h); fixw(r); }
        }
    }
    B bp = minus ? b.ninf : b.pinf, bn = minus ? b.pinf : b.ninf;
    r.nan = orr(orr(a.nan, b.nan), orr(an(a.pinf, bn), an(a.ninf, bp)));
    r.pinf = orr(an(a.pinf, nt(bn)), an(bp, nt(a.ninf)));
    r.ninf = orr(an(a.ninf, nt(bp)), an(bn, nt(a.pinf)));
    return r;
}
static B isNeg(const Rep& a) { if (a.lo >= 0) return nullptr; if (a.hi < 0) return T(); return slt(a.N, num(W(a.N), 0)); }
static B isZero(const Rep& a) { if (a.lo > 0 || a.hi < 0) return nullptr; if (a.lo == 0 && a.hi == 0) return T(); return eq(a.N, num(W(a.N), 0)); }
static Rep rMul(const Rep& a, const Rep& b)
{
    Rep r;
    r.N = mulR(a.N, a.lo, a.hi, b.N, b.lo, b.hi, r.lo, r.hi);
    fixw(r);
    if (r.lo != r.hi) r.P = pMul(getP(a), getP(b));
    Z3_ast one = num(2, 1);
    if (a.D || b.D) r.D = mulR(a.D ? a.D : one, a.dlo, a.dhi, b.D ? b.D : one, b.dlo, b.dhi, r.dlo, r.dhi);
    r.s = a.s + b.s;
    if (a.err > 0 || b.err > 0) r.err = (a.amax() * b.err + b.amax() * a.err + a.err * b.err) * 1.0000001;
    B ai = orr(a.pinf, a.ninf), bi = orr(b.pinf, b.ninf);
    r.nan = orr(orr(a.nan, b.nan), orr(an(ai, an(isZero(b), nt(bi))), an(bi, an(isZero(a), nt(ai)))));
    if (ai || bi) {
        B sa = orr(a.ninf, an(nt(ai), isNeg(a))), sb = orr(b.ninf, an(nt(bi), isNeg(b)));
        B inf = an(orr(ai, bi), nt(r.nan)), sg = xo(sa, sb);
        r.pinf = an(inf, nt(sg)); r.ninf = an(inf, sg);
    }
    return r;
}
static Rep rNeg(const Rep& a)
{
    Rep r = a;
    r.lo = -a.hi; r.hi = -a.lo;
    unsigned w = sw(r.lo, r.hi);
    r.N = neg(rs(a.N, w));
    r.P = pScale(getP(a), -1);
    std::swap(r.pinf, r.ninf);
    return r;
}
static Rep rAbs(const Rep& a)
{
    if (a.lo >= 0 && !a.ninf) return a;
    if (a.hi <= 0 && !a.pinf && !a.ninf && !a.nan) return rNeg(a);
    Rep r = a;
    r.P = nullptr;
    i128 m = std::max(a.lo < 0 ? -a.lo : a.lo, a.hi < 0 ? -a.hi : a.hi);
    r.lo = 0; r.hi = m;
    if (a.hi < 0) r.lo = -a.hi;
    if (a.lo > 0) r.lo = a.lo;
    unsigned w = sw(-m, m);
    Z3_ast n = rs(a.N, w);
    r.N = rs(ite(isNeg(a), neg(n), n), sw(r.lo, r.hi));
    r.pinf = orr(a.pinf, a.ninf);
    r.ninf = nullptr;
    return r;
}
static Rep rDiv(const Rep& a, const Rep& b)
{
    Rep r;
    B bz = isZero(b);
    B bneg = isNeg(b);
    i128 bmlo = b.lo > 0 ? b.lo : b.hi < 0 ? -b.hi : 1, bmhi = std::max(b.lo < 0 ? -b.lo : b.lo, b.hi < 0 ? -b.hi : b.hi);
    if (bmhi == 0) bmhi = 1;
    if (b.err > 0 && (b.lo <= 0 && b.hi >= 0)) throw Fail();
    double bmin = std::ldexp((double)bmlo / (double)b.dhi, -b.s) * (1 - 1e-15);
    if (b.err > 0 && bmin <= b.err * 2) throw Fail();
    // N = +-Na*Db , D = |Nb| * Da
    Rep ab = rAbs(b);
    i128 nl, nh;
    Z3_ast one = num(2, 1);
    Z3_ast n = b.D ? mulR(a.N, a.lo, a.hi, b.D, b.dlo, b.dhi, nl, nh) : (nl = a.lo, nh = a.hi, a.N);
    if (bneg == T()) { i128 t = nl; nl = -nh; nh = -t; unsigned w = sw(nl, nh); n = neg(rs(n, w)); }
    else if (bneg) {
        i128 m = std::max(nl < 0 ? -nl : nl, nh < 0 ? -nh : nh);
        nl = -m; nh = m;
        unsigned w = sw(nl, nh);
        n = ite(bneg, neg(rs(n, w)), rs(n, w));
    }
    r.N = n; r.lo = nl; r.hi = nh; fixw(r);
    if (b.isConst() && (bneg == T() || !bneg)) r.P = pScale(getP(a), bneg == T() ? -1 : 1);
    Z3_ast d = bz ? (bz == T() ? one : ite(bz, num(W(ab.N), 1), ab.N)) : ab.N;
    unsigned dw = sw(1, bmhi);
    d = rs(d, dw);
    r.D = a.D ? mulR(d, bmlo, bmhi, a.D, a.dlo, a.dhi, r.dlo, r.dhi) : (r.dlo = bmlo, r.dhi = bmhi, d);
    r.s = a.s - b.s;
    if (r.dlo == r.dhi) { // constant denominator: pull powers of two out
        i128 v = r.dlo; int tz = 0;
        while (!(v & 1)) { v >>= 1; ++tz; }
        r.s += tz; r.dlo = r.dhi = v;
        r.D = v == 1 ? nullptr : num(sw(1, v), v);
    }
    double q = a.amax() / bmin;
    if (a.err > 0 || b.err > 0) r.err = (a.err + q * b.err) / (bmin - b.err) * 1.0000001;
    B ai = orr(a.pinf, a.ninf), bi = orr(b.pinf, b.ninf);
    B az = an(isZero(a), nt(ai));
    B bzz = an(bz, nt(bi));
    r.nan = orr(orr(a.nan, b.nan), orr(an(az, bzz), an(ai, bi)));
    if (ai || bz) {
        B sa = orr(a.ninf, an(nt(ai), isNeg(a))), sb = orr(b.ninf, an(nt(bi), isNeg(b)));
        B sg = xo(sa, sb);
        if (bzz) { B nz = freshB(); sg = xo(sg, an(bzz, nz)); } // sign of zero is not tracked
        B inf = an(nt(r.nan), orr(ai, bzz));
        r.pinf = an(inf, nt(sg)); r.ninf = an(inf, sg);
    }
    if (bi) {
        r.P = nullptr;
        r.N = ite(bi, num(W(r.N), 0), r.N);
        r.lo = std::min<i128>(r.lo, 0); r.hi = std::max<i128>(r.hi, 0); fixw(r);
    }
    return r;
}
static i128 floorDiv(i128 a, i128 b) { i128 q = a / b; if (a % b < 0) --q; return q; }
// floor of N/(D 2^s) exactly (err ignored)
static Rep floorExact(const Rep& a)
{
    Rep r;
    r.nan = a.nan; r.pinf = a.pinf; r.ninf = a.ninf;
    if (!a.D && a.s <= 0) { r = a; i128 l, h; r.N = shlTo(a, 0, l, h); r.P = getPs(a, -a.s); r.lo = l; r.hi = h; r.s = 0; r.err = 0; fixw(r); return r; }
    if (!a.D) {
        if (a.s > 120) throw Fail();
        i128 p = (i128)1 << a.s;
        if (Poly P = getP(a)) { // multiple of 2^s plus a remainder in [0, 2^s)
            PolyT q, rem;
            for (auto& t : *P) {
                i128 f = t.second >= 0 ? t.second / p : -((-t.second + p - 1) / p);
                if (!t.first.empty() && t.second % p) f = 0;
                if (f) q[t.first] = f;
                if (t.second - f * p) rem[t.first] = t.second - f * p;
            }
            i128 l, h;
            if (pRange(rem, l, h) && l >= 0 && h < p && pRange(q, l, h)) {
                r.lo = l; r.hi = h;
                r.N = pBuild(q, l, h);
                r.P = std::make_shared<PolyT>(q);
                fixw(r);
                return r;
            }
        }
        r.lo = floorDiv(a.lo, p); r.hi = floorDiv(a.hi, p);
        unsigned w = W(a.N);
        if ((int)w > a.s) r.N = R(Z3_mk_extract(C, w - 1, a.s, a.N));
        else r.N = R(Z3_mk_extract(C, w - 1, w - 1, a.N));
        fixw(r);
        return r;
    }
    Z3_ast n = a.N, d = a.D;
    i128 nl = a.lo, nh = a.hi, dl = a.dlo, dh = a.dhi;
    if (a.s > 0) { dl = shl128(dl, a.s); dh = shl128(dh, a.s); d = R(Z3_mk_concat(C, d, num(a.s, 0))); }
    else if (a.s < 0) { nl = shl128(nl, -a.s); nh = shl128(nh, -a.s); n = R(Z3_mk_concat(C, n, num(-a.s, 0))); }
    unsigned w = std::max(sw(nl, nh), sw(dl, dh)) + 1;
    n = rs(n, w); d = rs(d, w);
    Z3_ast q = R(Z3_mk_bvsdiv(C, n, d)), m = R(Z3_mk_bvsrem(C, n, d));
    q = ite(slt(m, num(w, 0)), sub(q, num(w, 1)), q);
    r.lo = nl < 0 ? floorDiv(nl, dl) : floorDiv(nl, dh);
    r.hi = nh < 0 ? floorDiv(nh, dh) : floorDiv(nh, dl);
    r.N = rs(q, sw(r.lo, r.hi));
    return r;
}
static Rep mergeRep(B c, const Rep& a, const Rep& b);
static Rep eps(double e) { return constRep(e); }
static Rep rFloor(const Rep& a)
{
    if (a.err == 0) return floorExact(a);
    if (a.err > 0.4) throw Fail();
    // within the error the floor may be either neighbour
    double e = std::ldexp(1.0, (int)std::ceil(std::log2(a.err)));
    Rep a0 = a; a0.err = 0;
    Rep lo = floorExact(rAdd(a0, eps(e), true)), hi = floorExact(rAdd(a0, eps(e), false));
    return mergeRep(freshB(), lo, hi);
}
static Rep rTrunc(const Rep& a)
{
    if (a.lo >= 0 && a.err == 0) return rFloor(a);
    Rep f = rFloor(a), c = rNeg(rFloor(rNeg(a)));
    if (a.hi <= 0 && a.err == 0) return c;
    return mergeRep(isNeg(a), c, f);
}
static Rep rRound(const Rep& a, bool even)
{
    Rep h = constRep(0.5);
    if (even) {
        Rep f = rFloor(rAdd(a, h, false));
        if (a.err > 0) return f;
        // tie: a + 0.5 == f exactly and f odd -> f - 1
        Rep x = rAdd(a, h, false);
        Common c = common(x, f);
        (void)c;
        Z3_ast fn = f.N;
        B odd = R(Z3_mk_eq(C, R(Z3_mk_extract(C, 0, 0, fn)), num(1, 1)));
        // compare x to f
        Z3_ast nx = c.Na, nf = c.Nb;
        B tie = an(eq(nx, nf), odd);
        Rep g = rAdd(f, constRep(1), true);
        return mergeRep(tie, g, f);
    }
    Rep p = rFloor(rAdd(a, h, false));
    if (a.lo >= 0) return p;
    Rep n = rNeg(rFloor(rAdd(rNeg(a), h, false)));
    if (a.hi <= 0) return n;
    return mergeRep(isNeg(a), n, p);
}
static Rep mergeRep(B c, const Rep& a, const Rep& b)
{
    if (!c) return b;
    if (c == T()) return a;
    bool an0 = a.nan == T() || a.pinf == T() || a.ninf == T(), bn0 = b.nan == T() || b.pinf == T() || b.ninf == T();
    Rep r;
    if (an0 || bn0) {
        r = an0 ? b : a;
        if (an0 && bn0) r = a;
    } else {
        int s = std::max(a.s, b.s);
        if (a.isConst() && a.lo == 0) s = b.s;
        if (b.isConst() && b.lo == 0) s = a.s;
        i128 al, ah, bl, bh;
        auto sh = [&](const Rep& x, i128& lo, i128& hi) -> Z3_ast { if (x.lo == 0 && x.hi == 0) { lo = hi = 0; return num(1, 0); } return shlTo(x, s, lo, hi); };
        Z3_ast na = sh(a, al, ah), nb = sh(b, bl, bh);
        r.s = s;
        if (!sameD(a, b)) {
            Z3_ast one = num(2, 1);
            Z3_ast da = a.D ? a.D : one, db = b.D ? b.D : one;
            r.dlo = std::min(a.dlo, b.dlo); r.dhi = std::max(a.dhi, b.dhi);
            unsigned dw = sw(1, r.dhi);
            r.D = ite(c, rs(da, dw), rs(db, dw));
        } else { r.D = a.D; r.dlo = a.dlo; r.dhi = a.dhi; }
        r.lo = std::min(al, bl); r.hi = std::max(ah, bh);
        unsigned w = sw(r.lo, r.hi);
        r.N = ite(c, rs(na, w), rs(nb, w));
        r.err = std::max(a.err, b.err);
    }
    r.nan = iteB(c, a.nan, b.nan);
    r.pinf = iteB(c, a.pinf, b.pinf);
    r.ninf = iteB(c, a.ninf, b.ninf);
    return r;
}
static Rep rFmod(const Rep& a, const Rep& b)
{
    if (a.err > 0 || b.err > 0 || a.D || b.D) throw Fail();
    if (b.pinf || b.ninf) throw Fail();
    Common c = common(a, b);
    Rep r;
    i128 bm = std::max(c.blo < 0 ? -c.blo : c.blo, c.bhi < 0 ? -c.bhi : c.bhi);
    unsigned w = std::max(sw(c.alo, c.ahi), sw(-bm, bm));
    B bz = isZero(b);
    Z3_ast d = rs(c.Nb, w);
    if (bz) d = ite(bz, num(w, 1), d);
    r.N = R(Z3_mk_bvsrem(C, rs(c.Na, w), d));
    r.lo = c.alo >= 0 ? 0 : -std::min(bm, -c.alo); r.hi = c.ahi <= 0 ? 0 : std::min(bm, c.ahi);
    r.s = c.s; fixw(r);
    r.nan = orr(orr(a.nan, b.nan), orr(bz, orr(a.pinf, a.ninf)));
    return r;
}

// ---------------------------------------------------------------- nodes
static std::unordered_map<u32, Z3_ast> intCache, boolCache, fpCache;
static std::unordered_map<u32, Rep> repCache;
static std::unordered_map<u32, bool> repFail;
static bool usesFp;
static std::unordered_map<u32, Z3_ast> varAst;

static bool isFloatOp(const Node& n)
{
    if (n.op >= FS_FADD && n.op <= FS_FREM) return true;
    if (n.op == FS_FPTRUNC || n.op == FS_FPEXT || n.op == FS_SITOFP || n.op == FS_UITOFP) return true;
    if (n.op == FS_FUN) {
        switch (n.imm & 0xff) {
        case FS_F_FABS: case FS_F_FLOOR: case FS_F_CEIL: case FS_F_TRUNC: case FS_F_RINT: case FS_F_ROUND: case FS_F_FMOD: case FS_F_FNEG: case FS_F_COPYSIGN: return true;
        }
    }
    return false;
}
static Z3_ast toInt(u32 id);
static B toBool(u32 id);
static const Rep& toRep(u32 id);
static Z3_ast toFp(u32 id);
static unsigned nw(u32 id) { return std::min<unsigned>(nodes[id].w, sw(nodes[id].lo, nodes[id].hi)); }
static Z3_ast full(u32 id) { return rs(toInt(id), nodes[id].w); }

static Z3_sort fpSort(unsigned w)
{
    static Z3_sort m[2];
    Z3_sort& s = m[w == 32];
    if (!s) { s = w == 32 ? Z3_mk_fpa_sort_32(C) : Z3_mk_fpa_sort_64(C); Z3_inc_ref(C, Z3_sort_to_ast(C, s)); }
    return s;
}
static Z3_ast rne() { static Z3_ast r = R(Z3_mk_fpa_rne(C)); return r; }
static Z3_ast toFp(u32 id)
{
    auto it = fpCache.find(id);
    if (it != fpCache.end()) return it->second;
    const Node n = nodes[id];
    usesFp = true;
    Z3_ast r;
    auto A = [&]() { return toFp(n.a); };
    auto Bq = [&]() { return toFp(n.b); };
    switch (n.op) {
    case FS_FADD: r = Z3_mk_fpa_add(C, rne(), A(), Bq()); break;
    case FS_FSUB: r = Z3_mk_fpa_sub(C, rne(), A(), Bq()); break;
    case FS_FMUL: r = Z3_mk_fpa_mul(C, rne(), A(), Bq()); break;
    case FS_FDIV: r = Z3_mk_fpa_div(C, rne(), A(), Bq()); break;
    case FS_FPTRUNC: r = Z3_mk_fpa_to_fp_float(C, rne(), A(), fpSort(32)); break;
    case FS_FPEXT: r = Z3_mk_fpa_to_fp_float(C, rne(), A(), fpSort(64)); break;
    case FS_SITOFP: r = Z3_mk_fpa_to_fp_signed(C, rne(), nodes[n.a].w == 1 ? ite(toBool(n.a), num(1, -1), num(1, 0)) : toInt(n.a), fpSort(n.w)); break;
    case FS_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(C, rne(), nodes[n.a].w == 1 ? ite(toBool(n.a), num(1, 1), num(1, 0)) : full(n.a), fpSort(n.w)); break;
    case FS_ITE: r = Z3_mk_ite(C, real(toBool(n.a)), toFp(n.b), toFp(n.c)); break;
    case FS_FUN:
        switch (n.imm & 0xff) {
        case FS_F_FABS: r = Z3_mk_fpa_abs(C, A()); break;
        case FS_F_FNEG: r = Z3_mk_fpa_neg(C, A()); break;
        case FS_F_FLOOR: r = Z3_mk_fpa_round_to_integral(C, R(Z3_mk_fpa_rtn(C)), A()); break;
        case FS_F_CEIL: r = Z3_mk_fpa_round_to_integral(C, R(Z3_mk_fpa_rtp(C)), A()); break;
        case FS_F_TRUNC: r = Z3_mk_fpa_round_to_integral(C, R(Z3_mk_fpa_rtz(C)), A()); break;
        case FS_F_RINT: r = Z3_mk_fpa_round_to_integral(C, R(Z3_mk_fpa_rne(C)), A()); break;
        case FS_F_ROUND: r = Z3_mk_fpa_round_to_integral(C, R(Z3_mk_fpa_rna(C)), A()); break;
        default: r = Z3_mk_fpa_to_fp_bv(C, R(Z3_mk_fresh_const(C, "uf", bvs(n.w))), fpSort(n.w)); st.noise++; // unconstrained
        }
        break;
    default: r = Z3_mk_fpa_to_fp_bv(C, full(id), fpSort(n.w));
    }
    R(r);
    return fpCache[id] = r;
}
// long (decimal) factors are shortened, the difference goes into the error bound
static Rep shortConst(const Rep& a)
{
    if (!a.isConst() || a.s <= 0 || a.nan || a.pinf || a.ninf || a.err > 0) return a;
    unsigned k = blen(a.lo);
    if (k <= 34) return a;
    i128 m = a.lo < 0 ? -a.lo : a.lo;
    unsigned sh = k - 30;
    i128 q = (m + ((i128)1 << (sh - 1))) >> sh;
    double d = std::ldexp((double)m, -a.s), e = std::ldexp((double)q, (int)sh - a.s);
    int s = a.s - (int)sh;
    if (s < 0) return a;
    while (!(q & 1) && s > 0) { q >>= 1; --s; }
    Rep r = constRep(0);
    r.lo = r.hi = a.lo < 0 ? -q : q;
    r.s = s;
    r.N = num(sw(r.lo, r.hi), r.lo);
    r.err = std::fabs(d - e) * 1.001;
    return r;
}
// integer expression without wrap-around as a polynomial
static Poly intPoly(u32 id, int depth = 0)
{
    const Node n = nodes[id];
    if (n.op == FS_CONST) return pConst(n.lo);
    const i128 mn = -((i128)1 << (n.w - 1)), mx = ((i128)1 << (n.w - 1)) - 1;
    if (depth < 24 && n.w > 1) {
        if (n.op == FS_SEXT && nodes[n.a].w > 1) return intPoly(n.a, depth + 1);
        if (n.op == FS_ZEXT && nodes[n.a].w > 1 && nodes[n.a].lo >= 0) return intPoly(n.a, depth + 1);
        if (n.op == FS_EXTRACT && n.imm == 0 && nodes[n.a].w > 1 && nodes[n.a].lo >= mn && nodes[n.a].hi <= mx) return intPoly(n.a, depth + 1);
        if (n.op == FS_SHL && nodes[n.b].op == FS_CONST && nodes[n.b].imm < n.w && nodes[n.b].imm < 62) {
            i128 k = (i128)1 << nodes[n.b].imm;
            if ((i128)nodes[n.a].lo * k >= mn && (i128)nodes[n.a].hi * k <= mx)
                if (Poly r = pScale(intPoly(n.a, depth + 1), k)) return r;
        }
        if ((n.op == FS_ASHR || (n.op == FS_LSHR && nodes[n.a].lo >= 0)) && nodes[n.b].op == FS_CONST && nodes[n.b].imm < 62) {
            Poly a = intPoly(n.a, depth + 1);
            i128 k = (i128)1 << nodes[n.b].imm;
            bool ok = true;
            auto q = std::make_shared<PolyT>();
            for (auto& t : *a)
                if (t.second % k) { ok = false; break; }
                else (*q)[t.first] = t.second / k;
            if (ok) return q;
        }
        if (n.op == FS_FPTOSI) {
            try {
                Rep t = rTrunc(toRep(n.a));
                if (!t.nan && !t.pinf && !t.ninf && !t.D && t.s <= 0 && t.err == 0) {
                    i128 l, h;
                    shlTo(t, 0, l, h);
                    if (l >= mn && h <= mx) { Poly r = getPs(t, -t.s); if (r) return r; }
                }
            } catch (Fail&) {}
        }
        if (n.op == FS_ADD || n.op == FS_SUB || n.op == FS_MUL) {
            const Node &a = nodes[n.a], &b = nodes[n.b];
            i128 al = a.lo, ah = a.hi, bl = b.lo, bh = b.hi, l, h;
            if (n.op == FS_ADD) { l = al + bl; h = ah + bh; }
            else if (n.op == FS_SUB) { l = al - bh; h = ah - bl; }
            else {
                i128 q[4] = {al * bl, al * bh, ah * bl, ah * bh};
                l = *std::min_element(q, q + 4); h = *std::max_element(q, q + 4);
            }
            if (l >= mn && h <= mx) {
                Poly x = intPoly(n.a, depth + 1), y = intPoly(n.b, depth + 1);
                Poly r = n.op == FS_MUL ? pMul(x, y) : pAdd(x, y, n.op == FS_SUB);
                if (r) return r;
            }
        }
    }
    return pAtom(toInt(id), n.lo, n.hi);
}
static Rep calcRep(u32 id)
{
    const Node n = nodes[id];
    unsigned prec = n.w == 32 ? 24 : 53;
    Rep r;
    switch (n.op) {
    case FS_CONST: {
        if (n.w == 32) { float f; u32 b = n.imm; memcpy(&f, &b, 4); return constRep(f); }
        double d; u64 b = n.imm; memcpy(&d, &b, 8); return constRep(d);
    }
    case FS_FADD: r = rAdd(toRep(n.a), Rep(toRep(n.b)), false); roundTo(r, prec); return r;
    case FS_FSUB: r = rAdd(toRep(n.a), Rep(toRep(n.b)), true); roundTo(r, prec); return r;
    case FS_FMUL: { Rep a = shortConst(toRep(n.a)), b = shortConst(toRep(n.b)); r = rMul(a, b); roundTo(r, prec); return r; }
    case FS_FDIV: { Rep a = shortConst(toRep(n.a)), b = shortConst(toRep(n.b)); r = rDiv(a, b); roundTo(r, prec); return r; }
    case FS_FPTRUNC: r = toRep(n.a); roundTo(r, 24); return r;
    case FS_FPEXT: return toRep(n.a);
    case FS_SITOFP:
    case FS_UITOFP: {
        const Node& a = nodes[n.a];
        if (a.w == 1) {
            B b = toBool(n.a);
            bool s = n.op == FS_SITOFP;
            return mkN(ite(b, num(2, s ? -1 : 1), num(2, 0)), s ? -1 : 0, s ? 0 : 1, 0);
        }
        if (n.op == FS_SITOFP || a.lo >= 0) { r = mkN(toInt(n.a), a.lo, a.hi, 0); r.P = intPoly(n.a); }
        else r = mkN(R(Z3_mk_zero_ext(C, 1, full(n.a))), 0, (((i128)1) << a.w) - 1, 0);
        roundTo(r, prec);
        return r;
    }
    case FS_ITE: { B c = toBool(n.a); Rep a = toRep(n.b), b = toRep(n.c); return mergeRep(c, a, b); }
    case FS_FUN:
        switch (n.imm & 0xff) {
        case FS_F_FABS: return rAbs(toRep(n.a));
        case FS_F_FNEG: return rNeg(toRep(n.a));
        case FS_F_FLOOR: return rFloor(toRep(n.a));
        case FS_F_CEIL: return rNeg(rFloor(rNeg(toRep(n.a))));
        case FS_F_TRUNC: return rTrunc(toRep(n.a));
        case FS_F_RINT: return rRound(toRep(n.a), true);
        case FS_F_ROUND: return rRound(toRep(n.a), false);
        case FS_F_FMOD: { Rep a = toRep(n.a), b = toRep(n.b); return rFmod(a, b); }
        }
        throw Fail();
    }
    throw Fail();
}
static const Rep& toRep(u32 id)
{
    auto it = repCache.find(id);
    if (it != repCache.end()) return it->second;
    if (repFail.count(id)) throw Fail();
    try {
        Rep r = calcRep(id);
        return repCache[id] = r;
    } catch (Fail&) {
        repFail[id] = true;
        throw;
    }
}
static Z3_ast fpToInt(u32 id)
{
    const Node n = nodes[id];
    bool sgn = n.op == FS_FPTOSI;
    unsigned w = n.w;
    try {
        Rep a = toRep(n.a);
        Rep t = rTrunc(a);
        B sp = orr(t.nan, orr(t.pinf, t.ninf));
        i128 l, h;
        Z3_ast N = t.s == 0 ? (l = t.lo, h = t.hi, t.N) : shlTo(t, 0, l, h);
        // conversion width actually used by the hardware instruction
        unsigned hw = sgn ? (w <= 32 ? 32 : 64) : (w <= 16 ? 32 : 64);
        i128 mn = -((i128)1 << (hw - 1)), mx = ((i128)1 << (hw - 1)) - 1;
        i128 mxu = (!sgn && w == 64) ? (((i128)1) << 64) - 1 : mx;
        B oor = sp;
        if (h > mxu) oor = orr(oor, slt(num(sw(mxu, mxu), mxu), N));
        if (l < mn) oor = orr(oor, slt(N, num(sw(mn, mn), mn)));
        Z3_ast v = rs(N, std::max(hw, w));
        if (oor) v = ite(oor, num(W(v), mn), v);
        return rs(rs(v, w), nw(id));
    } catch (Fail&) {
        Z3_ast f = toFp(n.a);
        Z3_ast z = R(sgn ? Z3_mk_fpa_to_sbv(C, R(Z3_mk_fpa_rtz(C)), f, w) : Z3_mk_fpa_to_ubv(C, R(Z3_mk_fpa_rtz(C)), f, w));
        return rs(z, nw(id));
    }
}
static Z3_ast calcInt(u32 id)
{
    const Node n = nodes[id];
    unsigned r = nw(id);
    const Node &A = nodes[n.a], &Bn = nodes[n.b];
    switch (n.op) {
    case FS_CONST: return num(r, (i64)n.lo);
    case FS_VAR: return rs(varAst[id], r);
    case FS_ADD: return add(rs(toInt(n.a), r), rs(toInt(n.b), r));
    case FS_SUB: return sub(rs(toInt(n.a), r), rs(toInt(n.b), r));
    case FS_MUL: return mul(rs(toInt(n.a), r), rs(toInt(n.b), r));
    case FS_AND: { Z3_ast x = rs(toInt(n.a), r), y = rs(toInt(n.b), r); return R(Z3_mk_bvand(C, x, y)); }
    case FS_OR: { Z3_ast x = rs(toInt(n.a), r), y = rs(toInt(n.b), r); return R(Z3_mk_bvor(C, x, y)); }
    case FS_XOR: { Z3_ast x = rs(toInt(n.a), r), y = rs(toInt(n.b), r); return R(Z3_mk_bvxor(C, x, y)); }
    case FS_SHL: {
        if (Bn.op == FS_CONST && Bn.imm < n.w) {
            Z3_ast x = rs(toInt(n.a), r);
            if (Bn.imm >= r) return num(r, 0);
            return R(Z3_mk_bvshl(C, x, R(Z3_mk_unsigned_int64(C, Bn.imm, bvs(r)))));
        }
        return rs(R(Z3_mk_bvshl(C, full(n.a), full(n.b))), r);
    }
    case FS_LSHR:
        if (A.lo >= 0 && Bn.lo >= 0) { unsigned w = std::max(nw(n.a), nw(n.b)); return rs(R(Z3_mk_bvlshr(C, rs(toInt(n.a), w), rs(toInt(n.b), w))), r); }
        return rs(R(Z3_mk_bvlshr(C, full(n.a), full(n.b))), r);
    case FS_ASHR:
        if (Bn.lo >= 0) { unsigned w = std::max(nw(n.a), nw(n.b)); return rs(R(Z3_mk_bvashr(C, rs(toInt(n.a), w), rs(toInt(n.b), w))), r); }
        return rs(R(Z3_mk_bvashr(C, full(n.a), full(n.b))), r);
    case FS_UDIV:
    case FS_UREM: {
        bool nn = A.lo >= 0 && Bn.lo >= 0;
        unsigned w = nn ? std::max(nw(n.a), nw(n.b)) : n.w;
        Z3_ast x = rs(toInt(n.a), w), y = rs(toInt(n.b), w);
        return rs(R(n.op == FS_UDIV ? Z3_mk_bvudiv(C, x, y) : Z3_mk_bvurem(C, x, y)), r);
    }
    case FS_SDIV:
    case FS_SREM: {
        unsigned w = std::max(nw(n.a), nw(n.b)) + 1;
        Z3_ast x = rs(toInt(n.a), w), y = rs(toInt(n.b), w);
        return rs(R(n.op == FS_SDIV ? Z3_mk_bvsdiv(C, x, y) : Z3_mk_bvsrem(C, x, y)), r);
    }
    case FS_ZEXT:
        if (A.w == 1) return ite(toBool(n.a), num(r, 1), num(r, 0));
        if (A.lo >= 0) return rs(toInt(n.a), r);
        return rs(R(Z3_mk_zero_ext(C, n.w - A.w, full(n.a))), r);
    case FS_SEXT:
        if (A.w == 1) return ite(toBool(n.a), num(r, -1), num(r, 0));
        return rs(toInt(n.a), r);
    case FS_EXTRACT:
        if (n.imm == 0) return rs(rs(toInt(n.a), n.w), r);
        return rs(R(Z3_mk_extract(C, n.imm + n.w - 1, n.imm, full(n.a))), r);
    case FS_CONCAT: {
        Z3_ast h = A.w == 1 ? ite(toBool(n.a), num(1, 1), num(1, 0)) : full(n.a), l = Bn.w == 1 ? ite(toBool(n.b), num(1, 1), num(1, 0)) : full(n.b);
        return rs(R(Z3_mk_concat(C, h, l)), r);
    }
    case FS_ITE: { B c = toBool(n.a); Z3_ast x = rs(toInt(n.b), r), y = rs(toInt(n.c), r); return ite(c, x, y); }
    case FS_FPTOSI:
    case FS_FPTOUI: return fpToInt(id);
    case FS_FUN:
        switch (n.imm & 0xff) {
        case FS_F_CTPOP: {
            Z3_ast a = full(n.a), s = num(n.w, 0);
            for (unsigned i = 0; i < n.w; ++i) s = add(s, R(Z3_mk_zero_ext(C, n.w - 1, R(Z3_mk_extract(C, i, i, a)))));
            return rs(s, r);
        }
        case FS_F_CTLZ:
        case FS_F_CTTZ: {
            Z3_ast a = full(n.a), s = num(n.w, n.w);
            bool lz = (n.imm & 0xff) == FS_F_CTLZ;
            for (unsigned k = 0; k < n.w; ++k) {
                unsigned i = lz ? k : n.w - 1 - k;
                s = ite(R(Z3_mk_eq(C, R(Z3_mk_extract(C, i, i, a)), num(1, 1))), num(n.w, lz ? n.w - 1 - i : i), s);
            }
            return rs(s, r);
        }
        }
        break;
    }
    if (isFloatOp(n)) { // bit pattern of a floating point value
        Z3_ast f = toFp(id);
        return rs(R(Z3_mk_fpa_to_ieee_bv(C, f)), r);
    }
    st.noise++;
    return R(Z3_mk_fresh_const(C, "u", bvs(r)));
}
static Z3_ast toInt(u32 id)
{
    auto it = intCache.find(id);
    if (it != intCache.end()) return it->second;
    Z3_ast a;
    if (nodes[id].w == 1) a = ite(toBool(id), num(1, 1), num(1, 0));
    else a = calcInt(id);
    return intCache[id] = a;
}
// comparison of the difference with cancelled terms
static bool polyCmp(const Node& n, B& res)
{
    const Node &A = nodes[n.a], &Bn = nodes[n.b];
    if (A.w <= 1 || A.w > 64 || A.op == FS_CONST || Bn.op == FS_CONST) return false;
    if (n.imm >= 2 && n.imm <= 5 && (A.lo < 0 || Bn.lo < 0)) return false;
    bool merged = false;
    Poly d = pAdd(intPoly(n.a), intPoly(n.b), true, &merged);
    i128 l, h;
    if (!d || !merged || !pRange(*d, l, h)) return false;
    Z3_ast x = l == h ? nullptr : pBuild(*d, l, h);
    auto less = [&]() -> B { return h < 0 ? T() : l >= 0 ? nullptr : slt(x, num(W(x), 0)); };
    auto same = [&]() -> B { return l > 0 || h < 0 ? nullptr : l == h ? T() : eq(x, num(W(x), 0)); };
    switch (n.imm) {
    case 0: res = same(); break;
    case 1: res = nt(same()); break;
    case 2: case 6: res = an(nt(less()), nt(same())); break;
    case 3: case 7: res = nt(less()); break;
    case 4: case 8: res = less(); break;
    default: res = orr(less(), same());
    }
    return true;
}
static std::map<std::pair<u32, u32>, std::pair<B, B>> noisePair;
static void order(const Node& n, const Rep& a, const Rep& b, B& lt, B& gt, B& eqq)
{
    Common c = common(a, b);
    double E = a.err + b.err;
    { // difference with terms cancelled
        Rep x = a, y = b;
        x.nan = x.pinf = x.ninf = y.nan = y.pinf = y.ninf = nullptr;
        if (sameD(a, b) && !a.isConst() && !b.isConst()) {
            bool merged = false;
            Poly pa = getPs(a, c.s - a.s), pb = getPs(b, c.s - b.s);
            Poly d = pAdd(pa, pb, true, &merged);
            i128 l, h;
            if (d && merged && pRange(*d, l, h)) {
                c.Na = pBuild(*d, l, h); c.alo = l; c.ahi = h;
                c.Nb = num(1, 0); c.blo = c.bhi = 0;
            }
        }
    }
    if (E == 0) {
        lt = c.ahi < c.blo ? T() : c.alo >= c.bhi ? nullptr : slt(c.Na, c.Nb);
        gt = c.alo > c.bhi ? T() : c.ahi <= c.blo ? nullptr : slt(c.Nb, c.Na);
        eqq = (c.ahi < c.blo || c.alo > c.bhi) ? nullptr : eq(c.Na, c.Nb);
    } else {
        double t = std::ceil(std::ldexp(E * 1.000001, c.s) * (double)c.dhi) + 1;
        if (!(t < 1e35)) throw Fail();
        i128 tt = (i128)t;
        i128 dl = ck(c.alo - c.bhi), dh = ck(c.ahi - c.blo);
        unsigned w = std::max(sw(dl, dh), sw(-tt, tt));
        Z3_ast d = sub(rs(c.Na, w), rs(c.Nb, w));
        B sl = dh < -tt ? T() : dl >= -tt ? nullptr : slt(d, num(w, -tt)), sg = dl > tt ? T() : dh <= tt ? nullptr : slt(num(w, tt), d);
        B mid = nt(orr(sl, sg));
        std::pair<u32, u32> key(std::min(n.a, n.b), std::max(n.a, n.b));
        auto it = noisePair.find(key);
        if (it == noisePair.end()) it = noisePair.insert({key, {freshB(), freshB()}}).first;
        B n1 = it->second.first, n2 = it->second.second;
        // n1: different, n2: smaller-id side is less
        B aless = n.a <= n.b ? n2 : nt(n2);
        lt = orr(sl, an(mid, an(n1, aless)));
        gt = orr(sg, an(mid, an(n1, nt(aless))));
        eqq = an(mid, nt(n1));
    }
}
static B calcFcmp(const Node& n)
{
    unsigned p = n.imm;
    try {
        Rep a = toRep(n.a), b = toRep(n.b);
        B un = orr(a.nan, b.nan);
        B res = nullptr;
        if ((p & 7) == 7) res = nt(un);
        else if (p & 7) {
            B lt, gt, e;
            order(n, a, b, lt, gt, e);
            B ai = orr(a.pinf, a.ninf), bi = orr(b.pinf, b.ninf), fin = nt(orr(ai, bi));
            lt = orr(an(fin, lt), orr(an(a.ninf, nt(b.ninf)), an(b.pinf, nt(a.pinf))));
            gt = orr(an(fin, gt), orr(an(b.ninf, nt(a.ninf)), an(a.pinf, nt(b.pinf))));
            e = orr(an(fin, e), orr(an(a.pinf, b.pinf), an(a.ninf, b.ninf)));
            if (p & 1) res = orr(res, e);
            if (p & 2) res = orr(res, gt);
            if (p & 4) res = orr(res, lt);
            res = an(res, nt(un));
        }
        if (p & 8) res = orr(res, un);
        return res;
    } catch (Fail&) {
        st.fpq++;
        Z3_ast a = toFp(n.a), b = toFp(n.b);
        B un = orr(R(Z3_mk_fpa_is_nan(C, a)), R(Z3_mk_fpa_is_nan(C, b)));
        B res = nullptr;
        if ((p & 7) == 7) res = nt(un);
        else {
            if (p & 1) res = orr(res, R(Z3_mk_fpa_eq(C, a, b)));
            if (p & 2) res = orr(res, R(Z3_mk_fpa_gt(C, a, b)));
            if (p & 4) res = orr(res, R(Z3_mk_fpa_lt(C, a, b)));
        }
        if (p & 8) res = orr(res, un);
        return res;
    }
}
static B calcBool(u32 id)
{
    const Node n = nodes[id];
    switch (n.op) {
    case FS_CONST: return n.imm & 1 ? T() : nullptr;
    case FS_AND: return an(toBool(n.a), toBool(n.b));
    case FS_OR: return orr(toBool(n.a), toBool(n.b));
    case FS_XOR: case FS_ADD: case FS_SUB: return xo(toBool(n.a), toBool(n.b));
    case FS_MUL: return an(toBool(n.a), toBool(n.b));
    case FS_ITE: return iteB(toBool(n.a), toBool(n.b), toBool(n.c));
    case FS_FCMP: return calcFcmp(n);
    case FS_ICMP: {
        if (nodes[n.a].w == 1) {
            B a = toBool(n.a), b = toBool(n.b);
            switch (n.imm) {
            case 0: return nt(xo(a, b));
            case 1: return xo(a, b);
            case 2: case 8: return an(a, nt(b));
            case 3: case 9: return orr(a, nt(b));
            case 4: case 6: return an(nt(a), b);
            default: return orr(nt(a), b);
            }
        }
        {
            B res;
            if (polyCmp(n, res)) return res;
        }
        unsigned w = std::max(nw(n.a), nw(n.b));
        Z3_ast a = rs(toInt(n.a), w), b = rs(toInt(n.b), w);
        switch (n.imm) {
        case 0: return R(Z3_mk_eq(C, a, b));
        case 1: return nt(R(Z3_mk_eq(C, a, b)));
        case 2: return R(Z3_mk_bvugt(C, a, b));
        case 3: return R(Z3_mk_bvuge(C, a, b));
        case 4: return R(Z3_mk_bvult(C, a, b));
        case 5: return R(Z3_mk_bvule(C, a, b));
        case 6: return R(Z3_mk_bvsgt(C, a, b));
        case 7: return R(Z3_mk_bvsge(C, a, b));
        case 8: return R(Z3_mk_bvslt(C, a, b));
        default: return R(Z3_mk_bvsle(C, a, b));
        }
    }
    case FS_EXTRACT: {
        Z3_ast a = full(n.a);
        return R(Z3_mk_eq(C, R(Z3_mk_extract(C, n.imm, n.imm, a)), num(1, -1)));
    }
    }
    st.noise++;
    return freshB();
}
static B toBool(u32 id)
{
    auto it = boolCache.find(id);
    if (it != boolCache.end()) return it->second;
    B b = calcBool(id);
    boolCache[id] = b;
    return b;
}
// warm caches bottom-up so that recursion depth stays small
static void warm(u32 root)
{
    static std::vector<char> seen;
    if (seen.size() < nodes.size()) seen.resize(nodes.size(), 0);
    if (seen[root]) return;
    std::vector<std::pair<u32, int>> stk;
    stk.push_back({root, 0});
    while (!stk.empty()) {
        auto& t = stk.back();
        u32 id = t.first;
        if (t.second == 0) {
            if (seen[id]) { stk.pop_back(); continue; }
            seen[id] = 1;
        }
        const Node& n = nodes[id];
        u32 ch[3] = {n.a, n.b, n.c};
        if (t.second < 3) { u32 c = ch[t.second++]; if (c && !seen[c]) stk.push_back({c, 0}); continue; }
        stk.pop_back();
        if (id == root) break;
        if (n.w == 1) toBool(id);
        else if (isFloatOp(n)) { try { toRep(id); } catch (Fail&) {} }
        else if (n.op == FS_ITE || n.op == FS_CONST) {} // type depends on the user
        else toInt(id);
    }
}

static Z3_solver S;
static std::string inputsText()
{
    std::string s;
    for (auto& v : vars) s += v.name + "=" + std::to_string(v.lo + (i64)nodes[v.node].cval) + " ";
    return s;
}
static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3: %s\n", Z3_get_error_msg(c, e)); }
static void setTimeout(unsigned ms)
{
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
    Z3_solver_set_params(C, S, p);
    Z3_params_dec_ref(C, p);
}
void solveFlips(const Item& item, void (*emit)(const std::string&))
{
    if (decisions.empty()) return;
    double t0 = fs_now();
    Z3_config cfg = Z3_mk_config();
    C = Z3_mk_context_rc(cfg);
    Z3_set_error_handler(C, onErr);
    for (auto& v : vars) {
        unsigned w = nodes[v.node].w;
        varAst[v.node] = R(Z3_mk_const(C, Z3_mk_string_symbol(C, ("v" + std::to_string(&v - &vars[0])).c_str()), bvs(w)));
    }
    // translate everything first: tells whether FP theory is needed
    size_t nd = decisions.size();
    std::vector<Z3_ast> con(nd);
    for (size_t i = 0; i < nd; ++i) {
        const Decision& d = decisions[i];
        warm(d.expr);
        if (d.kind == D_VALUE && nodes[d.expr].w > 1) con[i] = nullptr;
        else con[i] = real(d.val ? toBool(d.expr) : nt(toBool(d.expr)));
    }
    auto valEq = [&](u32 e, u64 v) -> Z3_ast {
        const Node& n = nodes[e];
        if (n.w == 1) return real((v & 1) ? toBool(e) : nt(toBool(e)));
        // floating values: compare as rationals when possible
        if (isFloatOp(n) || n.op == FS_ITE) {
            try {
                Rep a = toRep(e);
                Rep b;
                if (n.w == 32) { float f; u32 x = v; memcpy(&f, &x, 4); b = constRep(f); } else { double f; memcpy(&f, &v, 8); b = constRep(f); }
                if (isFloatOp(n)) {
                    if (b.nan) return real(a.nan);
                    if (b.pinf) return real(a.pinf);
                    if (b.ninf) return real(a.ninf);
                    Common c = common(a, b);
                    B fin = nt(orr(a.nan, orr(a.pinf, a.ninf)));
                    if (a.err == 0) return real(an(fin, eq(c.Na, c.Nb)));
                    Node k; k.a = e; k.b = 0;
                    B lt, gt, q;
                    order(k, a, b, lt, gt, q);
                    return real(an(fin, nt(orr(lt, gt))));
                }
            } catch (Fail&) {}
        }
        i64 sv = n.w >= 64 ? (i64)v : ((i64)(v << (64 - n.w))) >> (64 - n.w);
        Z3_ast x = toInt(e);
        unsigned w = std::max(W(x), sw(sv, sv));
        return real(eq(rs(x, w), num(w, sv)));
    };
    for (size_t i = 0; i < nd; ++i)
        if (!con[i]) con[i] = valEq(decisions[i].expr, decisions[i].val);
    for (u64 v : item.excl) if (item.k >= 0 && item.k < (int)nd) valEq(decisions[item.k].expr, v);
    S = usesFp ? Z3_mk_simple_solver(C) : Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
    Z3_solver_inc_ref(C, S);
    setTimeout(opts.queryMs);
    for (auto& v : vars) {
        unsigned w = nodes[v.node].w;
        if (w < 64 || v.max != ~0ull) {
            Z3_ast mx = R(Z3_mk_unsigned_int64(C, v.max, bvs(w)));
            Z3_solver_assert(C, S, R(Z3_mk_bvule(C, varAst[v.node], mx)));
        }
    }
    // prefix hashes
    u64 h = 1469598103934665603ull;
    for (size_t i = 0; i < nd; ++i) {
        const Decision& d = decisions[i];
        bool flip = (int)i > item.k;
        if ((int)i == item.k && d.kind == D_VALUE) flip = true;
        if (d.kind == D_ASSUME && d.val) flip = false;
        if (d.kind == D_ASSERT && !d.val) flip = true;
        if (flip && fs_now() - t0 > opts.childSolve) { st.skippedFlips++; flip = false; }
        if (flip) {
            std::vector<Z3_ast> as;
            std::vector<u64> excl;
            if (d.kind == D_VALUE) {
                if ((int)i == item.k) excl = item.excl;
                excl.push_back(d.val);
                for (u64 v : excl) as.push_back(R(Z3_mk_not(C, valEq(d.expr, v))));
            } else
                as.push_back(R(Z3_mk_not(C, con[i])));
            if (d.kind == D_ASSERT) st.assertQ++;
            else st.flipQ++;
            Z3_lbool r;
            if (as.size() == 1 && Z3_is_eq_ast(C, con[i], T()) && d.kind != D_VALUE) r = Z3_L_FALSE;
            else {
                Z3_solver_push(C, S);
                for (auto a : as) Z3_solver_assert(C, S, a);
                double q0 = fs_now();
                if (opts.verbose > 1) for (auto a : as) fprintf(stderr, "query kind %d: %s\n", d.kind, Z3_ast_to_string(C, a));
                r = Z3_solver_check(C, S);
                st.solverTime += fs_now() - q0;
                if (opts.verbose && fs_now() - q0 > 1) fprintf(stderr, "slow query %.1fs result %d kind %d decision %zu of %zu fp %d: %s\n", fs_now() - q0, (int)r, d.kind, i, nd, (int)usesFp, inputsText().c_str());
                if (r == Z3_L_TRUE) {
                    st.sat++;
                    Z3_model m = Z3_solver_get_model(C, S);
                    Z3_model_inc_ref(C, m);
                    std::string s = "I " + std::to_string(i) + " " + std::to_string(d.val) + " " + std::to_string(h) + " " + std::to_string(d.site) + " " + std::to_string(d.kind) + " " + std::to_string(d.kind == D_VALUE ? excl.size() : 0);
                    if (d.kind == D_VALUE) for (u64 v : excl) s += " " + std::to_string(v);
                    s += " | ";
                    for (auto& v : vars) {
                        u64 raw = nodes[v.node].cval;
                        Z3_func_decl fd = Z3_get_app_decl(C, Z3_to_app(C, varAst[v.node]));
                        if (Z3_model_has_interp(C, m, fd)) {
                            Z3_ast val = Z3_model_get_const_interp(C, m, fd);
                            uint64_t x;
                            if (val && Z3_get_numeral_uint64(C, val, &x)) raw = x;
                        }
                        s += v.name + "=" + std::to_string((i64)((u64)v.lo + raw)) + " ";
                    }
                    Z3_model_dec_ref(C, m);
                    emit(s + "\n");
                }
                Z3_solver_pop(C, S, 1);
            }
            if (r == Z3_L_FALSE) { st.unsat++; if (d.kind == D_ASSERT) st.assertUnsat++; }
            if (r == Z3_L_UNDEF) st.unknown++;
        }
        if (!Z3_is_eq_ast(C, con[i], T())) Z3_solver_assert(C, S, con[i]);
        h = (h ^ d.site) * 1099511628211ull;
        h = (h ^ d.kind) * 1099511628211ull;
        h = (h ^ d.val) * 1099511628211ull;
    }
}
} // namespace fs
