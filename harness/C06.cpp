/*FS {
 "tus": ["interpolation.c"],
 "quick_s": 45, "thorough_s": 600,
 "bounds": ["fields of 2 values, each k/2 in [-16,16] or undefined", "target position k/4 in [-12,12] (enumerated for distance 3); layer positions from a table with distances 0, +-1, +-2, +-4, +-3", "logarithmic variants: positions from a table of positive and non-positive numbers (logarithms are evaluated, not solved)"],
 "outside": ["rounding beyond an absolute tolerance of 1e-3", "infinite values"]
} */
#include "fs.h"
#include "fimex/interpolation.h"
#include <cmath>
namespace {
const double AS[] = {0, 1, -2, 5.5}, DS[] = {1, -1, 2, -2, 4, -4, 0, 3, -3};
const float GUARD = -7777.f;
typedef int (*fun_t)(const float*, const float*, float*, const size_t, const double, const double, const double);
enum kind { FULL, WEAK, NONE, CONST };
const double NaN = std::numeric_limits<double>::quiet_NaN();

// value expected at the fraction f between A (0) and B (1)
double expected(kind k, double A, double B, double f)
{
    if (f == 0)
        return A;
    if (f == 1)
        return B;
    if (k == NONE && !(f > 0 && f < 1))
        return NaN;
    if (k == WEAK && !(f >= -1 && f <= 2))
        return NaN;
    if (k == CONST && f > 1)
        return B;
    if (k == CONST && f < 0)
        return A;
    return A + f * (B - A);
}

// for distances that are powers of two any position, otherwise enumerated positions
double position(double d)
{
    bool three = d == 3 || d == -3;
    int64_t k = fs_int("x", -48, 48);
    if (three)
        k = fs_enum_(k);
    return k * 0.25;
}

void kernel(fun_t fun, kind k)
{
    double a = AS[fs_pick("a", 0, 3)], d = DS[fs_pick("d", 0, 8)];
    double b = a + d, x = position(d);
    float A[2], B[2], o[3] = {GUARD, GUARD, GUARD};
    for (int i = 0; i < 2; i++) {
        A[i] = (float)fs_real_or_nan("A" + std::to_string(i), -16, 16, 1);
        B[i] = i == 0 ? (float)fs_real_or_nan("B" + std::to_string(i), -16, 16, 1) : 3.5f;
    }
    float a0 = A[0], a1 = A[1], b0 = B[0];
    FS_ASSERT(fun(A, B, o, 2, a, b, x) == MIFI_OK, "return code");
    FS_ASSERT(o[2] == GUARD, "no value written behind the end");
    FS_ASSERT(FS_SAME(A[0], a0) & FS_SAME(A[1], a1) & FS_SAME(B[0], b0), "input unchanged");
    double f = d == 0 ? 0 : (x - a) / d;
    // the limits of extrapolation, compared without division
    if (d == 3 || d == -3) { // not representable: stay off the limits by rounding
        FS_ASSUME(x == a || x == b || (std::fabs(f) > 0.01 && std::fabs(f - 1) > 0.01));
        if (x == a)
            f = 0;
        if (x == b)
            f = 1;
        FS_ASSUME(std::fabs(f + 1) > 0.01 && std::fabs(f - 2) > 0.01);
    }
    for (int i = 0; i < 2; i++) {
        double e = expected(k, A[i], B[i], f);
        FS_ASSERT(fs_near(o[i], e, 1e-3), "interpolated value");
        if (f == 0 || f == 1)
            FS_ASSERT(FS_SAME(o[i], (float)e), "exact at the position of a layer, whatever the other layer holds");
    }
}
}
FS_HARNESS(linear) { kernel(mifi_get_values_linear_f, FULL); }
FS_HARNESS(weak) { kernel(mifi_get_values_linear_weak_extrapol_f, WEAK); }
FS_HARNESS(none) { kernel(mifi_get_values_linear_no_extrapol_f, NONE); }
FS_HARNESS(constant) { kernel(mifi_get_values_linear_const_extrapol_f, CONST); }

FS_HARNESS(linear_d)
{
    double a = AS[fs_pick("a", 0, 3)], d = DS[fs_pick("d", 0, 8)];
    double b = a + d, x = position(d);
    double A[2], B[2], o[3] = {GUARD, GUARD, GUARD};
    for (int i = 0; i < 2; i++) {
        A[i] = fs_real_or_nan("A" + std::to_string(i), -16, 16, 1);
        B[i] = i == 0 ? fs_real_or_nan("B" + std::to_string(i), -16, 16, 1) : 3.5;
    }
    FS_ASSERT(mifi_get_values_linear_d(A, B, o, 2, a, b, x) == MIFI_OK, "return code");
    FS_ASSERT(o[2] == GUARD, "no value written behind the end");
    double f = d == 0 ? 0 : (x - a) / d;
    if (d == 3 || d == -3) {
        if (x == a)
            f = 0;
        if (x == b)
            f = 1;
    }
    for (int i = 0; i < 2; i++) {
        double e = expected(FULL, A[i], B[i], f);
        FS_ASSERT(fs_near(o[i], e, 1e-6), "interpolated value");
        if (f == 0 || f == 1)
            FS_ASSERT(FS_SAME(o[i], e), "exact at the position of a layer");
    }
}

namespace {
const double POS[] = {0, -1, 0.001, 0.5, 1, 3, 100, 850, 1013.25};
void logs(fun_t fun, bool twice)
{
    double a = POS[fs_pick("a", 0, 8)], b = POS[fs_pick("b", 0, 8)], x = POS[fs_pick("x", 0, 8)];
    float A[2], B[2], o[3] = {GUARD, GUARD, GUARD};
    for (int i = 0; i < 2; i++) {
        A[i] = (float)fs_real_or_nan("A" + std::to_string(i), -16, 16, 1);
        B[i] = i == 0 ? (float)fs_real_or_nan("B" + std::to_string(i), -16, 16, 1) : 3.5f;
    }
    int r = fun(A, B, o, 2, a, b, x);
    FS_ASSERT(o[2] == GUARD, "no value written behind the end");
    if (a <= 0 || b <= 0 || x <= 0) {
        FS_ASSERT(r == MIFI_ERROR, "positions without logarithm are an error");
        FS_ASSERT(o[0] == GUARD && o[1] == GUARD, "nothing written on error");
        return;
    }
    FS_ASSERT(r == MIFI_OK, "return code");
    auto L = [twice](double v) { return twice ? std::log(std::log(v + M_E)) : std::log(v); };
    double f = a == b ? 0 : (L(x) - L(a)) / (L(b) - L(a));
    for (int i = 0; i < 2; i++) {
        double e = x == b && a != b ? B[i] : expected(FULL, A[i], B[i], f);
        FS_ASSERT(fs_near(o[i], e, 1e-3 * (1 + std::fabs(f))), "interpolated value");
    }
}
}
FS_HARNESS(logarithmic) { logs(mifi_get_values_log_f, false); }
FS_HARNESS(loglog) { logs(mifi_get_values_log_log_f, true); }
