/*FS {
 "tus": ["interpolation.c"],
 "quick_s": 160, "thorough_s": 900,
 "bounds": ["fields of 1..3 x 1..3 cells (bicubic 3..5 x 3..5) and 1..2 layers, every cell an arbitrary integer in [-8,7] or undefined", "fractional positions k/8 (bicubic k/4) from 2 cells before to 2 behind the field, and NaN, infinite, +-2^32 and +-1e10 positions"],
 "outside": ["larger fields", "rounding beyond an absolute tolerance of 1e-3"]
} */
#include "fs.h"
#include "fimex/interpolation.h"
#include <cmath>
#include <vector>
namespace {
const float GUARD = -7777.f;
const double NaN = std::numeric_limits<double>::quiet_NaN();
const double INF = std::numeric_limits<double>::infinity();
typedef int (*fun_t)(const float*, float*, const double, const double, const int, const int, const int);
struct Field
{
    int ix, iy, iz;
    std::vector<float> v;
    Field(int lo, int hi, int maxz, int minz = 1)
    {
        ix = fs_pick("ix", lo, hi);
        iy = fs_pick("iy", lo, hi);
        iz = fs_pick("iz", minz, maxz);
        v.resize(ix * iy * iz);
        for (size_t i = 0; i < v.size(); i++) {
            std::string n = "c" + std::to_string(i);
            v[i] = (float)fs_int(n, -8, 7);
        }
        int u = fs_int("undef", -1, v.size() - 1); // at most one undefined cell
        for (size_t i = 0; i < v.size(); i++)
            v[i] = (float)fs_sel(u == (int)i, NaN, v[i]);
    }
    double at(int x, int y, int z) const { return v[(z * iy + y) * ix + x]; }
};
// integer part enumerated, fraction symbolic
double position(const char* n, int len, int frac, bool enumFrac, bool allowOdd = true)
{
    static const double odd[] = {NaN, INF, -INF, 4294967296., -4294967296., 1e10, -1e10, 4294967297., -999};
    int i = fs_pick(n, -2, allowOdd ? len + 1 + 9 : len + 1);
    if (i > len + 1)
        return odd[i - len - 2];
    int k = fs_int(std::string(n) + ".f", 0, frac - 1);
    if (enumFrac)
        k = i >= 0 && i < len ? fs_enum_(k) : fs_enum_(k & (frac / 2));
    return i + (double)k / frac;
}
// nearest cell or -1; the interval of cell i is [i-0.5, i+0.5) (ends rounded away from zero)
int nearest(double x, int n)
{
    for (int i = 0; i < n; i++)
        if ((i == 0 ? x > -0.5 : x >= i - 0.5) && x < i + 0.5)
            return i;
    return -1;
}
}
FS_HARNESS(nearestneighbor)
{
    Field f(1, 3, 2);
    double x = position("x", f.ix, 8, false), y = position("y", f.iy, 8, false);
    float o[3] = {GUARD, GUARD, GUARD};
    FS_ASSERT(mifi_get_values_f(f.v.data(), o, x, y, f.ix, f.iy, f.iz) == MIFI_OK, "return code");
    FS_ASSERT(o[f.iz] == GUARD, "no value written behind the last layer");
    int i = nearest(x, f.ix), j = nearest(y, f.iy);
    for (int z = 0; z < f.iz; z++) {
        double e = i < 0 || j < 0 ? NaN : f.at(i, j, z);
        FS_ASSERT(FS_SAME((double)o[z], e), "nearest neighbour value");
    }
}
FS_HARNESS(bilinear)
{
    Field f(1, 3, 2, 2);
    bool xo = fs_pick("xodd", 0, 1);
    double x = position("x", f.ix, 8, xo, xo), y = position("y", f.iy, 8, !xo, !xo);
    float o[3] = {GUARD, GUARD, GUARD};
    FS_ASSERT(mifi_get_values_bilinear_f(f.v.data(), o, x, y, f.ix, f.iy, f.iz) == MIFI_OK, "return code");
    FS_ASSERT(o[f.iz] == GUARD, "no value written behind the last layer");
    // within the field: two columns with weights; up to half a cell outside: one column
    int i0 = -1, i1, j0 = -1, j1;
    double fx = 0, fy = 0;
    for (int i = 0; i + 1 < f.ix; i++)
        if (x >= i && x < i + 1) {
            i0 = i;
            fx = x - i;
        }
    i1 = i0 + 1;
    if (i0 < 0)
        i0 = i1 = nearest(x, f.ix);
    for (int j = 0; j + 1 < f.iy; j++)
        if (y >= j && y < j + 1) {
            j0 = j;
            fy = y - j;
        }
    j1 = j0 + 1;
    if (j0 < 0)
        j0 = j1 = nearest(y, f.iy);
    for (int z = 0; z < f.iz; z++) {
        double e = NaN;
        if (i0 >= 0 && j0 >= 0)
            e = (1 - fy) * ((1 - fx) * f.at(i0, j0, z) + fx * f.at(i1, j0, z)) + fy * ((1 - fx) * f.at(i0, j1, z) + fx * f.at(i1, j1, z));
        FS_ASSERT(fs_near(o[z], e, 1e-3), "bilinear value");
    }
}
FS_HARNESS(bicubic)
{
    Field f(3, fs_thorough() ? 5 : 4, fs_thorough() ? 2 : 1);
    bool xo = fs_pick("xodd", 0, 1);
    double x = position("x", f.ix, 4, true, xo), y = position("y", f.iy, 4, true, !xo);
    float o[3] = {GUARD, GUARD, GUARD};
    FS_ASSERT(mifi_get_values_bicubic_f(f.v.data(), o, x, y, f.ix, f.iy, f.iz) == MIFI_OK, "return code");
    FS_ASSERT(o[f.iz] == GUARD, "no value written behind the last layer");
    if (!(x >= 1 && x < f.ix - 2 && y >= 1 && y < f.iy - 2)) {
        for (int z = 0; z < f.iz; z++)
            FS_ASSERT(o[z] != o[z], "bicubic is undefined without two cells on every side");
        return;
    }
    int i0 = (int)x, j0 = (int)y;
    // cubic convolution kernel with a = -0.5
    auto w = [](double t) {
        t = std::fabs(t);
        return t <= 1 ? 1.5 * t * t * t - 2.5 * t * t + 1 : t < 2 ? -0.5 * t * t * t + 2.5 * t * t - 4 * t + 2 : 0.;
    };
    for (int z = 0; z < f.iz; z++) {
        double e = 0;
        for (int j = -1; j <= 2; j++)
            for (int i = -1; i <= 2; i++)
                e += w(x - (i0 + i)) * w(y - (j0 + j)) * f.at(i0 + i, j0 + j, z);
        FS_ASSERT(fs_near(o[z], e, 1e-3), "bicubic value");
    }
}
FS_HARNESS(method_names)
{
    static const struct { const char* n; int m; } names[] = {
        {"bilinear", MIFI_INTERPOL_BILINEAR}, {"nearestneighbor", MIFI_INTERPOL_NEAREST_NEIGHBOR}, {"bicubic", MIFI_INTERPOL_BICUBIC},
        {"coord_nearestneighbor", MIFI_INTERPOL_COORD_NN}, {"coord_kdtree", MIFI_INTERPOL_COORD_NN_KD}, {"forward_sum", MIFI_INTERPOL_FORWARD_SUM},
        {"forward_mean", MIFI_INTERPOL_FORWARD_MEAN}, {"forward_median", MIFI_INTERPOL_FORWARD_MEDIAN}, {"forward_max", MIFI_INTERPOL_FORWARD_MAX},
        {"forward_min", MIFI_INTERPOL_FORWARD_MIN}, {"forward_undef_sum", MIFI_INTERPOL_FORWARD_UNDEF_SUM}, {"forward_undef_mean", MIFI_INTERPOL_FORWARD_UNDEF_MEAN},
        {"forward_undef_median", MIFI_INTERPOL_FORWARD_UNDEF_MEDIAN}, {"forward_undef_max", MIFI_INTERPOL_FORWARD_UNDEF_MAX}, {"forward_undef_min", MIFI_INTERPOL_FORWARD_UNDEF_MIN}};
    const int N = sizeof(names) / sizeof(names[0]);
    int k = fs_pick("name", 0, N - 1);
    // the name with one character replaced by an arbitrary one, or cut, or extended
    std::string s = names[k].n;
    FS_ASSERT(mifi_string_to_interpolation_method(s.c_str()) == names[k].m, "interpolation method of a documented name");
    int p = fs_pick("pos", 0, 24);
    if (p < (int)s.size()) {
        char c = (char)fs_int("ch", 1, 127);
        FS_ASSUME(c != s[p]);
        s[p] = c;
    } else if (p == 23)
        s += "x";
    else
        s = s.substr(0, s.size() - 1);
    FS_ASSERT(mifi_string_to_interpolation_method(s.c_str()) == MIFI_INTERPOL_UNKNOWN, "other names are unknown");
}
