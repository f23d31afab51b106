/*FS {
 "tus": ["interpolation.c"],
 "quick_s": 90, "thorough_s": 900,
 "bounds": ["fields of 1..3 x 1..3 cells (thorough 4 x 3), every subset of cells undefined, one or two cells with an arbitrary value k/2 in [-16,16], the others fixed different values", "1 or 2 relaxation loops with symbolic values, up to 60 loops for the convergence check; 1..3 smoothing repeats; weights 1..3"],
 "outside": ["larger fields, more loops", "the numerical speed of convergence"]
} */
#include "fs.h"
#include "fimex/interpolation.h"
#include <cmath>
#include <vector>
namespace {
const double NaN = std::numeric_limits<double>::quiet_NaN();
struct Field
{
    int nx, ny, n;
    std::vector<float> v, org;
    std::vector<char> undef;
    int nUndef = 0;
    float lo = 1e9f, hi = -1e9f;
    explicit Field(int maxx, int maxy, int sym = 1)
    {
        nx = fs_pick("nx", 1, maxx);
        ny = fs_pick("ny", 1, maxy);
        n = nx * ny;
        int mask = fs_pick("mask", 0, (1 << n) - 1);
        for (int i = 0; i < n; i++) {
            undef.push_back((mask >> i) & 1);
            nUndef += undef[i];
            float x = i < sym ? (float)fs_real("v" + std::to_string(i), -16, 16, 1) : (float)((i * 7) % 11 - 3);
            v.push_back(undef[i] ? (float)NaN : x);
            if (!undef[i]) {
                lo = (float)fs_sel(x < lo, x, lo);
                hi = (float)fs_sel(x > hi, x, hi);
            }
        }
        org = v;
        v.push_back(4711); // guard
    }
    void check(size_t changed, bool hull, float dflt = NAN)
    {
        FS_ASSERT(v[n] == 4711, "no value written behind the field");
        FS_ASSERT((int)changed == nUndef, "number of filled cells");
        if (nUndef == n) {
            for (int i = 0; i < n; i++)
                FS_ASSERT(v[i] != v[i], "a field without any value stays undefined");
            return;
        }
        if (dflt == dflt) {
            lo = (float)fs_sel(dflt < lo, dflt, lo);
            hi = (float)fs_sel(dflt > hi, dflt, hi);
        }
        for (int i = 0; i < n; i++) {
            if (!undef[i])
                FS_ASSERT(v[i] == org[i], "defined cells keep their value");
            else {
                FS_ASSERT(v[i] == v[i] && std::fabs(v[i]) < 1e6f, "undefined cells get a value");
                if (hull)
                    FS_ASSERT(v[i] >= lo - 1e-2f && v[i] <= hi + 1e-2f, "filled values are within the range of the given values");
            }
        }
    }
};
}
FS_HARNESS(relax)
{
    Field f(3, 3);
    size_t changed = 99;
    int loops = fs_pick("loops", 0, 2);
    FS_ASSERT(mifi_fill2d_f(f.nx, f.ny, f.v.data(), 0.01f, 1.5f, loops, &changed) == MIFI_OK, "return code");
    f.check(changed, loops == 0);
}
FS_HARNESS(converge)
{
    // a single undefined inner cell converges to the mean of its four neighbours
    int nx = fs_pick("nx", 3, 4), ny = fs_pick("ny", 3, 4);
    int ux = fs_pick("ux", 1, nx - 2), uy = fs_pick("uy", 1, ny - 2);
    std::vector<float> v(nx * ny + 1, 4711);
    for (int i = 0; i < nx * ny; i++)
        v[i] = (float)((i * 7) % 11 - 3);
    int sym = fs_pick("sym", 0, 3), u = uy * nx + ux;
    int nb[4] = {u - 1, u + 1, u - nx, u + nx};
    v[nb[sym]] = (float)fs_pick("v", -16, 16);
    v[u] = NAN;
    std::vector<float> org = v;
    size_t changed = 99;
    FS_ASSERT(mifi_fill2d_f(nx, ny, v.data(), 1e-5f, 1.5f, 60, &changed) == MIFI_OK, "return code");
    FS_ASSERT(changed == 1, "number of filled cells");
    double mean = (org[nb[0]] + org[nb[1]] + org[nb[2]] + org[nb[3]]) / 4.;
    FS_ASSERT(fs_near(v[u], mean, 0.02), "harmonic filling");
    for (int i = 0; i <= nx * ny; i++)
        if (i != u)
            FS_ASSERT(v[i] == org[i], "defined cells keep their value");
}
FS_HARNESS(creep)
{
    Field f(3, 3);
    size_t changed = 99;
    int repeat = fs_pick("repeat", 1, 3), weight = fs_pick("weight", 1, 3);
    FS_ASSERT(mifi_creepfill2d_f(f.nx, f.ny, f.v.data(), repeat, weight, &changed) == MIFI_OK, "return code");
    f.check(changed, true);
}
FS_HARNESS(creepval)
{
    Field f(3, 3);
    size_t changed = 99;
    int repeat = fs_pick("repeat", 1, 2), weight = fs_pick("weight", 1, 2);
    float dflt = (float)fs_pick("dflt", -1, 1) * 20;
    FS_ASSERT(mifi_creepfillval2d_f(f.nx, f.ny, f.v.data(), dflt, repeat, weight, &changed) == MIFI_OK, "return code");
    f.check(changed, true, dflt);
}
FS_HARNESS(creep_neighbours)
{
    // an undefined inner cell surrounded by values: weighted mean of neighbours and previous value, every repeat
    float v[10], d = (float)fs_pick("d", -2, 2);
    int weight = fs_pick("weight", 1, 3), repeat = fs_pick("repeat", 1, 2);
    for (int i = 0; i < 9; i++)
        v[i] = (float)((i * 7) % 11 - 3);
    v[1] = (float)fs_real("v1", -16, 16, 1);
    v[5] = (float)fs_real("v5", -16, 16, 1);
    v[4] = NAN;
    double e = d, s = v[1] + v[3] + v[5] + v[7];
    for (int r = 0; r < repeat; r++)
        e = (e + weight * s) / (1 + 4 * weight);
    size_t changed = 0;
    mifi_creepfillval2d_f(3, 3, v, d, repeat, weight, &changed);
    FS_ASSERT(changed == 1, "number of filled cells");
    FS_ASSERT(fs_near(v[4], e, 1e-2), "creep filling of a cell from its neighbours");
}
