/*FS {
 "tus": ["interpolation.c"],
 "quick_s": 60, "thorough_s": 600,
 "bounds": ["axes of 2..4 (thorough 5) strictly monotonic values, ascending or descending, with steps 1, 2, 4 or 10", "points k/4 over 3 steps before to 3 behind the axis, NaN and infinity", "longitude axes from a table of circular and regional axes; points every 1/2 degree in [-180,360]"],
 "outside": ["axes with a single value", "longitude axes that leave both [-180,180] and [0,360]", "deviations below 1/32 axis unit"]
} */
#include "fs.h"
#include "fimex/interpolation.h"
#include <cmath>
#include <vector>
namespace {
// axis value at a fractional position, linearly extended outside
void checkPosition(const double* ax, int n, double pos, double point, const char* msg)
{
    bool ok = false;
    for (int i = 0; i + 1 < n; i++) {
        bool in = (i == 0 ? true : pos >= i - 0x1p-10) & (i + 2 == n ? true : pos <= i + 1 + 0x1p-10);
        double v = ax[i] + (pos - i) * (ax[i + 1] - ax[i]);
        ok = ok | (in & (std::fabs(v - point) < 0x1p-5));
    }
    fs_assert_(ok, msg);
}
}
FS_HARNESS(axis)
{
    fs_fork_index(1);
    static const double steps[] = {1, 2, 4, 10};
    int n = fs_pick("n", 2, fs_thorough() ? 5 : 4);
    bool desc = fs_pick("desc", 0, 1);
    std::vector<double> ax(n);
    ax[0] = 2;
    for (int i = 1; i < n; i++)
        ax[i] = ax[i - 1] + (desc ? -1 : 1) * steps[fs_pick("s" + std::to_string(i), 0, 3)];
    int type = fs_pick("type", 0, 1) ? MIFI_LATITUDE : MIFI_PROJ_AXIS;
    double lo = std::min(ax[0], ax[n - 1]) - 20, hi = std::max(ax[0], ax[n - 1]) + 20;
    double p[3] = {fs_real("p", (int)lo, (int)hi, 2), ax[n - 1], ax[0] + (ax[1] - ax[0]) / 2}, q[3] = {p[0], p[1], p[2]};
    FS_ASSERT(mifi_points2position(p, 3, ax.data(), n, type) == MIFI_OK, "return code");
    checkPosition(ax.data(), n, p[0], q[0], "position is the linear inverse of the axis");
    FS_ASSERT(p[1] == n - 1, "an axis value is found at its index");
    FS_ASSERT(fs_near(p[2], 0.5, 1e-9), "half way between axis values");
}
FS_HARNESS(undefined)
{
    fs_fork_index(1);
    double ax[3] = {1, 2, 4};
    int k = fs_pick("k", 0, 3);
    static const double odd[] = {std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 1};
    double p[2] = {odd[k], fs_real("p", -3, 8, 3)}, q = p[1];
    int type = fs_pick("type", 0, 2) == 0 ? MIFI_LATITUDE : fs_pick("t2", 0, 1) ? MIFI_LONGITUDE : MIFI_PROJ_AXIS;
    mifi_points2position(p, 2, ax, 3, type);
    FS_ASSERT(p[0] == (k == 3 ? 0 : -999), "undefined points are far outside");
    if (type != MIFI_LONGITUDE || q >= 0)
        checkPosition(ax, 3, p[1], q, "points after undefined ones are still translated");
}
FS_HARNESS(longitude)
{
    fs_fork_index(1);
    struct A { int n; double v[8]; bool circ; };
    static const A axes[] = {{4, {0, 90, 180, 270}, true},     {4, {-180, -90, 0, 90}, true},  {4, {270, 180, 90, 0}, true}, {4, {90, 0, -90, -180}, true},
                             {3, {0, 120, 240}, true},         {3, {10, 20, 30}, false},       {3, {-10, 0, 10}, false},     {3, {170, 180, 190}, false},
                             {3, {30, 20, 10}, false},         {3, {10, 0, -10}, false},       {4, {45, 135, 225, 315}, true}, {4, {-135, -45, 45, 135}, true},
                             {8, {0, 45, 90, 135, 180, 225, 270, 315}, true}, {4, {0, 80, 160, 240}, false}, {3, {-180, -170, -160}, false}, {2, {340, 350}, false}};
    const A& a = axes[fs_pick("axis", 0, 15)];
    const double* ax = a.v;
    double p = fs_real("p", -180, 360, 1), q = p;
    FS_ASSERT(mifi_points2position(&p, 1, ax, a.n, MIFI_LONGITUDE) == MIFI_OK, "return code");
    // the value of the axis at the position found is the point, modulo 360 degrees
    bool neg = ax[0] < 0 || ax[a.n - 1] < 0;
    double norm = neg ? (q > 180 ? q - 360 : q) : (q < 0 ? q + 360 : q);
    if (!a.circ) {
        checkPosition(ax, a.n, p, norm, "position on a regional longitude axis");
        return;
    }
    FS_ASSERT(p >= -0.5 - 0x1p-10 && p <= a.n - 0.5 + 0x1p-10, "every longitude is at most half a cell off a circular axis");
    bool ok = false;
    double step = ax[1] - ax[0];
    // equidistant circular axis: closed form
    for (int k = -1; k <= 1; k++)
        ok = ok | (std::fabs(ax[0] + p * step + 360 * k - norm) < 0x1p-5);
    FS_ASSERT(ok, "position on a circular longitude axis");
}
FS_HARNESS(bsearch)
{
    // index of a key, or -1-(insertion point)
    int n = fs_pick("n", 1, 4);
    bool desc = fs_pick("desc", 0, 1);
    double ax[4];
    ax[0] = 0;
    for (int i = 1; i < n; i++)
        ax[i] = ax[i - 1] + (desc ? -1 : 1) * (double)fs_int("s" + std::to_string(i), 1, 5);
    double key = fs_real("key", -17, 17, 1);
    int r = bsearchDoubleIndex(key, ax, n, desc ? descendingDoubleComparator : ascendingDoubleComparator);
    int before = 0;
    bool hit = false;
    for (int i = 0; i < n; i++) {
        hit = hit | (ax[i] == key);
        before += (desc ? ax[i] > key : ax[i] < key) ? 1 : 0;
    }
    if (hit)
        FS_ASSERT(r == before, "search finds the key");
    else
        FS_ASSERT(r == -1 - before, "search tells the insertion point");
}
