/*FS {
 "tus": ["interpolation.c"],
 "quick_s": 30, "thorough_s": 120,
 "bounds": ["arrays of 0..4 values, each k/4 in [-64,64] or undefined; fill value of the same kind"],
 "outside": ["longer arrays (elements are independent)"]
} */
#include "fs.h"
#include "fimex/interpolation.h"
#include <cmath>
namespace {
template <class T>
int load(T* a, T* b)
{
    int n = fs_pick("n", 0, 4);
    for (int i = 0; i < 4; i++)
        a[i] = b[i] = (T)fs_real_or_nan("a" + std::to_string(i), -64, 64, 2);
    a[4] = b[4] = 99;
    return n;
}
}
FS_HARNESS(bad2nan)
{
    float a[5], b[5];
    int n = load(a, b);
    float bad = (float)fs_real_or_nan("bad", -64, 64, 2);
    mifi_bad2nanf(a, a + n, bad);
    for (int i = 0; i < 5; i++) {
        if (i < n)
            FS_ASSERT((b[i] == bad) ? a[i] != a[i] : FS_SAME(a[i], b[i]), "exactly the fill values become undefined");
        else
            FS_ASSERT(FS_SAME(a[i], b[i]), "nothing changed behind the end");
    }
}
FS_HARNESS(nan2bad)
{
    float a[5], b[5];
    int n = load(a, b);
    float bad = (float)fs_real_or_nan("bad", -64, 64, 2);
    mifi_nanf2bad(a, a + n, bad);
    for (int i = 0; i < 5; i++)
        FS_ASSERT(FS_SAME(a[i], (i < n && b[i] != b[i] ? bad : b[i])), "exactly the undefined values become fill values");
}
FS_HARNESS(nan2bad_d)
{
    double a[5], b[5];
    int n = load(a, b);
    double bad = fs_real_or_nan("bad", -64, 64, 2);
    mifi_nand2bad(a, a + n, bad);
    for (int i = 0; i < 5; i++)
        FS_ASSERT(FS_SAME(a[i], (i < n && b[i] != b[i] ? bad : b[i])), "exactly the undefined values become fill values");
}
FS_HARNESS(roundtrip)
{
    // fill -> undefined -> fill is the identity
    float a[5], b[5];
    int n = load(a, b);
    float bad = (float)fs_real_or_nan("bad", -64, 64, 2);
    bool clean = true;
    for (int i = 0; i < n; i++)
        clean = clean & ((b[i] == b[i]) | (bad != bad));
    mifi_bad2nanf(a, a + n, bad);
    mifi_nanf2bad(a, a + n, bad);
    if (clean)
        for (int i = 0; i < 5; i++)
            FS_ASSERT(FS_SAME(a[i], b[i]), "conversion of fill values and back");
}
