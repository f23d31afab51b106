/*FS {
 "tus": ["Data.cc","DataUtils.cc","NativeData.cc","StringData.cc","CDMDataType.cc","Type2String.cc","String2Type.cc","MathUtils.cc","StringUtils.cc","SharedArray.cc","CDMException.cc","Units*.cc","MutexLock.cc","Logger.cc","Log4cppLogger.cc","binaryConstants.cc"],
 "quick_s": 90, "thorough_s": 900,
 "weights": {"slice3": 3},
 "bounds": ["arrays of 1 to 3 dimensions, each of length 0..3 (thorough: 0..4), all ten numeric element types for the one-dimensional case, int beyond", "start and size of one dimension over the full unsigned 64-bit range, of the others 0..4", "range copies: arrays of 0..4 elements, target position, first and end over the full unsigned 64-bit range"],
 "assumptions": ["the text of error messages is not examined"],
 "outside": ["more than 3 dimensions, longer dimensions", "string element types"]
} */
#include "fs.h"
#include "fimex/CDMException.h"
#include "fimex/Data.h"
#include "fimex/SharedArray.h"
#include <stdexcept>
#include <vector>
using namespace MetNoFimex;

namespace {
const CDMDataType types[10] = {CDM_CHAR, CDM_SHORT, CDM_INT, CDM_UCHAR, CDM_USHORT, CDM_UINT, CDM_INT64, CDM_UINT64, CDM_FLOAT, CDM_DOUBLE};
size_t anySize(const std::string& n) { return (size_t)fs_int(n, INT64_MIN, INT64_MAX); }

void slices(int nd, int maxLen, bool anyType)
{
    fs_text_lossy(1);
    std::vector<size_t> org(nd), start(nd), size(nd);
    size_t total = 1;
    CDMDataType t = anyType ? types[fs_pick("type", 0, 9)] : CDM_INT;
    if (t != CDM_INT && !fs_thorough())
        maxLen = 2;
    int big = nd == 1 ? 0 : fs_pick("big", -1, nd - 1); // the dimension with arbitrary request
    for (int i = 0; i < nd; i++) {
        org[i] = nd == 3 && big >= 0 && i != big ? 2 : fs_pick("len" + std::to_string(i), 0, maxLen);
        total *= org[i];
    }
    DataPtr d = createData(t, total, 0.0);
    std::vector<int> val(total);
    for (size_t i = 0; i < total; i++) {
        val[i] = t == CDM_INT ? (int)fs_int("v" + std::to_string(i), INT32_MIN, INT32_MAX) : 3 + (int)i;
        if (t == CDM_INT)
            ((int*)d->getDataPtr())[i] = val[i];
        else
            d->setValue(i, val[i]);
    }
    bool ok = true;
    for (int i = 0; i < nd; i++) {
        std::string k = std::to_string(i);
        if (i == big) {
            start[i] = anySize("start" + k);
            size[i] = anySize("size" + k);
            ok = ok & (size[i] <= org[i]) & (start[i] <= org[i] - size[i]);
        } else { // any box inside
            start[i] = fs_pick("start" + k, 0, org[i]);
            size[i] = fs_pick("size" + k, 0, org[i] - start[i]);
        }
    }
    DataPtr s;
    bool thrown = false;
    try {
        s = d->slice(org, start, size);
    } catch (CDMException&) {
        thrown = true;
    } catch (std::exception&) {
        thrown = true;
    }
    if (!ok) {
        FS_ASSERT(thrown, "a slice reaching outside of the array is rejected");
        return;
    }
    FS_ASSERT(!thrown, "a slice inside of the array is accepted");
    for (int i = 0; i < nd; i++) { // at most len+1 values each
        start[i] = fs_enum_(start[i]);
        size[i] = fs_enum_(size[i]);
    }
    size_t n = 1;
    for (int i = 0; i < nd; i++)
        n *= size[i];
    FS_ASSERT(s->size() == n && s->getDataType() == t, "type and number of elements of a slice");
    // all positions; first dimension varies fastest
    for (size_t p = 0; p < n; p++) {
        size_t q = p, src = 0, f = 1;
        for (int i = 0; i < nd; i++) {
            src += (start[i] + q % size[i]) * f;
            q /= size[i];
            f *= org[i];
        }
        FS_ASSERT(t == CDM_INT ? ((int*)s->getDataPtr())[p] == val[src] : s->getDouble(p) == val[src], "element of a slice");
    }
    if (n > 0) { // the slice is a copy
        s->setValue(0, 99);
        for (size_t i = 0; i < total; i++)
            FS_ASSERT(t == CDM_INT ? ((int*)d->getDataPtr())[i] == val[i] : d->getDouble(i) == val[i], "slicing does not alias the original");
    }
}
}
FS_HARNESS(slice1) { slices(1, 4, true); }
FS_HARNESS(slice2) { slices(2, 3, false); }
FS_HARNESS(slice3) { slices(3, fs_thorough() ? 3 : 2, false); }

FS_HARNESS(mismatch)
{
    // number of elements inconsistent with the dimension lengths
    size_t n = fs_pick("n", 0, 7);
    DataPtr d = createData(CDM_SHORT, n, 1.0);
    size_t a = fs_pick("a", 0, 3), b = fs_pick("b", 0, 3);
    bool thrown = false;
    DataPtr r;
    try {
        r = d->slice({a, b}, {0, 0}, {a, b});
    } catch (std::exception&) {
        thrown = true;
    }
    FS_ASSERT(thrown == (a * b != n), "slice accepts exactly the dimension lengths that fit the number of elements");
    // scalars
    DataPtr sc = createData(CDM_SHORT, 1, 5.0)->slice({}, {}, {});
    FS_ASSERT(sc->size() == 1 && sc->getDouble(0) == 5, "slice of a scalar");
}

FS_HARNESS(copyrange)
{
    fs_text_lossy(1);
    size_t n = fs_pick("n", 0, 4), m = fs_pick("m", 0, 4);
    bool conv = fs_bool("conv");
    DataPtr src = createData(conv ? CDM_DOUBLE : CDM_INT, m, 0.0), dst = createData(CDM_INT, n, 0.0);
    for (size_t i = 0; i < m; i++)
        src->setValue(i, 10 + (double)i);
    for (size_t i = 0; i < n; i++)
        dst->setValue(i, 100 + (double)i);
    size_t pos = anySize("pos"), first = anySize("first"), end = anySize("end");
    bool thrown = false;
    try {
        dst->setValues(pos, *src, first, end);
    } catch (std::exception&) {
        thrown = true;
    }
    FS_ASSERT(dst->size() == n, "size unchanged");
    // beyond these limits all values are equivalent
    auto lim = [](size_t v) -> size_t { return v > 9 ? 9 : v; };
    const size_t p0 = lim(pos), f0 = lim(first), e0 = lim(end);
    // element i of the target comes from source element first + (i - pos), if that is in [first, min(end, m))
    for (size_t i = 0; i < n; i++) {
        int expect = 100 + (int)i;
        if (i >= p0) {
            int k = (int)(i - p0);
            if (f0 < m && k < (int)(m - f0) && f0 + k < e0)
                expect = thrown ? expect : 10 + (int)(f0 + k);
        }
        FS_ASSERT(((int*)dst->getDataPtr())[i] == expect, "range copy changes exactly the addressed elements");
    }
    if (thrown)
        FS_ASSERT((f0 > m) | (p0 > n), "range copy is rejected only if the source or target position is outside");
    else
        FS_ASSERT(f0 <= m, "range copy from behind the end of the source is rejected");
    for (size_t i = 0; i < m; i++)
        FS_ASSERT(src->getDouble(i) == 10 + (double)i, "source unchanged");
}

FS_HARNESS(dataslice)
{
    size_t m = 5;
    DataPtr src = createData(CDM_SHORT, m, 0.0);
    for (size_t i = 0; i < m; i++)
        src->setValue(i, 10 + (double)i);
    size_t first = fs_int("first", 0, 5);
    size_t len = fs_pick("len", 0, 5);
    FS_ASSUME(first + len <= m);
    CDMDataType t = types[fs_pick("type", 0, 9)];
    DataPtr s = createDataSlice(t, *src, first, len);
    FS_ASSERT(s->size() == len && s->getDataType() == t, "createDataSlice type and size");
    for (size_t i = 0; i < len; i++)
        FS_ASSERT(s->getDouble(i) == 10 + (double)(first + i), "createDataSlice element");
}
