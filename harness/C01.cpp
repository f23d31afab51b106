/*FS {
 "tus": ["Data.cc","DataUtils.cc","NativeData.cc","StringData.cc","CDMDataType.cc","Type2String.cc","String2Type.cc","MathUtils.cc","StringUtils.cc","SharedArray.cc","CDMException.cc","Units*.cc","MutexLock.cc","Logger.cc","Log4cppLogger.cc","binaryConstants.cc"],
 "quick_s": 60, "order": ["positions","decimal","plain","accessors","scaled_units","scaled"], "thorough_s": 900,
 "bounds": ["all 10x10 pairs of numeric element types; 2 elements per array", "integer values over the full range of types up to 32 bits, |v| <= 2^40 for 64-bit types (|v| <= 4096 towards float); floating values k/16, |v| <= 2^20, or NaN",
   "(scale,offset) pairs from a table of dyadic pairs, old and new independently, plus 0.1/100 for short<->float,double; fill values representable in the type, symbolic", "results within the range of the target type"],
 "outside": ["values whose scaled result overflows the target type", "string and opaque element types (only rejection is checked)", "fill values not representable in the element type"]
} */
#include "fs.h"
#include "fimex/CDMDataType.h"
#include "fimex/CDMException.h"
#include "fimex/Data.h"
#include "fimex/DataUtils.h"
#include "fimex/UnitsConverter.h"
#include "fimex/SharedArray.h"
#include <memory>
#include <cmath>
using namespace MetNoFimex;

namespace {
const CDMDataType types[10] = {CDM_CHAR, CDM_SHORT, CDM_INT, CDM_UCHAR, CDM_USHORT, CDM_UINT, CDM_INT64, CDM_UINT64, CDM_FLOAT, CDM_DOUBLE};
bool isInt(CDMDataType t) { return t != CDM_FLOAT && t != CDM_DOUBLE; }
void range(CDMDataType t, int64_t& lo, int64_t& hi)
{
    switch (t) {
    case CDM_CHAR: lo = -128; hi = 127; break;
    case CDM_SHORT: lo = -32768; hi = 32767; break;
    case CDM_INT: lo = -2147483647LL - 1; hi = 2147483647; break;
    case CDM_UCHAR: lo = 0; hi = 255; break;
    case CDM_USHORT: lo = 0; hi = 65535; break;
    case CDM_UINT: lo = 0; hi = 4294967295LL; break;
    case CDM_INT64: lo = -(1LL << 40); hi = 1LL << 40; break;
    case CDM_UINT64: lo = 0; hi = 1LL << 40; break;
    default: lo = -(1 << 20); hi = 1 << 20;
    }
}
// a value of type t as a double (exact), NaN allowed for floating types
double anyValue(const std::string& n, CDMDataType t, bool nan, int64_t limit = (1LL << 40))
{
    int64_t lo, hi;
    range(t, lo, hi);
    lo = lo < -limit ? -limit : lo;
    hi = hi > limit ? limit : hi;
    if (isInt(t))
        return (double)fs_int(n, lo, hi);
    return nan ? fs_real_or_nan(n, -4096, 4096, 4) : fs_real(n, -4096, 4096, 4);
}
template <typename T>
DataPtr mk(double a, double b)
{
    auto x = make_shared_array<T>(2);
    x[0] = (T)a;
    x[1] = (T)b;
    return createData(2, x);
}
DataPtr make(CDMDataType t, double a, double b)
{
    switch (t) {
    case CDM_CHAR: return mk<char>(a, b);
    case CDM_SHORT: return mk<short>(a, b);
    case CDM_INT: return mk<int>(a, b);
    case CDM_UCHAR: return mk<unsigned char>(a, b);
    case CDM_USHORT: return mk<unsigned short>(a, b);
    case CDM_UINT: return mk<unsigned int>(a, b);
    case CDM_INT64: return mk<long long>(a, b);
    case CDM_UINT64: return mk<unsigned long long>(a, b);
    case CDM_FLOAT: return mk<float>(a, b);
    default: return mk<double>(a, b);
    }
}
template <typename T>
double elem(DataPtr d, int i)
{
    // via a signed integer: keeps the values in the solver's exact range
    if (std::numeric_limits<T>::is_integer) {
        int64_t x = (int64_t)((T*)d->getDataPtr())[i];
        FS_ASSERT((x <= (1LL << 41)) & (x >= -(1LL << 41)), "integer result far outside the range of the input values");
        return (double)((int64_t)((uint64_t)x << 20) >> 20);
    }
    return (double)((T*)d->getDataPtr())[i];
}
double get(DataPtr d, CDMDataType t, int i)
{
    switch (t) {
    case CDM_CHAR: return elem<char>(d, i);
    case CDM_SHORT: return elem<short>(d, i);
    case CDM_INT: return elem<int>(d, i);
    case CDM_UCHAR: return elem<unsigned char>(d, i);
    case CDM_USHORT: return elem<unsigned short>(d, i);
    case CDM_UINT: return elem<unsigned int>(d, i);
    case CDM_INT64: return elem<long long>(d, i);
    case CDM_UINT64: return elem<unsigned long long>(d, i);
    case CDM_FLOAT: return elem<float>(d, i);
    default: return elem<double>(d, i);
    }
}
struct SO { double s, o; };
const SO tab[6] = {{1, 0}, {2, 0}, {1, 8}, {0.5, -3.5}, {-4, 16}, {0.25, 100}};
double ftol; // tolerance for float targets: some ulps of the largest possible result
void setTol(CDMDataType it)
{
    int64_t lo, hi;
    range(it, lo, hi);
    ftol = (isInt(it) ? (hi > 4096 ? 4096.0 : (double)hi) : 4096.0) * 64 / (1 << 23);
}
// |out - r| within rounding of the type
bool matches(double out, double r, CDMDataType t, double eps)
{
    double d = std::fabs(out - r);
    if (isInt(t))
        return d <= 0.5 + eps;
    if (t == CDM_FLOAT)
        return d <= ftol + eps;
    return d <= eps;
}
void assumeRange(double r, CDMDataType t)
{
    int64_t lo, hi;
    range(t, lo, hi);
    if (isInt(t))
        FS_ASSUME((r >= (double)lo) & (r <= (double)hi));
}
struct Lin : public UnitsConverter
{
    double s, o;
    Lin(double s, double o) : s(s), o(o) {}
    double convert(double f) override { return s * f + o; }
    float convert(float f) override { return (float)(s * f + o); }
    bool isLinear() override { return true; }
    void getScaleOffset(double& a, double& b) override { a = s; b = o; }
};

void conv(bool units)
{
    int ti = fs_pick("inType", 0, 9), to = fs_pick("outType", 0, 9);
    int k = fs_pick("variant", 0, fs_thorough() ? 3 : 2);
    // four combinations of old/new scaling, rotating through the table with the types
    const SO os = tab[k == 0 ? 0 : (ti + to + k) % 6];
    const SO ns = (k == 0 || k == 3) ? os : tab[(ti * 3 + to + 2 * k) % 6];
    CDMDataType it = types[ti], ot = types[to];
    setTol(it);
    const int64_t limit = ot == CDM_FLOAT ? 4096 : (1LL << 40);
    double oldFill = anyValue("oldFill", it, false, limit);
    double newFill = anyValue("newFill", ot, false);
    double v = anyValue("v", it, true, limit);
    double other = 1;
    DataPtr in = make(it, other, v);
    const double us = units ? 2.0 : 1.0, uo = units ? -8.0 : 0.0;
    double r = ((os.s * v + os.o) * us + uo - ns.o) / ns.s;
    bool undef = (v == oldFill) | (v != v);
    int64_t lo, hi;
    range(ot, lo, hi);
    if (isInt(ot))
        FS_ASSUME(undef | ((r >= (double)lo) & (r <= (double)hi)));
    DataPtr out;
    if (units)
        out = in->convertDataType(oldFill, os.s, os.o, std::make_shared<Lin>(us, uo), ot, newFill, ns.s, ns.o);
    else
        out = in->convertDataType(oldFill, os.s, os.o, ot, newFill, ns.s, ns.o);
    FS_ASSERT(out && out->size() == 2 && out->getDataType() == ot, "converted data has the requested type and the same number of elements");
    double o = get(out, ot, 1);
    double eps = isInt(ot) ? 0 : 1e-9;
    bool nanKept = (v != v) & (o != o); // floating targets may keep NaN, which is undefined, too
    FS_ASSERT(nanKept ? true : undef ? (ot == CDM_FLOAT || ot == CDM_DOUBLE ? std::fabs(o - newFill) <= eps + (ot == CDM_FLOAT ? ftol : 0) : o == newFill) : matches(o, r, ot, eps), "element = new fill if undefined, else (unpacked value repacked) rounded to nearest");
    FS_ASSERT(FS_SAME(get(in, it, 1), v), "input data is not modified");
}
}
FS_HARNESS(scaled) { conv(false); }
FS_HARNESS(scaled_units) { conv(true); }

// the position within the array does not matter
FS_HARNESS(positions)
{
    const int N = 5;
    auto x = make_shared_array<short>(N);
    for (int i = 0; i < N; i++)
        x[i] = (short)fs_int("v" + std::to_string(i), -32768, 32767);
    short fill = (short)fs_int("fill", -32768, 32767);
    DataPtr in = createData(N, x);
    DataPtr out = in->convertDataType(fill, 0.5, 3, CDM_DOUBLE, 30000, 1, 0);
    FS_ASSERT(out->size() == (size_t)N, "size");
    auto o = out->asDouble();
    for (int i = 0; i < N; i++)
        FS_ASSERT(x[i] == fill ? o[i] == 30000 : o[i] == 0.5 * x[i] + 3, "unpacked element");
    // pack back
    DataPtr back = out->convertDataType(30000, 1, 0, CDM_SHORT, fill, 0.5, 3);
    auto b = back->asShort();
    for (int i = 0; i < N; i++)
        FS_ASSERT(b[i] == x[i], "packing an unpacked array gives the original array");
    DataPtr e = createData(CDM_SHORT, 0)->convertDataType(fill, 0.5, 3, CDM_DOUBLE, 30000, 1, 0);
    FS_ASSERT(e->size() == 0, "empty data converts to empty data");
}

// decimal scale factors: results within rounding of the exact value
FS_HARNESS(decimal)
{
    bool unpack = fs_bool("unpack");
    short fill = (short)fs_int("fill", -32768, 32767);
    if (unpack) {
        auto x = make_shared_array<short>(1);
        x[0] = (short)fs_int("v", -32768, 32767);
        DataPtr out = createData(1, x)->convertDataType(fill, 0.1, 100, CDM_FLOAT, 40000, 1, 0);
        double o = ((float*)out->getDataPtr())[0];
        FS_ASSERT(x[0] == fill ? std::fabs(o - 40000) < 0.01 : std::fabs(o - (x[0] * 0.1 + 100)) < 0.01, "decimal unpacking");
    } else {
        auto x = make_shared_array<double>(1);
        x[0] = fs_real("v", -1000, 1000, 3);
        DataPtr out = createData(1, x)->convertDataType(9999, 1, 0, CDM_SHORT, fill, 0.1, 100);
        double o = ((short*)out->getDataPtr())[0];
        FS_ASSERT(std::fabs(o - (x[0] - 100) * 10) <= 0.501, "decimal packing");
    }
}

// plain conversions: value kept when representable, rounded to nearest when float -> integer
FS_HARNESS(plain)
{
    int ti = fs_pick("inType", 0, 9), to = fs_pick("outType", 0, 9);
    CDMDataType it = types[ti], ot = types[to];
    double v = anyValue("v", it, false, ot == CDM_FLOAT ? 4096 : (1LL << 40));
    setTol(it);
    assumeRange(v, ot);
    DataPtr in = make(it, 1, v);
    DataPtr out = convertValues(*in, ot);
    FS_ASSERT(out->getDataType() == ot && out->size() == 2, "type and size of plain conversion");
    FS_ASSERT(matches(get(out, ot, 1), v, ot, 0), "plain conversion keeps the value (rounded to the target type)");
    DataPtr out2 = in->convertDataType(-99, 1, 0, ot, -99, 1, 0);
    FS_ASSERT(matches(get(out2, ot, 1), v, ot, 0), "conversion with identical packing keeps the value");
    FS_ASSERT(in->getDouble(1) == v, "getDouble");
    FS_ASSERT(std::fabs((double)in->getLongLong(1) - v) <= 0.5, "getLongLong rounds");
    DataPtr s = createData(ot, 3, 0.0);
    s->setValue(1, v);
    FS_ASSERT(matches(get(s, ot, 1), v, ot, 0), "setValue");
    FS_ASSERT(get(s, ot, 0) == 0 && get(s, ot, 2) == 0, "setValue leaves other elements");
    s->setAllValues(v);
    FS_ASSERT(matches(get(s, ot, 0), v, ot, 0) & matches(get(s, ot, 2), v, ot, 0), "setAllValues");
    DataPtr c = createData(ot, 2, v);
    FS_ASSERT(matches(get(c, ot, 0), v, ot, 0) & matches(get(c, ot, 1), v, ot, 0), "createData with initial value");
    DataPtr cl = in->clone();
    in->setValue(1, 0);
    FS_ASSERT(cl->getDataType() == it && cl->size() == 2 && get(cl, it, 1) == v && get(cl, it, 0) == 1, "clone is an independent copy");
}

// accessors asX() of all types
FS_HARNESS(accessors)
{
    int ti = fs_pick("inType", 0, 9);
    CDMDataType it = types[ti];
    double v = isInt(it) && it != CDM_UCHAR && it != CDM_USHORT && it != CDM_UINT && it != CDM_UINT64 ? (double)fs_int("v", -100, 100)
        : isInt(it) ? (double)fs_int("v", 0, 100) : fs_real("v", -100, 100, 4);
    DataPtr in = make(it, 1, v);
    FS_ASSERT(std::fabs(in->asChar()[1] - v) <= 0.5, "asChar");
    FS_ASSERT(std::fabs(in->asShort()[1] - v) <= 0.5, "asShort");
    FS_ASSERT(std::fabs(in->asInt()[1] - v) <= 0.5, "asInt");
    FS_ASSERT(std::fabs(in->asInt64()[1] - v) <= 0.5, "asInt64");
    if (v >= 0) {
        FS_ASSERT(std::fabs(in->asUChar()[1] - v) <= 0.5, "asUChar");
        FS_ASSERT(std::fabs(in->asUShort()[1] - v) <= 0.5, "asUShort");
        FS_ASSERT(std::fabs(in->asUInt()[1] - v) <= 0.5, "asUInt");
        FS_ASSERT(std::fabs((double)(int64_t)in->asUInt64()[1] - v) <= 0.5, "asUInt64");
    }
    FS_ASSERT(in->asFloat()[1] == (float)v, "asFloat");
    FS_ASSERT(in->asDouble()[1] == v, "asDouble");
    FS_ASSERT(in->asDouble()[0] == 1, "asDouble first");
}
