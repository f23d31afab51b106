/*FS {
 "regex": true,
 "quick_s": 60, "thorough_s": 400,
 "bounds": ["1..3 times of 2 values, arbitrary (any of them possibly undefined) as int, short packed with scale and offset, or double; in memory or read; slices missing in the source", "every sequence of 3 (thorough 4) slice reads, followed by box and complete reads", "accumulation, deaccumulation, and the one after the other"],
 "outside": ["vertical velocity and geopotential height through the processor (the formulas are in C12)", "rotation of vectors and directions (C09)"]
} */
#include "h.h"
#include "fimex/CDMProcessor.h"
#include <cmath>
namespace {
const double UNDEF = std::numeric_limits<double>::quiet_NaN();
struct Setup
{
    MemReader_p r;
    size_t nt;
    int type;
    bool inmem = false;
    double scale, offset, fill;
    std::vector<std::vector<double>> v; // unpacked
    std::vector<bool> miss;
};
Setup setup(bool withMissing)
{
    Setup s;
    s.r = memReader();
    s.nt = fs_pick("nt", 1, 3);
    s.type = withMissing && !fs_thorough() ? 0 : fs_pick("type", 0, 2); // int, packed short, double
    s.scale = s.type == 1 ? 0.5 : 1;
    s.offset = s.type == 1 ? 4 : 0;
    s.fill = -9999;
    s.r->dim("x", 2);
    s.r->dim("time", s.nt, true);
    const CDMDataType T[] = {CDM_INT, CDM_SHORT, CDM_DOUBLE};
    DataPtr d = createData(T[s.type], 2 * s.nt, 0.);
    const int undef = fs_pick("undef", 0, fs_thorough() ? (1 << s.nt) - 1 : s.nt); // which times are undefined
    for (size_t t = 0; t < s.nt; t++) {
        s.v.push_back({});
        for (size_t x = 0; x < 2; x++) {
            const size_t q = 2 * t + x;
            const int p = (int)fs_int("v" + std::to_string(q), -90, 90);
            const bool u = x == 0 && (fs_thorough() ? (undef >> t) & 1 : undef == (int)t + 1);
            const int w = (int)fs_seli(u, -9999, p);
            if (s.type == 0)
                ((int*)d->getDataPtr())[q] = w;
            else if (s.type == 1)
                ((short*)d->getDataPtr())[q] = (short)w;
            else
                ((double*)d->getDataPtr())[q] = w;
            s.v[t].push_back(fs_sel(u, UNDEF, p * s.scale + s.offset));
        }
    }
    s.r->var("v", T[s.type], {"x", "time"}, d);
    if (s.type == 1) {
        s.r->att<double>("v", "scale_factor", s.scale);
        s.r->att<double>("v", "add_offset", s.offset);
        s.r->att<short>("v", "_FillValue", -9999);
    } else if (s.type == 0)
        s.r->att<int>("v", "_FillValue", -9999);
    else
        s.r->att<double>("v", "_FillValue", -9999.);
    s.miss.assign(s.nt, false);
    if (withMissing) {
        for (size_t t = 0; t < s.nt; t++)
            if (fs_pick("miss" + std::to_string(t), 0, 1)) {
                s.miss[t] = true;
                s.r->missing.insert(std::make_pair(std::string("v"), t));
            }
    } else if ((s.inmem = fs_pick("inmem", 0, 1)))
        s.r->cdm().getVariable("v").setData(d->clone());
    s.r->var("w", CDM_INT, {"x"}, std::vector<double>{7, 8});
    return s;
}
double orZero(double x) { return fs_sel(x != x, 0, x); }
std::vector<std::vector<double>> accumulated(const std::vector<std::vector<double>>& v)
{
    auto e = v;
    for (size_t t = 1; t < v.size(); t++)
        for (size_t x = 0; x < 2; x++)
            e[t][x] = v[t][x] + (t == 1 ? orZero(v[0][x]) : e[t - 1][x]);
    return e;
}
std::vector<std::vector<double>> deaccumulated(const std::vector<std::vector<double>>& v)
{
    auto e = v;
    for (size_t t = 1; t < v.size(); t++)
        for (size_t x = 0; x < 2; x++)
            e[t][x] = v[t][x] - (t == 1 ? orZero(v[0][x]) : v[t - 1][x]);
    return e;
}
/* delivered (packed) value */
double packed(const Setup& s, double e) { return fs_sel(e != e, s.fill, (e - s.offset) / s.scale); }
void same(const Setup& s, DataPtr d, const std::vector<double>& e)
{
    FS_ASSERT(d && d->size() == e.size(), "size of the data");
    auto a = d->asDouble();
    for (size_t i = 0; i < e.size(); i++)
        FS_ASSERT(a[i] == packed(s, e[i]), "value of the data");
}
std::vector<double> concat(const std::vector<std::vector<double>>& v)
{
    std::vector<double> r;
    for (auto& x : v)
        r.insert(r.end(), x.begin(), x.end());
    return r;
}
void unchanged(Setup& s)
{
    DataPtr d = s.r->full("v");
    auto a = d->asDouble();
    auto m = s.r->getCDM().getVariable("v").hasData() ? s.r->getCDM().getVariable("v").getData()->asDouble() : a;
    for (size_t i = 0; i < 2 * s.nt; i++) {
        FS_ASSERT(a[i] == packed(s, s.v[i / 2][i % 2]), "source unchanged");
        FS_ASSERT(m[i] == a[i], "source unchanged");
    }
}
void reads(Setup& s, CDMReader& p, const std::vector<std::vector<double>>& e)
{
    DataPtr last;
    std::vector<double> lastE;
    const int n = fs_thorough() ? 4 : s.type == 0 && !s.inmem ? 3 : 1;
    for (int i = 0; i < n && i < (int)s.nt + 1; i++) {
        size_t t = fs_pick("read" + std::to_string(i), 0, s.nt - 1);
        DataPtr d = p.getDataSlice("v", t);
        same(s, d, e[t]);
        if (last)
            same(s, last, lastE);
        last = d;
        lastE = e[t];
    }
    if (s.type == 1) { // scaled reading
        size_t t = s.nt - 1;
        auto a = p.getScaledDataSlice("v", t)->asDouble();
        for (size_t x = 0; x < 2; x++)
            FS_ASSERT(FS_SAME(a[x], e[t][x]), "scaled value");
        same(s, p.getDataSlice("v", t), e[t]);
    }
    SliceBuilder sb(p.getCDM(), "v");
    size_t t0 = n == 3 ? s.nt - 1 : fs_pick("t0", 0, s.nt - 1), x0 = t0 & 1;
    sb.setStartAndSize("time", t0, 1);
    sb.setStartAndSize("x", x0, 1);
    same(s, p.getDataSlice("v", sb), {e[t0][x0]});
    same(s, p.getData("v"), concat(e));
    auto w = p.getData("w")->asInt();
    FS_ASSERT(w[0] == 7 && w[1] == 8, "other variable");
    unchanged(s);
    FS_REACH("read");
}
} // namespace
FS_HARNESS(accumulate)
{
    fs_text_lossy(1);
    Setup s = setup(false);
    CDMProcessor p(s.r);
    p.accumulate("v");
    p.accumulate("w"); // not in time: ignored
    reads(s, p, accumulated(s.v));
}
FS_HARNESS(deaccumulate)
{
    fs_text_lossy(1);
    Setup s = setup(false);
    CDMProcessor p(s.r);
    p.deAccumulate("v");
    p.deAccumulate("w");
    reads(s, p, deaccumulated(s.v));
}
FS_HARNESS(both)
{
    fs_text_lossy(1);
    Setup s = setup(false);
    for (size_t t = 0; t < s.nt; t++)
        FS_ASSUME(s.v[t][0] == s.v[t][0]);
    auto p = std::make_shared<CDMProcessor>(s.r);
    bool first = fs_pick("first", 0, 1);
    if (first)
        p->accumulate("v");
    else
        p->deAccumulate("v");
    CDMProcessor q(p);
    if (first)
        q.deAccumulate("v");
    else
        q.accumulate("v");
    reads(s, q, s.v);
}
FS_HARNESS(missing)
{
    fs_text_lossy(1);
    Setup s = setup(true);
    CDMProcessor p(s.r);
    const bool acc = fs_pick("acc", 0, 1);
    if (acc)
        p.accumulate("v");
    else
        p.deAccumulate("v");
    auto e = acc ? accumulated(s.v) : deaccumulated(s.v);
    std::vector<DataPtr> got;
    std::vector<DataPtr> copy;
    for (int i = 0; i < 3; i++) {
        size_t t = fs_pick("read" + std::to_string(i), 0, s.nt - 1);
        DataPtr d = p.getDataSlice("v", t);
        FS_ASSERT(d->size() == 2 || d->size() == 0, "size of the data");
        bool ok = !s.miss[t];
        for (size_t k = 0; k < t; k++)
            ok &= !s.miss[k] || (!acc && k + 1 < t);
        if (ok)
            same(s, d, e[t]);
        if (acc && d->size() == 0)
            for (size_t k = 0; k <= t; k++)
                FS_ASSERT(s.miss[k], "data delivered when there are some");
        got.push_back(d);
        copy.push_back(d->clone());
    }
    for (size_t i = 0; i < got.size(); i++) {
        auto a = got[i]->asDouble(), b = copy[i]->asDouble();
        for (size_t k = 0; k < got[i]->size(); k++)
            FS_ASSERT(a[k] == b[k], "delivered data do not change later");
    }
    unchanged(s);
}
