/*FS {
 "regex": true,
 "quick_s": 60, "thorough_s": 400,
 "bounds": ["1..3 sources, each with 0..2 times (unlimited or without unlimited dimension), an x-dimension of 2 (or 3, not matching), and any of the variables present; all data values arbitrary, in memory or read", "joinExisting, joinNew (with and without coordinate values), union; every slice and boxes of the result"],
 "outside": ["NcML parsing and file names", "sources with different data types of the same variable"]
} */
#include "h.h"
#include "fimex/AggregationReader.h"
namespace {
struct Src
{
    MemReader_p r;
    size_t nx, nt;
    bool time, hasV, hasU;
    std::vector<int> v, u, w;
    DataPtr dv;
};
/* v(x,time), u(x,time) in the last source only, w(x), time(time) */
Src source(int i, bool last, bool join, bool few = false)
{
    const std::string n = std::to_string(i);
    Src s;
    s.r = memReader();
    int form = few ? 2 * fs_pick("form" + n, 0, i == 1) : fs_pick("form" + n, 0, i ? 3 : 2); // 0: all; 1: in memory; 2: without v; 3: other size of x
    if (join) {
        s.nt = fs_pick("nt" + n, 0, 2);
        s.time = s.nt > 0;
    } else {
        s.nt = 2;
        s.time = true;
    }
    s.nx = form == 3 ? 3 : 2;
    s.hasV = form != 2 && s.time;
    s.hasU = last && s.time;
    s.r->dim("x", s.nx);
    if (s.time) {
        s.r->dim("time", s.nt, true);
        std::vector<double> tv;
        for (size_t t = 0; t < s.nt; t++)
            tv.push_back(10 * i + t);
        s.r->var("time", CDM_DOUBLE, {"time"}, tv);
    }
    if (s.hasV) {
        s.r->var("v", CDM_INT, {"x", "time"}, s.dv = symInts("v" + n, s.nx * s.nt, s.v));
        s.r->att<int>("v", "_FillValue", -99);
    }
    if (s.hasU)
        s.r->var("u", CDM_INT, {"x", "time"}, symInts("u" + n, s.nx * s.nt, s.u));
    s.r->var("w", CDM_INT, {"x"}, symInts("w" + n, s.nx, s.w));
    if (form == 1) {
        for (auto& m : s.r->mem)
            s.r->cdm().getVariable(m.first).setData(m.second->clone());
    }
    return s;
}
void same(DataPtr d, const std::vector<int>& e, const char*)
{
    FS_ASSERT(d && d->size() == e.size(), "size of aggregated data");
    auto a = d->asInt();
    for (size_t i = 0; i < e.size(); i++)
        FS_ASSERT(a[i] == e[i], "value of aggregated data");
}
void unchanged(std::vector<Src>& src)
{
    for (auto& s : src) {
        if (s.hasV)
            same(s.r->getData("v"), s.v, "source");
        if (s.time)
            FS_ASSERT(s.r->getCDM().getDimension("time").getLength() == s.nt && s.r->getCDM().getDimension("time").isUnlimited(), "source unchanged");
    }
}
} // namespace
FS_HARNESS(existing)
{
    fs_text_lossy(1);
    const size_t n = fs_pick("n", 1, 3);
    AggregationReader agg("joinExisting");
    std::vector<Src> src;
    std::vector<int> tv, v, u;
    bool coord = fs_pick("coord", 0, 1);
    size_t total = 0;
    bool haveV = false, haveU = false;
    for (size_t i = 0; i < n; i++) {
        src.push_back(source(i, i + 1 == n, true, n == 3 && !fs_thorough()));
        Src& s = src.back();
        FS_ASSUME(i || s.nx == 2);
        std::string cv;
        for (size_t t = 0; t < s.nt; t++) {
            cv += (t ? " " : "") + std::to_string(100 * i + 7 * t);
            tv.push_back(coord ? 100 * i + 7 * t : 10 * i + t);
            for (size_t k = 0; k < 2; k++) {
                v.push_back(s.hasV && s.nx == 2 ? s.v[t * 2 + k] : -99);
                u.push_back(s.hasU && s.nx == 2 ? s.u[t * 2 + k] : 0);
            }
        }
        haveV |= s.hasV && s.nx == 2;
        total += s.nt;
        agg.addReader(s.r, "s" + std::to_string(i), coord ? cv : std::string());
    }
    agg.initAggregation();
    const CDM& cdm = agg.getCDM();
    same(agg.getData("w"), src[0].w, "variable without time");
    if (total) {
        FS_ASSERT(cdm.getDimension("time").getLength() == total && cdm.getDimension("time").isUnlimited(), "joined dimension");
        same(agg.getData("time"), tv, "coordinate");
        if (haveV) {
            same(agg.getData("v"), v, "joined variable");
            for (size_t t = 0; t < total; t++)
                same(agg.getDataSlice("v", t), {v[2 * t], v[2 * t + 1]}, "slice");
            size_t t0 = fs_pick("t0", 0, total - 1), x0 = fs_pick("x0", 0, 1);
            SliceBuilder sb(cdm, "v");
            sb.setStartAndSize("time", t0, total - t0);
            sb.setStartAndSize("x", x0, 1);
            std::vector<int> e;
            for (size_t t = t0; t < total; t++)
                e.push_back(v[2 * t + x0]);
            same(agg.getDataSlice("v", sb), e, "box");
            FS_REACH("joined");
        }
        Src& l = src.back();
        if (l.hasU && l.nx == 2) {
            DataPtr d = agg.getData("u");
            FS_ASSERT(d && d->size() == u.size(), "variable of the last source only");
            auto a = d->asInt();
            for (size_t i = u.size() - l.u.size(); i < u.size(); i++)
                FS_ASSERT(a[i] == u[i], "variable of the last source only");
            const int fill = (int)cdm.getFillValue("u");
            for (size_t i = 0; i < u.size() - l.u.size(); i++)
                FS_ASSERT(a[i] == fill, "variable of the last source is undefined for the others");
        }
    } else {
        FS_ASSERT(cdm.getUnlimitedDim() == nullptr, "no joined dimension");
    }
    unchanged(src);
}
FS_HARNESS(newdim)
{
    fs_text_lossy(1);
    const size_t n = fs_pick("n", 1, 3);
    AggregationReader agg("joinNew");
    agg.joinNewVars("run", {"v"});
    std::vector<Src> src;
    std::vector<int> v;
    bool coord = fs_pick("coord", 0, 1);
    for (size_t i = 0; i < n; i++) {
        src.push_back(source(i, i + 1 == n, false));
        Src& s = src.back();
        for (size_t k = 0; k < 4; k++)
            v.push_back(s.hasV && s.nx == 2 ? s.v[k] : -99);
        agg.addReader(s.r, "s" + std::to_string(i), coord ? std::to_string(3 * i) : std::string());
    }
    agg.initAggregation();
    const CDM& cdm = agg.getCDM();
    FS_ASSERT(cdm.getDimension("run").getLength() == n && cdm.getDimension("run").isUnlimited() && !cdm.getDimension("time").isUnlimited(), "new dimension");
    const Names shape{"x", "time", "run"};
    bool haveV = false;
    for (auto& s : src)
        haveV |= s.hasV && s.nx == 2;
    if (!haveV)
        return;
    FS_ASSERT(cdm.getVariable("v").getShape() == shape, "shape of the joined variable");
    if (coord) {
        auto c = agg.getData("run");
        FS_ASSERT(c->size() == n, "coordinate of the new dimension");
        for (size_t i = 0; i < n; i++)
            FS_ASSERT(c->asInt()[i] == (int)(3 * i), "coordinate of the new dimension");
    }
    same(agg.getData("v"), v, "joined variable");
    for (size_t i = 0; i < n; i++)
        same(agg.getDataSlice("v", i), std::vector<int>(v.begin() + 4 * i, v.begin() + 4 * i + 4), "slice");
    size_t r0 = fs_pick("r0", 0, n - 1), t0 = fs_pick("t0", 0, 1), x0 = fs_pick("x0", 0, 1);
    SliceBuilder sb(cdm, "v");
    sb.setStartAndSize("run", r0, n - r0);
    sb.setStartAndSize("time", t0, 1);
    sb.setStartAndSize("x", 0, x0 + 1);
    std::vector<int> e;
    for (size_t r = r0; r < n; r++)
        for (size_t x = 0; x <= x0; x++)
            e.push_back(v[4 * r + 2 * t0 + x]);
    same(agg.getDataSlice("v", sb), e, "box");
    same(agg.getData("w"), src[0].w, "variable that is not joined");
    same(agg.getData("time"), {0, 1}, "variable that is not joined");
    if (n == 1)
        same(agg.getData("u"), src[0].u, "variable that is not joined");
    unchanged(src);
    FS_REACH("joined");
}
FS_HARNESS(union_)
{
    fs_text_lossy(1);
    const size_t n = fs_pick("n", 1, 3);
    AggregationReader agg("union");
    std::vector<Src> src;
    for (size_t i = 0; i < n; i++) {
        src.push_back(source(i, i + 1 == n, false));
        agg.addReader(src.back().r, "s" + std::to_string(i), "");
    }
    agg.initAggregation();
    same(agg.getData("w"), src[0].w, "from the first");
    for (auto& s : src)
        if (s.hasV && s.nx == 2) {
            same(agg.getData("v"), s.v, "from the first that has it");
            for (size_t t = 0; t < 2; t++)
                same(agg.getDataSlice("v", t), {s.v[2 * t], s.v[2 * t + 1]}, "slice");
            break;
        }
    Src& l = src.back();
    if (l.nx == 2) {
        same(agg.getData("u"), l.u, "from the last");
        SliceBuilder sb(agg.getCDM(), "u");
        size_t t0 = fs_pick("t0", 0, 1), x0 = fs_pick("x0", 0, 1);
        sb.setStartAndSize("time", t0, 1);
        sb.setStartAndSize("x", x0, 1);
        same(agg.getDataSlice("u", sb), {l.u[2 * t0 + x0]}, "box");
    } else {
        FS_ASSERT(!agg.getCDM().hasVariable("u"), "variable of other size is not added");
    }
    unchanged(src);
    FS_REACH("united");
}
