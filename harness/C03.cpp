/*FS {
 "quick_s": 60,
 "weights": {"slices": 2, "scaled": 2}, "thorough_s": 900,
 "bounds": ["slice requests: 2 dimensions of length 0..3, histories of 3 requests (set range, set all) with start and size over the full unsigned 64-bit range", "variables of 1..3 dimensions of length 1..3 with or without unlimited dimension, data in memory or delivered by the reader, reader with or without own box reading, every subset of missing unlimited slices", "element values over the full range of short, fill value attribute present or not, (scale,offset) pairs from a table, units from a table (linear conversions)"],
 "outside": ["other element types (covered by the conversion property)", "non-linear unit conversions"]
} */
#include "h.h"
#include "fimex/SliceBuilder.h"
#include <cmath>
namespace {
size_t anySize(const std::string& n) { return (size_t)fs_int(n, INT64_MIN, INT64_MAX); }
}
FS_HARNESS(builder)
{
    fs_text_lossy(1);
    Sizes len{(size_t)fs_pick("l0", 0, 3), (size_t)fs_pick("l1", 0, 3)};
    SliceBuilder sb(Names{"x", "y"}, len);
    size_t st[2] = {0, 0}, sz[2] = {len[0], len[1]};
    bool set[2] = {false, false};
    for (int k = 0; k < 2; k++) {
        std::string s = std::to_string(k);
        int op = fs_pick("op" + s, 0, 2), d = fs_pick("d" + s, 0, 1);
        const char* dn = d ? "y" : "x";
        if (op == 0) {
            size_t a = anySize("start" + s), n = anySize("size" + s);
            bool ok = (n <= len[d]) & (a <= len[d] - n);
            bool t = throws([&] { sb.setStartAndSize(dn, a, n); });
            FS_ASSERT(t == !ok, "a range is accepted if and only if it is inside of the dimension");
            if (t)
                continue;
            st[d] = a;
            sz[d] = n;
            set[d] = true;
        } else if (op == 1) {
            sb.setAll(dn);
            st[d] = 0;
            sz[d] = len[d];
            set[d] = true;
        } else {
            FS_ASSERT(throws([&] { sb.setStartAndSize("z", 0, 0); }), "an unknown dimension is rejected");
        }
    }
    Names n = sb.getDimensionNames(), u = sb.getUnsetDimensionNames();
    FS_ASSERT(n.size() == 2 && n[0] == "x" && n[1] == "y", "names of the dimensions");
    for (int d = 0; d < 2; d++) {
        FS_ASSERT(sb.getDimensionStartPositions()[d] == st[d] && sb.getDimensionSizes()[d] == sz[d] && sb.getMaxDimensionSizes()[d] == len[d], "the last accepted request counts");
        size_t a, s;
        sb.getStartAndSize(d ? "y" : "x", a, s);
        FS_ASSERT(a == st[d] && s == sz[d], "request of a dimension");
        bool isUnset = false;
        for (auto& x : u)
            isUnset = isUnset || x == (d ? "y" : "x");
        FS_ASSERT(isUnset == !set[d], "unset dimensions");
    }
}
FS_HARNESS(slices)
{
    fs_text_lossy(1);
    // x, y, t(unlimited or not)
    int nd = fs_pick("nd", 1, 3);
    Sizes len;
    Names dims;
    MemReader_p r = memReader();
    bool unlim = fs_pick("unlim", 0, 1);
    size_t total = 1;
    for (int i = 0; i < nd; i++) {
        len.push_back((i == 0 && nd > 1) || (i == 1 && nd == 3 && !fs_thorough()) ? 2 : fs_pick("l" + std::to_string(i), nd == 3 && !fs_thorough() ? 3 : 1, 3));
        dims.push_back("d" + std::to_string(i));
        r->dim(dims[i], len[i], unlim && i == nd - 1);
        total *= len[i];
    }
    std::vector<int> v;
    r->var("v", CDM_INT, dims, symInts("v", total, v));
    int how = fs_pick("how", 0, unlim ? 3 : 2); // 0 own box reading, 1 default box reading, 2 in memory, 3 with missing slices
    r->ownSlices = how == 0;
    if (how == 2)
        r->cdm().getVariable("v").setData(r->full("v")->clone());
    size_t nt = len[nd - 1], per = total / nt;
    int miss = 0;
    if (how == 3 && unlim) {
        miss = nd == 3 && !fs_thorough() ? (fs_pick("missing", 0, 2) * 3 + 1) : fs_pick("missing", 1, (1 << nt) - 1); // quick: first, last, all
        r->att("v", "_FillValue", (int)-9);
        for (size_t i = 0; i < nt; i++)
            if ((miss >> i) & 1) {
                r->missing.insert(std::make_pair("v", i));
                for (size_t k = 0; k < per; k++)
                    v[i * per + k] = -9;
            }
    }
    SliceBuilder sb(r->getCDM(), "v");
    Sizes st(nd), sz(nd);
    for (int i = 0; i < nd; i++) {
        if (i < nd - 1 && !fs_thorough()) { // length 2: everything, the last, and (not in the first of 3) the first
            int b = fs_pick("box" + std::to_string(i), 0, i == nd - 2 ? 2 : 1);
            st[i] = b == 1;
            sz[i] = b == 0 ? 2 : 1;
            sb.setStartAndSize(dims[i], st[i], sz[i]);
            continue;
        }
        st[i] = fs_int("start" + std::to_string(i), 0, 3);
        sz[i] = fs_int("size" + std::to_string(i), 0, 3);
        FS_ASSUME(st[i] + sz[i] <= len[i]);
        st[i] = fs_enum_(st[i]);
        sz[i] = fs_enum_(sz[i]);
        sb.setStartAndSize(dims[i], st[i], sz[i]);
    }
    DataPtr d = r->getDataSlice("v", sb);
    size_t n = 1;
    for (auto s : sz)
        n *= s;
    FS_ASSERT(d->size() == n, "number of elements of a box");
    forBox(sz, [&](size_t k, Sizes idx) {
        for (int i = 0; i < nd; i++)
            idx[i] += st[i];
        FS_ASSERT(d->asInt()[k] == v[at(len, idx)], "element of a box");
    });
    DataPtr all = r->getData("v");
    FS_ASSERT(all->size() == total, "size of all data");
    for (size_t i = 0; i < total; i++)
        FS_ASSERT(all->asInt()[i] == v[i], "element of all data");
    FS_ASSERT(r->getDims("v") == len, "dimension sizes of a variable");
    for (size_t pos = 0; unlim && pos < 4; pos++) {
        if (pos >= nt)
            FS_ASSERT(throws([&] { r->getDataSlice("v", pos); }), "slice behind the end of the unlimited dimension");
        else if (!((miss >> pos) & 1)) {
            DataPtr s = r->getDataSlice("v", pos);
            FS_ASSERT(s->size() == per, "size of an unlimited slice");
            for (size_t k = 0; k < per; k++)
                FS_ASSERT(s->asInt()[k] == v[pos * per + k], "element of an unlimited slice");
        }
    }
}
namespace {
struct Mem : public CDMReaderWriter
{
    DataPtr stored;
    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const std::string&, size_t) override { return stored->clone(); }
    void sync() override {}
    void putDataSlice(const std::string&, size_t, const DataPtr d) override { stored = d; }
    void putDataSlice(const std::string&, const SliceBuilder&, const DataPtr d) override { stored = d; }
    CDM& cdm() { return *cdm_; }
};
const double SC[] = {1, 0.5, 4, -2}, OF[] = {0, 16, -3.5, 0.25};
const struct { const char *from, *to; double scale, off; } UN[] = {{"m", "m", 1, 0}, {"km", "m", 1000, 0}, {"degC", "K", 1, 273.15}, {"K", "degC", 1, -273.15}, {"1", "%", 100, 0}, {"Pa", "hPa", 0.01, 0}};
}
FS_HARNESS(scaled)
{
    fs_text_lossy(1);
    Mem r;
    r.cdm().addDimension(CDMDimension("x", 2));
    r.cdm().addVariable(CDMVariable("v", CDM_SHORT, Names{"x"}));
    int so = fs_pick("packing", 0, 4);
    double sc = 1, of = 0;
    if (so < 4) {
        sc = SC[so];
        of = OF[so];
        if (sc != 1)
            r.cdm().addAttribute("v", CDMAttribute("scale_factor", sc));
        if (of != 0)
            r.cdm().addAttribute("v", CDMAttribute("add_offset", (float)of));
    }
    double fill = -32767; // netcdf default of short
    if (fs_pick("hasfill", 0, 1)) {
        fill = fs_pick("fill", -1, 1) * 999;
        r.cdm().addAttribute("v", CDMAttribute("_FillValue", (short)fill));
    }
    int un = fs_pick("unit", -1, 5);
    double us = 1, uo = 0;
    if (un >= 0) {
        r.cdm().addAttribute("v", CDMAttribute("units", std::string(UN[un].from)));
        us = UN[un].scale;
        uo = UN[un].off;
    }
    DataPtr d = createData(CDM_SHORT, 2, 0.);
    short* p = (short*)d->getDataPtr();
    const short VT[] = {-32767, -999, 300, 0, 999, -4000};
    if (un > 0) // factors which are not dyadic
        p[0] = VT[fs_pick("v0t", 0, fs_thorough() ? 5 : 3)];
    else
        p[0] = fs_int("v0", -32768, 32767);
    p[1] = 7;
    short v0 = p[0];
    r.stored = d;
    SliceBuilder sb(r.getCDM(), "v");
    DataPtr s;
    int via = fs_pick("via", 0, 2);
    if (un < 0)
        s = via == 0 ? r.getScaledData("v") : via == 1 ? r.getScaledDataSlice("v", 0) : r.getScaledDataSlice("v", sb);
    else
        s = via == 0 ? r.getScaledDataInUnit("v", UN[un].to) : via == 1 ? r.getScaledDataSliceInUnit("v", UN[un].to, 0) : r.getScaledDataSliceInUnit("v", UN[un].to, sb);
    FS_ASSERT(s->size() == 2 && s->getDataType() == CDM_DOUBLE, "scaled data is double");
    double g = s->asDouble()[0], e = (sc * v0 + of) * us + uo;
    if (v0 == fill)
        FS_ASSERT(g != g, "fill values are undefined in scaled data");
    else
        FS_ASSERT(fs_near(g, e, 0x1p-10), "scaled value in the requested unit");
    FS_ASSERT(fs_near(s->asDouble()[1], (sc * 7 + of) * us + uo, 0x1p-10), "scaled value in the requested unit");
    // write back: identity
    DataPtr in = s->clone();
    if (un < 0)
        via == 2 ? r.putScaledDataSlice("v", sb, in) : r.putScaledDataSlice("v", 0, in);
    else
        via == 2 ? r.putScaledDataSliceInUnit("v", UN[un].to, sb, in) : r.putScaledDataSliceInUnit("v", UN[un].to, 0, in);
    FS_ASSERT(r.stored->getDataType() == CDM_SHORT && r.stored->size() == 2, "type of written data");
    FS_ASSERT(r.stored->asShort()[0] == v0 && r.stored->asShort()[1] == 7, "scaled data written back is unchanged");
}
