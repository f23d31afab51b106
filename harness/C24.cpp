/*FS {
 "quick_s": 60, "thorough_s": 400, "regex": true,
 "bounds": ["input and output with an axis of 1..3 values (any subset and order of 4 numbers for input, fixed 2 or 3 for output), limited or unlimited in output, with or without coordinate variable; a second axis of 2 values in the same or reversed order", "arbitrary data (int, float, packed short) possibly undefined; same or other packing, fill value and unit in output; axes in the same or other units", "variables of other shape, missing in output; translation of a dimension to a slice of output or from a slice of input by configuration"],
 "outside": ["translations of several slices (refused by fimex)", "parallel execution over variables (C31)", "axis values equal to more than rounding but less than 1e-10 relative"]
} */
#include "h.h"
#include "fimex/FillWriter.h"
#include <sys/mman.h>
#include <unistd.h>
namespace {
const double UNDEF = std::numeric_limits<double>::quiet_NaN();
/* output in memory, growing along the unlimited dimension */
struct Out : public CDMReaderWriter
{
    std::map<std::string, std::vector<double>> mem; // raw values
    std::string unlim;
    using CDMReader::getDataSlice;
    CDM& cdm() { return *cdm_; }
    Sizes sizes(const std::string& n)
    {
        Sizes s;
        for (auto& d : cdm_->getVariable(n).getShape())
            s.push_back(cdm_->getDimension(d).getLength());
        return s;
    }
    DataPtr all(const std::string& n)
    {
        std::vector<double>& v = mem[n];
        size_t t = 1;
        for (auto s : sizes(n))
            t *= s;
        DataPtr d = createData(cdm_->getVariable(n).getDataType(), t, 0.);
        for (size_t i = 0; i < t; i++)
            d->setValue(i, i < v.size() ? v[i] : -77);
        return d;
    }
    DataPtr getDataSlice(const std::string& n, size_t pos) override
    {
        SliceBuilder sb(*cdm_, n);
        for (auto& d : cdm_->getVariable(n).getShape())
            if (d == unlim)
                sb.setStartAndSize(d, pos, 1);
        return getDataSlice(n, sb);
    }
    DataPtr getDataSlice(const std::string& n, const SliceBuilder& sb) override
    {
        return all(n)->slice(sb.getMaxDimensionSizes(), sb.getDimensionStartPositions(), sb.getDimensionSizes());
    }
    void sync() override {}
    void putDataSlice(const std::string& n, size_t pos, const DataPtr d) override
    {
        FS_FAIL("written by unlimited position");
    }
    void putDataSlice(const std::string& n, const SliceBuilder& sb, const DataPtr d) override
    {
        Sizes st = sb.getDimensionStartPositions(), sz = sb.getDimensionSizes(), len = sizes(n);
        size_t t = 1;
        for (auto s : sz)
            t *= s;
        if (d->size() == 0)
            return;
        FS_ASSERT(d->size() == t, "size of written data");
        FS_ASSERT(d->getDataType() == cdm_->getVariable(n).getDataType(), "type of written data");
        const Names& sh = cdm_->getVariable(n).getShape();
        for (size_t i = 0; i < sh.size(); i++)
            if (st[i] + sz[i] > len[i]) {
                FS_ASSERT(sh[i] == unlim && i + 1 == sh.size(), "only the unlimited dimension grows");
                cdm_->getDimension(unlim).setLength(st[i] + sz[i]);
            }
        len = sizes(n);
        size_t total = 1;
        for (auto s : len)
            total *= s;
        mem[n].resize(std::max(total, mem[n].size()), -77);
        forBox(sz, [&](size_t k, Sizes idx) {
            for (size_t i = 0; i < idx.size(); i++)
                idx[i] += st[i];
            mem[n][at(len, idx)] = d->asDouble()[k];
        });
    }
    void var(const std::string& n, CDMDataType t, const Names& s, const std::vector<double>& v)
    {
        cdm_->addVariable(CDMVariable(n, t, s));
        mem[n] = v;
    }
};
const char* PK[] = {"same", "packed", "unit", "fill"};
} // namespace
FS_HARNESS(fill)
{
    fs_text_lossy(1);
    MemReader_p in = memReader();
    auto out = std::make_shared<Out>();
    // axis t: input values are i-th of {0,1,2,3} hours, output {1,3} or {1,2,0}
    const int ni = fs_pick("ni", 1, fs_thorough() ? 3 : 2);
    std::vector<double> ti, to = fs_pick("three", 0, 1) ? std::vector<double>{1, 2, 0} : std::vector<double>{1, 3};
    for (int i = 0; i < ni; i++) {
        double v = fs_pick("t" + std::to_string(i), 0, 3);
        for (double o : ti)
            if (o == v)
                return;
        ti.push_back(v);
    }
    const bool unlim = fs_pick("unlim", 0, 1), coord = !fs_pick("nocoord", 0, 1);
    const int what = fs_pick("what", 0, 3);
    const bool rev = what & 1; // second axis
    if (!coord && ni != (int)to.size() && !unlim && !fs_thorough())
        return;
    in->dim("x", 2);
    in->dim("t", ni, fs_pick("inunlim", 0, 1));
    out->cdm().addDimension(CDMDimension("x", 2));
    CDMDimension td("t", to.size());
    td.setUnlimited(unlim);
    out->cdm().addDimension(td);
    out->unlim = unlim ? "t" : "none";
    in->var("x", CDM_DOUBLE, {"x"}, rev ? std::vector<double>{8, 4} : std::vector<double>{4, 8});
    out->var("x", CDM_DOUBLE, {"x"}, {4, 8});
    const bool tunit = what == 2; // minutes in output
    if (coord) {
        in->var("t", CDM_DOUBLE, {"t"}, ti);
        std::vector<double> o = to;
        for (auto& x : o)
            x *= tunit ? 60 : 1;
        out->var("t", CDM_DOUBLE, {"t"}, o);
        in->att("t", "units", "hours since 2000-01-01 00:00:00");
        out->cdm().addAttribute("t", CDMAttribute("units", std::string(tunit ? "minutes since 2000-01-01 00:00:00" : "hours since 2000-01-01 00:00:00")));
    }
    // data
    std::vector<double> vi(2 * ni), vo(2 * to.size());
    for (size_t i = 0; i < vo.size(); i++)
        vo[i] = 100 + i;
    DataPtr d;
    const bool u = what == 1 && fs_pick("undef", 0, 1);
    const double ifill = -9, ofill = what == 1 ? -5 : -9, osc = what == 3 ? 0.5 : 1, oof = what == 3 ? 8 : 0, ou = what == 2 ? 1000 : 1;
    d = createData(CDM_SHORT, vi.size(), 0.);
    for (size_t i = 0; i < vi.size(); i++) {
        const bool un = u && i == 1;
        short s = un ? (short)ifill : (short)fs_int("v" + std::to_string(i), 0, 15);
        ((short*)d->getDataPtr())[i] = s;
        vi[i] = un ? ofill : (s * ou - oof) / osc;
    }
    in->var("v", CDM_SHORT, {"x", "t"}, d);
    in->att<short>("v", "_FillValue", (short)ifill);
    in->att("v", "units", what == 2 ? "km" : "m");
    out->var("v", what == 2 ? CDM_INT : CDM_SHORT, {"x", "t"}, vo);
    CDM& oc = out->cdm();
    if (what == 2)
        oc.addAttribute("v", CDMAttribute("_FillValue", (int)ofill));
    else
        oc.addAttribute("v", CDMAttribute("_FillValue", (short)ofill));
    oc.addAttribute("v", CDMAttribute("units", std::string("m")));
    if (what == 3) {
        oc.addAttribute("v", CDMAttribute("scale_factor", osc));
        oc.addAttribute("v", CDMAttribute("add_offset", oof));
    }
    // other variables: not in output, other shape (longer and shorter), other dimension
    in->var("n", CDM_INT, {"x"}, std::vector<double>{1, 2});
    in->var("l", CDM_INT, {"x", "t"}, std::vector<double>(2 * ni, 5));
    out->var("l", CDM_INT, {"x"}, {6, 7});
    in->var("s", CDM_INT, {"x"}, std::vector<double>{1, 2});
    out->var("s", CDM_INT, {"x", "t"}, std::vector<double>(2 * to.size(), 6));
    out->var("k", CDM_INT, {"x"}, {3, 4});
    // expected
    bool bad = false;
    std::vector<size_t> pos(ni);
    size_t nt = to.size();
    for (int i = 0; i < ni; i++) {
        if (!coord) {
            if (unlim)
                pos[i] = nt++;
            else {
                pos[i] = i;
                bad = bad || ni != (int)to.size();
            }
            continue;
        }
        size_t p = 0;
        while (p < to.size() && to[p] != ti[i])
            p++;
        if (p == to.size()) {
            if (unlim)
                p = nt++;
            else
                bad = true;
        }
        pos[i] = p;
    }
    std::vector<double> e = vo;
    e.resize(2 * nt, -77);
    for (int i = 0; i < ni && !bad; i++)
        for (int x = 0; x < 2; x++)
            e[pos[i] * 2 + (rev ? 1 - x : x)] = vi[i * 2 + x];
    bool t = throws([&] { FillWriter fw(in, out); });
    FS_ASSERT(t == bad, "an error if and only if values of the axis do not exist in output");
    FS_ASSERT(oc.getDimension("t").getLength() == nt, "length of the filled dimension");
    FS_ASSERT(out->mem["v"].size() == e.size(), "size of the filled variable");
    for (size_t i = 0; i < e.size(); i++)
        FS_ASSERT(out->mem["v"][i] == e[i], "input values at their positions, other values unchanged");
    if (coord)
        for (size_t i = 0; i < nt; i++) {
            double w = i < to.size() ? to[i] : 0;
            for (int k = 0; k < ni; k++)
                if (pos[k] == i)
                    w = ti[k];
            FS_ASSERT(fs_near(out->mem["t"][i], w * (tunit ? 60 : 1), 1e-6), "axis values");
        }
    FS_ASSERT(out->mem["x"][0] == 4 && out->mem["x"][1] == 8, "second axis");
    FS_ASSERT(out->mem["l"][0] == 6 && out->mem["l"][1] == 7 && out->mem["s"][0] == 6 && out->mem["s"][1] == 6, "variables of other shape are not filled");
    FS_ASSERT(out->mem["k"][0] == 3 && !oc.hasVariable("n"), "no other variables");
}
FS_HARNESS(translate)
{
    fs_text_lossy(1);
    MemReader_p in = memReader();
    auto out = std::make_shared<Out>();
    out->unlim = "none";
    const bool fromIn = fs_pick("from", 0, 1), toOut = fs_pick("to", 0, 1);
    const int is = fs_pick("is", 0, 1), os = fs_pick("os", 0, 1);
    Names si{"x"}, so{"x"};
    in->dim("x", 2);
    out->cdm().addDimension(CDMDimension("x", 2));
    if (fromIn) {
        in->dim("a", 2);
        si.push_back("a");
    }
    if (toOut) {
        out->cdm().addDimension(CDMDimension("b", 2));
        so.push_back("b");
    }
    std::vector<int> v;
    in->var("v", CDM_INT, si, symInts("v", fromIn ? 4 : 2, v));
    out->var("v", CDM_INT, so, toOut ? std::vector<double>{1, 2, 3, 4} : std::vector<double>{1, 2});
    std::string xml = "<?xml version=\"1.0\"?><cdmFillWriter xmlns=\"http://www.met.no/schema/fimex/cdmFillWriterConfig\"><translate";
    if (fromIn)
        xml += " inputDimension=\"a\" inputSlices=\"" + std::to_string(is) + "\"";
    if (toOut)
        xml += " outputDimension=\"b\" outputSlices=\"" + std::to_string(os) + "\"";
    xml += "/></cdmFillWriter>";
    int fd = memfd_create("c", 0);
    if (write(fd, xml.data(), xml.size()) != (ssize_t)xml.size())
        return;
    FillWriter fw(in, out, "/proc/self/fd/" + std::to_string(fd));
    close(fd);
    for (int x = 0; x < 2; x++)
        for (int b = 0; b < (toOut ? 2 : 1); b++)
            FS_ASSERT(out->mem["v"][b * 2 + x] == (toOut && b != os ? b * 2 + x + 1. : (double)v[(fromIn ? is * 2 : 0) + x]), "translated slices");
}
