/*FS {
 "regex": true,
 "quick_s": 50, "thorough_s": 400,
 "bounds": ["dataset of 3 x 2 points, 2 levels, 2 times with variables in different dimension orders (time outermost), packed short, float and double data, arbitrary values, one undefined; data in the reader or in memory", "every box of the slice builders (start and size of two dimensions arbitrary), valid or not; names and positions inside and outside; buffers of every length around the needed one", "callbacks adding and multiplying, reading other variables, failing; repeated reading"],
 "outside": ["opening and writing files (C30)", "functions only forwarding to interpolation (C09)"]
} */
#include "h.h"
#include "fimex/c_fimex.h"
#include "fimex/coordSys/CoordinateAxis.h"
#include "fimex/mifi_cdm_reader.h"
#include <cmath>
#include <cstring>
#include <stdlib.h>
namespace {
const int NX = 3, NY = 2, NZ = 2, NT = 2;
struct MemRW : public CDMReaderWriter
{
    MemReader_p r;
    std::string name;
    std::vector<size_t> start, size;
    DataPtr data;
    int puts = 0;
    explicit MemRW(MemReader_p q) : r(q) { *cdm_ = q->getCDM(); }
    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const std::string& n, size_t pos) override { return r->getDataSlice(n, pos); }
    void sync() override {}
    using CDMReaderWriter::putDataSlice;
    void putDataSlice(const std::string&, size_t, const DataPtr) override { FS_FAIL("wrong function for writing"); }
    void putDataSlice(const std::string& n, const SliceBuilder& sb, const DataPtr d) override
    {
        puts++;
        name = n;
        start = sb.getDimensionStartPositions();
        size = sb.getDimensionSizes();
        data = d;
    }
};
/* variables a(x,y,z,t) short packed, b(z,y,x,t) float, c(x,y) double */
struct Set
{
    MemReader_p r;
    std::vector<double> a, b, c; // physical values
};
Set dataset(int inMemory)
{
    Set s;
    s.r = memReader();
    MemReader& r = *s.r;
    r.att(r.cdm().globalAttributeNS(), "Conventions", "CF-1.4");
    r.dim("lon", NX);
    r.dim("lat", NY);
    r.dim("lev", NZ);
    r.dim("time", NT, true);
    r.var("lon", CDM_DOUBLE, {"lon"}, std::vector<double>{10, 11, 12});
    r.var("lat", CDM_DOUBLE, {"lat"}, std::vector<double>{60, 61});
    r.var("lev", CDM_DOUBLE, {"lev"}, std::vector<double>{500, 850});
    r.var("time", CDM_DOUBLE, {"time"}, std::vector<double>{0, 6});
    r.att("lon", "units", "degrees_east");
    r.att("lat", "units", "degrees_north");
    r.att("lev", "units", "hPa");
    r.att("time", "units", "hours since 2000-01-01 00:00:00");
    r.var("rt", CDM_DOUBLE, Names{}, std::vector<double>{18});
    r.att("rt", "standard_name", "forecast_reference_time");
    r.att("rt", "units", "hours since 2000-01-01 00:00:00");
    const int n = NX * NY * NZ * NT;
    std::vector<double> wa, wb, wc;
    for (int i = 0; i < n; i++) {
        const double q = i == 5 ? -99 : (double)fs_int("a" + std::to_string(i), -50, 50);
        wa.push_back(q);
        s.a.push_back(i == 5 ? std::numeric_limits<double>::quiet_NaN() : q * 0.5 + 100);
    }
    for (int i = 0; i < n; i++)
        wb.push_back(1000 + i);
    for (int i = 0; i < NX * NY; i++)
        wc.push_back((double)fs_int("c" + std::to_string(i), -50, 50));
    s.b = wb;
    s.c = wc;
    r.var("a", CDM_SHORT, {"lon", "lat", "lev", "time"}, wa);
    r.att("a", "scale_factor", 0.5);
    r.att("a", "add_offset", 100.);
    r.att("a", "_FillValue", (short)-99);
    r.att("a", "units", "K");
    r.var("b", CDM_FLOAT, {"lev", "lat", "lon", "time"}, wb);
    r.att("b", "units", "m");
    r.var("c", CDM_DOUBLE, {"lon", "lat"}, wc);
    r.att("c", "units", "m");
    if (inMemory)
        for (const char* v : {"a", "b", "c"})
            r.cdm().getVariable(v).setData(r.full(v));
    return s;
}
bool text(const char* a, const std::string& b)
{
    return a && b == a;
}
int seenSize, seenCalls;
size_t seenPos;
std::string seenVar;
int fail;
int callback(mifi_cdm_reader* reader, const char* varName, size_t pos, double* data, size_t size)
{
    seenCalls++;
    seenVar = varName;
    seenPos = pos;
    seenSize = (int)size;
    double* c = 0;
    size_t nc = 0;
    if (mifi_get_double_data(reader, "lev", &c, &nc) != 0 || nc != 2 || c[1] != 850)
        return 7;
    free(c);
    for (size_t i = 0; i < size; i++)
        data[i] = data[i] * 2 + 1 + pos;
    return fail;
}
}
/* what the dataset contains */
FS_HARNESS(describe)
{
    fs_text_lossy(1);
    Set s = dataset((int)fs_pick("memory", 0, 1));
    mifi_cdm_reader mr(s.r);
    mifi_cdm_reader* r = &mr;
    const CDM& cdm = s.r->getCDM();
    const size_t nv = cdm.getVariables().size(), nd = cdm.getDimensions().size();
    FS_ASSERT(mifi_get_variable_number(r) == nv && mifi_get_dimension_number(r) == nd, "number of variables and dimensions");
    const int pos = (int)fs_pick("pos", 0, 10), n = (pos + (int)nd) % 7;
    FS_ASSERT(text(mifi_get_variable_name(r, pos), pos < (int)nv ? cdm.getVariables()[pos].getName() : ""), "name of a variable");
    FS_ASSERT(text(mifi_get_dimension_name(r, pos), pos < (int)nd ? cdm.getDimensions()[pos].getName() : ""), "name of a dimension");
    const char* NAMES[] = {"lon", "lat", "lev", "time", "a", "b", "c", "rt", "nosuch", ""};
    const std::string name = NAMES[fs_pick("name", 0, 9)];
    FS_ASSERT(mifi_get_variable_type(r, name.c_str()) == (unsigned)(cdm.hasVariable(name) ? cdm.getVariable(name).getDataType() : CDM_NAT), "type of a variable");
    FS_ASSERT(mifi_get_dimension_size(r, name.c_str()) == (cdm.hasDimension(name) ? cdm.getDimension(name).getLength() : 0), "size of a dimension");
    FS_ASSERT(text(mifi_get_unlimited_dimension_name(r), "time"), "unlimited dimension");
    const bool geo = name == "a" || name == "b" || name == "c";
    for (int w = 0; w < 2; w++) {
        char* l = w ? mifi_get_var_latitude(r, name.c_str()) : mifi_get_var_longitude(r, name.c_str());
        if (geo) {
            FS_ASSERT(text(l, w ? "lat" : "lon"), "longitude/latitude of a variable");
        } else
            FS_ASSERT(l == 0, "a variable without longitude/latitude");
        free(l);
        char buf[8];
        memset(buf, 'q', sizeof(buf));
        const int rc = w ? mifi_get_var_latitude_cpy(r, name.c_str(), buf + 1, n) : mifi_get_var_longitude_cpy(r, name.c_str(), buf + 1, n);
        FS_ASSERT(rc == (!geo ? -1 : n < 4 ? 0 : 4), "number of copied characters");
        FS_ASSERT(buf[0] == 'q' && buf[n + 1] == 'q', "nothing written outside of the buffer");
        if (rc > 0)
            FS_ASSERT(std::string(buf + 1) == (w ? "lat" : "lon"), "copied name");
    }
    FS_ASSERT(mifi_get_unique_forecast_reference_time(r, "hours since 2000-01-01 12:00:00") == 6, "forecast reference time");
    const double t = mifi_get_unique_forecast_reference_time(r, "nonsense");
    FS_ASSERT(t != t, "reference time in an unknown unit");
    FS_REACH("described");
}
/* slices of the data */
FS_HARNESS(slices)
{
    fs_text_lossy(1);
    const char* NAMES[] = {"a", "b", "c", "lev"};
    const int which = (int)fs_pick("var", 0, 3);
    const std::string name = NAMES[which];
    const int u = (int)fs_pick("unit", 0, 3);
    Set s = dataset(fs_thorough() ? (int)fs_pick("memory", 0, 1) : u % 2);
    mifi_cdm_reader mr(s.r);
    mifi_cdm_reader* r = &mr;
    const CDM& cdm = s.r->getCDM();
    const Names shape = cdm.getVariable(name).getShape();
    const std::vector<double> val = which == 0 ? s.a : which == 1 ? s.b : which == 2 ? s.c : std::vector<double>{500, 850};
    mifi_slicebuilder* sb = mifi_new_slicebuilder(r, name.c_str());
    FS_ASSERT(sb != 0, "slice builder of a variable");
    FS_ASSERT(mifi_slicebuilder_ndims(sb) == (int)shape.size(), "number of dimensions");
    std::vector<unsigned> st(shape.size(), 0), sz;
    for (size_t i = 0; i < shape.size(); i++) {
        const char* dn = mifi_slicebuilder_dimname(sb, (int)i);
        FS_ASSERT(text(dn, shape[i]), "names of the dimensions in the order of the variable");
        free((void*)dn);
        sz.push_back((unsigned)cdm.getDimension(shape[i]).getLength());
    }
    for (int bad : {-1, (int)shape.size(), 99}) {
        const char* dn = mifi_slicebuilder_dimname(sb, bad);
        FS_ASSERT(text(dn, ""), "name of a dimension outside");
        free((void*)dn);
        char buf[4] = {'q', 'q', 'q', 'q'};
        FS_ASSERT(mifi_slicebuilder_dimname_cpy(sb, bad, buf, 3) == 1 && buf[0] == 0 && buf[3] == 'q', "name of a dimension outside");
    }
    FS_ASSERT(mifi_slicebuilder_has_CS(sb) == (which < 3 ? 1 : mifi_slicebuilder_has_CS(sb)), "coordinate system of the slices");
    int none[8];
    FS_ASSERT(mifi_slicebuilder_get_axistype(nullptr, none) < 0, "types of the axes of nothing");
    if (!mifi_slicebuilder_has_CS(sb))
        FS_ASSERT(mifi_slicebuilder_get_axistype(sb, none) < 0, "types of the axes without coordinate system");
    if (mifi_slicebuilder_has_CS(sb)) {
        int types[4] = {-1, -1, -1, -1};
        FS_ASSERT(mifi_slicebuilder_get_axistype(sb, types) == 0, "types of the axes");
        for (size_t i = 0; i < shape.size(); i++) {
            const CoordinateAxis::AxisType e = shape[i] == "lon" ? CoordinateAxis::Lon : shape[i] == "lat" ? CoordinateAxis::Lat : shape[i] == "lev" ? CoordinateAxis::Pressure : CoordinateAxis::Time;
            FS_ASSERT(types[i] == CoordinateAxis::type2int(e), "type of an axis");
        }
    }
    // a box, valid or not
    for (int k = 0; k < 2; k++) {
        const int d = k == 0 ? 0 : (int)shape.size() - 1, len = (int)cdm.getDimension(shape[d]).getLength();
        const int b = k && !fs_thorough() ? u % 2 : (int)fs_pick(k ? "start1" : "start0", 0, len), n = (int)fs_pick(k ? "size1" : "size0", 0, len + 1);
        const int rc = mifi_slicebuilder_set_dim_start_size(sb, shape[d].c_str(), b, n);
        if (b + n <= len) {
            FS_ASSERT(rc == 0, "valid part of a dimension");
            st[d] = b;
            sz[d] = n;
        } else
            FS_ASSERT(rc < 0, "a part outside of the dimension is refused");
    }
    FS_ASSERT(mifi_slicebuilder_set_dim_start_size(sb, "nosuch", 0, 1) < 0, "unknown dimension is refused");
    unsigned gst[4], gsz[4];
    FS_ASSERT(mifi_slicebuilder_get_start_size(sb, gst, gsz) == 0, "get start and size");
    size_t n = 1;
    Sizes dims, box;
    for (size_t i = 0; i < shape.size(); i++) {
        FS_ASSERT(gst[i] == st[i] && gsz[i] == sz[i], "start and size are those set, refused ones change nothing");
        n *= sz[i];
        dims.push_back(cdm.getDimension(shape[i]).getLength());
        box.push_back(sz[i]);
    }
    const char* un[] = {"", which == 0 ? "K" : which == 3 ? "hPa" : "m", which == 0 ? "Celsius" : which == 3 ? "Pa" : "km", "s"};
    std::vector<double> out(n + 2, -12345.);
    size_t got = 99;
    const int rc = mifi_fill_scaled_double_dataslice(r, name.c_str(), sb, un[u], out.data() + 1, &got);
    if (u == 3) {
        FS_ASSERT(rc != 0, "units that do not fit are an error");
    } else {
        FS_ASSERT(rc == 0 && got == n, "size of the slice");
        FS_ASSERT(out[0] == -12345. && out[n + 1] == -12345., "nothing written outside of the slice");
        size_t o = 0;
        forBox(box, [&](size_t, const Sizes& idx) {
            Sizes j;
            for (size_t i = 0; i < idx.size(); i++)
                j.push_back(idx[i] + st[i]);
            double e = val[at(dims, j)];
            e = u < 2 ? e : which == 0 ? e - 273.15 : which == 3 ? e * 100 : e / 1000;
            const double g = out[1 + o++];
            if (e != e) {
                FS_ASSERT(g != g, "undefined value in the slice");
            } else
                FS_ASSERT(fs_near(g, e, 1e-6), "value in the slice");
        });
    }
    mifi_free_slicebuilder(sb);
    FS_ASSERT(mifi_new_slicebuilder(r, "nosuch") == 0, "slice builder of an unknown variable");
    // complete data and slices of the unlimited dimension
    double* d = 0;
    size_t nd = 0;
    const size_t per = which < 2 ? val.size() / 2 : val.size();
    FS_ASSERT(mifi_get_double_data(r, name.c_str(), &d, &nd) == 0 && nd == val.size(), "complete data");
    for (size_t i = 0; i < nd; i++)
        FS_ASSERT(FS_SAME(d[i], val[i]), "complete data");
    free(d);
    FS_ASSERT(mifi_get_double_dataslice(r, name.c_str(), 1, &d, &nd) == 0 && nd == per, "slice of the unlimited dimension");
    for (size_t i = 0; i < nd; i++)
        FS_ASSERT(FS_SAME(d[i], val[(which < 2 ? per : 0) + i]), "slice of the unlimited dimension");
    free(d);
    FS_ASSERT(mifi_get_double_data(r, "nosuch", &d, &nd) != 0 && mifi_get_double_dataslice(r, "nosuch", 0, &d, &nd) != 0, "data of an unknown variable");
    FS_REACH("sliced");
}
/* changing data while reading */
FS_HARNESS(callbacks)
{
    fs_text_lossy(1);
    const char* NAMES[] = {"a", "b", "c"};
    const int which = (int)fs_pick("var", 0, 2);
    const std::string name = NAMES[which];
    Set s = dataset((int)fs_pick("memory", 0, 1));
    mifi_cdm_reader mr(s.r);
    FS_ASSERT(mifi_set_callback_double(&mr, name.c_str(), callback) != 0, "callbacks need a reader for callbacks");
    mifi_cdm_reader* c = mifi_new_c_reader(&mr);
    FS_ASSERT(c != 0, "reader for callbacks");
    FS_ASSERT(mifi_set_callback_double(c, "nosuch", callback) != 0, "callback of an unknown variable");
    FS_ASSERT(mifi_set_callback_double(c, name.c_str(), callback) == 0, "set a callback");
    FS_ASSERT(mifi_get_variable_type(c, name.c_str()) == (unsigned)CDM_DOUBLE, "variables with a callback are double");
    fail = (int)fs_pick("fail", 0, 1);
    seenCalls = 0;
    for (int w = 0; w < 3; w++) {
        const std::vector<double>& val = w == 0 ? s.a : w == 1 ? s.b : s.c;
        const size_t per = w < 2 ? val.size() / 2 : val.size();
        for (int t = 0; t < 3; t++) {
            const size_t pos = t == 2 ? 0 : t;
            double* d = 0;
            size_t n = 0;
            const int rc = mifi_get_double_dataslice(c, NAMES[w], pos, &d, &n);
            if (w == which && fail) {
                FS_ASSERT(rc != 0, "a failing callback is an error");
                continue;
            }
            FS_ASSERT(rc == 0 && n == per, "data of a reader with callbacks");
            if (w == which)
                FS_ASSERT(seenVar == name && seenPos == pos && seenSize == (int)per, "arguments of the callback");
            for (size_t i = 0; i < n; i++) {
                double e = val[(w < 2 ? pos * per : 0) + i];
                if (w == which)
                    e = e * 2 + 1 + pos;
                FS_ASSERT(FS_SAME(d[i], e), "data changed once by the callback of this variable, other data unchanged");
            }
            free(d);
        }
        // the source keeps its data
        double* d = 0;
        size_t n = 0;
        FS_ASSERT(mifi_get_double_data(&mr, NAMES[w], &d, &n) == 0 && n == val.size(), "data of the source");
        for (size_t i = 0; i < n; i++)
            FS_ASSERT(FS_SAME(d[i], val[i]), "the source is not changed");
        free(d);
    }
    FS_ASSERT(seenCalls == 3, "one call of the callback for each read");
    mifi_free_cdm_reader(c);
    FS_REACH("called");
}
/* writing parts */
FS_HARNESS(write)
{
    fs_text_lossy(1);
    Set s = dataset(0);
    auto rw = std::make_shared<MemRW>(s.r);
    mifi_cdm_reader mr(rw), ro(s.r);
    const char* NAMES[] = {"a", "b"};
    const int which = (int)fs_pick("var", 0, 1), u = (int)fs_pick("unit", 0, 3);
    const std::string name = NAMES[which];
    mifi_slicebuilder* sb = mifi_new_slicebuilder(&mr, name.c_str());
    FS_ASSERT(mifi_slicebuilder_set_dim_start_size(sb, "time", 1, 1) == 0 && mifi_slicebuilder_set_dim_start_size(sb, "lat", 1, 1) == 0 && mifi_slicebuilder_set_dim_start_size(sb, "lev", 0, 1) == 0, "box");
    const char* un[] = {"", which == 0 ? "K" : "m", which == 0 ? "Celsius" : "km", "s"};
    double d[3];
    std::vector<double> phys;
    for (int i = 0; i < 3; i++) {
        const int q = (int)fs_int("w" + std::to_string(i), -40, 40);
        phys.push_back(q + 80.);
        d[i] = u < 2 ? phys[i] : which == 0 ? phys[i] - 273.15 : phys[i] / 1000;
    }
    const bool undef = fs_pick("undef", 0, 1);
    if (undef)
        d[1] = std::numeric_limits<double>::quiet_NaN();
    const int rc = mifi_write_scaled_double_dataslice(&mr, name.c_str(), sb, un[u], d, 3);
    FS_ASSERT(mifi_write_scaled_double_dataslice(&ro, name.c_str(), sb, un[u], d, 3) != 0, "readers cannot write");
    FS_ASSERT(mifi_write_scaled_double_dataslice(&mr, name.c_str(), sb, un[u], 0, 3) != 0, "nothing to write");
    if (u == 3) {
        FS_ASSERT(rc != 0 && rw->puts == 0, "units that do not fit are an error");
    } else {
        FS_ASSERT(rc == 0 && rw->puts == 1 && rw->name == name, "written once");
        const Names shape = rw->getCDM().getVariable(name).getShape();
        for (size_t i = 0; i < shape.size(); i++) {
            FS_ASSERT(rw->start[i] == (shape[i] == "time" || shape[i] == "lat" ? 1u : 0u), "start of the written part");
            FS_ASSERT(rw->size[i] == (shape[i] == "lon" ? 3u : 1u), "size of the written part");
        }
        FS_ASSERT(rw->data && rw->data->size() == 3 && rw->data->getDataType() == (which ? CDM_FLOAT : CDM_SHORT), "type and size of the written data");
        auto w = rw->data->asDouble();
        for (int i = 0; i < 3; i++)
            if (undef && i == 1) {
                FS_ASSERT(w[i] == rw->getCDM().getFillValue(name), "undefined values are written as fill value");
            } else
                FS_ASSERT(fs_near(w[i], which ? phys[i] : (phys[i] - 100) * 2, which ? 1e-2 : 0.01), "written value in the unit and packing of the variable");
    }
    mifi_free_slicebuilder(sb);
    FS_REACH("written");
}
