/*FS {
 "quick_s": 100, "thorough_s": 500, "regex": true, "io": ["netcdf"],
 "bounds": ["the reader and writer of src/io/netcdf on an in-memory stand-in of the netcdf C library (harness/ncmem.h) with the library's rules on formats, types, names, define mode, positions, chunks and fill values", "formats netcdf 3, 3 (64 bit), 4 classic and 4; all data types; variables of 0..3 dimensions of 1..3 values with or without an unlimited dimension of up to 3 records, at any position in netcdf 4 files read; arbitrary values", "attributes of every type with 0..2 arbitrary values, global and of variables", "any box of a variable of 2..3 dimensions, read or replaced", "each call of the library failing in turn, while writing and while reading"],
 "outside": ["the netcdf library itself, its files, compression and parallel access", "opendap and zarr", "groups, user types and several unlimited dimensions of netcdf 4", "parallel execution of the writer (C31)"]
} */
#include "h.h"
#include "ncmem.h"
#define MIFI_IO_READER_SUPPRESS_DEPRECATED
#include "NetCDFIoFactory.h"
#include "NetCDF_CDMReader.h"
#include "NetCDF_CDMWriter.h"
#include "NetCDF_Utils.h"
#include "fimex/XMLDoc.h"
#include "fimex/XMLInputDoc.h"
#include "fimex/XMLInputString.h"
namespace {
typedef long long LL;
typedef unsigned long long ULL;
const CDMDataType TYPES[] = {CDM_INT, CDM_CHAR, CDM_SHORT, CDM_FLOAT, CDM_DOUBLE, CDM_STRING, CDM_UCHAR, CDM_USHORT, CDM_UINT, CDM_INT64, CDM_UINT64, CDM_STRINGS};
bool inClassic(CDMDataType t)
{
    return t <= CDM_DOUBLE || t == CDM_STRING;
}
template <class T>
T* ptr(DataPtr d)
{
    return (T*)d->getDataPtr();
}
/* data with arbitrary values of a type */
DataPtr sym(const std::string& name, CDMDataType t, size_t n)
{
    if (t == CDM_STRING) {
        std::string s(n, ' ');
        for (size_t i = 0; i < n; i++)
            s[i] = (char)fs_int(name + std::to_string(i), 1, 126);
        return createData(s);
    }
    if (t == CDM_STRINGS) {
        auto a = make_shared_array<std::string>(n);
        for (size_t i = 0; i < n; i++)
            a[i] = i == n - 1 && fs_pick(name + std::to_string(i), 0, 1) ? "" : "text" + std::to_string(i);
        return createData(n, a);
    }
    DataPtr d = createData(t, n, 0.);
    for (size_t i = 0; i < n; i++) {
        const std::string m = name + std::to_string(i);
        switch (t) {
        case CDM_CHAR:
            ptr<char>(d)[i] = (char)fs_int(m, -128, 127);
            break;
        case CDM_UCHAR:
            ptr<unsigned char>(d)[i] = (unsigned char)fs_int(m, 0, 255);
            break;
        case CDM_SHORT:
            ptr<short>(d)[i] = (short)fs_int(m, -32768, 32767);
            break;
        case CDM_USHORT:
            ptr<unsigned short>(d)[i] = (unsigned short)fs_int(m, 0, 65535);
            break;
        case CDM_INT:
            ptr<int>(d)[i] = (int)fs_int(m, -2147483647 - 1, 2147483647);
            break;
        case CDM_UINT:
            ptr<unsigned>(d)[i] = (unsigned)fs_int(m, 0, 4294967295LL);
            break;
        case CDM_INT64:
            ptr<LL>(d)[i] = fs_int(m, -9007199254740993LL, 9223372036854775807LL);
            break;
        case CDM_UINT64:
            ptr<ULL>(d)[i] = fs_int(m, 0, 9223372036854775807LL);
            break;
        case CDM_FLOAT:
            ptr<float>(d)[i] = (float)fs_real(m, -1000, 1000, 3);
            break;
        case CDM_DOUBLE:
            ptr<double>(d)[i] = fs_real(m, -1000, 1000, 3);
            break;
        default:
            break;
        }
    }
    return d;
}
void same(DataPtr a, size_t i, DataPtr b, size_t j)
{
    switch (a->getDataType()) {
    case CDM_CHAR:
    case CDM_UCHAR:
        FS_ASSERT(ptr<char>(a)[i] == ptr<char>(b)[j], "byte value");
        break;
    case CDM_STRING:
        FS_ASSERT(a->asString()[i] == b->asString()[j], "text");
        break;
    case CDM_SHORT:
    case CDM_USHORT:
        FS_ASSERT(ptr<short>(a)[i] == ptr<short>(b)[j], "short value");
        break;
    case CDM_INT:
    case CDM_UINT:
        FS_ASSERT(ptr<int>(a)[i] == ptr<int>(b)[j], "int value");
        break;
    case CDM_INT64:
    case CDM_UINT64:
        FS_ASSERT(ptr<LL>(a)[i] == ptr<LL>(b)[j], "64 bit value");
        break;
    case CDM_FLOAT:
        FS_ASSERT(FS_SAME(ptr<float>(a)[i], ptr<float>(b)[j]), "float value");
        break;
    case CDM_DOUBLE:
        FS_ASSERT(FS_SAME(ptr<double>(a)[i], ptr<double>(b)[j]), "double value");
        break;
    case CDM_STRINGS:
        FS_ASSERT(a->asStrings()[i] == b->asStrings()[j], "strings");
        break;
    default:
        FS_FAIL("type of data");
    }
}
void same(DataPtr a, DataPtr b)
{
    FS_ASSERT(a && b, "data there");
    FS_ASSERT(a->getDataType() == b->getDataType(), "type of data");
    FS_ASSERT(a->size() == b->size(), "size of data");
    for (size_t i = 0; i < a->size(); i++)
        same(a, i, b, i);
}
const int VERSIONS[] = {3, 4, 5};
void write(CDMReader_p r, int version, const std::string& config = "")
{
    if (config.empty())
        NetCDF_CDMWriter(r, "out.nc", XMLInputDoc("", XMLDoc_p()), version);
    else
        NetCDF_CDMWriter(r, "out.nc", XMLInputString(config), version);
}
bool refused(CDMReader_p r, int version, const std::string& config = "")
{
    try {
        write(r, version, config);
    } catch (CDMException&) {
        return true;
    }
    return false;
}
CDMReader_p reread()
{
    return std::make_shared<NetCDF_CDMReader>("out.nc", false);
}
void sameDims(const CDM& a, const CDM& b)
{
    FS_ASSERT(a.getDimensions().size() == b.getDimensions().size(), "number of dimensions");
    for (auto& d : a.getDimensions()) {
        FS_ASSERT(b.hasDimension(d.getName()), "dimension in file");
        const CDMDimension& e = b.getDimension(d.getName());
        FS_ASSERT(d.getLength() == e.getLength(), "length of dimension");
        FS_ASSERT(d.isUnlimited() == e.isUnlimited(), "dimension is unlimited");
    }
}
} // namespace

FS_HARNESS(roundtrip)
{
    nc::reset();
    const CDMDataType t = TYPES[fs_pick("type", 0, 11)];
    const int version = VERSIONS[fs_pick("version", 0, 2)];
    const int shape = (int)fs_pick("shape", 0, 4);
    const size_t nt = (size_t)fs_pick("records", 1, 2);
    auto m = memReader();
    m->dim("x", 2);
    m->dim("t", nt, true);
    m->dim("unused", 3);
    m->dim("y", 3);
    const Names shapes[] = {{}, {"x"}, {"t"}, {"x", "t"}, {"x", "y", "t"}};
    const size_t sizes[] = {1, 2, nt, 2 * nt, 6 * nt};
    m->var("t", CDM_DOUBLE, Names(1, "t"), sym("t", CDM_DOUBLE, nt));
    m->var("v", t, shapes[shape], sym("v", t, sizes[shape]));
    m->var("xy", CDM_SHORT, {"x", "y"}, sym("w", CDM_SHORT, 6));
    m->att("v", "units", "m");
    m->cdm().addAttribute(m->cdm().globalAttributeNS(), CDMAttribute("title", std::string("a title")));
    if (refused(m, version)) {
        FS_ASSERT(version != 5, "written in netcdf 4 format");
        FS_ASSERT(!inClassic(t), "type written in classic format");
        return;
    }
    auto r = reread();
    m->cdm().removeDimension("unused");
    sameDims(m->getCDM(), r->getCDM());
    FS_ASSERT(r->getCDM().getVariables().size() == 3, "variables");
    for (auto& v : m->getCDM().getVariables()) {
        FS_ASSERT(r->getCDM().hasVariable(v.getName()), "variable in file");
        const CDMVariable& w = r->getCDM().getVariable(v.getName());
        FS_ASSERT(w.getDataType() == v.getDataType(), "type of variable");
        FS_ASSERT(w.getShape() == v.getShape(), "shape of variable");
        same(m->mem[v.getName()], r->getData(v.getName()));
        if (m->getCDM().hasUnlimitedDim(v))
            for (size_t i = 0; i < nt; i++)
                same(m->getDataSlice(v.getName(), i), r->getDataSlice(v.getName(), i));
    }
    FS_ASSERT(r->getCDM().getAttribute("v", "units").getStringValue() == "m", "attribute");
    FS_ASSERT(r->getCDM().getAttribute(CDM::globalAttributeNS(), "title").getStringValue() == "a title", "global attribute");
    FS_REACH("written and read");
}

FS_HARNESS(attributes)
{
    nc::reset();
    const CDMDataType t = TYPES[fs_pick("type", 0, 11)];
    const int version = VERSIONS[fs_pick("version", 0, 2)];
    const size_t n = (size_t)fs_pick("number", 0, 2);
    const std::string where = fs_pick("global", 0, 1) ? CDM::globalAttributeNS() : "v";
    auto m = memReader();
    m->dim("x", 1);
    m->var("v", CDM_INT, {"x"}, sym("v", CDM_INT, 1));
    DataPtr d = sym("a", t, n);
    m->cdm().addAttribute(where, CDMAttribute("first", 7));
    m->cdm().addAttribute(where, CDMAttribute("att", d));
    m->cdm().addAttribute(where, CDMAttribute("last", 9.5f));
    if (refused(m, version)) {
        FS_ASSERT(version != 5, "written in netcdf 4 format");
        FS_ASSERT(!inClassic(t), "type written in classic format");
        if (n == 1)
            FS_ASSERT(t != CDM_STRINGS, "one string");
        return;
    }
    auto r = reread();
    const auto atts = r->getCDM().getAttributes(where);
    FS_ASSERT(atts.size() == 3, "number of attributes");
    CDMAttribute a;
    FS_ASSERT(r->getCDM().getAttribute(where, "att", a), "attribute");
    if (t == CDM_STRINGS && version != 5) {
        FS_ASSERT(a.getDataType() == CDM_STRING, "type of attribute");
        FS_ASSERT(a.getStringValue() == d->asStrings()[0], "text of attribute");
    } else {
        same(d, a.getData());
    }
    FS_ASSERT(r->getCDM().getAttribute(where, "first").getData()->asInt()[0] == 7, "attribute before");
    FS_ASSERT(r->getCDM().getAttribute(where, "last").getData()->asFloat()[0] == 9.5f, "attribute after");
    FS_REACH("written and read");
}

/* reading and replacing boxes; netcdf 4 files may have the unlimited dimension anywhere */
FS_HARNESS(boxes)
{
    nc::reset();
    const int nd = (int)fs_pick("dims", 1, 3);
    const int unlim = (int)fs_pick("unlimited", -1, nd - 1); // position, slowest first
    const bool put = fs_pick("put", 0, 1);
    int id, dims[3], v;
    size_t len[3] = {3, 2, 2}, zero[3] = {0, 0, 0}, n = 1;
    nc_create("out.nc", NC_NETCDF4, &id);
    const char* names[] = {"a", "b", "c"};
    for (int i = 0; i < nd; i++) {
        nc_def_dim(id, names[i], i == unlim ? NC_UNLIMITED : len[i], &dims[i]);
        n *= len[i];
    }
    nc_def_var(id, "v", NC_INT, nd, dims, &v);
    DataPtr d = sym("v", CDM_INT, n);
    nc_put_vara_int(id, v, zero, len, ptr<int>(d));
    nc_close(id);

    auto r = std::make_shared<NetCDF_CDMReader>("out.nc", put);
    same(d, r->getData("v"));
    size_t st[3], ct[3] = {1, 1, 1};
    Sizes cs, cc; // fastest first
    const bool bypos = r->getCDM().getUnlimitedDim() && fs_pick("bypos", 0, 1);
    FS_ASSERT(!r->getCDM().getUnlimitedDim() || unlim == 0, "slices along the unlimited dimension are contiguous");
    SliceBuilder sb(r->getCDM(), "v");
    for (int i = 0; i < nd; i++) {
        if (bypos) {
            st[i] = i == unlim ? (size_t)fs_pick("pos", 0, len[i] - 1) : 0;
            ct[i] = i == unlim ? 1 : len[i];
        } else {
            st[i] = (size_t)fs_pick(std::string("start") + names[i], 0, len[i] - 1);
            ct[i] = (size_t)fs_pick(std::string("size") + names[i], 1, len[i] - st[i]);
        }
        sb.setStartAndSize(names[i], st[i], ct[i]);
    }
    const size_t bn = ct[0] * (nd > 1 ? ct[1] : 1) * (nd > 2 ? ct[2] : 1);
    DataPtr b;
    if (put) {
        b = sym("n", CDM_INT, bn);
        if (bypos)
            r->putDataSlice("v", st[unlim], b);
        else
            r->putDataSlice("v", sb, b);
        r->sync();
    } else {
        b = bypos ? r->getDataSlice("v", st[unlim]) : r->getDataSlice("v", sb);
        FS_ASSERT(b && b->size() == bn, "size of box");
    }
    DataPtr after = put ? r->getData("v") : d;
    FS_ASSERT(after && after->size() == n, "size of variable");
    size_t k = 0;
    for (size_t p = 0; p < n; p++) {
        size_t q = p;
        bool in = true;
        for (int i = nd - 1; i >= 0; i--) {
            const size_t x = q % len[i];
            q /= len[i];
            in = in && x >= st[i] && x < st[i] + ct[i];
        }
        if (in)
            same(b, k++, after, p);
        else
            same(d, p, after, p);
    }
    FS_REACH("box");
}

/* values that the source does not have are undefined in the file */
FS_HARNESS(undefined)
{
    nc::reset();
    const CDMDataType t = TYPES[fs_pick("type", 0, 10)];
    if (t == CDM_STRING)
        return;
    const int version = VERSIONS[fs_pick("version", 0, 2)];
    if (version != 5 && !inClassic(t))
        return;
    const bool fill = t == CDM_INT64 || t == CDM_UINT64 || fs_pick("fill", 0, 1); // fill values are doubles
    const int which = (int)fs_pick("which", 0, 3); // the missing slice; or the fixed variable
    auto m = memReader();
    m->dim("x", 2);
    m->dim("t", 3, true);
    m->var("t", CDM_DOUBLE, Names(1, "t"), sym("t", CDM_DOUBLE, 3));
    m->var("v", t, {"x", "t"}, sym("v", t, 6));
    m->var("w", t, {"x"}, which == 3 ? createData(t, 0, 0.) : sym("w", t, 2));
    if (fill) {
        m->cdm().addAttribute("v", CDMAttribute("_FillValue", createData(t, 1, 99.)));
        m->cdm().addAttribute("w", CDMAttribute("_FillValue", createData(t, 1, 98.)));
    }
    if (which < 3)
        m->missing.insert(std::make_pair(std::string("v"), (size_t)which));
    write(m, version);
    auto r = reread();
    DataPtr v = r->getData("v"), w = r->getData("w");
    FS_ASSERT(v->size() == 6 && w->size() == 2, "sizes");
    DataPtr fv = createData(t, 1, m->getCDM().getFillValue("v")), fw = createData(t, 1, m->getCDM().getFillValue("w"));
    for (size_t i = 0; i < 6; i++) {
        if ((int)i / 2 == which)
            same(fv, 0, v, i);
        else
            same(m->mem["v"], i, v, i);
    }
    for (size_t i = 0; i < 2; i++) {
        if (which == 3)
            same(fw, 0, w, i);
        else
            same(m->mem["w"], i, w, i);
    }
    FS_REACH("undefined");
}

/* the configuration of the writer: type, packing, fill value and unit change, the meaning of the values does not */
FS_HARNESS(convert)
{
    nc::reset();
    fs_text_lossy(1);
    const bool unlim = fs_pick("unlim", 0, 1);
    const int version = unlim ? 3 : 5;
    const CDMDataType from = fs_pick("from", 0, 1) ? CDM_SHORT : CDM_DOUBLE;
    const int to = (int)fs_pick("to", 0, 3);
    const char* toName[] = {"", "short", "float", "int"};
    const CDMDataType toType[] = {from, CDM_SHORT, CDM_FLOAT, CDM_INT};
    const bool packed = from == CDM_SHORT && fs_pick("packed", 0, 1);
    const int pack = (int)fs_pick("pack", 0, 2); // none; scale; scale and offset
    const bool unit = fs_pick("unit", 0, 1);
    const bool newFill = to > 0;
    auto m = memReader();
    m->dim("x", 2);
    m->dim("t", 2, true);
    const size_t pos = unlim ? 3 : 1, n = unlim ? 4 : 2;
    DataPtr d = createData(from, n, 1.);
    const bool undef = fs_pick("undef", 0, 1);
    const double fill = -999;
    const int raw = unit ? 7 * (int)fs_pick("value", -1, 1) : (int)fs_int("raw", -900, 900); // the unit library takes numbers only
    d->setValue(pos, undef ? fill : from == CDM_SHORT ? raw : raw * 0.5);
    m->var("t", CDM_DOUBLE, Names(1, "t"), sym("t", CDM_DOUBLE, 2));
    m->var("v", from, unlim ? Names({"x", "t"}) : Names({"x"}), d);
    m->cdm().addAttribute("v", CDMAttribute("_FillValue", createData(from, 1, fill)));
    m->att("v", "units", "km");
    if (packed) {
        m->att("v", "scale_factor", 0.5);
        m->att("v", "add_offset", 16.);
    }
    std::string c = "<cdm_ncwriter_config><variable name=\"v\"" + (to ? std::string(" type=\"") + toName[to] + "\"" : "") + ">";
    if (newFill)
        c += std::string("<attribute name=\"_FillValue\" value=\"-32000\" type=\"") + toName[to] + "\"/>";
    if (unit)
        c += "<attribute name=\"units\" value=\"m\" type=\"string\"/>";
    if (pack > 0)
        c += "<attribute name=\"scale_factor\" value=\"0.25\" type=\"double\"/>";
    if (pack > 1)
        c += "<attribute name=\"add_offset\" value=\"8\" type=\"double\"/>";
    write(m, version, c + "</variable></cdm_ncwriter_config>");
    auto r = reread();
    FS_ASSERT(r->getCDM().getVariable("v").getDataType() == toType[to], "type of variable");
    FS_ASSERT(r->getCDM().getUnits("v") == (unit ? "m" : "km"), "unit");
    DataPtr v = r->getData("v");
    FS_ASSERT(v && v->size() == n, "size");
    const double scale = r->getCDM().getScaleFactor("v"), off = r->getCDM().getAddOffset("v"), f = r->getCDM().getFillValue("v");
    FS_ASSERT(scale == (pack > 0 ? 0.25 : packed ? 0.5 : 1.), "scale factor");
    FS_ASSERT(off == (pack > 1 ? 8 : packed ? 16 : 0), "offset");
    FS_ASSERT(f == (newFill ? -32000 : fill), "fill value");
    for (size_t i = 0; i < n; i++) {
        const double w = v->asDouble()[i];
        if (i == pos && undef) {
            FS_ASSERT(w == f, "undefined values stay undefined");
            continue;
        }
        double x = i == pos ? (from == CDM_SHORT ? raw : raw * 0.5) : 1;
        if (packed)
            x = x * 0.5 + 16;
        if (unit)
            x *= 1000;
        double e = (x - off) / scale;
        if (i == pos && toType[to] == CDM_SHORT) {
            FS_ASSUME(e > -31990);
            FS_ASSUME(e < 32700);
        } else if (toType[to] == CDM_SHORT && (e > 32700 || e < -31990)) {
            continue;
        }
        FS_ASSERT(fs_near(w, e, toType[to] == CDM_SHORT || toType[to] == CDM_INT ? 0.501 : 0.01), "value");
    }
    FS_REACH("converted");
}

/* renaming and removing */
FS_HARNESS(rename)
{
    nc::reset();
    const int version = VERSIONS[fs_pick("version", 0, 2)];
    const bool rv = fs_pick("variable", 0, 1), rx = fs_pick("dimx", 0, 1), rt = fs_pick("dimt", 0, 1), rtv = fs_pick("vart", 0, 1);
    const int remove = (int)fs_pick("remove", 0, 4);
    auto m = memReader();
    m->dim("x", 2);
    m->dim("t", 2, true);
    m->dim("u", 2);
    m->var("x", CDM_FLOAT, {"x"}, sym("x", CDM_FLOAT, 2));
    m->var("t", CDM_DOUBLE, Names(1, "t"), sym("t", CDM_DOUBLE, 2));
    m->var("v", CDM_INT, {"x", "t"}, sym("v", CDM_INT, 4));
    m->var("w", CDM_INT, {"u"}, sym("w", CDM_INT, 2));
    m->att("v", "long_name", "a name");
    m->att("w", "long_name", "w name");
    m->cdm().addAttribute(CDM::globalAttributeNS(), CDMAttribute("title", std::string("a title")));
    std::string c = "<cdm_ncwriter_config>";
    if (rv)
        c += "<variable name=\"v\" newname=\"vnew\"/>";
    if (rtv)
        c += "<variable name=\"t\" newname=\"tvar\"/>";
    if (rx)
        c += "<dimension name=\"x\" newname=\"xnew\"/>";
    if (rt)
        c += "<dimension name=\"t\" newname=\"tnew\"/>";
    if (remove == 1)
        c += "<remove type=\"variable\" name=\"w\"/>";
    if (remove == 2)
        c += "<variable name=\"v\"><remove type=\"attribute\" name=\"long_name\"/></variable>";
    if (remove == 3)
        c += "<remove type=\"attribute\" name=\"title\"/>";
    if (remove == 4)
        c += "<remove type=\"dimension\" name=\"u\"/>"; // in use
    write(m, version, c + "</cdm_ncwriter_config>");
    auto r = reread();
    const CDM& cdm = r->getCDM();
    const std::string v = rv ? "vnew" : "v", x = rx ? "xnew" : "x", t = rt ? "tnew" : "t", tv = rtv ? "tvar" : t;
    FS_ASSERT(cdm.getVariables().size() == (remove == 1 ? 3 : 4), "number of variables");
    FS_ASSERT(cdm.getDimensions().size() == (remove == 1 ? 2 : 3), "number of dimensions");
    FS_ASSERT(cdm.hasDimension(x) && cdm.hasDimension(t), "names of dimensions");
    FS_ASSERT(cdm.getDimension(t).isUnlimited() && cdm.getDimension(t).getLength() == 2, "unlimited dimension");
    FS_ASSERT(!cdm.getDimension(x).isUnlimited() && cdm.getDimension(x).getLength() == 2, "dimension");
    FS_ASSERT(cdm.hasVariable(v) && cdm.hasVariable(tv) && cdm.hasVariable(x), "names of variables");
    FS_ASSERT(cdm.hasVariable("w") == (remove != 1), "removed variable");
    FS_ASSERT(cdm.getVariable(v).getShape() == Names({x, t}), "shape");
    same(m->mem["v"], r->getData(v));
    same(m->mem["t"], r->getData(tv));
    same(m->mem["x"], r->getData(x));
    if (remove != 1) {
        same(m->mem["w"], r->getData("w"));
        FS_ASSERT(cdm.getAttribute("w", "long_name").getStringValue() == "w name", "attribute");
    }
    CDMAttribute a;
    FS_ASSERT(cdm.getAttribute(v, "long_name", a) == (remove != 2), "removed attribute");
    FS_ASSERT(cdm.getAttribute(CDM::globalAttributeNS(), "title", a) == (remove != 3), "removed global attribute");
    FS_REACH("renamed");
}

/* whatever call of the library fails while writing: the file is complete, or there is an error */
FS_HARNESS(writefault)
{
    nc::reset();
    const int version = VERSIONS[fs_pick("version", 0, 2)];
    auto m = memReader();
    m->dim("x", 2);
    m->dim("t", 2, true);
    m->var("t", CDM_DOUBLE, Names(1, "t"), sym("t", CDM_DOUBLE, 2));
    m->var("v", CDM_INT, {"x", "t"}, sym("v", CDM_INT, 4));
    m->var("w", CDM_SHORT, {"x"}, sym("w", CDM_SHORT, 2));
    m->att("v", "long_name", "a name");
    nc::fault() = (int)fs_pick("call", 0, 100);
    bool error = false;
    try {
        write(m, version);
    } catch (CDMException&) {
        error = true;
    }
    const bool failed = nc::failed();
    nc::fault() = -1;
    FS_ASSERT(failed || !error, "no error without failure");
    FS_ASSERT(failed || nc::files()["out.nc"].closed_ok, "closed");
    if (error)
        return;
    FS_ASSERT(nc::files()["out.nc"].closed_ok, "failure of closing is reported");
    auto r = reread();
    sameDims(m->getCDM(), r->getCDM());
    for (auto& v : m->getCDM().getVariables()) {
        FS_ASSERT(r->getCDM().hasVariable(v.getName()), "variable in file");
        same(m->mem[v.getName()], r->getData(v.getName()));
    }
    FS_ASSERT(r->getCDM().getAttribute("v", "long_name").getStringValue() == "a name", "attribute");
    if (!failed)
        FS_REACH("written without failure");
}

/* whatever call of the library fails while reading: the right content, or an error */
FS_HARNESS(readfault)
{
    nc::reset();
    auto m = memReader();
    m->dim("x", 2);
    m->dim("t", 2, true);
    m->var("t", CDM_DOUBLE, Names(1, "t"), sym("t", CDM_DOUBLE, 2));
    m->var("v", CDM_INT, {"x", "t"}, sym("v", CDM_INT, 4));
    m->att("v", "long_name", "a name");
    m->cdm().addAttribute(CDM::globalAttributeNS(), CDMAttribute("title", std::string("a title")));
    write(m, 5);
    nc::calls() = 0;
    nc::fault() = (int)fs_pick("call", 0, 80);
    try {
        auto r = reread();
        sameDims(m->getCDM(), r->getCDM());
        FS_ASSERT(r->getCDM().getVariables().size() == 2, "variables");
        for (auto& v : m->getCDM().getVariables()) {
            FS_ASSERT(r->getCDM().hasVariable(v.getName()), "variable");
            FS_ASSERT(r->getCDM().getVariable(v.getName()).getShape() == v.getShape(), "shape");
            same(m->mem[v.getName()], r->getData(v.getName()));
            SliceBuilder sb(r->getCDM(), v.getName());
            same(m->mem[v.getName()], r->getDataSlice(v.getName(), sb));
        }
        CDMAttribute a;
        FS_ASSERT(r->getCDM().getAttribute("v", "long_name", a), "attribute");
        FS_ASSERT(r->getCDM().getAttribute(CDM::globalAttributeNS(), "title", a), "global attribute");
        if (!nc::failed())
            FS_REACH("read without failure");
    } catch (CDMException&) {
        FS_ASSERT(nc::failed(), "no error without failure");
    }
}

/* chunks of compressed variables fit into the dimensions of the variable */
FS_HARNESS(chunks)
{
    nc::reset();
    const int nd = (int)fs_pick("dims", 1, 3);
    const bool unlim = fs_pick("unlimited", 0, 1);
    const int other[] = {1, 3, 1000, 70000};
    const int len[3] = {(int)fs_int("x", 0, 5000000), nd > 1 ? other[fs_pick("y", 0, 3)] : 1, nd > 2 ? other[fs_pick("z", 0, 2)] : 1};
    const int conf = (int)fs_pick("config", 0, 3); // none, compression, chunk of x, chunk of y
    const int level = (int)fs_pick("level", 0, 3);
    const char* levels[] = {"0", "3", "12", "19"};
    auto m = memReader();
    const char* names[] = {"x", "y", "z"};
    Names shape;
    for (int i = 0; i < nd; i++) {
        m->dim(names[i], i == nd - 1 && unlim ? 0 : (size_t)len[i], i == nd - 1 && unlim);
        shape.push_back(names[i]);
    }
    m->var("v", CDM_FLOAT, shape, createData(CDM_FLOAT, 0, 0.));
    m->var("w", CDM_FLOAT, {}, sym("w", CDM_FLOAT, 1));
    std::string c = "<cdm_ncwriter_config>";
    if (conf == 1)
        c += std::string("<default compressionLevel=\"9\"/><variable name=\"v\" compressionLevel=\"") + levels[level] + "\"/>";
    if (conf == 2)
        c += "<dimension name=\"x\" chunkSize=\"100\"/>";
    if (conf == 3 && nd > 1)
        c += "<dimension name=\"y\" chunkSize=\"100\"/>";
    write(m, 5, c + "</cdm_ncwriter_config>");
    const nc::Var& v = nc::files()["out.nc"].vars[0];
    if (conf == 1) {
        const int expect[] = {0, 3, 2, 9};
        FS_ASSERT(v.level == expect[level], "level of compression");
        FS_ASSERT((v.shuffle != 0) == (level > 1), "shuffled");
        FS_ASSERT(level != 0 || v.chunks.empty(), "no chunks without compression");
        return;
    }
    FS_ASSERT(v.level == 3 && v.shuffle, "compressed by default");
    if (v.chunks.empty()) {
        FS_REACH("not chunked");
        return;
    }
    FS_ASSERT(v.chunks.size() == (size_t)nd, "chunks of all dimensions");
    for (int i = 0; i < nd; i++) {
        const size_t k = v.chunks[nd - 1 - i];
        FS_ASSERT(k >= 1, "chunk is not empty");
        if (i == nd - 1 && unlim)
            FS_ASSERT(k == 1, "one record in a chunk");
        else
            FS_ASSERT(k <= (size_t)len[i] || k == 1, "chunk inside of dimension");
        if (i == 0 && conf == 2)
            FS_ASSERT(k <= 100, "chunk as configured");
        if (i == 1 && conf == 3)
            FS_ASSERT(k <= 100, "chunk as configured");
    }
    FS_REACH("chunked");
}

/* netcdf files are recognised by their first bytes, other files are not */
FS_HARNESS(magic)
{
    const size_t n = (size_t)fs_pick("bytes", 0, 8);
    std::unique_ptr<char[]> b(new char[n]);
    for (size_t i = 0; i < n; i++)
        b[i] = (char)fs_int("b" + std::to_string(i), -128, 127);
    NetCDFIoFactory f;
    const int r = f.matchMagic(b.get(), n);
    const char hdf[] = "\211HDF\r\n\032", cdf[] = "CDF";
    bool h = n >= 7, c = n >= 4;
    for (size_t i = 0; h && i < 7; i++)
        h = b[i] == hdf[i];
    for (size_t i = 0; c && i < 3; i++)
        c = b[i] == cdf[i];
    if (c)
        c = b[3] == 1 || b[3] == 2 || b[3] == 5;
    FS_ASSERT((r > 0) == (h || c), "recognised as netcdf");
    FS_REACH("magic");
}
