/*FS {
 "regex": true,
 "quick_s": 60, "thorough_s": 400,
 "bounds": ["a dataset of 3 dimensions (lengths 2, 2, 2), 4 variables of arbitrary values (float, packed short, int, in memory or read) and 7 attributes; one NcML document with one or two changes of every kind: rename a dimension, rename a variable, both, change of type (with and without packing), add or replace or rename or remove attributes, remove variables, add dimensions and variables with listed or regular values, replace values, change a length, make a dimension limited or unlimited, reduce a shape", "complete reads, every unlimited slice, and every box of one variable"],
 "outside": ["_Unsigned in NcML (not honoured by the reader)", "aggregations (C15)", "two variables exchanging their names", "groups"]
} */
#include "h.h"
#include "fimex/NcmlCDMReader.h"
#include "fimex/XMLInputString.h"
#include <cmath>
namespace {
struct Base
{
    MemReader_p r;
    std::vector<int> v, p, w; // v float, p packed, w int
};
Base base()
{
    Base b;
    b.r = memReader();
    MemReader& r = *b.r;
    r.dim("x", 2);
    r.dim("y", 2);
    r.dim("time", 2, true);
    for (int i = 0; i < 8; i++) {
        b.v.push_back((int)fs_int("v" + std::to_string(i), -90, 90));
        b.p.push_back((int)fs_int("p" + std::to_string(i), -90, 90));
    }
    for (int i = 0; i < 2; i++)
        b.w.push_back((int)fs_int("w" + std::to_string(i), -90, 90));
    DataPtr v = createData(CDM_FLOAT, 8, 0.), p = createData(CDM_SHORT, 8, 0.), w = createData(CDM_INT, 2, 0.);
    for (int i = 0; i < 8; i++) {
        ((float*)v->getDataPtr())[i] = b.v[i];
        ((short*)p->getDataPtr())[i] = (short)b.p[i];
    }
    for (int i = 0; i < 2; i++)
        ((int*)w->getDataPtr())[i] = b.w[i];
    r.var("time", CDM_DOUBLE, {"time"}, std::vector<double>{3, 6});
    r.var("v", CDM_FLOAT, {"x", "y", "time"}, v);
    r.var("p", CDM_SHORT, {"x", "y", "time"}, p);
    r.var("w", CDM_INT, {"y"}, w);
    r.att("v", "units", "m");
    r.att("v", "long_name", "vee");
    r.att<int>("v", "number", 4);
    r.att<double>("p", "scale_factor", 0.5);
    r.att<double>("p", "add_offset", 8);
    r.cdm().addAttribute(CDM::globalAttributeNS(), CDMAttribute("title", "first"));
    r.cdm().addAttribute(CDM::globalAttributeNS(), CDMAttribute("history", "none"));
    r.cdm().addAttribute(CDM::globalAttributeNS(), CDMAttribute("source", "model"));
    if (fs_pick("inmem", 0, 1))
        for (auto n : {"v", "p", "w"})
            r.cdm().getVariable(n).setData(r.mem[n]->clone());
    return b;
}
CDMReader_p ncml(const Base& b, const std::string& text)
{
    return std::make_shared<NcmlCDMReader>(b.r, XMLInputString("<?xml version=\"1.0\"?>\n<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\">\n" + text + "</netcdf>\n"));
}
std::string text(const CDM& cdm, const std::string& var, const std::string& att)
{
    CDMAttribute a;
    return cdm.getAttribute(var, att, a) ? a.getStringValue() : std::string("(none)");
}
#define VALUES(q, name, n, expect)                                                                                                                             \
    do {                                                                                                                                                       \
        DataPtr d_ = (q)->getData(name);                                                                                                                       \
        FS_ASSERT(d_->size() == size_t(n), "size of " name);                                                                                                   \
        FS_ASSERT(d_->getDataType() == (q)->getCDM().getVariable(name).getDataType(), "type of " name);                                                        \
        auto a_ = d_->asDouble();                                                                                                                              \
        for (size_t i = 0; i < size_t(n); i++)                                                                                                                 \
            FS_ASSERT(a_[i] == double(expect), "values of " name);                                                                                             \
    } while (0)
/* everything which was not mentioned */
const unsigned V = 1, P = 2, W = 4, TIME = 8, GLOBAL = 16, VATT = 32, DIMS = 64;
void others(CDMReader_p q, const Base& b, unsigned except)
{
    const CDM& c = q->getCDM();
    if (!(except & V))
        VALUES(q, "v", 8, b.v[i]);
    if (!(except & P)) {
        VALUES(q, "p", 8, b.p[i]);
        FS_ASSERT(c.getScaleFactor("p") == 0.5 && c.getAddOffset("p") == 8, "attributes of p");
    }
    if (!(except & W))
        VALUES(q, "w", 2, b.w[i]);
    if (!(except & TIME))
        VALUES(q, "time", 2, 3 + 3 * i);
    if (!(except & GLOBAL)) {
        FS_ASSERT(c.getAttributes(CDM::globalAttributeNS()).size() == 3, "global attributes");
        FS_ASSERT(text(c, CDM::globalAttributeNS(), "title") == "first" && text(c, CDM::globalAttributeNS(), "source") == "model" && text(c, CDM::globalAttributeNS(), "history") == "none", "global attributes");
    }
    if (!(except & (VATT | V)))
        FS_ASSERT(c.getAttributes("v").size() == 3 && text(c, "v", "units") == "m" && text(c, "v", "long_name") == "vee" && text(c, "v", "number") == "4", "attributes of v");
    if (!(except & DIMS)) {
        FS_ASSERT(c.getDimensions().size() == 3, "dimensions");
        for (auto d : {"x", "y", "time"})
            FS_ASSERT(c.getDimension(d).getLength() == 2 && bool(c.getDimension(d).isUnlimited()) == (d == std::string("time")), "dimensions");
    }
    // the source is not changed
    auto s = b.r->getData("v")->asFloat();
    for (size_t i = 0; i < 8; i++)
        FS_ASSERT(s[i] == b.v[i], "source unchanged");
    FS_ASSERT(b.r->getCDM().getVariables().size() == 4, "source unchanged");
}
/* slices and boxes of v, with its present names */
void boxes(CDMReader_p q, const Base& b, const std::string& name, const Names& dims)
{
    const CDM& c = q->getCDM();
    FS_ASSERT(c.getVariable(name).getShape() == dims, "shape");
    for (size_t t = 0; t < 2; t++) {
        DataPtr d = q->getDataSlice(name, t);
        FS_ASSERT(d->size() == 4, "size of a slice");
        auto a = d->asDouble();
        for (size_t i = 0; i < 4; i++)
            FS_ASSERT(a[i] == b.v[4 * t + i], "slice");
    }
    Sizes st, sz, all(3, 2);
    SliceBuilder sb(c, name);
    for (int i = 0; i < 3; i++) {
        const int k = fs_pick("box" + std::to_string(i), 0, 2); // start 0, 1, or both
        st.push_back(k == 1);
        sz.push_back(k == 2 ? 2 : 1);
        sb.setStartAndSize(dims[i], st[i], sz[i]);
    }
    DataPtr d = q->getDataSlice(name, sb);
    FS_ASSERT(d->size() == sz[0] * sz[1] * sz[2], "size of a box");
    auto a = d->asDouble();
    forBox(sz, [&](size_t k, const Sizes& i) {
        const Sizes j{st[0] + i[0], st[1] + i[1], st[2] + i[2]};
        FS_ASSERT(a[k] == b.v[at(all, j)], "box");
    });
}
}

FS_HARNESS(rename)
{
    Base b = base();
    const int kind = fs_pick("kind", 0, 4);
    if (kind == 0) {
        auto q = ncml(b, "<variable name=\"u\" orgName=\"v\"/>");
        FS_ASSERT(!q->getCDM().hasVariable("v"), "old name");
        boxes(q, b, "u", {"x", "y", "time"});
        FS_ASSERT(text(q->getCDM(), "u", "units") == "m" && text(q->getCDM(), "u", "number") == "4", "attributes of the renamed variable");
        others(q, b, V);
    } else if (kind == 1) { // of a dimension
        auto q = ncml(b, "<dimension name=\"z\" orgName=\"x\"/>");
        FS_ASSERT(!q->getCDM().hasDimension("x") && q->getCDM().getDimension("z").getLength() == 2, "old and new name");
        boxes(q, b, "v", {"z", "y", "time"});
        others(q, b, DIMS);
    } else if (kind == 2) { // both, also of the unlimited dimension
        auto q = ncml(b, "<dimension name=\"tid\" orgName=\"time\"/><variable name=\"tid\" orgName=\"time\"/><variable name=\"u\" orgName=\"v\"><attribute name=\"added\" value=\"1\"/></variable>");
        FS_ASSERT(q->getCDM().getDimension("tid").isUnlimited(), "unlimited");
        boxes(q, b, "u", {"x", "y", "tid"});
        VALUES(q, "tid", 2, 3 + 3 * i);
        FS_ASSERT(text(q->getCDM(), "u", "added") == "1" && text(q->getCDM(), "u", "units") == "m", "attributes of the renamed variable");
        others(q, b, V | TIME | DIMS);
    } else if (kind == 3) { // to the name of another variable, which disappears
        auto q = ncml(b, "<variable name=\"p\" orgName=\"v\"/>");
        boxes(q, b, "p", {"x", "y", "time"});
        FS_ASSERT(!q->getCDM().hasVariable("v") && q->getCDM().getVariables().size() == 3, "variables");
        FS_ASSERT(q->getCDM().getScaleFactor("p") == 1, "attributes of the former variable");
        others(q, b, V | P);
    } else { // names which do not exist, or are the same
        auto q = ncml(b, "<variable name=\"v\" orgName=\"nothing\"/><dimension name=\"x\" orgName=\"nix\"/><variable name=\"w\" orgName=\"w\"/><dimension name=\"y\" orgName=\"y\"/>");
        boxes(q, b, "v", {"x", "y", "time"});
        others(q, b, 0);
    }
    FS_REACH("rename");
}

FS_HARNESS(types)
{
    Base b = base();
    const int kind = fs_pick("kind", 0, 4);
    if (kind == 0) {
        auto q = ncml(b, "<variable name=\"v\" type=\"double\"/>");
        FS_ASSERT(q->getCDM().getVariable("v").getDataType() == CDM_DOUBLE, "type");
        boxes(q, b, "v", {"x", "y", "time"});
        others(q, b, 0);
    } else if (kind == 1) { // unpacked
        auto q = ncml(b, "<variable name=\"p\" type=\"float\"><remove type=\"attribute\" name=\"scale_factor\"/><remove type=\"attribute\" name=\"add_offset\"/></variable>");
        VALUES(q, "p", 8, b.p[i] * 0.5 + 8);
        others(q, b, P);
    } else if (kind == 2) { // packed, with a new name
        auto q = ncml(b, "<variable name=\"s\" orgName=\"v\" type=\"short\"><attribute name=\"scale_factor\" type=\"double\" value=\"0.25\"/><attribute name=\"add_offset\" type=\"float\" value=\"-4\"/></variable>");
        FS_ASSERT(q->getCDM().getVariable("s").getDataType() == CDM_SHORT, "type");
        VALUES(q, "s", 8, (b.v[i] + 4) * 4);
        auto a = q->getScaledData("s")->asDouble();
        for (size_t i = 0; i < 8; i++)
            FS_ASSERT(a[i] == b.v[i], "physical values");
        others(q, b, V);
    } else if (kind == 3) { // other packing
        auto q = ncml(b, "<variable name=\"p\" type=\"int\"><attribute name=\"scale_factor\" type=\"double\" value=\"0.125\"/></variable>");
        auto a = q->getScaledData("p")->asDouble();
        for (size_t i = 0; i < 8; i++)
            FS_ASSERT(a[i] == b.p[i] * 0.5 + 8, "physical values");
        others(q, b, P);
    } else {
        auto q = ncml(b, "<variable name=\"w\" type=\"long\"/><variable name=\"time\" type=\"float\"/>");
        FS_ASSERT(q->getCDM().getVariable("w").getDataType() == CDM_INT64, "type");
        VALUES(q, "w", 2, b.w[i]);
        VALUES(q, "time", 2, 3 + 3 * i);
        others(q, b, W | TIME);
    }
    FS_REACH("types");
}

FS_HARNESS(attributes)
{
    Base b = base();
    const bool global = fs_pick("global", 0, 1);
    const std::string A[] = {global ? "title" : "units", global ? "history" : "long_name", global ? "source" : "number"};
    const std::string Values[] = {global ? "first" : "m", global ? "none" : "vee", global ? "model" : "4"};
    const std::string var = global ? CDM::globalAttributeNS() : "v";
    std::map<std::string, std::string> e;
    for (int i = 0; i < 3; i++)
        e[A[i]] = Values[i];
    const int kind = fs_pick("kind", 0, 2);
    const int from = fs_pick("from", 0, 3); // 3: does not exist
    const std::string f = from == 3 ? "other" : A[from];
    std::string x;
    if (kind == 0) { // rename, also to existing names
        const int to = fs_pick("to", 0, 3);
        const std::string t = to == 3 ? "fresh" : A[to];
        x = "<attribute name=\"" + t + "\" orgName=\"" + f + "\"/>";
        if (from != 3 && f != t) {
            e[t] = e[f];
            e.erase(f);
        }
    } else if (kind == 1) { // remove
        x = "<remove type=\"attribute\" name=\"" + f + "\"/>";
        e.erase(f);
    } else { // add or replace
        const int type = fs_pick("type", 0, 3);
        const char* X[] = {" value=\"new text\"", " type=\"int\" value=\"7 8\"", " type=\"double\">2.5<", " type=\"short\" separator=\";\" value=\"1;2\""};
        const char* R[] = {"new text", "7 8", "2.5", "1 2"};
        x = "<attribute name=\"" + f + "\"" + X[type] + (type == 2 ? "/attribute>" : "/>");
        e[f] = R[type];
    }
    auto q = ncml(b, global ? x : "<variable name=\"v\">" + x + "</variable>");
    FS_ASSERT(q->getCDM().getAttributes(var).size() == e.size(), "number of attributes");
    for (auto& a : e)
        FS_ASSERT(text(q->getCDM(), var, a.first) == a.second, "value of an attribute");
    others(q, b, global ? GLOBAL : VATT);
    FS_REACH("attributes");
}

FS_HARNESS(values)
{
    Base b = base();
    const int kind = fs_pick("kind", 0, 7);
    if (kind == 0) { // add
        auto q = ncml(b, "<dimension name=\"n\" length=\"3\"/><variable name=\"new\" shape=\"y n\" type=\"int\"><values>1 2 3, 4 5 6</values></variable>");
        FS_ASSERT(q->getCDM().getVariable("new").getShape() == Names({"n", "y"}), "shape: last dimension of NcML first");
        VALUES(q, "new", 6, i + 1);
        others(q, b, DIMS);
    } else if (kind == 1) { // regular values
        auto q = ncml(b, "<dimension name=\"n\" length=\"3\"/><variable name=\"new\" shape=\"n\" type=\"double\"><values start=\"2\" increment=\"-1.5\"/></variable>");
        VALUES(q, "new", 3, 2 - 1.5 * i);
        others(q, b, DIMS);
    } else if (kind == 2) { // replace
        auto q = ncml(b, "<variable name=\"w\"><values separator=\"--\">5---7</values></variable><variable name=\"time\"><values>8 9</values></variable>");
        VALUES(q, "w", 2, i ? -7 : 5);
        VALUES(q, "time", 2, 8 + i);
        others(q, b, W | TIME);
    } else if (kind == 3) { // wrong number of values
        FS_ASSERT(throws([&] { ncml(b, "<variable name=\"w\"><values>5 6 7</values></variable>"); }), "too many values are refused");
        FS_ASSERT(throws([&] { ncml(b, "<variable name=\"w\"><values>5</values></variable>"); }), "too few values are refused");
        FS_ASSERT(throws([&] { ncml(b, "<variable name=\"w\"><values start=\"5\"/></variable>"); }), "incomplete values are refused");
    } else if (kind == 4) { // remove
        auto q = ncml(b, "<remove type=\"variable\" name=\"w\"/><remove type=\"attribute\" name=\"history\"/>");
        FS_ASSERT(!q->getCDM().hasVariable("w") && q->getCDM().getVariables().size() == 3, "removed variable");
        FS_ASSERT(text(q->getCDM(), CDM::globalAttributeNS(), "history") == "(none)", "removed attribute");
        others(q, b, W | GLOBAL);
    } else if (kind == 5) { // a dimension no longer unlimited
        auto q = ncml(b, "<dimension name=\"time\" isUnlimited=\"false\"/>");
        FS_ASSERT(q->getCDM().getUnlimitedDim() == nullptr, "unlimited dimension");
        others(q, b, DIMS);
        SliceBuilder sb(q->getCDM(), "v");
        sb.setStartAndSize("time", 1, 1);
        auto a = q->getDataSlice("v", sb)->asDouble();
        for (size_t i = 0; i < 4; i++)
            FS_ASSERT(a[i] == b.v[4 + i], "box");
    } else if (kind == 6) { // shorter, longer
        auto q = ncml(b, "<dimension name=\"time\" length=\"1\"/>");
        VALUES(q, "v", 4, b.v[i]);
        VALUES(q, "p", 4, b.p[i]);
        auto l = ncml(b, "<dimension name=\"time\" length=\"3\"/>");
        auto a = l->getScaledDataSlice("p", 1)->asDouble();
        for (size_t i = 0; i < 4; i++)
            FS_ASSERT(a[i] == b.p[4 + i] * 0.5 + 8, "times of the source");
        const double fill = l->getCDM().getFillValue("v");
        VALUES(l, "v", 12, i < 8 ? b.v[i] : fill);
    } else { // first position of a removed dimension
        auto q = ncml(b, "<variable name=\"v\" shape=\"time x\"/>");
        FS_ASSERT(q->getCDM().getVariable("v").getShape() == Names({"x", "time"}), "shape");
        VALUES(q, "v", 4, b.v[i % 2 + 4 * (i / 2)]);
        others(q, b, V);
    }
    FS_REACH("values");
}
