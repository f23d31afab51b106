/*FS {
 "tus": ["src/CDM.cc", "src/CDMAttribute.cc", "src/CDMVariable.cc", "src/CDMDimension.cc"],
 "regex": true,
 "quick_s": 60, "thorough_s": 600,
 "bounds": ["every history of 2 (thorough 3) changes of a dataset with 2 dimensions, 2 variables and 3 attributes: adding, replacing, renaming and removing dimensions, variables and attributes, with 3 names for each, existing or not, and arbitrary lengths and attribute values", "after each history the complete contents, and those of a copy taken before the last change"],
 "outside": ["more names and longer histories", "coordinate systems derived from the contents"]
} */
#include "h.h"
#include "fimex/CDMNamedEntity.h"
#include "fimex/CDMconstants.h"
#include <algorithm>
#include <cmath>
namespace {
const std::string N[] = {"a", "b", "c"};
const std::string A[] = {"s", "t"};
struct Dim
{
    std::string name;
    size_t len;
    bool unlim;
};
struct Var
{
    std::string name;
    CDMDataType type;
    Names shape;
};
struct Model
{
    std::vector<Dim> dims;
    std::vector<Var> vars;
    std::map<std::string, std::map<std::string, int>> atts;
    int dim(const std::string& n) const
    {
        for (size_t i = 0; i < dims.size(); i++)
            if (dims[i].name == n)
                return i;
        return -1;
    }
    int var(const std::string& n) const
    {
        for (size_t i = 0; i < vars.size(); i++)
            if (vars[i].name == n)
                return i;
        return -1;
    }
    bool inUse(const std::string& n) const
    {
        if (dim(n) >= 0)
            for (auto& v : vars)
                for (auto& s : v.shape)
                    if (s == n)
                        return true;
        return false;
    }
};
void same(const CDM& cdm, const Model& m)
{
    const CDM::DimVec& dims = cdm.getDimensions();
    FS_ASSERT(dims.size() == m.dims.size(), "number of dimensions");
    const Dim* unlim = nullptr;
    for (size_t i = 0; i < dims.size(); i++) {
        FS_ASSERT(dims[i].getName() == m.dims[i].name, "name of a dimension");
        FS_ASSERT(dims[i].getLength() == m.dims[i].len, "length of a dimension");
        FS_ASSERT(bool(dims[i].isUnlimited()) == m.dims[i].unlim, "kind of a dimension");
        if (m.dims[i].unlim && !unlim)
            unlim = &m.dims[i];
    }
    FS_ASSERT((cdm.getUnlimitedDim() != nullptr) == (unlim != nullptr), "unlimited dimension");
    if (unlim)
        FS_ASSERT(cdm.getUnlimitedDim()->getName() == unlim->name, "unlimited dimension");
    const CDM::VarVec& vars = cdm.getVariables();
    FS_ASSERT(vars.size() == m.vars.size(), "number of variables");
    for (size_t i = 0; i < vars.size(); i++) {
        FS_ASSERT(vars[i].getName() == m.vars[i].name, "name of a variable");
        FS_ASSERT(vars[i].getDataType() == m.vars[i].type, "type of a variable");
        FS_ASSERT(vars[i].getShape() == m.vars[i].shape, "shape of a variable");
        bool u = false;
        for (auto& s : m.vars[i].shape)
            u |= unlim && s == unlim->name;
        FS_ASSERT(cdm.hasUnlimitedDim(vars[i]) == u, "variable with the unlimited dimension");
    }
    for (auto& n : N) {
        FS_ASSERT(cdm.hasDimension(n) == (m.dim(n) >= 0), "existence of a dimension");
        if (m.dim(n) >= 0)
            FS_ASSERT(cdm.getDimension(n).getLength() == m.dims[m.dim(n)].len, "dimension by name");
        else
            FS_ASSERT(throws([&] { cdm.getDimension(n); }), "unknown dimensions are refused");
        FS_ASSERT(cdm.testDimensionInUse(n) == m.inUse(n), "dimension in use");
        FS_ASSERT(cdm.hasVariable(n) == (m.var(n) >= 0), "existence of a variable");
        if (m.var(n) >= 0)
            FS_ASSERT(cdm.getVariable(n).getShape() == m.vars[m.var(n)].shape, "variable by name");
        else
            FS_ASSERT(throws([&] { cdm.getVariable(n); }), "unknown variables are refused");
    }
    for (int i = 0; i < 4; i++) {
        const std::string v = i == 3 ? CDM::globalAttributeNS() : N[i];
        auto it = m.atts.find(v);
        const std::map<std::string, int> none;
        const std::map<std::string, int>& e = it == m.atts.end() ? none : it->second;
        FS_ASSERT(cdm.getAttributes(v).size() == e.size(), "number of attributes");
        for (auto& a : A) {
            auto at = e.find(a);
            CDMAttribute r;
            FS_ASSERT(cdm.hasAttribute(v, a) == (at != e.end()), "existence of an attribute");
            FS_ASSERT(cdm.getAttribute(v, a, r) == (at != e.end()), "existence of an attribute");
            if (at != e.end()) {
                FS_ASSERT(r.getData()->asInt()[0] == at->second, "value of an attribute");
                FS_ASSERT(cdm.getAttribute(v, a).getData()->asInt()[0] == at->second, "value of an attribute");
            } else
                FS_ASSERT(throws([&] { cdm.getAttribute(v, a); }), "unknown attributes are refused");
        }
    }
}
int counter;
int value() { return (int)fs_int("v" + std::to_string(counter++), -99, 99); }
CDMAttribute attribute(const std::string& a, int v) { return CDMAttribute(a, v); }

/* one change of both; the model decides if it is refused */
void change(CDM& cdm, Model& m)
{
    const std::string step = std::to_string(counter++);
    auto pick = [&](const char* n, int lo, int hi) { return (int)fs_pick(n + step, lo, hi); };
    switch (pick("op", 0, 7)) {
    case 0: {
        const std::string n = N[pick("n", 0, 2)];
        CDMDimension d(n, value() + 100);
        d.setUnlimited(pick("u", 0, 1));
        const bool refused = m.dim(n) >= 0;
        FS_ASSERT(throws([&] { cdm.addDimension(d); }) == refused, "an existing dimension cannot be added");
        if (!refused)
            m.dims.push_back({n, d.getLength(), bool(d.isUnlimited())});
        break;
    }
    case 1: {
        const std::string n = N[pick("n", 0, 2)];
        const int s = pick("shape", 0, 2);
        const Names shape = s == 0 ? Names{} : s == 1 ? Names{"a"} : Names{"b", "a"};
        const bool refused = m.var(n) >= 0;
        FS_ASSERT(throws([&] { cdm.addVariable(CDMVariable(n, CDM_SHORT, shape)); }) == refused, "an existing variable cannot be added");
        if (!refused)
            m.vars.push_back({n, CDM_SHORT, shape});
        break;
    }
    case 2: {
        const bool replace = pick("replace", 0, 1);
        const int i = pick("v", 0, 3);
        const std::string v = i == 3 ? CDM::globalAttributeNS() : N[i], a = A[pick("a", 0, 1)];
        const int x = value();
        const bool refused = (i != 3 && m.var(v) < 0) || (!replace && m.atts.count(v) && m.atts[v].count(a));
        FS_ASSERT(throws([&] {
                      if (replace)
                          cdm.addOrReplaceAttribute(v, attribute(a, x));
                      else
                          cdm.addAttribute(v, attribute(a, x));
                  }) == refused,
                  "attributes can be added once, to existing variables");
        if (!refused)
            m.atts[v][a] = x;
        break;
    }
    case 3: {
        const int i = pick("v", 0, 3);
        const std::string v = i == 3 ? CDM::globalAttributeNS() : N[i], a = A[pick("a", 0, 1)];
        cdm.removeAttribute(v, a);
        if (m.atts.count(v))
            m.atts[v].erase(a);
        break;
    }
    case 4: {
        const std::string o = N[pick("o", 0, 2)], n = N[pick("n", 0, 2)];
        FS_ASSERT(cdm.renameVariable(o, n) == (m.var(o) >= 0), "renaming an existing variable");
        if (m.var(o) >= 0 && o != n) {
            if (m.var(n) >= 0)
                m.vars.erase(m.vars.begin() + m.var(n));
            m.vars[m.var(o)].name = n;
            m.atts[n] = m.atts[o];
            m.atts.erase(o);
        }
        break;
    }
    case 5: {
        const std::string n = N[pick("n", 0, 2)];
        cdm.removeVariable(n);
        if (m.var(n) >= 0)
            m.vars.erase(m.vars.begin() + m.var(n));
        m.atts.erase(n);
        break;
    }
    case 6: {
        const std::string o = N[pick("o", 0, 2)], n = N[pick("n", 0, 2)];
        const bool refused = m.dim(o) >= 0 && o != n && m.inUse(n);
        bool done = false;
        FS_ASSERT(throws([&] { done = cdm.renameDimension(o, n); }) == refused, "a dimension in use is not replaced");
        if (!refused) {
            FS_ASSERT(done == (m.dim(o) >= 0), "renaming an existing dimension");
            if (done && o != n) {
                if (m.dim(n) >= 0)
                    m.dims.erase(m.dims.begin() + m.dim(n));
                m.dims[m.dim(o)].name = n;
                for (auto& v : m.vars)
                    std::replace(v.shape.begin(), v.shape.end(), o, n);
            }
        }
        break;
    }
    default: {
        const std::string n = N[pick("n", 0, 2)];
        const bool refused = m.inUse(n);
        bool done = false;
        FS_ASSERT(throws([&] { done = cdm.removeDimension(n); }) == refused, "a dimension in use is not removed");
        if (!refused) {
            FS_ASSERT(done == (m.dim(n) >= 0), "removing an existing dimension");
            if (done)
                m.dims.erase(m.dims.begin() + m.dim(n));
        }
    }
    }
}
}

FS_HARNESS(history)
{
    CDM cdm;
    Model m;
    counter = 0;
    m.dims = {{"a", size_t(value() + 100), true}, {"b", size_t(value() + 100), false}};
    for (auto& d : m.dims) {
        CDMDimension c(d.name, d.len);
        c.setUnlimited(d.unlim);
        cdm.addDimension(c);
    }
    m.vars = {{"a", CDM_DOUBLE, {"a"}}, {"b", CDM_INT, {"a"}}};
    for (auto& v : m.vars)
        cdm.addVariable(CDMVariable(v.name, v.type, v.shape));
    for (int i = 0; i < 3; i++) {
        const std::string v = i == 2 ? CDM::globalAttributeNS() : N[i], a = A[i != 1];
        m.atts[v][a] = value();
        cdm.addAttribute(v, attribute(a, m.atts[v][a]));
    }
    const int steps = fs_thorough() ? 3 : 2;
    CDM copy;
    Model before;
    for (int i = 0; i < steps; i++) {
        copy = cdm;
        before = m;
        change(cdm, m);
    }
    same(cdm, m);
    same(copy, before); // a copy is independent
    FS_REACH("history");
}

/* packing, fill value, limits, units */
FS_HARNESS(metadata)
{
    CDM cdm;
    const CDMDataType T[] = {CDM_CHAR, CDM_SHORT, CDM_INT, CDM_INT64, CDM_UCHAR, CDM_USHORT, CDM_UINT, CDM_UINT64, CDM_FLOAT, CDM_DOUBLE};
    const double D[] = {MIFI_FILL_CHAR, MIFI_FILL_SHORT, MIFI_FILL_INT, double(MIFI_FILL_INT64), MIFI_FILL_UCHAR, MIFI_FILL_USHORT, MIFI_FILL_UINT, double(MIFI_FILL_UINT64), MIFI_FILL_FLOAT, MIFI_FILL_DOUBLE};
    const int t = fs_pick("type", 0, 9);
    cdm.addVariable(CDMVariable("v", T[t], Names()));
    const int x = (int)fs_int("x", 0, 120), lo = (int)fs_int("lo", -99, 99), hi = (int)fs_int("hi", -99, 99), so = (int)fs_int("so", -99, 99);
    const int f = fs_pick("fill", 0, 3), l = fs_pick("limits", 0, 2);
    auto typed = [&](const char* name, CDMDataType ty, int val) {
        DataPtr d = createData(ty, 1, 0.);
        if (ty == CDM_SHORT)
            ((short*)d->getDataPtr())[0] = (short)val;
        else if (ty == CDM_INT)
            ((int*)d->getDataPtr())[0] = val;
        else if (ty == CDM_DOUBLE)
            ((double*)d->getDataPtr())[0] = val;
        else
            d->setValue(0, 17);
        cdm.addAttribute("v", CDMAttribute(name, d));
    };
    const bool sym = T[t] == CDM_SHORT || T[t] == CDM_INT || T[t] == CDM_DOUBLE;
    if (f == 1)
        typed("_FillValue", T[t], x);
    else if (f == 2)
        typed("missing_value", T[t], x);
    else if (f == 3) { // the other one is not used
        typed("missing_value", T[t], 3);
        cdm.removeAttribute("v", "_FillValue");
        typed("_FillValue", T[t], x);
    }
    if (f == 0)
        FS_ASSERT(cdm.getFillValue("v") == D[t], "default fill value of the type");
    else
        FS_ASSERT(cdm.getFillValue("v") == (sym ? x : 17), "fill value");
    if (l == 1) {
        typed("valid_min", CDM_INT, lo);
        typed("valid_max", CDM_SHORT, hi);
    } else if (l == 2) {
        DataPtr d = createData(CDM_INT, 2, 0.);
        ((int*)d->getDataPtr())[0] = lo;
        ((int*)d->getDataPtr())[1] = hi;
        cdm.addAttribute("v", CDMAttribute("valid_range", d));
    }
    if (l == 0) {
        FS_ASSERT(std::isnan(cdm.getValidMin("v")), "no limits");
        FS_ASSERT(std::isnan(cdm.getValidMax("v")), "no limits");
    } else {
        FS_ASSERT(cdm.getValidMin("v") == lo, "lower limit");
        FS_ASSERT(cdm.getValidMax("v") == hi, "upper limit");
    }
    FS_ASSERT(cdm.getScaleFactor("v") == 1, "no scale factor");
    FS_ASSERT(cdm.getAddOffset("v") == 0, "no offset");
    typed("scale_factor", CDM_DOUBLE, so);
    FS_ASSERT(cdm.getScaleFactor("v") == so, "scale factor");
    FS_ASSERT(cdm.getAddOffset("v") == 0, "no offset");
    typed("add_offset", CDM_INT, hi);
    FS_ASSERT(cdm.getAddOffset("v") == hi, "offset");
    FS_ASSERT(cdm.getUnits("v") == "", "no units");
    cdm.addAttribute("v", CDMAttribute("units", "m s-1"));
    FS_ASSERT(cdm.getUnits("v") == "m s-1", "units");
    FS_REACH("metadata");
}
