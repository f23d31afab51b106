/*FS {
 "regex": true,
 "quick_s": 50, "thorough_s": 300,
 "bounds": ["variables of every type, as scalars, with 1 or 2 dimensions, with and without unlimited dimension, with missing slices; values at the ends of the range of the type, fractions needing all digits, not-a-number; arbitrary small integers", "attributes of every type with one or several values; texts with every kind of special character, empty, with separators, at the ends", "names of variables, dimensions and attributes with special characters"],
 "outside": ["characters which cannot be written in XML 1.0 (control characters)", "types without NcML name"]
} */
#include "h.h"
#include "fimex/NcmlCDMReader.h"
#include "fimex/NcmlCDMWriter.h"
#include "fimex/XMLInputString.h"
#include <cmath>
#include <limits>
#include <sstream>
namespace {
CDMReader_p roundTrip(CDMReader_p r, bool data)
{
    std::ostringstream out;
    { NcmlCDMWriter w(r, out, data); }
    if (getenv("FS_VERBOSE")) fprintf(stderr, "%s\n", out.str().c_str());
    return std::make_shared<NcmlCDMReader>(XMLInputString(out.str()));
}
const CDMDataType TYPES[] = {CDM_CHAR, CDM_UCHAR, CDM_SHORT, CDM_USHORT, CDM_INT, CDM_UINT, CDM_INT64, CDM_UINT64, CDM_FLOAT, CDM_DOUBLE};
const char* TEXTS[] = {"plain", "two words", " a  b ", "a&b<c>d\"e'f", "line\nbreak\ttab", "a,b|c#d", "\xc3\xb8&amp;", "]]>"};
template <class T>
DataPtr edge(size_t n, int k)
{
    auto a = make_shared_array<T>(n);
    typedef std::numeric_limits<T> L;
    for (size_t i = 0; i < n; i++)
        switch ((i + k) % 4) {
        case 0: a[i] = L::lowest(); break;
        case 1: a[i] = L::max(); break;
        case 2: a[i] = L::is_integer ? T(7) : T(1) / T(3); break;
        default: a[i] = L::is_integer ? T(0) : k % 2 ? L::quiet_NaN() : L::min() * 3; break;
        }
    return createData(n, a);
}
DataPtr edges(CDMDataType t, size_t n, int k)
{
    switch (t) {
    case CDM_CHAR: return edge<char>(n, k);
    case CDM_UCHAR: return edge<unsigned char>(n, k);
    case CDM_SHORT: return edge<short>(n, k);
    case CDM_USHORT: return edge<unsigned short>(n, k);
    case CDM_INT: return edge<int>(n, k);
    case CDM_UINT: return edge<unsigned int>(n, k);
    case CDM_INT64: return edge<long long>(n, k);
    case CDM_UINT64: return edge<unsigned long long>(n, k);
    case CDM_FLOAT: return edge<float>(n, k);
    default: return edge<double>(n, k);
    }
}
bool equal(CDMDataType t, DataPtr a, DataPtr b)
{
    if (a->size() != b->size() || a->getDataType() != t || b->getDataType() != t)
        return false;
    if (t == CDM_STRING)
        return a->asString() == b->asString();
    for (size_t i = 0; i < a->size(); i++) {
        if (t == CDM_STRINGS) {
            if (a->asStrings()[i] != b->asStrings()[i])
                return false;
        } else if (t == CDM_UINT64) {
            if (a->asUInt64()[i] != b->asUInt64()[i])
                return false;
        } else if (t == CDM_INT64) {
            if (a->asInt64()[i] != b->asInt64()[i])
                return false;
        } else if (!(FS_SAME(a->asDouble()[i], b->asDouble()[i])))
            return false;
    }
    return true;
}
}
/* values of variables */
FS_HARNESS(values)
{
    fs_text_lossy(1);
    const int t = (int)fs_pick("type", 0, 9), shape = (int)fs_pick("shape", 0, 4), k = (int)fs_pick("values", 0, 3);
    const bool missing = shape >= 3 && fs_pick("missing", 0, 1);
    MemReader_p r = memReader();
    r->dim("x", 3);
    r->dim("y", 2);
    r->dim("time", 2, true);
    const Names shapes[] = {{}, {"x"}, {"x", "y"}, {"x", "time"}, {"time"}};
    const size_t sizes[] = {1, 3, 6, 6, 2};
    DataPtr d = edges(TYPES[t], sizes[shape], k);
    r->var("v", TYPES[t], shapes[shape], d);
    r->att("v", "units", "1");
    r->cdm().addAttribute("v", CDMAttribute("_FillValue", edges(TYPES[t], 1, 2)));
    if (missing) {
        r->missing.insert(std::make_pair(std::string("v"), (size_t)0));
        DataPtr e = d->clone();
        for (size_t i = 0; i < sizes[shape] / 2; i++)
            e->setValues(i, *edges(TYPES[t], 1, 2));
        d = e;
    }
    CDMReader_p b = roundTrip(r, true);
    const CDM& c = b->getCDM();
    FS_ASSERT(c.hasVariable("v") && c.getVariables().size() == 1, "variable");
    FS_ASSERT(c.getVariable("v").getDataType() == TYPES[t], "type of the variable");
    FS_ASSERT(c.getVariable("v").getShape() == shapes[shape], "shape of the variable");
    FS_ASSERT(c.getDimensions().size() == 3, "dimensions");
    for (const char* n : {"x", "y", "time"}) {
        FS_ASSERT(c.getDimension(n).getLength() == r->getCDM().getDimension(n).getLength(), "length of dimension");
        FS_ASSERT(c.getDimension(n).isUnlimited() == r->getCDM().getDimension(n).isUnlimited(), "unlimited dimension");
    }
    FS_ASSERT(equal(TYPES[t], b->getData("v"), d), "values of the variable");
    if (shape >= 3) {
        const size_t n = sizes[shape] / 2;
        for (size_t p = 0; p < 2; p++)
            FS_ASSERT(equal(TYPES[t], b->getDataSlice("v", p), createDataSlice(TYPES[t], *d, p * n, n)), "slice of the variable");
    }
    FS_ASSERT(c.getAttributes("v").size() == 2 + (c.hasAttribute("v", "_Unsigned") ? 1u : 0u), "attributes");
    FS_ASSERT(equal(TYPES[t], c.getAttribute("v", "_FillValue").getData(), edges(TYPES[t], 1, 2)), "fill value");
    FS_REACH("values");
}
/* arbitrary values */
FS_HARNESS(numbers)
{
    const int t = (int)fs_pick("type", 0, 9);
    const int v = (int)fs_int("v", 0, fs_thorough() ? 255 : 40);
    MemReader_p r = memReader();
    r->dim("x", 2);
    DataPtr d = createData(TYPES[t], 2, 0.);
    const int w = t < 8 && (t & 1) ? v : v - 20;
    d->setValue(0, w);
    d->setValue(1, 3);
    r->var("v", TYPES[t], {"x"}, d);
    r->cdm().addAttribute("v", CDMAttribute("a", d->clone()));
    CDMReader_p b = roundTrip(r, true);
    auto x = b->getData("v")->asDouble();
    FS_ASSERT(x[0] == (t == 0 ? (signed char)w : t == 1 ? (unsigned char)w : w), "value of the variable");
    FS_ASSERT(x[1] == 3, "value of the variable");
    FS_ASSERT(b->getCDM().getAttribute("v", "a").getData()->size() == 2, "number of values of the attribute");
    FS_ASSERT(b->getCDM().getAttribute("v", "a").getData()->asDouble()[0] == x[0], "value of the attribute");
    FS_REACH("numbers");
}
/* attributes */
FS_HARNESS(attributes)
{
    fs_text_lossy(1);
    const int kind = (int)fs_pick("kind", 0, 11); // numbers, text, texts
    const bool global = fs_pick("global", 0, 1);
    const int n = kind == 10 ? 1 : (int)fs_pick("n", 1, 3), k = (int)fs_pick("values", 0, kind < 10 ? 3 : 7), l = kind == 11 ? (int)fs_pick("other", 0, 8) : 0;
    const int name = (int)fs_pick("name", 0, 1);
    const char* NAMES[] = {"att", "a<b&\"c\""};
    const CDMDataType t = kind < 10 ? TYPES[kind] : kind == 10 ? CDM_STRING : CDM_STRINGS;
    DataPtr d;
    if (kind < 10)
        d = edges(t, n, k);
    else if (kind == 10)
        d = createData(std::string(TEXTS[k]));
    else {
        auto a = make_shared_array<std::string>(n);
        for (int i = 0; i < n; i++)
            a[i] = i == 1 ? (l == 8 ? "" : TEXTS[l]) : TEXTS[k];
        d = createData(n, a);
    }
    MemReader_p r = memReader();
    r->dim("x", 2);
    r->var("v", CDM_INT, {"x"}, std::vector<double>{1, 2});
    const std::string where = global ? CDM::globalAttributeNS() : "v";
    r->cdm().addAttribute(where, CDMAttribute("first", 1));
    r->cdm().addAttribute(where, CDMAttribute(NAMES[name], d));
    r->cdm().addAttribute(where, CDMAttribute("last", "x"));
    CDMReader_p b = roundTrip(r, fs_pick("data", 0, 1));
    const CDM& c = b->getCDM();
    FS_ASSERT(c.getAttributes(where).size() == 3, "number of attributes");
    FS_ASSERT(c.hasAttribute(where, NAMES[name]), "attribute");
    FS_ASSERT(equal(t, c.getAttribute(where, NAMES[name]).getData(), d), "value of the attribute");
    FS_ASSERT(c.getAttribute(where, "last").getStringValue() == "x", "other attribute");
    FS_REACH("attributes");
}
/* texts */
FS_HARNESS(texts)
{
    fs_text_lossy(1);
    const bool strings = fs_pick("strings", 0, 1), unlim = fs_pick("unlimited", 0, 1);
    const int k = (int)fs_pick("text", 0, 8), l = (int)fs_pick("other", 0, 8), empty = (int)fs_pick("emptyAttribute", 0, 1);
    MemReader_p r = memReader();
    r->dim("time", 2, unlim);
    auto txt = [](int i) { return i == 8 ? std::string(" ") : std::string(TEXTS[i]); };
    DataPtr d;
    if (strings) {
        auto a = make_shared_array<std::string>(2);
        a[0] = txt(k);
        a[1] = txt(l);
        d = createData(2, a);
        r->var("a b", CDM_STRINGS, {"time"}, d);
    } else {
        const size_t n = std::max(txt(k).size(), txt(l).size());
        std::string s = txt(k) + std::string(n - txt(k).size(), '_') + txt(l) + std::string(n - txt(l).size(), '_');
        r->dim("n<", n);
        d = createData(s);
        r->var("a b", CDM_STRING, {"n<", "time"}, d);
    }
    if (empty)
        r->att("a b", "comment", "");
    CDMReader_p b = roundTrip(r, true);
    FS_ASSERT(b->getCDM().getVariable("a b").getShape() == r->getCDM().getVariable("a b").getShape(), "shape");
    FS_ASSERT(equal(strings ? CDM_STRINGS : CDM_STRING, b->getData("a b"), d), "text");
    FS_ASSERT(b->getCDM().hasAttribute("a b", "comment") == (empty == 1), "empty attribute");
    FS_REACH("texts");
}
