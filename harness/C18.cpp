/*FS {
 "regex": true,
 "quick_s": 60, "thorough_s": 400,
 "bounds": ["2 status values per slice (thorough: 3; with two times, one of the two is fixed in the quick check), arbitrary in 0..5, as byte, int or double; 1..2 layers, 1..2 times; arbitrary data; status with time, without time, of the variable itself, or itself with a status", "accepted values listed, listed as a range, or use=all, min:2, max:3, highest, lowest; with valid_min, valid_max, valid_range or _FillValue of the status; automatic configuration with flag_values, alone and replaced by the configuration", "data and status in memory or read; every slice read twice, complete and box reads, source data afterwards"],
 "outside": ["status variables in other files", "status slices missing in the source where the data exist", "flag_masks (not implemented in fimex)", "packed status variables"]
} */
#include "h.h"
#include "fimex/CDMQualityExtractor.h"
#include <cmath>
#include <sys/mman.h>
#include <unistd.h>
namespace {
std::string configFile(const std::string& text)
{
    const std::string xml = "<?xml version=\"1.0\"?>\n<cdmQualityConfig>\n" + text + "</cdmQualityConfig>\n";
    const int fd = memfd_create("q", 0);
    if (write(fd, xml.data(), xml.size()) != (ssize_t)xml.size())
        FS_FAIL("config");
    return "/proc/self/fd/" + std::to_string(fd);
}
std::string variable(const std::string& var, const std::string& status, const std::string& use, const std::string& values, const std::string& fill = "")
{
    std::string t = "<variable name=\"" + var + "\"";
    if (!fill.empty())
        t += " fillValue=\"" + fill + "\"";
    t += "><status_flag_variable name=\"" + status + "\"><allowed_values";
    if (!use.empty())
        t += " use=\"" + use + "\"";
    return t + ">" + values + "</allowed_values></status_flag_variable></variable>\n";
}
const int FILL = -31000;
struct Setup
{
    MemReader_p r;
    size_t nx, nz, nt;
    bool statusTime;
    std::vector<int> v, s;
    size_t ns() const { return s.size(); }
    int status(size_t x, size_t t) const { return s[statusTime ? t * nx + x : x]; }
};
CDMDataType T[] = {CDM_CHAR, CDM_INT, CDM_DOUBLE};
DataPtr typed(CDMDataType t, const std::vector<int>& v)
{
    DataPtr d = createData(t, v.size(), 0.);
    for (size_t i = 0; i < v.size(); i++) {
        if (t == CDM_CHAR)
            ((char*)d->getDataPtr())[i] = (char)v[i];
        else if (t == CDM_INT)
            ((int*)d->getDataPtr())[i] = v[i];
        else
            ((double*)d->getDataPtr())[i] = v[i];
    }
    return d;
}
Setup setup(bool many)
{
    Setup s;
    s.r = memReader();
    s.nx = fs_thorough() ? 3 : 2;
    s.statusTime = fs_pick("statusTime", 0, 1); // status with the dimensions of the variable, or of a layer
    s.nz = s.statusTime ? 1 : many ? fs_pick("nz", 1, 2) : 2;
    s.nt = many ? fs_pick("nt", 1, 2) : 1;
    s.r->dim("x", s.nx);
    s.r->dim("z", s.nz);
    s.r->dim("time", s.nt, true);
    s.v.resize(s.nx * s.nz * s.nt);
    for (size_t i = 0; i < s.v.size(); i++)
        s.v[i] = (int)fs_int("v" + std::to_string(i), -9, 9);
    s.s.resize(s.nx * (s.statusTime ? s.nt : 1));
    for (size_t i = 0; i < s.s.size(); i++)
        s.s[i] = !fs_thorough() && s.nt == 2 && i % 2 ? (i == 1 ? 1 : 5) : (int)fs_int("s" + std::to_string(i), 0, 5);
    s.r->var("v", CDM_INT, {"x", "z", "time"}, typed(CDM_INT, s.v));
    s.r->att<int>("v", "_FillValue", FILL);
    s.r->att("v", "standard_name", "speed");
    const int type = many ? (s.nt == 1 || fs_thorough() ? fs_pick("type", 0, 2) : 1) : 2;
    s.r->var("s", T[type], s.statusTime ? Names{"x", "z", "time"} : Names{"x"}, typed(T[type], s.s));
    s.r->att("s", "standard_name", "speed status_flag");
    s.r->var("w", CDM_INT, {"x"}, std::vector<double>(s.nx, 7));
    if (fs_pick("inmem", 0, 1)) {
        s.r->cdm().getVariable("v").setData(s.r->mem["v"]->clone());
        s.r->cdm().getVariable("s").setData(s.r->mem["s"]->clone());
    }
    return s;
}
void check(const Setup& s, CDMReader_p q, const std::vector<std::vector<bool>>& ok, int fill = FILL)
{
    const size_t n = s.nx * s.nz;
    for (int again = 0; again < 2; again++)
        for (size_t t = 0; t < s.nt; t++) {
            DataPtr d = q->getDataSlice("v", t);
            FS_ASSERT(d->size() == n, "size of the slice");
            auto a = d->asInt();
            for (size_t i = 0; i < n; i++)
                FS_ASSERT(a[i] == fs_seli(ok[t][i % s.nx], s.v[t * n + i], fill), "a value is delivered if its status is accepted, the fill value otherwise");
        }
    auto f = q->getData("v")->asInt();
    for (size_t k = 0; k < s.v.size(); k++)
        FS_ASSERT(f[k] == fs_seli(ok[k / n][k % s.nx], s.v[k], fill), "complete data are those of the slices");
    SliceBuilder sb(q->getCDM(), "v");
    sb.setStartAndSize("x", 1, 1);
    auto b = q->getDataSlice("v", sb)->asInt();
    for (size_t k = 0; k < s.nz * s.nt; k++)
        FS_ASSERT(b[k] == fs_seli(ok[k / s.nz][1], s.v[k * s.nx + 1], fill), "data of a box are those of the slices");
    // the status variable and others are not changed
    auto st = q->getData("s")->asInt();
    for (size_t k = 0; k < s.ns(); k++)
        FS_ASSERT(st[k] == s.s[k], "status is delivered unchanged");
    auto w = q->getData("w")->asInt();
    for (size_t k = 0; k < s.nx; k++)
        FS_ASSERT(w[k] == 7, "variables without status are delivered unchanged");
    auto src = s.r->getData("v")->asInt();
    for (size_t k = 0; k < s.v.size(); k++)
        FS_ASSERT(src[k] == s.v[k], "data of the source are not changed");
    auto srcS = s.r->getData("s")->asInt();
    for (size_t k = 0; k < s.ns(); k++)
        FS_ASSERT(srcS[k] == s.s[k], "status of the source is not changed");
}
typedef std::vector<std::vector<bool>> OK;
template <class F>
OK accepted(const Setup& s, F f)
{
    OK ok(s.nt);
    for (size_t t = 0; t < s.nt; t++)
        for (size_t x = 0; x < s.nx; x++)
            ok[t].push_back(f(s.status(x, t)));
    return ok;
}
/* highest or lowest defined status of the slice */
template <class F>
OK extreme(const Setup& s, bool highest, F defined)
{
    OK ok(s.nt);
    for (size_t t = 0; t < s.nt; t++) {
        int e = highest ? -1 : 99;
        for (size_t x = 0; x < s.nx; x++) {
            const int w = s.status(x, t);
            if (defined(w) && (highest ? w > e : w < e))
                e = w;
        }
        for (size_t x = 0; x < s.nx; x++)
            ok[t].push_back(s.status(x, t) == e);
    }
    return ok;
}
bool anyStatus(int) { return true; }
}

FS_HARNESS(values)
{
    Setup s = setup(true);
    const int kind = fs_pick("kind", 0, 2);
    if (kind == 0)
        check(s, std::make_shared<CDMQualityExtractor>(s.r, "", configFile(variable("v", "s", "", "4,0"))), accepted(s, [](int w) { return w == 4 || w == 0; }));
    else if (kind == 1) {
        check(s, std::make_shared<CDMQualityExtractor>(s.r, "", configFile(variable("v", "s", "", "1,2,...,4", "-77"))), accepted(s, [](int w) { return w >= 1 && w <= 4; }), -77);
    } else
        check(s, std::make_shared<CDMQualityExtractor>(s.r, "", configFile(variable("v", "s", "highest", ""))), extreme(s, true, anyStatus));
    FS_REACH("done");
}

FS_HARNESS(use)
{
    Setup s = setup(false);
    const int limits = fs_pick("limits", 0, 4);
    int lo = -1, hi = 9, fill = -1;
    if (limits == 1)
        s.r->att<int>("s", "valid_min", lo = 1);
    else if (limits == 2)
        s.r->att<int>("s", "valid_max", hi = 4);
    else if (limits == 3) {
        s.r->cdm().addAttribute("s", CDMAttribute("valid_range", CDM_INT, Names({"1", "4"})));
        lo = 1;
        hi = 4;
    } else if (limits == 4)
        s.r->att<double>("s", "_FillValue", fill = 5);
    auto defined = [=](int w) { return w >= lo && w <= hi && w != fill; };
    const int use = fs_pick("use", 0, 4);
    const char* U[] = {"all", "min:2", "max:3", "highest", "lowest"};
    auto q = std::make_shared<CDMQualityExtractor>(s.r, "", configFile(variable("v", "s", U[use], "")));
    if (use == 0)
        check(s, q, accepted(s, defined));
    else if (use == 1)
        check(s, q, accepted(s, [=](int w) { return defined(w) && w >= 2; }));
    else if (use == 2)
        check(s, q, accepted(s, [=](int w) { return defined(w) && w <= 3; }));
    else {
        OK e = extreme(s, use == 3, defined);
        check(s, q, e);
    }
    FS_REACH("done");
}

FS_HARNESS(automatic)
{
    Setup s = setup(false);
    s.r->cdm().addAttribute("s", CDMAttribute("flag_values", CDM_INT, Names({"1", "3", "4"})));
    const int kind = fs_pick("kind", 0, 5);
    if (kind == 0)
        check(s, std::make_shared<CDMQualityExtractor>(s.r, "all"), accepted(s, [](int w) { return w == 1 || w == 3 || w == 4; }));
    else if (kind == 1)
        check(s, std::make_shared<CDMQualityExtractor>(s.r, "highest"), accepted(s, [](int w) { return w == 4; }));
    else if (kind == 2)
        check(s, std::make_shared<CDMQualityExtractor>(s.r, "lowest"), accepted(s, [](int w) { return w == 1; }));
    else if (kind == 3)
        check(s, std::make_shared<CDMQualityExtractor>(s.r, "values=0,5"), accepted(s, [](int w) { return w == 0 || w == 5; }));
    else if (kind == 4) // the configuration replaces the automatic one
        check(s, std::make_shared<CDMQualityExtractor>(s.r, "all", configFile(variable("v", "s", "min:2", ""))), accepted(s, [](int w) { return w >= 2; }));
    else
        check(s, std::make_shared<CDMQualityExtractor>(s.r, "lowest", configFile(variable("v", "s", "", "0"))), accepted(s, [](int w) { return w == 0; }));
    FS_ASSERT(throws([&] { CDMQualityExtractor(s.r, "best"); }), "unknown automatic configurations are refused");
    FS_REACH("done");
}

/* a status which itself has a status, and a variable which is its own status */
FS_HARNESS(chained)
{
    Setup s = setup(false);
    const bool own = fs_pick("own", 0, 1);
    if (own) {
        auto q = std::make_shared<CDMQualityExtractor>(s.r, "", configFile(variable("v", "v", "min:-3", "")));
        for (int again = 0; again < 2; again++) {
            auto a = q->getDataSlice("v", 0)->asInt();
            for (size_t i = 0; i < s.v.size(); i++)
                FS_ASSERT(a[i] == fs_seli(s.v[i] >= -3, s.v[i], FILL), "own values as status");
        }
    } else {
        std::vector<int> u;
        for (size_t x = 0; x < s.nx; x++)
            u.push_back((int)fs_int("u" + std::to_string(x), 0, 2));
        s.r->var("u", CDM_INT, {"x"}, typed(CDM_INT, u));
        s.r->att<double>("s", "_FillValue", 9);
        auto q = std::make_shared<CDMQualityExtractor>(s.r, "", configFile(variable("v", "s", "", "1,2") + variable("s", "u", "", "1")));
        auto a = q->getDataSlice("v", 0)->asInt();
        for (size_t i = 0; i < s.v.size(); i++) {
            const size_t x = i % s.nx;
            bool ok = false;
            if (u[x] == 1)
                ok = s.s[x] == 1 || s.s[x] == 2;
            FS_ASSERT(a[i] == fs_seli(ok, s.v[i], FILL), "status of a status");
        }
    }
    FS_REACH("done");
}

/* slices which the source does not have */
FS_HARNESS(missing)
{
    Setup s = setup(false);
    s.r->cdm().getVariable("v").setData(nullptr);
    s.r->cdm().getVariable("s").setData(nullptr);
    s.r->missing.insert(std::make_pair(std::string("v"), size_t(0)));
    if (fs_pick("both", 0, 1))
        s.r->missing.insert(std::make_pair(std::string("s"), size_t(0))); // (if it has times)
    auto q = std::make_shared<CDMQualityExtractor>(s.r, "", configFile(variable("v", "s", "", "1,2")));
    auto f = q->getData("v")->asInt();
    for (size_t k = 0; k < s.v.size(); k++)
        FS_ASSERT(f[k] == FILL, "missing data are undefined");
    FS_REACH("done");
}
