/*FS {
 "regex": true,
 "quick_s": 90, "thorough_s": 600,
 "bounds": ["1..3 original times (ascending, step widths from a table of 1..5 hours), variable of 2 values per time with arbitrary values k/2 in [-16,16] as float, or as short with a fill value, any subset of the slices missing in the source", "1..2 (thorough: 3) new times in any order from a half-hourly table reaching 8 hours before and after the original ones, output unit seconds or hours", "axes in different time units; variables without time"],
 "outside": ["time axes that are not the unlimited dimension (rejected by the code)", "packed time axes"]
} */
#include "h.h"
#include "fimex/CDMTimeInterpolator.h"
#include "fimex/FimexTime.h"
#include <cmath>
#include <sstream>
namespace {
const double UNDEF = std::numeric_limits<double>::quiet_NaN();
std::string iso(int halfHours) // half hours since 2000-01-10 00:00
{
    char b[64];
    int d = 10 + (halfHours + 480) / 48 - 10, r = (halfHours + 480) % 48;
    snprintf(b, sizeof(b), "2000-01-%02d %02d:%02d:00", d, r / 2, (r % 2) * 30);
    return b;
}
struct Setup
{
    MemReader_p r;
    std::vector<int> old; // half hours since reference
    std::vector<std::vector<double>> v; // values per time, undefined = NaN
    bool isShort;
    std::vector<bool> miss;
};
Setup setup(bool withMissing)
{
    Setup s;
    s.r = memReader();
    int nt = fs_pick("nt", 1, 3);
    const int STEP[] = {2, 4, 8};
    int t = 4;
    for (int i = 0; i < nt; i++) {
        s.old.push_back(t);
        t += i + 1 < nt ? STEP[fs_pick("step" + std::to_string(i), i && !fs_thorough() ? 1 : 0, 2)] : 0;
    }
    int u = fs_pick("inunit", 0, 1);
    std::vector<double> tv;
    for (int h : s.old)
        tv.push_back(u ? h * 1800. : h / 2.);
    s.r->dim("x", 2);
    s.r->dim("time", nt, true);
    s.r->var("time", CDM_DOUBLE, {"time"}, tv);
    s.r->att("time", "units", u ? "seconds since 2000-01-10 00:00:00" : "hours since 2000-01-10 00:00:00");
    s.r->var("x", CDM_INT, {"x"}, std::vector<double>{1, 2});
    s.isShort = fs_pick("short", 0, 1);
    DataPtr d = createData(s.isShort ? CDM_SHORT : CDM_FLOAT, 2 * nt, 0.);
    for (int i = 0; i < nt; i++) {
        s.v.push_back({});
        for (int k = 0; k < 2; k++) {
            std::string n = "v" + std::to_string(i) + std::to_string(k);
            if (s.isShort) {
                int q = (int)fs_int(n, -100, 100);
                ((short*)d->getDataPtr())[2 * i + k] = (short)q;
                s.v[i].push_back(fs_sel(q == -99, UNDEF, q));
            } else {
                double q = fs_real(n, -16, 16, 1);
                ((float*)d->getDataPtr())[2 * i + k] = (float)q;
                s.v[i].push_back(q);
            }
        }
    }
    s.r->var("v", s.isShort ? CDM_SHORT : CDM_FLOAT, {"x", "time"}, d);
    if (s.isShort)
        s.r->att<short>("v", "_FillValue", -99);
    s.r->var("w", CDM_DOUBLE, {"x"}, std::vector<double>{7, 8});
    int m = withMissing ? fs_pick("missing", 0, (1 << nt) - 1) : 0;
    for (int i = 0; i < nt; i++) {
        s.miss.push_back((m >> i) & 1);
        if (s.miss[i])
            s.r->missing.insert(std::make_pair(std::string("v"), (size_t)i));
    }
    return s;
}
// documented: linear between the neighbouring times; extrapolation up to one interval
double expected(const Setup& s, int t, int k, bool& def)
{
    size_t n = s.old.size(), a = 0, b = 0;
    def = true;
    if (n == 1) {
        def = !s.miss[0];
        return s.v[0][k];
    }
    while (b + 1 < n && s.old[b] < t)
        b++;
    if (b == 0)
        b = 1;
    a = b - 1;
    double va = s.v[a][k], vb = s.v[b][k];
    if (s.miss[a] || s.miss[b]) {
        def = !(s.miss[a] && s.miss[b]);
        return s.miss[a] ? vb : va;
    }
    double f = (double)(t - s.old[a]) / (s.old[b] - s.old[a]);
    if (f == 0)
        return va;
    if (f == 1)
        return vb;
    if (f < -1 || f > 2)
        return UNDEF;
    return va + f * (vb - va);
}
void run(bool withMissing)
{
    fs_text_lossy(1);
    Setup s = setup(withMissing);
    auto ti = std::make_shared<CDMTimeInterpolator>(s.r);
    int nn = fs_pick("new", 1, (withMissing ? 1 : 2) + fs_thorough());
    std::vector<int> nt;
    std::string spec;
    for (int i = 0; i < nn; i++) {
        int h = s.old[0] - 16 + fs_pick("t" + std::to_string(i), 0, fs_thorough() ? 5 : 4) * (fs_thorough() ? 7 : 9) - 3;
        if (fs_pick("on" + std::to_string(i), 0, 1))
            h = s.old[fs_pick("old" + std::to_string(i), 0, (int)s.old.size() - 1)];
        nt.push_back(h);
        spec += (i ? "," : "") + iso(h);
    }
    int u = fs_thorough() ? fs_pick("outunit", 0, 1) : s.isShort;
    if (u)
        spec += ";unit=hours since 2000-01-01 00:00:00";
    ti->changeTimeAxis(spec);
    const CDM& cdm = ti->getCDM();
    FS_ASSERT(cdm.getDimension("time").getLength() == nt.size(), "length of the new time-axis");
    auto tv = ti->getData("time")->asDouble();
    FS_ASSERT(ti->getData("time")->size() == nt.size(), "size of the new time-axis");
    double tol = 1e-5;
    for (size_t i = 0; i < nt.size(); i++) {
        double e = u ? nt[i] / 2. + 9 * 24 : nt[i] * 1800. + 947462400.; // 2000-01-10
        FS_ASSERT(std::fabs(tv[i] - e) <= tol, "values of the new time-axis");
    }
    FS_ASSERT(cdm.getUnits("time") == (u ? "hours since 2000-01-01 00:00:00" : "seconds since 1970-01-01 00:00:00"), "unit of the new time-axis");
    for (size_t i = 0; i < nt.size(); i++) {
        DataPtr d = ti->getDataSlice("v", i);
        bool def;
        expected(s, nt[i], 0, def);
        if (!def) {
            FS_ASSERT(d->size() == 0, "no data for missing slices");
            continue;
        }
        FS_ASSERT(d->size() == 2, "size of an interpolated slice");
        auto dv = d->asDouble();
        for (int k = 0; k < 2; k++) {
            double e = expected(s, nt[i], k, def), g = dv[k];
            if (s.isShort)
                e = fs_sel(e != e, -99, e);
            if (!s.isShort)
                e = fs_sel(e != e, cdm.getFillValue("v"), e);
            FS_ASSERT(fs_near(g, e, 1e-3), "time-interpolated value");
        }
        FS_REACH("interpolated");
    }
    auto w = ti->getData("w")->asDouble();
    FS_ASSERT(w[0] == 7 && w[1] == 8, "variable without time");
    auto x = ti->getData("x")->asDouble();
    FS_ASSERT(x[0] == 1 && x[1] == 2, "coordinate variable");
    FS_ASSERT(s.r->getCDM().getDimension("time").getLength() == s.old.size(), "source is unchanged");
}
}
FS_HARNESS(complete)
{
    run(false);
}
FS_HARNESS(missing)
{
    run(true);
}
FS_HARNESS(unchanged)
{
    Setup s = setup(false);
    auto ti = std::make_shared<CDMTimeInterpolator>(s.r);
    for (size_t i = 0; i < s.old.size(); i++) {
        auto d = ti->getDataSlice("v", i)->asDouble();
        for (int k = 0; k < 2; k++)
            FS_ASSERT(d[k] == fs_sel(s.v[i][k] != s.v[i][k], -99, s.v[i][k]), "data before changing the time-axis");
    }
    FS_ASSERT(ti->getData("time")->size() == s.old.size(), "time-axis before changing");
    FS_REACH("unchanged");
}
