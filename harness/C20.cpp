/*FS {
 "regex": true,
 "quick_s": 90, "thorough_s": 600,
 "weights": {"epoch": 2, "unit": 2, "spec": 2},
 "bounds": ["ordering and encoding: two arbitrary valid times of the years 1..4095", "seconds since the epoch: every second of the years 1800..2199 (thorough: 1600..2399)", "text form: table of 10 years x all months x days 1..31, hours, minutes, seconds, milliseconds from tables", "time units: 6 units (seconds to days, different reference times) x table of instants 1900..2100 with milliseconds", "time specifications: absolute lists of 1..6 steps of a table of step widths, relative specifications with start and end times from tables, 0..4 steps and x, x+N, x-N"],
 "outside": ["years before 1 or after 4095 (not representable)", "relative specifications with times before the reference time of the relative unit", "calendars other than the udunits one"]
} */
#include "fs.h"
#include "fimex/FimexTime.h"
#include "fimex/TimeSpec.h"
#include "fimex/TimeUnit.h"
#include "fimex/TimeUtils.h"
#include "fimex/Type2String.h"
#include <cmath>
#include <sstream>
#include <vector>
using namespace MetNoFimex;
namespace {
struct F
{
    int y, mo, d, h, mi, s, ms;
};
F anyTime(const std::string& n)
{
    F f;
    f.y = fs_int(n + "y", 1, 4095);
    f.mo = fs_int(n + "mo", 1, 12);
    f.d = fs_int(n + "d", 1, 31);
    f.h = fs_int(n + "h", 0, 23);
    f.mi = fs_int(n + "mi", 0, 59);
    f.s = fs_int(n + "s", 0, 59);
    f.ms = fs_int(n + "ms", 0, 999);
    return f;
}
FimexTime ft(const F& f) { return FimexTime(f.y, f.mo, f.d, f.h, f.mi, f.s, f.ms); }
int cmp(const F& a, const F& b)
{
    long long da = ((a.y * 16LL + a.mo) * 32 + a.d) * 32 + a.h, db = ((b.y * 16LL + b.mo) * 32 + b.d) * 32 + b.h;
    long long ta = ((a.mi * 64LL) + a.s) * 1024 + a.ms, tb = ((b.mi * 64LL) + b.s) * 1024 + b.ms;
    long long x = da * (1 << 22) + ta, y = db * (1 << 22) + tb;
    return (x > y) - (x < y);
}
const int CUM[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
const int MLEN[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
// days since 1970-01-01, proleptic Gregorian
long days(int y, int m, int d)
{
    int p = y - 1; // complete years before
    long r = p * 365L + p / 4 - p / 100 + p / 400 + CUM[m - 1] + d - 1;
    bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    if (m > 2)
        r += leap;
    return r - 719162;
}
}
FS_HARNESS(order)
{
    F a = anyTime("a"), b = anyTime("b");
    FimexTime ta = ft(a), tb = ft(b);
    FS_ASSERT(ta.getYear() == a.y && ta.getMonth() == a.mo && ta.getMDay() == a.d && ta.getHour() == a.h && ta.getMinute() == a.mi && ta.getSecond() == a.s && ta.getMSecond() == a.ms, "fields of a time");
    int c = cmp(a, b);
    FS_ASSERT((ta < tb) == (c < 0), "<");
    FS_ASSERT((ta > tb) == (c > 0), ">");
    FS_ASSERT((ta <= tb) == (c <= 0), "<=");
    FS_ASSERT((ta >= tb) == (c >= 0), ">=");
    FS_ASSERT((ta == tb) == (c == 0), "==");
    FS_ASSERT((ta != tb) == (c != 0), "!=");
    FS_ASSERT(FimexTime::fromEncoded(ta.toEncoded()) == ta, "encoding and decoding of a time");
    FS_ASSERT(FimexTime(FimexTime::min_date_time) < ta && ta < FimexTime(FimexTime::max_date_time), "every time is between the special times");
    FS_ASSERT(!ta.invalid() && FimexTime().invalid(), "validity");
}
FS_HARNESS(epoch)
{
    int y = fs_pick("century", fs_thorough() ? 16 : 18, fs_thorough() ? 23 : 21) * 100 + fs_pick("decade", 0, 9) * 10 + fs_pick("year", 0, 9), h = fs_int("h", 0, 23), mi = fs_int("mi", 0, 59), s = fs_int("s", 0, 59);
    for (int m = 1; m <= 12; m++) {
        int d = fs_int("day" + std::to_string(m), 1, MLEN[m - 1]);
        long e = fimexTime2epochTime(FimexTime(y, m, d, h, mi, s));
        FS_ASSERT(e == days(y, m, d) * 86400L + h * 3600 + mi * 60 + s, "seconds since the epoch");
    }
    if ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0)
        FS_ASSERT(fimexTime2epochTime(FimexTime(y, 2, 29, h, mi, s)) == days(y, 2, 29) * 86400L + h * 3600 + mi * 60 + s, "29th of february");
}
namespace {
const int YT[] = {1900, 1970, 1999, 2000, 2004, 2019, 2020, 2024, 2038, 2100};
F tableTime(int ymax = 9)
{
    F f;
    f.y = YT[fs_pick("year", 0, ymax)];
    int k = fs_pick("day", 0, 4); // first, last of a month; end of february
    const int MO[] = {1, 12, 2, 3, 7}, D[] = {1, 31, 28, 1, 14};
    f.mo = MO[k];
    f.d = D[k];
    int t = fs_pick("time", 0, 5);
    const int HH[] = {0, 23, 12, 7, 9, 18}, MM[] = {0, 59, 17, 30, 0, 43}, SS[] = {0, 59, 0, 1, 7, 59}, MS[] = {0, 999, 0, 74, 148, 370};
    f.h = HH[t];
    f.mi = MM[t];
    f.s = SS[t];
    f.ms = MS[t];
    return f;
}
std::string two(int i) { return std::string(1, '0' + i / 10) + std::string(1, '0' + i % 10); }
}
FS_HARNESS(text)
{
    F f = tableTime();
    if (fs_pick("anyday", 0, 1)) {
        f.mo = fs_pick("mo", 1, 12);
        f.d = MLEN[f.mo - 1];
    }
    FimexTime t = ft(f);
    std::string s = make_time_string_extended(t);
    std::string date = std::to_string(f.y) + "-" + two(f.mo) + "-" + two(f.d), hm = two(f.h) + ":" + two(f.mi), ms = std::to_string(f.ms);
    std::string e = date + "T" + hm + ":" + two(f.s);
    if (f.ms)
        e += "." + std::string(3 - ms.size(), '0') + ms;
    FS_ASSERT(s == e, "text of a time");
    FS_ASSERT(make_time_string(t) == std::to_string(f.y) + two(f.mo) + two(f.d) + "T" + two(f.h) + two(f.mi) + two(f.s), "compact text of a time");
    FS_ASSERT(string2FimexTime(s) == t, "time read back from its text");
    std::string blank = e;
    blank[blank.find('T')] = ' ';
    FS_ASSERT(string2FimexTime(" " + blank + " ") == t, "time with blank");
    FS_ASSERT(string2FimexTime(date) == FimexTime(f.y, f.mo, f.d), "date only");
    FS_ASSERT(string2FimexTime(date + " " + hm) == FimexTime(f.y, f.mo, f.d, f.h, f.mi), "time without seconds");
    FimexTime x;
    FS_ASSERT(!x.parseISO8601("") && !x.parseISO8601(two(f.mo) + "-" + two(f.d)) && !x.parseISO8601(date + " " + hm + " x"), "text which is not a time");
    time_point tp = asTimePoint(t);
    F g = f;
    g.ms = 0;
    FS_ASSERT(fromTimePoint(tp) == ft(g), "time point and back");
    FS_ASSERT(make_time_from_string(e) == tp && make_time_string_extended(tp) == e.substr(0, 19), "text of a time point");
    FS_ASSERT(make_time_from_timet(timePoint2epochTime(tp)) == tp, "seconds of a time point and back");
    FS_ASSERT(is_invalid_time_point(asTimePoint(FimexTime())) && is_invalid_time_point(make_time_from_string(two(f.mo))), "invalid times");
}
namespace {
const struct
{
    const char* u;
    double len;
    int y, m, d, h;
} TU[] = {{"seconds since 1970-01-01 00:00:00", 1, 1970, 1, 1, 0}, {"hours since 1900-01-01 00:00:00", 3600, 1900, 1, 1, 0}, {"days since 1970-01-01 00:00:00", 86400, 1970, 1, 1, 0},
          {"minutes since 2000-02-29 06:00:00", 60, 2000, 2, 29, 6}, {"days since 2100-12-31", 86400, 2100, 12, 31, 0}, {"hours since 1970-01-01 00:00:00 +02:00", 3600, 1969, 12, 31, 22}};
}
FS_HARNESS(unit)
{
    fs_text_lossy(1);
    F f = tableTime();
    int un = fs_pick("unit", 0, 5);
    TimeUnit tu(TU[un].u);
    FimexTime t = ft(f);
    double e = days(f.y, f.mo, f.d) * 86400. + f.h * 3600. + f.mi * 60. + f.s + f.ms / 1000.;
    double e0 = days(TU[un].y, TU[un].m, TU[un].d) * 86400. + TU[un].h * 3600.;
    double x = (e - e0) / TU[un].len, v = tu.fimexTime2unitTime(t);
    FS_ASSERT(std::fabs(v - x) * TU[un].len < 1e-4, "time in a unit");
    FS_ASSERT(tu.unitTime2fimexTime(v) == t, "time in a unit and back");
    FS_ASSERT(tu.unitTime2fimexTime(x) == t, "calendar time of a unit's value");
    FS_ASSERT(std::fabs(tu.unitTime2epochSeconds(x) - e) < 1e-4, "seconds since the epoch of a unit's value");
    FS_ASSERT(std::fabs(tu.epochSeconds2unitTime(e) - x) * TU[un].len < 1e-4, "unit's value of seconds since the epoch");
}
FS_HARNESS(linear)
{
    int un = fs_pick("unit", 0, 5);
    TimeUnit tu(TU[un].u);
    double e0 = days(TU[un].y, TU[un].m, TU[un].d) * 86400. + TU[un].h * 3600.;
    double v = fs_real("v", -4096, 4096, 2);
    double e = tu.unitTime2epochSeconds(v);
    FS_ASSERT(fs_near(e, v * TU[un].len + e0, 0x1p-10), "seconds since the epoch of a unit's value");
}
namespace {
FimexTime fromEpoch(double e)
{
    time_point tp = make_time_from_timet((long)e);
    return fromTimePoint(tp);
}
const int STEP[] = {3600, 10800, 900, 86400, 7, 43200};
void compare(const TimeSpec& ts, const std::vector<double>& e)
{
    FS_ASSERT(ts.getTimeSteps().size() == e.size(), "number of time steps");
    for (size_t i = 0; i < e.size(); i++)
        FS_ASSERT(ts.getTimeSteps()[i] == fromEpoch(e[i]), "time step");
}
}
FS_HARNESS(spec)
{
    fs_text_lossy(1);
    const F ST[] = {{1970, 1, 1, 0, 0, 0, 0}, {1999, 12, 31, 23, 30, 0, 0}, {2000, 2, 28, 18, 0, 0, 0}, {2004, 2, 29, 7, 15, 0, 0}, {2019, 7, 14, 12, 0, 0, 0}, {2038, 1, 19, 3, 14, 0, 0}};
    F f = ST[fs_pick("start", 0, 5)];
    double t0 = days(f.y, f.mo, f.d) * 86400. + f.h * 3600. + f.mi * 60.;
    int step = STEP[fs_pick("step", 0, 5)];
    bool relative = fs_pick("relative", 0, 1);
    std::string ou = fs_pick("unit", 0, 1) ? "hours since 2000-01-01 00:00:00" : "";
    std::string tail = ou.empty() ? "" : ";unit=" + ou;
    std::vector<double> e;
    if (!relative) {
        int n = fs_pick("n", 1, 6);
        std::string s;
        for (int i = 0; i < n; i++)
            e.push_back(t0 + i * (double)step);
        bool dots = n >= 4;
        for (int i = 0; i < n; i++) {
            if (dots && i == 2) {
                s += ",...";
                i = n - 1;
            }
            s += (i ? "," : "") + make_time_string_extended(fromEpoch(e[i]));
        }
        TimeSpec ts(s + tail, FimexTime(), FimexTime());
        FS_ASSERT(ts.getUnitString() == (ou.empty() ? "seconds since 1970-01-01 00:00:00" : ou), "unit of the time steps");
        compare(ts, e);
    } else {
        // steps of whole hours relative to a midnight
        step = fs_pick("hours", 1, 3) * 3;
        int dur = fs_pick("dur", 0, 2) * 10 + step, before = fs_pick("before", 0, 1), after = fs_pick("after", -2, 2);
        double e0 = days(1990, 1, 1) * 86400.;
        if (t0 < e0)
            return;
        double end = t0 + dur * 3600.;
        std::string s = before ? "-" + std::to_string(step) + ",0," + std::to_string(step) : "0," + std::to_string(step);
        s += ",...,x";
        if (after)
            s += std::string(after < 0 ? "-" : "+") + std::to_string(std::abs(after) * step);
        else
            s += ",x + 10.5";
        TimeSpec ts(s + ";relativeUnit=hours since 1990-01-01 00:00:00" + tail, fromEpoch(t0), fromEpoch(end));
        double st = step * 3600., a = std::ceil((t0 - e0) / st) * st + e0, b = std::floor((end - e0) / st) * st + e0;
        int lo = before ? -1 : 0;
        double last = b + after * st;
        if (last < a + st * 2) // the dots are preceded by two or three values
            return;
        for (int i = lo; a + i * st <= last; i++)
            e.push_back(a + i * st);
        if (!after)
            e.push_back(b + 10.5 * 3600);
        compare(ts, e);
    }
}
