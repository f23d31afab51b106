/*FS {
 "regex": true,
 "quick_s": 90, "thorough_s": 400,
 "bounds": ["2 horizontal points (2x1 or 1x2), 2 levels, 2 times (unlimited or not), variable order x,y,z,t or z,x,y,t", "vertical coordinates from tables: pressure (hPa, Pa), sigma, hybrid sigma with a surface pressure per point and time; temperatures from a table (exp and pow are evaluated on concrete values)", "potential temperature as double or packed short with scale and offset, specific humidity and omega arbitrary (one arbitrary value at each position in turn), each possibly undefined; units K or degC, Pa/s or hPa/s, kg/kg or g/kg", "temperatures of other grids in the file; one or several operations, options naming the variables"],
 "outside": ["potential temperature in other units than K", "vertical coordinates in height (standard atmosphere)", "options for the names of derived variables other than the documented ones"]
} */
#include "h.h"
#include "fimex/CDMPressureConversions.h"
#include "fimex/vertical_coordinate_transformations.h"
#include "fimex/mifi_constants.h"
#include <cmath>
namespace {
const double UNDEF = std::numeric_limits<double>::quiet_NaN();
enum { PRESSURE, PRESSURE_PA, SIGMA, HYBRID, NKIND };
struct Setup
{
    MemReader_p r;
    size_t nx, ny, nz = 2, nt = 2, np;
    bool zfirst, unlim;
    Names shape;
    size_t pos(size_t t, size_t p, size_t k) const { return t * np * nz + (zfirst ? p * nz + k : k * np + p); }
    double pres[2][2][2]; // [t][p][k] hPa
};
const double TEMP[8] = {250, 260, 270, 280, 255.5, 265.5, 290.25, 300};
Setup setup()
{
    Setup s;
    s.r = memReader();
    MemReader& r = *s.r;
    const int layout = fs_pick("layout", 0, 3);
    s.nx = layout & 1 ? 1 : 2;
    s.ny = 3 - s.nx;
    s.np = 2;
    s.zfirst = layout == 1 || layout == 2;
    s.unlim = layout < 3;
    r.dim("lon", s.nx);
    r.dim("lat", s.ny);
    r.dim("lev", 2);
    r.dim("time", 2, s.unlim);
    r.var("lon", CDM_DOUBLE, {"lon"}, s.nx == 1 ? std::vector<double>{10} : std::vector<double>{10, 20});
    r.att("lon", "units", "degrees_east");
    r.var("lat", CDM_DOUBLE, {"lat"}, s.ny == 1 ? std::vector<double>{40} : std::vector<double>{40, 50});
    r.att("lat", "units", "degrees_north");
    r.var("time", CDM_DOUBLE, {"time"}, std::vector<double>{0, 6});
    r.att("time", "units", "hours since 2000-01-10 00:00:00");
    const int kind = fs_pick("kind", 0, NKIND - 1);
    auto ps = [](size_t t, size_t p) { return 800. + 100 * p + 50 * t; };
    const double P[2] = {500, 850}, S[2] = {0.5, 1}, A[2] = {100, 20};
    for (size_t t = 0; t < 2; t++)
        for (size_t p = 0; p < 2; p++)
            for (size_t k = 0; k < 2; k++)
                s.pres[t][p][k] = kind <= PRESSURE_PA ? P[k] : kind == SIGMA ? 50 + S[k] * (ps(t, p) - 50) : A[k] + S[k] * ps(t, p);
    std::vector<double> ax(2);
    for (size_t k = 0; k < 2; k++)
        ax[k] = kind == PRESSURE ? P[k] : kind == PRESSURE_PA ? P[k] * 100 : S[k];
    r.var("lev", CDM_DOUBLE, {"lev"}, ax);
    if (kind <= PRESSURE_PA) {
        r.att("lev", "units", kind == PRESSURE ? "hPa" : "Pa");
    } else {
        r.att("lev", "units", "1");
        r.att("lev", "positive", "down");
        if (kind == SIGMA) {
            r.att("lev", "standard_name", "atmosphere_sigma_coordinate");
            r.att("lev", "formula_terms", "sigma: lev ps: ps ptop: ptop");
            r.var("ptop", CDM_DOUBLE, {}, std::vector<double>{50});
            r.att("ptop", "units", "hPa");
        } else {
            r.att("lev", "standard_name", "atmosphere_hybrid_sigma_pressure_coordinate");
            r.att("lev", "formula_terms", "ap: ap b: b ps: ps");
            r.var("ap", CDM_DOUBLE, {"lev"}, std::vector<double>{A[0] * 100, A[1] * 100});
            r.att("ap", "units", "Pa");
            r.var("b", CDM_DOUBLE, {"lev"}, std::vector<double>{S[0], S[1]});
        }
        std::vector<double> d;
        for (size_t t = 0; t < 2; t++)
            for (size_t p = 0; p < 2; p++)
                d.push_back(ps(t, p));
        r.var("ps", CDM_DOUBLE, {"lon", "lat", "time"}, d);
        r.att("ps", "units", "hPa");
    }
    s.shape = s.zfirst ? Names{"lev", "lon", "lat", "time"} : Names{"lon", "lat", "lev", "time"};
    r.var("other", CDM_INT, {"lon", "lat"}, std::vector<double>{7, 8});
    return s;
}
/* values, one of them (at an enumerated position) symbolic */
void values(const char* n, double lo, double hi, std::vector<double>& v, int& sym, int bits = 4, bool one = false)
{
    const int Q[4] = {0, 3, 5, 6};
    sym = fs_thorough() ? fs_pick((std::string(n) + "_at").c_str(), 0, 7) : one ? 5 : Q[fs_pick((std::string(n) + "_at").c_str(), 0, 3)];
    v.resize(8);
    for (int i = 0; i < 8; i++)
        v[i] = i == sym ? fs_real(n, lo, hi, bits) : lo + (hi - lo) * (i + 1) / 16;
}
void rest(Setup& s, CDMReader& c)
{
    auto w = c.getData("other")->asInt();
    FS_ASSERT(w[0] == 7 && w[1] == 8, "other variables are unchanged");
    FS_ASSERT(c.getData("time")->asDouble()[1] == 6 && c.getData("lev")->size() == 2, "axes are unchanged");
}
bool same(double a, double b) { return a != a ? b != b : fs_near(a, b, 0.0003); } // rounding is not repeated exactly by the encoding
/* complete scaled data, and slices */
std::vector<double> read(Setup& s, CDMReader& c, const std::string& n)
{
    FS_ASSERT(c.getCDM().hasVariable(n) && c.getCDM().getVariable(n).getShape() == s.shape, "converted variable with the shape of the original");
    DataPtr d = c.getScaledData(n);
    FS_ASSERT(d->size() == 8, "size of the converted variable");
    auto a = d->asDouble();
    DataPtr raw = c.getData(n);
    FS_ASSERT(raw->size() == 8 && raw->getDataType() == c.getCDM().getVariable(n).getDataType(), "type of the converted data");
    if (s.unlim)
        for (size_t t = 0; t < 2; t++) {
            DataPtr e = c.getScaledDataSlice(n, t);
            FS_ASSERT(e->size() == 4, "size of a slice");
            for (size_t i = 0; i < 4; i++)
                FS_ASSERT(same(e->asDouble()[i], a[t * 4 + i]), "slice equals complete data");
        }
    SliceBuilder sb(c.getCDM(), n);
    sb.setStartAndSize("lev", 1, 1);
    DataPtr b = c.getScaledDataSlice(n, sb);
    FS_ASSERT(b->size() == 4, "size of a box");
    for (size_t t = 0; t < 2; t++)
        for (size_t p = 0; p < 2; p++)
            FS_ASSERT(same(b->asDouble()[t * 2 + p], a[s.pos(t, p, 1)]), "box equals complete data");
    return std::vector<double>(&a[0], &a[0] + 8);
}
} // namespace
FS_HARNESS(theta)
{
    fs_text_lossy(1);
    Setup s = setup();
    const int type = fs_pick("type", 0, 2); // double, float with fill value, packed short
    std::vector<double> v;
    int sym;
    values("theta", 256, 320, v, sym);
    const bool u = type && fs_pick("undef", 0, 1);
    const double sc = 0.25, of = 250, fill = -9999;
    DataPtr d = createData(type == 0 ? CDM_DOUBLE : type == 1 ? CDM_FLOAT : CDM_SHORT, 8, 0.);
    for (int i = 0; i < 8; i++) {
        double x = u && i == sym ? fill : type == 2 ? (v[i] - of) / sc : v[i];
        if (type == 2 && i == sym && !u) {
            int k = fs_int("k", 0, 280);
            v[i] = k * sc + of;
            x = k;
        }
        d->setValue(i, x);
    }
    s.r->var("th", d->getDataType(), s.shape, d);
    s.r->att("th", "standard_name", "air_potential_temperature");
    s.r->att("th", "units", "K");
    if (type == 1)
        s.r->att<float>("th", "_FillValue", (float)fill);
    if (type == 2) {
        s.r->att<short>("th", "_FillValue", (short)fill);
        s.r->att("th", "scale_factor", sc);
        s.r->att("th", "add_offset", of);
    }
    CDMPressureConversions c(s.r, {"theta2T"});
    FS_ASSERT(!c.getCDM().hasVariable("th"), "potential temperature is replaced");
    std::vector<double> g = read(s, c, "air_temperature");
    const double R = MIFI_GAS_CONSTANT / MIFI_MOLAR_MASS_DRY_AIR;
    for (size_t t = 0; t < 2; t++)
        for (size_t p = 0; p < 2; p++)
            for (size_t k = 0; k < 2; k++) {
                const size_t i = s.pos(t, p, k);
                if (u && (int)i == sym) {
                    FS_ASSERT(g[i] != g[i], "undefined stays undefined");
                } else
                    FS_ASSERT(fs_near(g[i], v[i] * std::pow(s.pres[t][p][k] / 1000, R / 1004), type == 2 ? 0.15 : 0.01), "temperature from potential temperature");
            }
    rest(s, c);
}
FS_HARNESS(humidity)
{
    fs_text_lossy(1);
    Setup s = setup();
    std::vector<double> v;
    int sym;
    const int u = fs_pick("undef", 0, 2); // none, humidity, temperature
    const int other = fs_pick("other", 0, 2); // no other temperature, on another grid before, behind
    const bool gkg = fs_thorough() ? fs_pick("gkg", 0, 1) : other == 2;
    values("q", 0.5, 16, v, sym, 1, u || other); // g/kg
    DataPtr d = createData(CDM_FLOAT, 8, 0.), dt = createData(CDM_DOUBLE, 8, 0.);
    for (int i = 0; i < 8; i++) {
        d->setValue(i, u == 1 && i == sym ? -9 : v[i] * (gkg ? 1 : 1. / 1024));
        dt->setValue(i, u == 2 && i == sym ? -999 : TEMP[i] - (gkg ? 273.15 : 0));
    }
    s.r->var("q", CDM_FLOAT, s.shape, d);
    s.r->att("q", "standard_name", "specific_humidity");
    s.r->att("q", "units", gkg ? "g/kg" : "kg/kg");
    s.r->att<float>("q", "_FillValue", -9);
    auto t2m = [&] {
        s.r->var("t2m", CDM_DOUBLE, {"lon", "lat", "time"}, std::vector<double>{1, 2, 3, 4});
        s.r->att("t2m", "standard_name", "air_temperature");
        s.r->att("t2m", "units", "K");
    };
    if (other == 1)
        t2m();
    s.r->var("t", CDM_DOUBLE, s.shape, dt);
    s.r->att("t", "standard_name", "air_temperature");
    s.r->att("t", "units", gkg ? "degC" : "K");
    s.r->att<double>("t", "_FillValue", -999);
    if (other == 2)
        t2m();
    CDMPressureConversions c(s.r, {"specific2relative"});
    std::vector<double> g = read(s, c, "relative_humidity");
    FS_ASSERT(c.getCDM().getUnits("relative_humidity") == "1", "unit of relative humidity");
    for (size_t t = 0; t < 2; t++)
        for (size_t p = 0; p < 2; p++)
            for (size_t k = 0; k < 2; k++) {
                const size_t i = s.pos(t, p, k);
                if (u && (int)i == sym) {
                    FS_ASSERT(g[i] != g[i], "undefined stays undefined");
                    continue;
                }
                const double T = TEMP[i], es = 610.78 * std::exp(17.269 * (T - 273.16) / (T - 35.86));
                const double e = v[i] * (gkg ? 0.001 : 1. / 1024) * s.pres[t][p][k] * 100 / (es * 0.622);
                if (e > 1)
                    FS_ASSERT(fs_near(g[i], 1, 0.0005), "relative humidity is limited to 100%");
                else
                    FS_ASSERT(fs_near(g[i], e, 0.0005), "relative humidity");
            }
    auto q = c.getScaledData("q")->asDouble();
    for (int i = 0; i < 8; i++)
        if (!(u == 1 && i == sym))
            FS_ASSERT(fs_near(q[i], v[i] * (gkg ? 1 : 1. / 1024), 0.0001), "humidity itself is unchanged");
    rest(s, c);
}
FS_HARNESS(nograd) // no temperature on the grid of the humidity
{
    Setup s = setup();
    s.r->var("q", CDM_FLOAT, s.shape, std::vector<double>(8, 0.25));
    s.r->att("q", "standard_name", "specific_humidity");
    s.r->att("q", "units", "1");
    const bool t2m = fs_pick("t2m", 0, 1);
    if (t2m) {
        s.r->var("t2m", CDM_DOUBLE, {"lon", "lat", "time"}, std::vector<double>{1, 2, 3, 4});
        s.r->att("t2m", "standard_name", "air_temperature");
        s.r->att("t2m", "units", "K");
    }
    CDMPressureConversions c(s.r, {"specific2relative"});
    FS_ASSERT(!c.getCDM().hasVariable("relative_humidity"), "no humidity without temperature");
    FS_ASSERT(c.getCDM().hasVariable("q") && c.getCDM().hasVariable("t2m") == t2m, "other variables stay");
    FS_ASSERT(throws([&] { CDMPressureConversions x(s.r, {"somethingelse"}); }), "unknown operations are rejected");
    rest(s, c);
}
FS_HARNESS(omega)
{
    fs_text_lossy(1);
    Setup s = setup();
    std::vector<double> v;
    int sym;
    const int u = fs_pick("undef", 0, 2);
    const bool hpa = fs_pick("hpa", 0, 1), opt = fs_thorough() ? fs_pick("options", 0, 1) : hpa;
    values("om", -4, 4, v, sym); // Pa/s
    DataPtr d = createData(CDM_DOUBLE, 8, 0.), dt = createData(CDM_DOUBLE, 8, 0.);
    for (int i = 0; i < 8; i++) {
        d->setValue(i, u == 1 && i == sym ? -9 : hpa ? v[i] * 0.01 : v[i]);
        dt->setValue(i, u == 2 && i == sym ? -999 : TEMP[i] - (hpa ? 273.15 : 0));
    }
    s.r->var("om", CDM_DOUBLE, s.shape, d);
    s.r->att("om", "units", hpa ? "hPa/s" : "Pa/s");
    s.r->att<double>("om", "_FillValue", -9);
    s.r->att("om", "coordinates", "lon lat");
    s.r->var("t", CDM_DOUBLE, s.shape, dt);
    s.r->att("t", "units", hpa ? "degC" : "K");
    s.r->att<double>("t", "_FillValue", -999);
    if (!opt) {
        s.r->att("om", "standard_name", "lagrangian_tendency_of_air_pressure");
        s.r->att("t", "standard_name", "air_temperature");
    }
    CDMPressureConversions c(s.r, {opt ? "omega2vwind;omega=om;air_temperature=t;upward_air_velocity=w" : "omega2vwind"});
    const std::string w = opt ? "w" : "upward_air_velocity";
    FS_ASSERT(!c.getCDM().hasVariable("om"), "omega is replaced");
    std::vector<double> g = read(s, c, w);
    FS_ASSERT(c.getCDM().getUnits(w) == "m/s", "unit of vertical wind");
    CDMAttribute a;
    FS_ASSERT(c.getCDM().getAttribute(w, "coordinates", a) && a.getStringValue() == "lon lat", "coordinates are carried over");
    for (size_t t = 0; t < 2; t++)
        for (size_t p = 0; p < 2; p++)
            for (size_t k = 0; k < 2; k++) {
                const size_t i = s.pos(t, p, k);
                if (u && (int)i == sym) {
                    FS_ASSERT(g[i] != g[i], "undefined stays undefined");
                } else
                    FS_ASSERT(fs_near(g[i], -v[i] * TEMP[i] * MIFI_GAS_CONSTANT / (MIFI_EARTH_GRAVITY * MIFI_MOLAR_MASS_DRY_AIR * s.pres[t][p][k] * 100), 0.0001), "vertical wind from omega");
            }
    auto o = s.r->getData("t")->asDouble();
    for (int i = 0; i < 8; i++)
        FS_ASSERT(o[i] == (u == 2 && i == sym ? -999 : TEMP[i] - (hpa ? 273.15 : 0)), "source is unchanged");
    rest(s, c);
}
FS_HARNESS(pressure4d)
{
    fs_text_lossy(1);
    Setup s = setup();
    s.r->var("v", CDM_DOUBLE, s.shape, std::vector<double>(8, 1));
    s.zfirst = false;
    s.shape = Names{"lon", "lat", "lev", "time"};
    const bool opt = fs_pick("options", 0, 1);
    // one symbolic surface pressure, where there is one
    double x = 0;
    int at = -1;
    double add = 0;
    if (s.r->cdm().hasVariable("ps")) {
        at = fs_pick("at", 0, 3);
        x = fs_real("ps", 900, 1000, 4);
        s.r->mem["ps"]->setValue(at, x);
    }
    CDMPressureConversions c(s.r, {opt ? "add4Dpressure;air_pressure4D=pp" : "add4Dpressure"});
    const std::string n = opt ? "pp" : "air_pressure4D";
    std::vector<double> g = read(s, c, n);
    FS_ASSERT(c.getCDM().getUnits(n) == "hPa", "unit of pressure");
    const bool sigma = s.r->cdm().hasVariable("ptop");
    for (size_t t = 0; t < 2; t++)
        for (size_t p = 0; p < 2; p++)
            for (size_t k = 0; k < 2; k++) {
                double e = s.pres[t][p][k];
                if (at == (int)(t * 2 + p)) {
                    const double S[2] = {0.5, 1}, A[2] = {100, 20};
                    e = sigma ? 50 + S[k] * (x - 50) : A[k] + S[k] * x;
                }
                FS_ASSERT(fs_near(g[s.pos(t, p, k)], e + add, 0.001), "pressure of the level, point and time");
            }
    rest(s, c);
}
