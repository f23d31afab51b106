/*FS {
 "quick_s": 70, "thorough_s": 500, "regex": true,
 "bounds": ["all 16 projections of CF known to fimex with all their parameters; each parameter absent or one of 7 values (integers, fractions, 12 digits, negative, above 180, thousands and millions for lengths); two parameters (thorough: three) vary at a time, the others are fixed", "earth as sphere, by two axes, by major axis and inverse flattening, by names of ellipsoids, with 3, 6 or 7 numbers of towgs84", "attributes as double, float, int or text lists; parameters of the text in two orders, with additional unknown parameters"],
 "outside": ["what the proj library computes from the text", "values are compared to 1e-12 of their size", "ellipsoids fimex does not know", "projections written as unknown_to_fgdc keep the text only"]
} */
#include "h.h"
#include "fimex/coordSys/Projection.h"
#include "fimex/MathUtils.h"
#include "fimex/StringUtils.h"
#include <cstring>
namespace {
struct P
{
    const char* cf;
    const char* key;
    int kind;      // 0 latitude, 1 longitude, 2 length, 3 factor, 4 text
    bool optional; // may be missing
};
struct K
{
    const char* name;
    const char* proj;
    bool degree;
    std::vector<P> p;
};
const std::vector<K>& kinds()
{
    static const std::vector<K> k = {
        {"albers_conical_equal_area", "aea", false, {{"longitude_of_central_meridian", "lon_0", 1, false}, {"latitude_of_projection_origin", "lat_0", 0, false}}},
        {"azimuthal_equidistant", "aeqd", false, {{"longitude_of_projection_origin", "lon_0", 1, false}, {"latitude_of_projection_origin", "lat_0", 0, false}}},
        {"geostationary", "geos", false, {{"longitude_of_projection_origin", "lon_0", 1, false}, {"latitude_of_projection_origin", "lat_0", 0, false}, {"perspective_point_height", "h", 2, false}, {"sweep_angle_axis", "sweep", 4, true}}},
        {"lambert_azimuthal_equal_area", "laea", false, {{"longitude_of_projection_origin", "lon_0", 1, false}, {"latitude_of_projection_origin", "lat_0", 0, false}}},
        {"lambert_conformal_conic", "lcc", false, {{"longitude_of_central_meridian", "lon_0", 1, false}, {"latitude_of_projection_origin", "lat_0", 0, false}}},
        {"lambert_cylindrical_equal_area", "cea", false, {{"longitude_of_central_meridian", "lon_0", 1, false}, {"standard_parallel", "lat_ts", 0, true}, {"scale_factor_at_projection_origin", "k", 3, true}}},
        {"latitude_longitude", "latlong", true, {}},
        {"mercator", "merc", false, {{"longitude_of_projection_origin", "lon_0", 1, false}, {"standard_parallel", "lat_ts", 0, true}, {"scale_factor_at_projection_origin", "k", 3, true}}},
        {"oblique_mercator", "omerc", false, {{"longitude_of_projection_origin", "lonc", 1, false}, {"latitude_of_projection_origin", "lat_0", 0, true}, {"azimuth_of_central_line", "alpha", 0, false}, {"gamma", "gamma", 0, false}, {"scale_factor_at_projection_origin", "k", 3, true}}},
        {"orthographic", "ortho", false, {{"longitude_of_projection_origin", "lon_0", 1, false}, {"latitude_of_projection_origin", "lat_0", 0, false}}},
        {"polar_stereographic", "stere", false, {{"straight_vertical_longitude_from_pole", "lon_0", 1, false}, {"latitude_of_projection_origin", "lat_0", 5, false}, {"standard_parallel", "lat_ts", 0, true}}},
        {"rotated_latitude_longitude", "ob_tran", true, {{"grid_north_pole_longitude", "lon_0", 6, false}, {"grid_north_pole_latitude", "o_lat_p", 0, false}, {"north_pole_grid_longitude", "o_lon_p", 1, true}}},
        {"sinusoidal", "sinu", false, {{"longitude_of_projection_origin", "lon_0", 1, false}}},
        {"stereographic", "stere", false, {{"longitude_of_projection_origin", "lon_0", 1, false}, {"latitude_of_projection_origin", "lat_0", 0, false}, {"scale_factor_at_projection_origin", "k", 3, true}}},
        {"transverse_mercator", "etmerc", false, {{"longitude_of_central_meridian", "lon_0", 1, false}, {"latitude_of_projection_origin", "lat_0", 0, true}, {"scale_factor_at_central_meridian", "k", 3, true}}},
        {"vertical_perspective", "nsper", false, {{"longitude_of_projection_origin", "lon_0", 1, false}, {"latitude_of_projection_origin", "lat_0", 0, false}, {"perspective_point_height", "h", 2, false}}},
    };
    return k;
}
const double values[4][7] = {{60, 0, -77.5, 63.312345678901, 12.25, -0.000123456789, 45}, {15, 0, -25.5, 10.123456789012, 335, -179.75, -0.25}, {35785831, 42164000, 1234.5, 8620000.123, 500000, 700001.0625, 1e7}, {0.9996, 1, 0.99984123456789, 1.0001, 0.5, 2, 0.75}};
double val(const P& p, int64_t i)
{
    if (p.kind == 5)
        return i % 2 ? -90 : 90;
    if (p.kind == 6)
        return values[1][i];
    return values[p.kind][i];
}
/* the parameters of a projection text, by name */
std::map<std::string, std::string> split(const std::string& s)
{
    std::map<std::string, std::string> m;
    size_t i = 0;
    while (i < s.size()) {
        size_t e = s.find(' ', i);
        if (e == std::string::npos)
            e = s.size();
        std::string t = s.substr(i, e - i);
        i = e + 1;
        if (t.empty())
            continue;
        FS_ASSERT(t[0] == '+', "parameter of a projection text starts with plus");
        size_t q = t.find('=');
        std::string key = t.substr(1, (q == std::string::npos ? t.size() : q) - 1);
        if (key == "k_0")
            key = "k";
        if (key == "R") {
            m["e"] = "0";
            key = "a";
        }
        if (key == "proj" && t.substr(q + 1) == "longlat")
            t = "+proj=latlong";
        FS_ASSERT(m.count(key) == 0 || key == "e", "parameter given once in a projection text");
        m[key] = q == std::string::npos ? "" : t.substr(q + 1);
    }
    return m;
}
bool close(double a, double b) { return std::abs(a - b) <= 1e-12 * std::max(1., std::abs(b)); }
bool lonClose(double a, double b)
{
    double d = std::fmod(a - b, 360);
    return std::abs(d) < 1e-9 || std::abs(std::abs(d) - 360) < 1e-9;
}
std::string num(double v)
{
    char b[64];
    snprintf(b, sizeof b, "%.17g", v);
    return b;
}
bool valueOf(const std::map<std::string, std::string>& m, const std::string& k, double v)
{
    auto it = m.find(k);
    return it != m.end() && close(strtod(it->second.c_str(), 0), v);
}
const CDMAttribute* attr(const std::vector<CDMAttribute>& as, const std::string& n)
{
    for (auto& a : as)
        if (a.getName() == n)
            return &a;
    return 0;
}
bool attrIs(const std::vector<CDMAttribute>& as, const std::string& n, double v, bool lon = false)
{
    const CDMAttribute* a = attr(as, n);
    return a && a->getData()->size() == 1 && (lon ? lonClose(a->getData()->asDouble()[0], v) : close(a->getData()->asDouble()[0], v));
}
CDMAttribute number(const char* n, double v, int type)
{
    if (type == 1 && (double)(float)v == v)
        return CDMAttribute(n, (float)v);
    if (type == 2 && std::floor(v) == v)
        return CDMAttribute(n, (int)v);
    return CDMAttribute(n, v);
}
/* figures of the earth: cf attributes and text; kind 0: none */
struct Earth
{
    double radius = 0, a = 0, b = 0, rf = 0;
};
void addEarth(Earth e, std::vector<CDMAttribute>& as, std::string& t)
{
    if (e.radius) {
        as.push_back(CDMAttribute("earth_radius", e.radius));
        t += " +a=" + num(e.radius) + " +e=0";
    }
    if (e.a) {
        as.push_back(CDMAttribute("semi_major_axis", e.a));
        t += " +a=" + num(e.a);
    }
    if (e.b) {
        as.push_back(CDMAttribute("semi_minor_axis", e.b));
        t += " +b=" + num(e.b);
    }
    if (e.rf) {
        as.push_back(CDMAttribute("inverse_flattening", e.rf));
        t += " +rf=" + num(e.rf);
    }
}
Earth earth(int64_t i)
{
    Earth e;
    switch (i) {
    case 1: e.radius = 6371229; break;
    case 2: e.a = 6378137; e.b = 6356752.3142; break;
    case 3: e.a = 6378137; e.rf = 298.257223563; break;
    case 4: e.radius = 6367470.21484375; break;
    }
    return e;
}
/* half axes of a text or of attributes; minor is 0 for a missing earth */
void axesOf(const std::map<std::string, std::string>& m, double& major, double& minor)
{
    auto g = [&](const char* k, double d) { auto it = m.find(k); return it == m.end() ? d : strtod(it->second.c_str(), 0); };
    major = g("a", 0);
    minor = major;
    if (m.count("b"))
        minor = g("b", 0);
    else if (m.count("rf"))
        minor = major * (1 - 1 / g("rf", 1));
    else if (m.count("e"))
        minor = major * std::sqrt(1 - g("e", 0) * g("e", 0));
}
void axesOf(const std::vector<CDMAttribute>& as, double& major, double& minor)
{
    auto g = [&](const char* k) { const CDMAttribute* a = attr(as, k); return a ? a->getData()->asDouble()[0] : 0; };
    if (attr(as, "earth_radius")) {
        FS_ASSERT(!attr(as, "semi_major_axis") && !attr(as, "semi_minor_axis") && !attr(as, "inverse_flattening"), "one figure of the earth");
        major = minor = g("earth_radius");
        return;
    }
    major = minor = g("semi_major_axis");
    if (attr(as, "semi_minor_axis"))
        minor = g("semi_minor_axis");
    else if (attr(as, "inverse_flattening"))
        minor = major * (1 - 1 / g("inverse_flattening"));
}
void axesOf(const Earth& e, double& major, double& minor)
{
    major = minor = e.radius ? e.radius : e.a ? e.a : 6371000;
    if (e.b)
        minor = e.b;
    if (e.rf)
        minor = major * (1 - 1 / e.rf);
}
void checkText(const std::string& t, const K& k, const std::vector<std::pair<P, double>>& ps, const std::vector<double>& par, const Earth& e, const char* sweep)
{
    std::map<std::string, std::string> m = split(t);
    if (k.proj == std::string("etmerc"))
        FS_ASSERT(m["proj"] == "etmerc" || m["proj"] == "tmerc", "name of the projection in the text");
    else
        FS_ASSERT(m["proj"] == k.proj, "name of the projection in the text");
    if (k.proj == std::string("ob_tran"))
        FS_ASSERT(m["o_proj"] == "longlat" || m["o_proj"] == "latlong", "rotated projection in the text");
    for (auto& p : ps) {
        double v = p.second;
        if (p.first.kind == 6) {
            FS_ASSERT(m.count("lon_0") && lonClose(strtod(m["lon_0"].c_str(), 0), v - 180), "rotation in the text");
        } else {
            FS_ASSERT(valueOf(m, p.first.key, v) || (p.first.optional && v == (p.first.kind == 3) && !m.count(p.first.key)), "parameter in the text");
        }
    }
    for (auto& p : k.p) {
        bool given = false;
        for (auto& q : ps)
            given |= !strcmp(q.first.key, p.key);
        if (p.kind == 4)
            FS_ASSERT((m.count(p.key) ? m[p.key] : std::string("y")) == (*sweep ? sweep : "y"), "text parameter");
        else if (!given)
            FS_ASSERT(m.count(p.key) == 0 || (p.kind == 3 ? valueOf(m, p.key, 1) : valueOf(m, p.key, 0)), "parameter not given");
    }
    if (!par.empty()) {
        FS_ASSERT(valueOf(m, "lat_1", par[0]), "first parallel in the text");
        FS_ASSERT(valueOf(m, "lat_2", par.back()), "second parallel in the text");
    }
    double a, b, ea, eb;
    axesOf(m, a, b);
    axesOf(e, ea, eb);
    FS_ASSERT(close(a, ea), "major axis of the earth in the text");
    FS_ASSERT(std::abs(b - eb) < 1e-6, "minor axis of the earth in the text");
}
void checkAttrs(const std::vector<CDMAttribute>& as, const K& k, const std::vector<std::pair<P, double>>& ps, const std::vector<double>& par, const Earth& e, const char* sweep)
{
    const CDMAttribute* n = attr(as, "grid_mapping_name");
    FS_ASSERT(n && n->getStringValue() == k.name, "name of the projection");
    for (auto& p : ps)
        FS_ASSERT(attrIs(as, p.first.cf, p.second, p.first.kind == 6) || (p.first.optional && p.second == (p.first.kind == 3) && !attr(as, p.first.cf)), "parameter as attribute");
    for (auto& p : k.p) {
        bool given = false;
        for (auto& q : ps)
            given |= !strcmp(q.first.cf, p.cf);
        if (p.kind == 4) {
            const CDMAttribute* a = attr(as, p.cf);
            FS_ASSERT((a ? a->getStringValue() : std::string("y")) == (*sweep ? sweep : "y"), "text attribute");
        } else if (!given)
            FS_ASSERT(!attr(as, p.cf) || attrIs(as, p.cf, p.kind == 3 ? 1 : 0), "attribute not given");
    }
    if (!par.empty()) {
        const CDMAttribute* a = attr(as, "standard_parallel");
        FS_ASSERT(a, "standard parallels");
        if (a) {
            auto d = a->getData()->asDouble();
            size_t s = a->getData()->size();
            FS_ASSERT(s == 1 || s == 2, "number of standard parallels");
            FS_ASSERT(close(d[0], par[0]), "first standard parallel");
            FS_ASSERT(close(d[s - 1], par.back()), "second standard parallel");
        }
    }
    double a, b, ea, eb;
    axesOf(as, a, b);
    axesOf(e, ea, eb);
    FS_ASSERT(close(a, ea), "major axis of the earth");
    FS_ASSERT(std::abs(b - eb) < 1e-6, "minor axis of the earth");
}
void run(int what)
{
    const K& k = kinds()[fs_pick("projection", 0, (int)kinds().size() - 1)];
    const bool conic = k.proj == std::string("lcc") || k.proj == std::string("aea");
    const int np = (int)k.p.size() + (conic ? 1 : 0) + 2; // with standard parallels, offsets and earth
    // which parameters vary
    const int v1 = (int)fs_pick("vary1", 0, np - 1), v2 = fs_thorough() ? (int)fs_pick("vary2", 0, np - 1) : (v1 + 1) % np;
    auto choice = [&](int i, int hi, int dflt) {
        const bool var = i == v1 || i == v2;
        return var ? (int)fs_pick("c" + std::to_string(i), 0, hi) : dflt;
    };
    std::vector<std::pair<P, double>> ps;
    std::vector<double> par;
    const char* sweep = "";
    int i = 0;
    const int type = (v1 + np) % 3;
    for (auto& p : k.p) {
        const int hi = fs_thorough() ? 6 : 3;
        if (p.kind == 4) {
            static const char* sw[3] = {"", "x", "y"};
            sweep = sw[choice(i++, 2, 0)];
            continue;
        }
        int c = choice(i++, p.optional ? hi + 1 : hi, 0);
        if (p.optional && c == 0)
            continue;
        double v = val(p, p.optional ? c - 1 : c);
        if (!strcmp(p.key, "lat_0") && k.name == std::string("stereographic") && std::abs(v) == 90)
            continue;
        ps.push_back(std::make_pair(p, v));
    }
    if (conic) {
        int c = choice(i++, 3, 2);
        par.push_back(c == 1 ? 63.312345678901 : 30);
        if (c >= 2)
            par.push_back(c == 2 ? 60 : 47.123456789);
    }
    const int off = choice(i++, 2, 0);
    Earth e = earth(choice(i++, 4, 1));
    if (k.name == std::string("mercator") || k.name == std::string("lambert_cylindrical_equal_area")) {
        bool ts = false, kk = false;
        for (auto& p : ps) {
            ts |= !strcmp(p.first.key, "lat_ts");
            kk |= !strcmp(p.first.key, "k");
        }
        FS_ASSUME(!(ts && kk)); // exclusive in CF
    }
    std::vector<CDMAttribute> as;
    std::string text = std::string("+proj=") + (k.name == std::string("transverse_mercator") && v1 % 2 ? "tmerc" : k.proj);
    if (k.proj == std::string("ob_tran"))
        text += v1 % 2 ? " +o_proj=longlat" : " +o_proj=latlong";
    as.push_back(CDMAttribute("grid_mapping_name", k.name));
    for (auto& p : ps) {
        as.push_back(number(p.first.cf, p.second, type));
        text += std::string(" +") + p.first.key + (p.first.kind == 3 && v1 % 2 ? "_0" : "") + "=" + num(p.first.kind == 6 ? p.second - 180 : p.second);
    }
    if (*sweep) {
        as.push_back(CDMAttribute("sweep_angle_axis", sweep));
        text += std::string(" +sweep=") + sweep;
    }
    if (!par.empty()) {
        DataPtr d = createData(type == 1 && par.back() == 60 ? CDM_FLOAT : CDM_DOUBLE, par.size(), 0.);
        for (size_t j = 0; j < par.size(); j++)
            d->setValue(j, par[j]);
        as.push_back(CDMAttribute("standard_parallel", d));
        text += " +lat_1=" + num(par[0]) + " +lat_2=" + num(par.back());
    }
    P fe{"false_easting", "x_0", 2, true}, fn{"false_northing", "y_0", 2, true};
    if (off) {
        ps.push_back(std::make_pair(fe, off == 1 ? 500000 : -1234567.890625));
        ps.push_back(std::make_pair(fn, off == 1 ? -3.5 : 7000000.25));
        for (size_t j = ps.size() - 2; j < ps.size(); j++) {
            as.push_back(number(ps[j].first.cf, ps[j].second, type));
            text += std::string(" +") + ps[j].first.key + "=" + num(ps[j].second);
        }
    }
    addEarth(e, as, text);
    text += v1 % 2 ? " +no_defs" : " +units=m +type=crs";
    Projection_p p = what == 0 ? Projection::create(as) : Projection::createByProj4(text);
    FS_ASSERT(p->getName() == k.name, "kind of projection");
    FS_ASSERT(p->isDegree() == k.degree, "unit of the projection axes");
    checkAttrs(p->getParameters(), k, ps, par, e, sweep);
    const std::string t = p->getProj4String();
    checkText(t, k, ps, par, e, sweep);
    Projection_p q = Projection::createByProj4(t), r = Projection::create(p->getParameters());
    FS_ASSERT(q->getName() == k.name, "kind of projection from its text");
    checkAttrs(q->getParameters(), k, ps, par, e, sweep);
    FS_ASSERT(r->getProj4String() == t, "same text from the same attributes");
    FS_ASSERT(*r == *p, "same projection from the same attributes");
    FS_REACH("projected");
}
} // namespace
FS_HARNESS(attributes) { run(0); }
FS_HARNESS(text) { run(1); }
/* named ellipsoids, towgs84, utm zones and texts with missing parameters */
FS_HARNESS(special)
{
    switch (fs_pick("case", 0, 6)) {
    case 0: { // ellipsoids
        static const struct { const char* n; double a, b; } el[] = {{"WGS84", 6378137, 6356752.314245}, {"GRS80", 6378137, 6356752.314140}, {"WGS72", 6378135, 6356750.520016}, {"intl", 6378388, 6356911.946128}, {"bessel", 6377397.155, 6356078.962818}};
        const int i = (int)fs_pick("ellps", 0, 4);
        const char* key = i == 0 && fs_pick("datum", 0, 1) ? "datum" : "ellps";
        const bool stere = fs_pick("stere", 0, 1);
        Projection_p p = Projection::createByProj4(std::string(stere ? "+proj=stere +lat_0=90 +lon_0=70 +lat_ts=60 +" : "+proj=longlat +") + key + "=" + el[i].n + " +no_defs");
        double a, b;
        axesOf(p->getParameters(), a, b);
        FS_ASSERT(a == el[i].a, "major axis of an ellipsoid");
        FS_ASSERT(std::abs(b - el[i].b) < 3, "minor axis of an ellipsoid");
        axesOf(split(p->getProj4String()), a, b);
        FS_ASSERT(a == el[i].a, "major axis of an ellipsoid in the text");
        FS_ASSERT(std::abs(b - el[i].b) < 3, "minor axis of an ellipsoid in the text");
        axesOf(Projection::createByProj4(p->getProj4String())->getParameters(), a, b);
        FS_ASSERT(std::abs(b - el[i].b) < 3, "minor axis of an ellipsoid after writing");
        break;
    }
    case 1: { // towgs84
        static const int n[3] = {3, 6, 7};
        const int c = n[fs_pick("n", 0, 2)];
        std::string s = "+proj=longlat +a=6378137 +b=6356752.3142 +towgs84=";
        std::vector<double> v;
        const int frac = (int)fs_pick("frac", 0, 2);
        for (int i = 0; i < c; i++) {
            v.push_back(i == frac ? 5.125 : i * -10.);
            s += (i ? "," : "") + num(v[i]);
        }
        Projection_p p = Projection::createByProj4(s + " +no_defs");
        for (int k = 0; k < 2; k++) {
            const std::vector<CDMAttribute> as = p->getParameters();
            const CDMAttribute* a = attr(as, "towgs84");
            FS_ASSERT(a && (int)a->getData()->size() == c, "number of towgs84 parameters");
            if (a && (int)a->getData()->size() == c)
                for (int i = 0; i < c; i++)
                    FS_ASSERT(a->getData()->asDouble()[i] == v[i], "towgs84 parameter");
            p = Projection::createByProj4(p->getProj4String());
        }
        break;
    }
    case 2: { // utm
        const int z = (int)fs_pick("zone", 1, 60);
        const bool south = fs_pick("south", 0, 1);
        Projection_p p = Projection::createByProj4("+proj=utm +zone=" + std::to_string(z) + (south ? " +south" : "") + " +ellps=WGS84");
        FS_ASSERT(attrIs(p->getParameters(), "longitude_of_central_meridian", z * 6 - 183), "central meridian of a zone");
        FS_ASSERT(attrIs(p->getParameters(), "scale_factor_at_central_meridian", 0.9996), "scale of a zone");
        FS_ASSERT(attrIs(p->getParameters(), "false_easting", 500000), "offset of a zone");
        const std::vector<CDMAttribute> as = p->getParameters();
        FS_ASSERT(south ? attrIs(as, "false_northing", 10000000) : !attr(as, "false_northing") || attrIs(as, "false_northing", 0), "southern zone");
        break;
    }
    case 3: { // utm with meridian
        const double lon = values[1][fs_pick("lon", 0, 6)];
        Projection_p p = Projection::createByProj4("+proj=utm +lon_0=" + num(lon) + " +ellps=WGS84");
        FS_ASSERT(attrIs(p->getParameters(), "longitude_of_central_meridian", lon), "central meridian");
        break;
    }
    case 4: { // defaults
        Projection_p p = Projection::createByProj4(std::string("+proj=stere +lat_ts=60 +lat_0=") + (fs_pick("south", 0, 1) ? "-90" : "90") + " +a=6371000 +e=0");
        FS_ASSERT(attrIs(p->getParameters(), "straight_vertical_longitude_from_pole", 0), "longitude not given");
        break;
    }
    case 5: { // eccentricity
        Projection_p p = Projection::createByProj4("+proj=lcc +lat_1=30 +lat_2=60 +lon_0=1 +a=6378137 +e=0.0818191908426");
        double a, b;
        axesOf(p->getParameters(), a, b);
        FS_ASSERT(a == 6378137, "major axis");
        FS_ASSERT(std::abs(b - 6356752.3142) < 0.001, "minor axis by eccentricity");
        break;
    }
    case 6: { // unknown projections keep their text
        const std::string t = "+proj=robin +lon_0=" + num(values[1][fs_pick("lon", 0, 6)]) + " +a=6371000";
        Projection_p p = Projection::createByProj4(t);
        FS_ASSERT(p->getName() == "unknown_to_fgdc", "unknown projection");
        FS_ASSERT(p->getProj4String() == t, "text of an unknown projection");
        FS_ASSERT(Projection::create(p->getParameters())->getProj4String() == t, "text of an unknown projection kept in attributes");
        break;
    }
    }
    FS_REACH("special");
}
/* attributes added later replace those before */
FS_HARNESS(change)
{
    Projection_p p = Projection::createByProj4("+proj=stere +lat_0=90 +lon_0=10 +lat_ts=60 +a=6371000 +e=0");
    Earth e;
    for (int i = 0; i < 3; i++) {
        int c = (int)fs_pick("change" + std::to_string(i), 0, 3);
        switch (c) {
        case 0: p->addParameter(CDMAttribute("earth_radius", 6367470. + i)); e = Earth(); e.radius = 6367470. + i; break;
        case 1: p->addParameter(CDMAttribute("semi_major_axis", 6378137. + i)); e.radius = 0; e.a = 6378137. + i; break;
        case 2:
            p->addParameter(CDMAttribute("semi_major_axis", 6378137. + i));
            p->addParameter(CDMAttribute("semi_minor_axis", 6356752. + i));
            e = Earth();
            e.a = 6378137. + i;
            e.b = 6356752. + i;
            break;
        case 3: p->addParameter(CDMAttribute("straight_vertical_longitude_from_pole", 20. + i)); break;
        }
        if (c == 3)
            FS_ASSERT(valueOf(split(p->getProj4String()), "lon_0", 20. + i), "changed parameter");
    }
    double a, b, ea, eb;
    axesOf(p->getParameters(), a, b);
    axesOf(e, ea, eb);
    FS_ASSERT(a == ea, "major axis after changes");
    FS_ASSERT(b == eb, "minor axis after changes");
    FS_ASSERT(throws([&]() { p->addParameter(CDMAttribute("grid_mapping_name", "mercator")); }), "kind of projection cannot be changed");
    FS_REACH("changed");
}
/* another figure of the earth in a projection text */
FS_HARNESS(figure)
{
    static const char* parts[9] = {"+proj=stere", "+lat_0=90", "+rf=298.25", "+a=6371000", "+b=6356752", "+R=6371000", "+ellps=WGS84", "+datum=WGS84", "+e=0"};
    std::string t;
    std::vector<std::string> keep;
    int n = (int)fs_pick("n", 0, 3);
    for (int i = 0; i < n; i++) {
        int k = (int)fs_pick("p" + std::to_string(i), 0, 8);
        t += std::string(i ? " " : "") + parts[k];
        if (k < 2)
            keep.push_back(parts[k]);
    }
    const bool none = fs_pick("none", 0, 1);
    const std::string f = none ? "" : "+ellps=bessel";
    std::string r = replaceProj4Earthfigure(t, f), e;
    if (none)
        e = t;
    else {
        for (auto& k : keep)
            e += k + " ";
        e += f;
    }
    FS_ASSERT(r == e, "text with another figure of the earth");
    FS_REACH("figure");
}
