/*FS {
 "quick_s": 80, "thorough_s": 500, "regex": true,
 "bounds": ["axis kinds: 60 combinations of CF attributes (standard name, units, positive, axis) in any letter case of the first 3 letters, with and without further attributes", "coordinate systems: two variables with any of 6 shapes out of 4 dimensions (with or without coordinate variable) and 4 lists of auxiliary coordinates, with or without grid mapping", "vertical coordinates: 11 kinds with terms in 3 spellings, terms complete, missing, or depending on another dimension; dimension lengths 1..3", "slices by axis kind: two successive changes (thorough 3), lengths 1..3, arbitrary positions and sizes; time along one or two dimensions", "levels: 4 kinds of pressure levels with arbitrary surface and top pressure, in Pa and hPa", "wind pairs: 6 pairs of standard names, two variables each, equal or different shape", "WRF: 1..3 times of any hour, grids of 2..3 cells"],
 "outside": ["two axes of the same kind among the dimensions of one variable (refused by fimex) and auxiliary coordinates of a kind already present", "different grid mappings of variables with the same axes", "the unit library"]
} */
#include "h.h"
#include "fimex/CoordinateSystemSliceBuilder.h"
#include "fimex/coordSys/CoordinateSystem.h"
#include "fimex/coordSys/Projection.h"
#include "fimex/coordSys/verticalTransform/AtmosphereHybridHeight.h"
#include "fimex/coordSys/verticalTransform/AtmosphereSigma.h"
#include "fimex/coordSys/verticalTransform/Height.h"
#include "fimex/coordSys/verticalTransform/HybridSigmaPressure1.h"
#include "fimex/coordSys/verticalTransform/HybridSigmaPressure2.h"
#include "fimex/coordSys/verticalTransform/LnPressure.h"
#include "fimex/coordSys/verticalTransform/OceanSG1.h"
#include "fimex/coordSys/verticalTransform/OceanSG2.h"
#include <algorithm>
#include <cstring>
#include "fimex/mifi_constants.h"
#include "fimex/reproject.h"
namespace {
typedef CoordinateAxis CA;
typedef std::set<std::string> Set;
struct Rule
{
    const char *sn, *units, *positive, *axis;
    CA::AxisType t;
};
const Rule rules[] = {
    {"longitude", "degree", 0, 0, CA::Lon}, {"latitude", "degree", 0, 0, CA::Lat}, {"forecast_reference_time", "hours since 2000-01-01 00:00:00", 0, 0, CA::ReferenceTime},
    {"realization", "1", 0, 0, CA::Realization}, {"projection_x_coordinate", "m", 0, 0, CA::GeoX}, {"grid_longitude", "degree", 0, 0, CA::GeoX}, {"projection_y_coordinate", "km", 0, 0, CA::GeoY},
    {"grid_latitude", "degrees", 0, 0, CA::GeoY}, {"projection_x_coordinate", 0, 0, 0, CA::GeoX}, {"projection_y_coordinate", 0, 0, "Y", CA::GeoY},
    {"atmosphere_sigma_coordinate", 0, 0, 0, CA::GeoZ}, {"atmosphere_hybrid_sigma_pressure_coordinate", "1", "down", 0, CA::GeoZ}, {"atmosphere_hybrid_height_coordinate", "m", "up", 0, CA::GeoZ},
    {"atmosphere_sleve_coordinate", "1", 0, 0, CA::GeoZ}, {"atmosphere_ln_pressure_coordinate", "1", 0, 0, CA::GeoZ}, {"ocean_sigma_coordinate", 0, 0, 0, CA::GeoZ}, {"ocean_s_coordinate", 0, 0, 0, CA::GeoZ}, {"ocean_sigma_z_coordinate", 0, 0, 0, CA::GeoZ},
    {"ocean_double_sigma_coordinate", 0, 0, 0, CA::GeoZ}, {"ocean_s_coordinate_g1", "1", 0, "Z", CA::GeoZ}, {"ocean_s_coordinate_g2", "1", "up", 0, CA::GeoZ},
    {0, "degrees_east", 0, 0, CA::Lon}, {0, "degree_east", 0, 0, CA::Lon}, {0, "degree_E", 0, 0, CA::Lon}, {0, "degrees_E", 0, 0, CA::Lon}, {0, "degreeE", 0, 0, CA::Lon}, {0, "degreesE", 0, "X", CA::Lon},
    {0, "degrees_north", 0, 0, CA::Lat}, {0, "degree_north", 0, 0, CA::Lat}, {0, "degree_N", 0, 0, CA::Lat}, {0, "degrees_N", 0, 0, CA::Lat}, {0, "degreeN", 0, 0, CA::Lat}, {"air_temperature", "degreesN", 0, 0, CA::Lat},
    {0, "hours since 2000-01-01 00:00:00", 0, 0, CA::Time}, {"time", "seconds since 1970-01-01 00:00:00 +00:00", 0, "T", CA::Time}, {0, "days since 1900-01-01", 0, 0, CA::Time},
    {0, "hPa", 0, 0, CA::Pressure}, {0, "Pa", "down", 0, CA::Pressure}, {"air_pressure", "mbar", 0, "Z", CA::Pressure}, {0, "bar", 0, 0, CA::Pressure},
    {0, "level", 0, 0, CA::GeoZ}, {0, "layer", 0, 0, CA::GeoZ}, {0, "sigma_level", 0, 0, CA::GeoZ},
    {0, "m", "up", 0, CA::Height}, {"height", "km", "up", "Z", CA::Height}, {"depth", "m", "down", 0, CA::Depth}, {0, "cm", "down", "Z", CA::Depth}, {0, 0, "up", 0, CA::GeoZ}, {0, "1", "down", 0, CA::GeoZ}, {0, "K", "up", 0, CA::GeoZ},
    {0, 0, 0, "X", CA::GeoX}, {0, "m", 0, "y", CA::GeoY}, {0, 0, 0, "z", CA::GeoZ}, {0, "m", 0, "Z", CA::Height}, {0, "K", 0, "Z", CA::GeoZ}, {0, 0, 0, "T", CA::Time},
    {0, 0, 0, 0, CA::Undefined}, {0, "m", 0, 0, CA::Undefined}, {"air_temperature", "K", 0, 0, CA::Undefined}, {0, "1", 0, "w", CA::Undefined}};
const int nRules = sizeof(rules) / sizeof(rules[0]);
Set names(const CoordinateAxis_cp_v& v)
{
    Set s;
    for (auto& a : v)
        s.insert(a->getName());
    return s;
}
Set words(const std::string& s)
{
    Set r;
    size_t i = 0;
    while (i < s.size()) {
        size_t e = s.find(' ', i);
        if (e == std::string::npos)
            e = s.size();
        if (e > i)
            r.insert(s.substr(i, e - i));
        i = e + 1;
    }
    return r;
}
bool subset(const Set& a, const Set& b) { return std::includes(b.begin(), b.end(), a.begin(), a.end()); }
std::string nameOf(CoordinateAxis_cp a) { return a ? a->getName() : std::string(); }
} // namespace
FS_HARNESS(kinds)
{
    const Rule& r = rules[fs_pick("rule", 0, nRules - 1)];
    const int up = (int)fs_pick("upper", 0, 3); // letters in upper case
    MemReader_p m = memReader();
    m->dim("d", 2);
    m->var("d", CDM_DOUBLE, {"d"}, {1, 2});
    m->var("v", CDM_INT, {"d"}, {1, 2});
    if (up)
        m->att("d", "long_name", "longitude");
    if (r.sn) {
        std::string s = r.sn;
        for (int i = 0; i < up; i++)
            s[i] = toupper(s[i]);
        m->att("d", "standard_name", s);
    }
    if (r.units) {
        std::string s = r.units;
        if (s.substr(0, 3) == "deg" || s == "level" || s == "layer")
            for (int i = 0; i < up && s.size() > 6; i++)
                s[i] = toupper(s[i]);
        m->att("d", "units", s);
    }
    if (r.positive)
        m->att("d", "positive", r.positive);
    if (r.axis)
        m->att("d", "axis", r.axis);
    const int conv = (int)fs_pick("conventions", 0, 2);
    if (conv)
        m->att(m->cdm().globalAttributeNS(), conv == 1 ? "Conventions" : "conventions", conv == 1 ? "CF-1.6, ACDD" : "COARDS");
    CoordinateSystem_cp_v css = listCoordinateSystems(m);
    FS_ASSERT(css.size() == 1, "one coordinate system");
    if (css.size() != 1)
        return;
    CoordinateAxis_cp_v axes = css[0]->getAxes();
    FS_ASSERT(axes.size() == 1 && axes[0]->getName() == "d", "one axis");
    FS_ASSERT(axes[0]->getAxisType() == r.t, "kind of the axis");
    FS_ASSERT(axes[0]->isExplicit(), "axis is a dimension");
    for (int t = 0; t <= CA::Realization; t++) {
        FS_ASSERT(css[0]->hasAxisType((CA::AxisType)t) == (t == r.t), "axis of a kind");
        FS_ASSERT(nameOf(css[0]->findAxisOfType((CA::AxisType)t)) == (t == r.t ? "d" : ""), "finding an axis by its kind");
    }
    FS_ASSERT(nameOf(css[0]->getGeoXAxis()) == (r.t == CA::GeoX || r.t == CA::Lon ? "d" : ""), "x axis");
    FS_ASSERT(nameOf(css[0]->getGeoYAxis()) == (r.t == CA::GeoY || r.t == CA::Lat ? "d" : ""), "y axis");
    FS_ASSERT(nameOf(css[0]->getGeoZAxis()) == (r.t == CA::GeoZ || r.t == CA::Height || r.t == CA::Depth || r.t == CA::Pressure ? "d" : ""), "z axis");
    FS_ASSERT(nameOf(css[0]->getTimeAxis()) == (r.t == CA::Time ? "d" : ""), "time axis");
    FS_REACH("kind");
}
namespace {
const std::vector<Names> shapes = {{"x", "y"}, {"x", "y", "t"}, {"x", "y", "k", "t"}, {"t"}, {"k", "t"}, {}};
const char* coords[4] = {"", "lon lat", " lon  lat ref", "ref"};
struct DS
{
    MemReader_p m;
    std::map<std::string, Set> axes; // of the variables that are no axes
    std::map<std::string, Set> all;  // of all variables
};
DS dataset(const int* shape, const int* co, bool kvar, bool latlon, const int* gm)
{
    DS d;
    MemReader_p m = d.m = memReader();
    m->dim("x", 2);
    m->dim("y", 3);
    m->dim("k", 2);
    m->dim("t", 2, true);
    m->var("x", CDM_DOUBLE, {"x"}, {1, 2});
    m->var("y", CDM_DOUBLE, {"y"}, {1, 2, 3});
    m->var("t", CDM_DOUBLE, {"t"}, {1, 2});
    m->att("x", latlon ? "units" : "standard_name", latlon ? "degrees_east" : "projection_x_coordinate");
    m->att("y", latlon ? "units" : "standard_name", latlon ? "degrees_north" : "projection_y_coordinate");
    m->att("t", "units", "hours since 2000-01-01 00:00:00");
    if (kvar) {
        m->var("k", CDM_DOUBLE, {"k"}, {1, 2});
        m->att("k", "units", "hPa");
    }
    if (!latlon) {
        m->var("lon", CDM_DOUBLE, {"x", "y"}, {1, 2, 3, 4, 5, 6});
        m->var("lat", CDM_DOUBLE, {"x", "y"}, {1, 2, 3, 4, 5, 6});
        m->att("lon", "units", "degrees_east");
        m->att("lat", "units", "degrees_north");
    }
    m->var("ref", CDM_DOUBLE, Names{}, std::vector<double>{0});
    m->att("ref", "standard_name", "forecast_reference_time");
    m->var("proj", CDM_INT, Names{}, std::vector<double>{0});
    m->att("proj", "grid_mapping_name", "polar_stereographic");
    m->att("proj", "straight_vertical_longitude_from_pole", 10.);
    m->att("proj", "latitude_of_projection_origin", 90.);
    m->var("proj2", CDM_INT, Names{}, std::vector<double>{0});
    m->att("proj2", "grid_mapping_name", "mercator");
    Set axisNames = {"x", "y", "k", "t"};
    for (int i = 0; i < 2; i++) {
        const std::string n(1, 'a' + i);
        m->var(n, CDM_INT, shapes[shape[i]]);
        if (*coords[co[i]]) {
            m->att(n, "coordinates", coords[co[i]]);
            for (auto& w : words(coords[co[i]]))
                axisNames.insert(w);
        }
        if (gm[i])
            m->att(n, "grid_mapping", gm[i] == 1 ? "proj" : gm[i] == 2 ? "proj2" : "missing");
    }
    for (auto& v : m->cdm().getVariables()) {
        Set s(v.getShape().begin(), v.getShape().end());
        CDMAttribute a;
        if (m->cdm().getAttribute(v.getName(), "coordinates", a))
            for (auto& w : words(a.getStringValue()))
                s.insert(w);
        d.all[v.getName()] = s;
        if (!axisNames.count(v.getName()) && !s.empty())
            d.axes[v.getName()] = s;
    }
    return d;
}
} // namespace
FS_HARNESS(systems)
{
    int shape[2], co[2], gm[2] = {0, 0};
    for (int i = 0; i < 2; i++) {
        shape[i] = (int)fs_pick("shape" + std::to_string(i), 0, 5);
        co[i] = (int)fs_pick("coords" + std::to_string(i), 0, 3);
    }
    const bool kvar = (shape[0] + co[1]) % 2, latlon = fs_thorough() ? fs_pick("latlon", 0, 1) : (shape[1] + co[0] / 2) % 2;
    FS_ASSUME(!latlon || ((co[0] == 0 || co[0] == 3) && (co[1] == 0 || co[1] == 3)));
    gm[0] = (shape[0] + co[0] + shape[1]) % 3;
    gm[1] = shape[0] == shape[1] && co[0] == co[1] ? gm[0] : (gm[0] + co[1]) % 3;
    if (gm[1] == 2)
        gm[1] = co[0] % 2 ? 2 : 3;
    if (shape[0] == shape[1] && co[0] == co[1])
        gm[1] = gm[0];
    DS d = dataset(shape, co, kvar, latlon, gm);
    CoordinateSystem_cp_v css = listCoordinateSystems(d.m);
    std::set<Set> distinct;
    for (auto& v : d.axes)
        distinct.insert(v.second);
    FS_ASSERT(css.size() == distinct.size(), "one coordinate system for each combination of axes");
    std::set<Set> found;
    for (auto& cs : css) {
        const Set s = names(cs->getAxes());
        FS_ASSERT(distinct.count(s) == 1, "coordinate system of a variable");
        found.insert(s);
        for (auto& v : d.all) {
            FS_ASSERT(cs->isComplete(v.first) == subset(s, v.second), "all axes of the system belong to the variable");
            FS_ASSERT(cs->isCSFor(v.first) == subset(v.second, s), "all dimensions of the variable belong to the system");
            FS_ASSERT(cs->isCSAndCompleteFor(v.first) == (s == v.second), "system of the variable");
        }
        for (auto& a : cs->getAxes()) {
            const bool dim = d.m->cdm().hasDimension(a->getName());
            FS_ASSERT(a->isExplicit() == dim, "axis is a dimension");
            FS_ASSERT(a->getShape().size() == (dim ? 1 : a->getName() == "ref" ? 0 : 2), "shape of an axis");
        }
        const bool x = s.count("x"), y = s.count("y");
        FS_ASSERT(nameOf(cs->getGeoXAxis()) == (x ? "x" : s.count("lon") ? "lon" : ""), "x axis of the system");
        FS_ASSERT(nameOf(cs->getGeoYAxis()) == (y ? "y" : s.count("lat") ? "lat" : ""), "y axis of the system");
        FS_ASSERT(nameOf(cs->getTimeAxis()) == (s.count("t") ? "t" : ""), "time axis of the system");
        FS_ASSERT(nameOf(cs->getGeoZAxis()) == (s.count("k") && kvar ? "k" : ""), "z axis of the system");
        FS_ASSERT(nameOf(cs->findAxisOfType(CA::ReferenceTime)) == (s.count("ref") ? "ref" : ""), "reference time of the system");
        FS_ASSERT(nameOf(cs->findAxisOfType(CA::Lon)) == (latlon && x ? "x" : s.count("lon") ? "lon" : ""), "longitude of the system");
        FS_ASSERT(nameOf(cs->findAxisOfType(CA::Lat)) == (latlon && y ? "y" : s.count("lat") ? "lat" : ""), "latitude of the system");
        FS_ASSERT(cs->isSimpleSpatialGridded() == (x && y), "system with simple axes");
        // grid mapping of the variables of this system
        std::string p;
        for (int i = 0; i < 2; i++)
            if (d.all[std::string(1, 'a' + i)] == s && (gm[i] == 1 || gm[i] == 2))
                p = gm[i] == 1 ? "polar_stereographic" : "mercator";
        bool without = false;
        for (auto& v : d.all)
            without |= v.second == s && !(v.first == "a" && gm[0]) && !(v.first == "b" && gm[1]);
        if (p.empty() && without && latlon && x && y)
            p = "latitude_longitude";
        if (!(without && latlon && x && y))
            FS_ASSERT((cs->hasProjection() ? cs->getProjection()->getName() : std::string()) == p, "projection of the system");
    }
    FS_ASSERT(found.size() == css.size(), "systems differ");
    for (auto& v : d.axes) {
        CoordinateSystem_cp cs = findCompleteCoordinateSystemFor(css, v.first);
        FS_ASSERT(cs, "coordinate system of a variable found");
        if (cs)
            FS_ASSERT(names(cs->getAxes()) == v.second, "axes of a variable");
    }
    FS_REACH("systems");
}
FS_HARNESS(horizontal)
{
    int shape[2], co[2], gm[2];
    shape[0] = (int)fs_pick("shape0", 0, 2);
    shape[1] = (int)fs_pick("shape1", 0, 5);
    co[0] = (int)fs_pick("coords0", 0, 3);
    co[1] = (int)fs_pick("coords1", 0, 1) * (shape[1] < 3 ? 2 : 3);
    gm[0] = (int)fs_pick("mapping", 0, 1);
    gm[1] = shape[1] < 3 ? gm[0] : 0;
    const bool withProj = fs_pick("withProjection", 0, 1);
    DS d = dataset(shape, co, true, false, gm);
    std::map<std::string, CoordinateSystem_cp> systems;
    std::map<std::string, std::string> vars;
    std::vector<std::string> bad;
    const int n = findBestHorizontalCoordinateSystems(withProj, d.m, systems, vars, bad);
    // systems with x and y are usable with projection when mapped; those with lon and lat without
    bool any = false;
    std::map<std::string, bool> usable;
    for (auto& v : d.axes) {
        const Set& s = v.second;
        const bool xy = s.count("x") && s.count("y");
        bool mapped = false;
        for (int i = 0; i < 2; i++)
            mapped |= gm[i] && d.all[std::string(1, 'a' + i)] == s;
        usable[v.first] = xy && (withProj ? mapped : s.count("lon") != 0);
        any |= usable[v.first];
    }
    FS_ASSERT(n == (any ? 1 : 0), "number of horizontal systems");
    FS_ASSERT((int)systems.size() == n, "horizontal systems");
    if (!n)
        return;
    for (auto& v : d.axes) {
        const bool xy = v.second.count("x") && v.second.count("y");
        FS_ASSERT((vars.count(v.first) != 0) == xy, "variable belongs to the horizontal system");
        if (vars.count(v.first))
            FS_ASSERT(systems.count(vars[v.first]) == 1, "system of a variable");
    }
    CoordinateSystem_cp cs = systems.begin()->second;
    FS_ASSERT(nameOf(cs->getGeoXAxis()) == "x", "x axis");
    FS_ASSERT(nameOf(cs->getGeoYAxis()) == "y", "y axis");
    FS_ASSERT(cs->hasProjection() || !withProj, "projection");
    // what cannot be used, but depends on the horizontal axes
    for (auto& v : d.all) {
        const bool listed = std::find(bad.begin(), bad.end(), v.first) != bad.end();
        const bool xy = v.second.count("x") || v.second.count("y");
        if (vars.count(v.first) || v.first == "x" || v.first == "y" || !xy)
            FS_ASSERT(!listed, "variable is compatible");
    }
    FS_REACH("horizontal");
}
FS_HARNESS(vertical)
{
    const int kind = (int)fs_pick("kind", 0, 10);
    const int variant = (int)fs_pick("variant", 0, 2); // 0 complete, 1 a term is missing, 2 a term depends on another dimension
    const int spelling = (int)fs_pick("spelling", 0, 2);
    const bool one = fs_pick("one", 0, 1); // other dimension of length 1
    MemReader_p m = memReader();
    m->dim("x", 2);
    m->dim("y", 2);
    m->dim("k", 2);
    m->dim("e", one ? 1 : 3);
    m->dim("t", 2, true);
    m->var("x", CDM_DOUBLE, {"x"}, {1, 2});
    m->var("y", CDM_DOUBLE, {"y"}, {1, 2});
    m->var("t", CDM_DOUBLE, {"t"}, {1, 2});
    m->att("x", "standard_name", "projection_x_coordinate");
    m->att("y", "standard_name", "projection_y_coordinate");
    m->att("t", "units", "hours since 2000-01-01 00:00:00");
    const std::string z = kind == 2 ? "altitude" : kind == 3 ? "h" : "k";
    if (z != "k")
        m->cdm().renameDimension("k", z);
    m->var(z, CDM_DOUBLE, {z}, {1, 2});
    static const char* sn[11] = {0, 0, 0, "height_above_mean_sea_level", 0, "atmosphere_hybrid_sigma_pressure_coordinate", "atmosphere_hybrid_sigma_pressure_coordinate", "atmosphere_sigma_coordinate", "ocean_s_coordinate_g1", "ocean_s_coordinate_g2", "atmosphere_hybrid_height_coordinate"};
    static const std::vector<Names> terms = {{}, {}, {}, {}, {}, {"ap", "b", "ps", "p0"}, {"a", "b", "ps", "p0"}, {"sigma", "ps", "ptop"}, {"s", "C", "depth", "depth_c", "eta"}, {"s", "C", "depth", "depth_c", "eta"}, {"a", "b", "orog"}};
    if (kind == 0)
        m->att(z, "units", "hPa");
    if (kind >= 1 && kind <= 3) {
        m->att(z, "units", "m");
        m->att(z, "positive", "up");
    }
    if (kind == 4) {
        m->att(z, "units", "m");
        m->att(z, "positive", "down");
    }
    if (sn[kind])
        m->att(z, "standard_name", sn[kind]);
    std::string f;
    Set dep;
    const Names& T = terms[kind];
    const int bad = T.empty() ? -1 : 2; // a horizontal term
    for (size_t i = 0; i < T.size(); i++) {
        const std::string v = "v_" + T[i];
        if ((int)i == bad && variant == 1)
            continue;
        Names sh;
        if (T[i] == "ps" || T[i] == "depth" || T[i] == "eta" || T[i] == "orog")
            sh = {"x", "y"};
        else if (T[i] != "p0" && T[i] != "ptop" && T[i] != "depth_c")
            sh = {z};
        if ((int)i == bad && variant == 2)
            sh.push_back("e");
        m->var(v, CDM_DOUBLE, sh);
        dep.insert(v);
        f += std::string(f.empty() ? "" : spelling == 1 ? "  " : " ") + T[i] + (spelling == 0 ? ": " : spelling == 1 ? " : " : ":") + v;
    }
    if (variant == 1 && !T.empty())
        f += " nothing: missing";
    if (!f.empty())
        m->att(z, "formula_terms", f);
    m->var("a3", CDM_INT, {"x", "y", z, "t"});
    CoordinateSystem_cp_v css = listCoordinateSystems(m);
    CoordinateSystem_cp cs = findCompleteCoordinateSystemFor(css, "a3");
    FS_ASSERT(cs, "coordinate system");
    if (!cs)
        return;
    FS_ASSERT(nameOf(cs->getGeoZAxis()) == z, "vertical axis");
    VerticalTransformation_cp vt = cs->getVerticalTransformation();
    const bool none = !T.empty() && variant == 2 && !one;
    FS_ASSERT(cs->hasVerticalTransformation() == !none, "vertical transformation");
    const Set deps = cs->getDependencyVariables();
    for (auto& v : dep)
        FS_ASSERT(deps.count(v), "terms are needed by the system");
    for (auto& v : names(cs->getAxes()))
        FS_ASSERT(deps.count(v), "axes are needed by the system");
    FS_ASSERT(!deps.count("missing"), "missing terms are not needed by the system");
    if (!vt)
        return;
    FS_ASSERT(vt->isComplete() == (T.empty() || variant != 1), "transformation is complete");
    auto term = [&](size_t i) { return (int)i == bad && variant == 1 ? std::string() : "v_" + T[i]; };
    switch (kind) {
    case 0: FS_ASSERT(vt->getName() == "pressure", "pressure"); break;
    case 1: FS_ASSERT(vt->getName() == Height::NAME() && vt->getPreferredVerticalType() == MIFI_VINT_HEIGHT, "height"); break;
    case 2:
    case 3: FS_ASSERT(vt->getName() == "altitude" && vt->getPreferredVerticalType() == MIFI_VINT_ALTITUDE, "altitude"); break;
    case 4: FS_ASSERT(vt->getName() == "depth", "depth"); break;
    case 5: {
        auto h = std::dynamic_pointer_cast<const HybridSigmaPressure1>(vt);
        FS_ASSERT(h && h->ap == term(0) && h->b == term(1) && h->ps == term(2) && h->p0 == term(3), "terms of hybrid levels with pressure");
        break;
    }
    case 6: {
        auto h = std::dynamic_pointer_cast<const HybridSigmaPressure2>(vt);
        FS_ASSERT(h && h->a == term(0) && h->b == term(1) && h->ps == term(2) && h->p0 == term(3), "terms of hybrid levels");
        break;
    }
    case 7: {
        auto h = std::dynamic_pointer_cast<const AtmosphereSigma>(vt);
        FS_ASSERT(h && h->sigma == term(0) && ((h->ps == term(1) && h->ptop == term(2)) || (h->ps == term(2) && h->ptop == term(1))), "terms of sigma levels");
        break;
    }
    case 8: {
        auto h = std::dynamic_pointer_cast<const OceanSG1>(vt);
        FS_ASSERT(h && h->vars.s == term(0) && h->vars.C == term(1) && h->vars.depth == term(2) && h->vars.depth_c == term(3) && h->vars.eta == term(4), "terms of ocean levels");
        FS_ASSERT(vt->getName() == sn[8], "kind of ocean levels");
        break;
    }
    case 9: FS_ASSERT(vt->getName() == sn[9], "kind of ocean levels"); FS_ASSERT(vt->getParameterString().find("depth=" + term(2) + ",") != std::string::npos, "terms of ocean levels"); break;
    case 10: {
        auto h = std::dynamic_pointer_cast<const AtmosphereHybridHeight>(vt);
        FS_ASSERT(h && h->a == term(0) && h->b == term(1) && h->orog == term(2), "terms of hybrid height");
        break;
    }
    }
    FS_REACH("vertical");
}
/* pressure of the levels from the terms named in the attributes */
FS_HARNESS(levels)
{
    const int kind = (int)fs_pick("kind", 0, 3); // sigma, hybrid with ap, hybrid with a and p0, logarithmic
    const int nt = 2, nk = fs_thorough() ? 3 : 2;
    MemReader_p m = memReader();
    m->dim("x", 1);
    m->dim("y", 1);
    m->dim("k", nk);
    m->dim("t", nt, true);
    m->var("x", CDM_DOUBLE, {"x"}, {1});
    m->var("y", CDM_DOUBLE, {"y"}, {1});
    m->var("t", CDM_DOUBLE, {"t"}, {1, 2});
    m->att("x", "standard_name", "projection_x_coordinate");
    m->att("y", "standard_name", "projection_y_coordinate");
    m->att("t", "units", "hours since 2000-01-01 00:00:00");
    m->var("k", CDM_DOUBLE, {"k"});
    static const char* sn[4] = {"atmosphere_sigma_coordinate", "atmosphere_hybrid_sigma_pressure_coordinate", "atmosphere_hybrid_sigma_pressure_coordinate", "atmosphere_ln_pressure_coordinate"};
    static const char* ft[4] = {"sigma: c ps: s ptop: p", "ap: c b: d ps: s", "a: c b: d ps: s p0: p", "p0: p lev: c"};
    m->att("k", "standard_name", sn[kind]);
    m->att("k", "formula_terms", ft[kind]);
    const double c[3] = {0.25, 0.75, 1}, d[3] = {0.5, 0.125, 0};
    std::vector<float> S, P;
    m->var("c", CDM_DOUBLE, {"k"}, std::vector<double>(c, c + nk));
    m->var("d", CDM_DOUBLE, {"k"}, std::vector<double>(d, d + nk));
    m->var("s", CDM_FLOAT, {"x", "y", "t"}, symFloats("s", nt, S, 500, 1100));
    m->var("p", CDM_FLOAT, Names{}, symFloats("p", 1, P, 10, 400));
    const bool pa = fs_pick("pascal", 0, 1);
    m->att("s", "units", pa ? "Pa" : "hPa");
    m->att("p", "units", pa ? "Pa" : "hPa");
    if (kind == 1)
        m->att("c", "units", pa ? "Pa" : "hPa");
    m->var("v", CDM_INT, {"x", "y", "k", "t"});
    CoordinateSystem_cp cs = findCompleteCoordinateSystemFor(listCoordinateSystems(m), "v");
    FS_ASSERT(cs && cs->hasVerticalTransformation(), "vertical transformation");
    if (!cs || !cs->hasVerticalTransformation())
        return;
    VerticalConverter_p vc = cs->getVerticalTransformation()->getConverter(m, cs, MIFI_VINT_PRESSURE);
    FS_ASSERT(vc, "conversion to pressure");
    if (!vc)
        return;
    const Names shape = vc->getShape();
    Sizes len;
    bool hasT = false;
    for (auto& n : shape) {
        len.push_back(m->cdm().getDimension(n).getLength());
        hasT |= n == "t";
    }
    FS_ASSERT(hasT == (kind != 3), "pressure depends on time");
    SliceBuilder sb(shape, len);
    DataPtr r = vc->getDataSlice(sb);
    FS_ASSERT(r && r->size() == (size_t)(nk * (hasT ? nt : 1)), "number of values");
    if (!r || r->size() != (size_t)(nk * (hasT ? nt : 1)))
        return;
    auto v = r->asDouble();
    for (int t = 0; t < (hasT ? nt : 1); t++)
        for (int k = 0; k < nk; k++) {
            const double f = pa ? 0.01 : 1, ps = f * S[t], p = f * P[0];
            const double e = kind == 0 ? p + c[k] * (ps - p) : kind == 1 ? c[k] * f + d[k] * ps : kind == 2 ? c[k] * p + d[k] * ps : p * std::exp(-c[k]);
            FS_ASSERT(fs_near(v[t * nk + k], e, 1e-3), "pressure of a level");
        }
    FS_REACH("levels");
}
/* parts of a variable selected by the kind of axis */
FS_HARNESS(slices)
{
    const bool ref = fs_pick("ref", 0, 1), time2 = ref && fs_pick("time2", 0, 1);
    const size_t nx = fs_pick("nx", 1, 3), nt = fs_pick("nt", 1, 3), nr = 2;
    MemReader_p m = memReader();
    m->dim("x", nx);
    m->dim("y", 2);
    m->dim("o", nt);
    if (ref)
        m->dim("r", nr);
    m->var("x", CDM_DOUBLE, {"x"});
    m->var("y", CDM_DOUBLE, {"y"});
    m->att("x", "standard_name", "projection_x_coordinate");
    m->att("y", "standard_name", "projection_y_coordinate");
    if (time2) {
        m->var("time", CDM_DOUBLE, {"o", "r"});
        m->att("time", "units", "hours since 2000-01-01 00:00:00");
    } else {
        m->var("o", CDM_DOUBLE, {"o"});
        m->att("o", "units", "hours since 2000-01-01 00:00:00");
    }
    if (ref) {
        m->var("r", CDM_DOUBLE, {"r"});
        m->att("r", "standard_name", "forecast_reference_time");
    }
    Names shape = {"x", "y", "o"};
    if (ref)
        shape.push_back("r");
    m->var("v", CDM_INT, shape);
    if (time2)
        m->att("v", "coordinates", "time");
    CoordinateSystem_cp cs = findCompleteCoordinateSystemFor(listCoordinateSystems(m), "v");
    FS_ASSERT(cs, "coordinate system");
    CoordinateSystemSliceBuilder sb(m->cdm(), cs);
    Sizes st = {0, 0, 0, 0}, sz = {nx, 2, nt, 1};
    auto compare = [&](const SliceBuilder& b) {
        Sizes bs = b.getDimensionStartPositions(), bz = b.getDimensionSizes();
        FS_ASSERT(bs.size() == shape.size(), "dimensions of the slice");
        for (size_t i = 0; i < shape.size(); i++) {
            FS_ASSERT(bs[i] == st[i], "start of the slice");
            FS_ASSERT(bz[i] == sz[i], "size of the slice");
        }
    };
    compare(sb);
    std::vector<CA::AxisType> at = sb.getAxisTypes();
    FS_ASSERT(at.size() == shape.size() && at[0] == CA::GeoX && at[1] == CA::GeoY && at[2] == (time2 ? CA::Undefined : CA::Time), "kinds of the dimensions");
    for (int i = 0; i < (fs_thorough() ? 3 : 2); i++) {
        const std::string n = std::to_string(i);
        const int c = (int)fs_pick("axis" + n, 0, 3);
        const size_t start = (size_t)fs_int("start" + n, 0, 4), size = (size_t)fs_int("size" + n, 0, 4);
        const size_t len[4] = {nx, 2, nt, nr};
        static const CA::AxisType types[4] = {CA::GeoX, CA::GeoY, CA::Time, CA::ReferenceTime};
        FS_ASSUME(c < 3 || i < 1);
        bool thrown = false;
        try {
            fs_text_lossy(1);
            if (c == 2 && i)
                sb.setTimeStartAndSize(start, size);
            else
                sb.setAxisStartAndSize(types[c], start, size);
        } catch (std::exception&) {
            thrown = true;
        }
        const bool fits = start + (c == 3 ? 1 : size) <= len[c];
        if (c == 3 && !ref)
            FS_ASSERT(!thrown, "reference time ignored");
        else
            FS_ASSERT(thrown == !fits, "positions outside are refused");
        if (thrown || (c == 3 && !ref)) {
            compare(sb);
            continue;
        }
        st[c] = start;
        sz[c] = c == 3 ? 1 : size;
        compare(sb);
    }
    SliceBuilder tb = sb.getTimeVariableSliceBuilder();
    FS_ASSERT(tb.getDimensionNames().size() == (time2 ? 2 : 1), "dimensions of the time variable");
    FS_ASSERT(tb.getDimensionStartPositions()[0] == st[2], "start of the times");
    FS_ASSERT(tb.getDimensionSizes()[0] == sz[2], "number of times");
    if (time2) {
        FS_ASSERT(tb.getDimensionStartPositions()[1] == st[3], "reference time of the times");
        FS_ASSERT(tb.getDimensionSizes()[1] == 1, "one reference time");
        FS_ASSERT(tb.getMaxDimensionSizes()[1] == nr, "all reference times");
    }
    FS_REACH("slices");
}
/* x and y components of vectors find each other */
FS_HARNESS(vectors)
{
    static const char* xy[6][2] = {{"x_wind", "y_wind"}, {"eastward_wind", "northward_wind"}, {"sea_water_x_velocity", "sea_water_y_velocity"}, {"x_wind_10m", "y_wind_10m"}, {"sea_ice_x_velocity", "sea_ice_y_velocity"}, {"eastward_sea_water_velocity", "northward_sea_water_velocity"}};
    const int p = (int)fs_pick("pair", 0, fs_thorough() ? 5 : 2), q = (int)fs_pick("second", 0, 2); // 0: no second pair, 1: same names with other shape, 2: other shape only for y
    MemReader_p m = memReader();
    m->dim("x", 2);
    m->dim("y", 2);
    m->dim("k", 2);
    const bool conv = fs_pick("conv", 0, 1);
    if (conv)
        m->att(m->cdm().globalAttributeNS(), "Conventions", "CF-1.6");
    m->var("v1", CDM_INT, q == 2 ? Names{"x"} : Names{"x", "y"});
    m->att("v1", "standard_name", xy[p][1]);
    m->var("u1", CDM_INT, {"x", "y"});
    m->att("u1", "standard_name", xy[p][0]);
    if (q == 1) {
        m->var("u2", CDM_INT, {"x", "y", "k"});
        m->var("v2", CDM_INT, {"x", "y", "k"});
        m->att("u2", "standard_name", xy[p][0]);
        m->att("v2", "standard_name", xy[p][1]);
    }
    m->var("w", CDM_INT, {"x", "y"});
    m->att("w", "standard_name", "upward_air_velocity");
    enhanceVectorProperties(m);
    const CDM& c = m->cdm();
    auto is = [&](const char* u, const char* v, bool yes) {
        const CDMVariable &a = c.getVariable(u), &b = c.getVariable(v);
        FS_ASSERT(a.isSpatialVector() == yes, "x component");
        FS_ASSERT(b.isSpatialVector() == yes, "y component");
        if (yes) {
            FS_ASSERT(a.getSpatialVectorCounterpart() == v, "counterpart of the x component");
            FS_ASSERT(b.getSpatialVectorCounterpart() == u, "counterpart of the y component");
            const bool east = !strncmp(xy[p][0], "east", 4);
            FS_ASSERT(a.getSpatialVectorDirection() == (east ? CDMVariable::SPATIAL_VECTOR_LON : CDMVariable::SPATIAL_VECTOR_X), "direction of the x component");
            FS_ASSERT(b.getSpatialVectorDirection() == (east ? CDMVariable::SPATIAL_VECTOR_LAT : CDMVariable::SPATIAL_VECTOR_Y), "direction of the y component");
        }
    };
    is("u1", "v1", q != 2);
    if (q == 1)
        is("u2", "v2", true);
    FS_ASSERT(!c.getVariable("w").isSpatialVector(), "no vector");
    FS_REACH("vectors");
}
/* WRF files: axes by the attributes and times by the variable Times */
FS_HARNESS(wrf)
{
    const int nt = (int)fs_pick("nt", 1, 3), nx = (int)fs_pick("nx", 2, 3), proj = (int)fs_pick("proj", 0, 1) ? 3 : 1;
    const int h1 = (int)fs_pick("h1", 1, 3), h2 = (int)fs_pick("h2", 4, 5);
    MemReader_p m = memReader();
    m->dim("Time", nt, true);
    m->dim("DateStrLen", 19);
    m->dim("west_east", nx);
    m->dim("south_north", 2);
    m->dim("west_east_stag", nx + 1);
    m->dim("bottom_top", 2);
    const std::string g = m->cdm().globalAttributeNS();
    m->att(g, "MAP_PROJ", proj);
    m->att(g, "TRUELAT1", 60.f);
    m->att(g, "TRUELAT2", 60.f);
    m->att(g, "CEN_LAT", 62.f);
    m->att(g, "CEN_LON", 12.f);
    m->att(g, "STAND_LON", 10.f);
    m->att(g, "MOAD_CEN_LAT", 60.f);
    m->att(g, "DX", 1000.f);
    m->att(g, "DY", 2000.f);
    m->att(g, "START_DATE", "2012-03-01_06:00:00");
    m->att(g, "SIMULATION_START_DATE", "2012-03-01_00:00:00");
    const int hours[3] = {0, h1, h2};
    std::string times;
    for (int i = 0; i < nt; i++) {
        char b[32];
        snprintf(b, sizeof b, "2012-03-01_%02d:00:00", 6 + hours[i]);
        times += b;
    }
    m->var("Times", CDM_STRING, {"DateStrLen", "Time"}, createData(times));
    m->var("T2", CDM_FLOAT, {"west_east", "south_north", "Time"});
    m->var("U", CDM_FLOAT, {"west_east_stag", "south_north", "bottom_top", "Time"});
    m->var("V", CDM_FLOAT, {"west_east", "south_north", "bottom_top", "Time"});
    m->var("HGT", CDM_FLOAT, {"west_east", "south_north"});
    CoordinateSystem_cp_v css = listCoordinateSystems(m);
    static const char* xs[4] = {"T2", "U", "V", "HGT"};
    for (auto v : xs) {
        CoordinateSystem_cp cs = findCompleteCoordinateSystemFor(css, v);
        FS_ASSERT(cs, "coordinate system");
        if (!cs)
            continue;
        const CDMVariable& var = m->cdm().getVariable(v);
        FS_ASSERT(names(cs->getAxes()) == Set(var.getShape().begin(), var.getShape().end()), "axes of the system");
        FS_ASSERT(nameOf(cs->getGeoXAxis()) == var.getShape()[0], "x axis");
        FS_ASSERT(nameOf(cs->getGeoYAxis()) == "south_north", "y axis");
        FS_ASSERT(cs->hasProjection() && cs->getProjection()->getName() == (proj == 1 ? "lambert_conformal_conic" : "mercator"), "projection");
        FS_ASSERT(cs->isSimpleSpatialGridded(), "simple axes");
        FS_ASSERT(nameOf(cs->getTimeAxis()) == (var.getShape().size() > 2 ? "Time" : ""), "time axis");
    }
    DataPtr t = m->getScaledDataInUnit("Time", "hours since 2012-03-01 06:00:00 +0000"), x = m->getData("west_east"), xs2 = m->getData("west_east_stag"), y = m->getData("south_north");
    FS_ASSERT((int)t->size() == nt, "number of times");
    for (int i = 0; i < nt && (int)t->size() == nt; i++)
        FS_ASSERT(std::abs(t->asDouble()[i] - hours[i]) < 1e-4, "time of a step");
    FS_ASSERT((int)x->size() == nx && (int)xs2->size() == nx + 1 && y->size() == 2, "sizes of the axes");
    for (int i = 0; i + 1 < nx; i++)
        FS_ASSERT(std::abs(x->asDouble()[i + 1] - x->asDouble()[i] - 1000) < 1, "step of the x axis");
    FS_ASSERT(std::abs(y->asDouble()[1] - y->asDouble()[0] - 2000) < 1, "step of the y axis");
    CoordinateSystem_cp t2 = findCompleteCoordinateSystemFor(css, "T2");
    if (t2 && t2->hasProjection()) {
        double cx = 12, cy = 62;
        reproject::reproject_values(MIFI_WGS84_LATLON_PROJ4, t2->getProjection()->getProj4String(), &cx, &cy, 1);
        FS_ASSERT(std::abs((x->asDouble()[0] + x->asDouble()[nx - 1]) / 2 - cx) < 10, "center of the x axis");
        FS_ASSERT(std::abs((y->asDouble()[0] + y->asDouble()[1]) / 2 - cy) < 10, "center of the y axis");
    }
    for (int i = 0; i < nx; i++) // staggered points lie between
        FS_ASSERT(std::abs(xs2->asDouble()[i] + 500 - x->asDouble()[i]) < 1, "staggered axis");
    FS_REACH("wrf");
}
