/*FS {
 "regex": true, "inc": ["src"],
 "quick_s": 60, "thorough_s": 600,
 "bounds": ["vectors (x/y wind) with arbitrary components (float, or packed in short with different packing of the two components), one cell possibly undefined, on a grid of 3 x 2 points, 2 levels, 2 times: polar stereographic (m or km, with points on and beside the central meridian, both directions of the axes), rotated latitude/longitude, Mercator; rotated to east/north and back, in one or both directions of one dataset, whole slices and boxes", "directions in [0,360] with packing, same grids", "geopotential height: 2 horizontal points, 2..3 levels in both orders, 2 times, arbitrary temperatures, with and without humidity, surface pressure and geopotential from tables, all level boxes", "vertical velocity: 3 x 3 points, 2 levels, 2 times, wind, temperature and pressure in different units, one arbitrary value"],
 "outside": ["positions and directions of the grid are computed by the projection library for fixed grids", "grids whose x- and y-axis are not the two fastest dimensions"]
} */
#include "h.h"
#include "fimex/CDMProcessor.h"
#include "fimex/coordSys/CoordinateSystem.h"
#include "fimex/interpolation.h"
#include "fimex/mifi_constants.h"
#include "fimex/reproject.h"
#include "fimex/vertical_coordinate_transformations.h"
#include <algorithm>
#include <cmath>
namespace {
const double D2R = 3.14159265358979323846 / 180;
const int NX = 3, NY = 2, NZ = 2, NT = 2, N = NX * NY;
struct V3 { double x, y, z; };
V3 sph(double lon, double lat) { return {std::cos(lat * D2R) * std::cos(lon * D2R), std::cos(lat * D2R) * std::sin(lon * D2R), std::sin(lat * D2R)}; }
V3 east(double lon) { return {-std::sin(lon * D2R), std::cos(lon * D2R), 0}; }
double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
struct Grid
{
    std::vector<double> x, y;   // axes
    std::vector<double> theta;  // angle from the x-axis to east, counter-clockwise, in rad
};
/* kind: 0 polar stereographic in m, 1 in km with descending x, 2 rotated, 3 Mercator with descending x, 4 polar stereographic beside the meridian */
Grid grid(MemReader& r, int kind)
{
    Grid g;
    const bool rot = kind == 2;
    r.att(r.cdm().globalAttributeNS(), "Conventions", "CF-1.4");
    r.dim("xc", NX);
    r.dim("yc", NY);
    r.dim("lev", NZ);
    r.dim("time", NT, true);
    switch (kind) {
    case 0: g.x = {-700e3, 0, 700e3}; g.y = {-300e3, -200e3}; break;
    case 1: g.x = {1200, 0, -1200}; g.y = {-1500, -2000}; break;
    case 2: g.x = {-10, 5, 20}; g.y = {-15, 10}; break;
    case 3: g.x = {2e6, 1e6, 5e5}; g.y = {5e6, 6e6}; break;
    default: g.x = {-900e3, -500e3, -100e3}; g.y = {800e3, 100e3}; break;
    }
    r.var("xc", CDM_DOUBLE, {"xc"}, g.x);
    r.var("yc", CDM_DOUBLE, {"yc"}, g.y);
    r.att("xc", "standard_name", rot ? "grid_longitude" : "projection_x_coordinate");
    r.att("yc", "standard_name", rot ? "grid_latitude" : "projection_y_coordinate");
    r.att("xc", "units", rot ? "degrees" : kind == 1 ? "km" : "m");
    r.att("yc", "units", rot ? "degrees" : kind == 1 ? "km" : "m");
    r.var("lev", CDM_DOUBLE, {"lev"}, std::vector<double>{500, 850});
    r.att("lev", "units", "hPa");
    r.var("time", CDM_DOUBLE, {"time"}, std::vector<double>{0, 6});
    r.att("time", "units", "hours since 2000-01-01 00:00:00");
    r.var("pr", CDM_INT, Names{}, std::vector<double>{0});
    const double lon0 = 20, plat = 40, plon = -170;
    if (kind == 2) {
        r.att("pr", "grid_mapping_name", "rotated_latitude_longitude");
        r.att("pr", "grid_north_pole_latitude", plat);
        r.att("pr", "grid_north_pole_longitude", plon);
    } else if (kind == 3) {
        r.att("pr", "grid_mapping_name", "mercator");
        r.att("pr", "longitude_of_projection_origin", lon0);
        r.att("pr", "standard_parallel", 0.);
    } else {
        r.att("pr", "grid_mapping_name", "polar_stereographic");
        r.att("pr", "straight_vertical_longitude_from_pole", lon0);
        r.att("pr", "latitude_of_projection_origin", 90.);
        r.att("pr", "standard_parallel", 60.);
    }
    r.att("pr", "earth_radius", 6371000.);
    const V3 ex = sph(plon + 180, 90 - plat), ez = sph(plon, plat), ey = cross(ez, ex);
    auto geo = [&](V3 a) { return V3{a.x * ex.x + a.y * ey.x + a.z * ez.x, a.x * ex.y + a.y * ey.y + a.z * ez.y, a.x * ex.z + a.y * ey.z + a.z * ez.z}; };
    for (int j = 0; j < NY; j++)
        for (int i = 0; i < NX; i++)
            if (kind == 2) {
                const V3 p = geo(sph(g.x[i], g.y[j])), e = east(std::atan2(p.y, p.x) / D2R);
                const V3 gx = geo(east(g.x[i])), gy = cross(p, gx); // directions of the grid
                g.theta.push_back(std::atan2(dot(e, gy), dot(e, gx)));
            } else
                g.theta.push_back(kind == 3 ? 0. : std::atan2(g.x[i], -g.y[j]));
    return g;
}
/* values of a variable once everything is set up */
void fill(MemReader& r, const char* name, const std::vector<double>& w)
{
    DataPtr d = r.full(name);
    for (size_t i = 0; i < w.size(); i++)
        if (d->getDataType() == CDM_SHORT)
            ((short*)d->getDataPtr())[i] = (short)w[i];
        else
            ((float*)d->getDataPtr())[i] = (float)w[i];
}
bool close(double a, double b, double tol) { return fs_near(a, b, tol); }
}
/* components of vectors along the grid and along the geographic directions */
FS_HARNESS(vectors)
{
    fs_text_lossy(1);
    MemReader_p r = memReader();
    const int kind = (int)fs_pick("grid", 0, 4);
    const bool packed = fs_pick("packed", 0, 1);
    const int both = (int)fs_pick("order", 0, 2); // only the one, then the other direction in the same processor, directly all vectors
    const bool toLatLon = fs_pick("toLatLon", 0, 1);
    Grid g = grid(*r, kind);
    const int n = N * NZ * NT;
    const char* NAME[] = {"u", "v", "e", "n"};
    const char* STD[] = {"x_wind", "y_wind", "eastward_wind", "northward_wind"};
    const double scale[] = {0.5, 0.25, 0.5, 0.25}, offset[] = {3, -2, 0, 0};
    std::vector<double> val[4];
    const int undef = (int)fs_pick("undef", 0, 2); // none, in the first, in the second component
    const int used = toLatLon ? 0 : 2, other = 2 - used;
    for (int c = 0; c < 4; c++) {
        r->var(NAME[c], packed ? CDM_SHORT : CDM_FLOAT, {"xc", "yc", "lev", "time"}, std::vector<double>(n, 0));
        r->att(NAME[c], "standard_name", STD[c]);
        r->att(NAME[c], "units", "m/s");
        r->att(NAME[c], "grid_mapping", "pr");
        if (packed) {
            r->att(NAME[c], "_FillValue", (short)-99);
            r->att(NAME[c], "scale_factor", scale[c]);
            r->att(NAME[c], "add_offset", offset[c]);
        } else
            r->att(NAME[c], "_FillValue", -99.f);
    }
    auto p = std::make_shared<CDMProcessor>(r);
    if (both == 1)
        p->rotateVectorToLatLon(!toLatLon, {NAME[other]}, {NAME[other + 1]}, {"ox"}, {"oy"});
    if (both == 2)
        p->rotateAllVectorsToLatLon(toLatLon);
    else
        p->rotateVectorToLatLon(toLatLon, {NAME[used]}, {NAME[used + 1]}, {"nx"}, {"ny"});
    for (int c = 0; c < 4; c++) {
        std::vector<double> w;
        const bool sym = c / 2 == used / 2;
        for (int i = 0; i < n; i++) {
            double q = sym && !(packed && (i != 13 || c % 2)) ? (double)fs_int(std::string(NAME[c]) + std::to_string(i), -40, 40) : (double)((i * 7 + c * 5) % 41 - 20);
            w.push_back(q);
            val[c].push_back(packed ? q * scale[c] + offset[c] : q);
        }
        if (sym && undef == 1 + c % 2) {
            w[n - 2] = -99;
            val[c][n - 2] = std::numeric_limits<double>::quiet_NaN();
        }
        fill(*r, NAME[c], w);
    }
    for (int c = 0; c < 4; c++) {
        std::string sn = STD[c];
        if (c / 2 == used / 2)
            sn = both == 2 ? (toLatLon ? "LATLON_ROTATED_" : "GRID_ROTATED_") + sn : c % 2 ? "ny" : "nx";
        else if (both == 1)
            sn = c % 2 ? "oy" : "ox";
        FS_ASSERT(p->getCDM().getAttribute(NAME[c], "standard_name").getStringValue() == sn, "standard_name");
    }
    const CDMVariable& vu = p->getCDM().getVariable(NAME[used]);
    FS_ASSERT(vu.getSpatialVectorCounterpart() == NAME[used + 1] && vu.getSpatialVectorDirection() == (toLatLon ? CDMVariable::SPATIAL_VECTOR_LON : CDMVariable::SPATIAL_VECTOR_X), "direction of the rotated vectors");
    // components of the result
    auto expect = [&](int c, int i) {
        const int k = i % N, a = c / 2 * 2;
        const bool ll = a == 0;
        if (!(a == used || both == 1))
            return val[c][i];
        const double C = std::cos(g.theta[k]), S = std::sin(g.theta[k]) * (ll ? 1 : -1);
        return c % 2 ? -S * val[a][i] + C * val[a + 1][i] : C * val[a][i] + S * val[a + 1][i];
    };
    const int what = (int)fs_pick("what", 0, 2);
    const double tol = (packed ? 0.26 : 0) + 0.02; // unit of last place of packed values
    for (int c = 0; c < 4; c++)
        for (int t = 0; t < NT; t++) {
            DataPtr d;
            int i0 = 0, ni = NX, j0 = 0, nj = NY, k0 = 0, nk = NZ;
            if (what == 0)
                d = p->getScaledDataSlice(NAME[c], (size_t)t);
            else if (what == 1)
                d = p->getScaledDataSliceInUnit(NAME[c], "m/s", (size_t)t);
            else {
                SliceBuilder sb(p->getCDM(), NAME[c]);
                i0 = 1, ni = 2, j0 = t, nj = 1, k0 = 1 - t, nk = 1 + t;
                sb.setStartAndSize("xc", i0, ni);
                sb.setStartAndSize("yc", j0, nj);
                sb.setStartAndSize("lev", k0, nk);
                sb.setStartAndSize("time", t, 1);
                d = p->getScaledDataSlice(NAME[c], sb);
            }
            FS_ASSERT(d->size() == (size_t)(ni * nj * nk), "size of the rotated data");
            auto got = d->asDouble();
            int o = 0;
            for (int k = k0; k < k0 + nk; k++)
                for (int j = j0; j < j0 + nj; j++)
                    for (int i = i0; i < i0 + ni; i++, o++) {
                        const int at = ((t * NZ + k) * NY + j) * NX + i;
                        if (undef && at == n - 2 && c / 2 == used / 2) {
                            FS_ASSERT(got[o] != got[o], "an undefined component makes the rotated vector undefined");
                        } else
                            FS_ASSERT(close(got[o], expect(c, at), tol), "component of the vector along the other directions");
                    }
            FS_ASSERT(p->getCDM().getVariable(NAME[c]).getDataType() == (packed ? CDM_SHORT : CDM_FLOAT), "type");
        }
    FS_REACH("rotated");
}
/* directions in degree, clockwise from the y-axis or from north */
FS_HARNESS(directions)
{
    fs_text_lossy(1);
    MemReader_p r = memReader();
    const int kind = (int)fs_pick("grid", 0, 4);
    const bool toLatLon = fs_pick("toLatLon", 0, 1);
    const int pack = (int)fs_pick("packed", 0, 2);
    Grid g = grid(*r, kind);
    const int n = N * NT, cell = (int)fs_pick("cell", 0, 4);
    r->var("d", pack ? CDM_SHORT : CDM_FLOAT, {"xc", "yc", "time"}, std::vector<double>(n, 0));
    r->att("d", "units", "degree");
    r->att("d", "grid_mapping", "pr");
    if (pack) {
        r->att("d", "scale_factor", 2.);
        if (pack == 2)
            r->att("d", "add_offset", 180.);
        r->att("d", "_FillValue", (short)-99);
    } else
        r->att("d", "_FillValue", -99.f);
    auto p = std::make_shared<CDMProcessor>(r);
    p->rotateDirectionToLatLon(toLatLon, {"d"});
    std::vector<double> w, val;
    for (int i = 0; i < n; i++) {
        double q = i == 2 * cell + cell / 2 ? (double)fs_int("a", 0, 180) : (i * 17) % 181;
        val.push_back(2 * q);
        w.push_back(i == 4 ? -99 : pack == 2 ? q - 90 : pack ? q : 2 * q);
    }
    fill(*r, "d", w);
    for (int t = 0; t < NT; t++) {
        DataPtr d = p->getScaledDataSlice("d", (size_t)t);
        FS_ASSERT(d->size() == (size_t)N, "size of the rotated directions");
        auto got = d->asDouble();
        for (int k = 0; k < N; k++) {
            const int i = t * N + k;
            if (i == 4) {
                FS_ASSERT(got[k] != got[k], "undefined direction");
                continue;
            }
            const double e = val[i] + (toLatLon ? 1 : -1) * g.theta[k] / D2R - got[k], tol = pack ? 1.05 : 0.05;
            FS_ASSERT((e < tol && e > -tol) || (e < 360 + tol && e > 360 - tol) || (e < -360 + tol && e > -360 - tol), "direction relative to the other directions");
            FS_ASSERT(got[k] >= -tol && got[k] <= 360 + tol, "directions are 0..360 degree");
        }
    }
    FS_REACH("rotated");
}
/* geopotential height by integration of the temperature */
FS_HARNESS(height)
{
    fs_text_lossy(1);
    MemReader_p r = memReader();
    const int nz = (int)fs_pick("nz", 2, 3), np = 2, nt = 2;
    const bool down = fs_pick("down", 0, 1), hum = fs_pick("humidity", 0, 1), celsius = !hum && fs_pick("celsius", 0, 1);
    r->att(r->cdm().globalAttributeNS(), "Conventions", "CF-1.4");
    r->dim("lon", np);
    r->dim("lat", 1);
    r->dim("k", nz);
    r->dim("time", nt, true);
    r->var("lon", CDM_DOUBLE, {"lon"}, std::vector<double>{10, 11});
    r->var("lat", CDM_DOUBLE, {"lat"}, std::vector<double>{60});
    r->att("lon", "units", "degrees_east");
    r->att("lat", "units", "degrees_north");
    std::vector<double> lev, ap, b;
    for (int k = 0; k < nz; k++) {
        const int q = down ? nz - 1 - k : k; // q = 0 is the highest
        lev.push_back(k + 1);
        ap.push_back(4000. / (1 + q));
        b.push_back((q + 1.) / (nz + 1));
    }
    r->var("k", CDM_DOUBLE, {"k"}, lev);
    r->att("k", "standard_name", "atmosphere_hybrid_sigma_pressure_coordinate");
    r->att("k", "formula_terms", "ap: ap b: b ps: ps");
    r->var("ap", CDM_DOUBLE, {"k"}, ap);
    r->att("ap", "units", "Pa");
    r->var("b", CDM_DOUBLE, {"k"}, b);
    r->var("time", CDM_DOUBLE, {"time"}, std::vector<double>{0, 6});
    r->att("time", "units", "hours since 2000-01-01 00:00:00");
    std::vector<double> ps, gp{98.1, 981}, tw, qw, T, Q;
    for (int i = 0; i < np * nt; i++)
        ps.push_back(1000 - 15 * i);
    r->var("ps", CDM_DOUBLE, {"lon", "lat", "time"}, ps);
    r->att("ps", "units", "hPa");
    r->att("ps", "standard_name", "surface_air_pressure");
    r->var("gp", CDM_DOUBLE, {"lon", "lat"}, gp);
    r->att("gp", "units", "m^2/s^2");
    r->att("gp", "standard_name", "surface_geopotential");
    r->var("t", CDM_FLOAT, {"lon", "lat", "k", "time"}, std::vector<double>(np * nt * nz, 0));
    r->att("t", "standard_name", "air_temperature");
    r->att("t", "units", celsius ? "Celsius" : "K");
    for (int i = 0; i < np * nt * nz; i++) {
        qw.push_back(0.001 * (i % 5));
        Q.push_back(0.001 * (i % 5));
    }
    if (hum) {
        r->var("q", CDM_FLOAT, {"lon", "lat", "k", "time"}, qw);
        r->att("q", "standard_name", "specific_humidity");
        r->att("q", "units", "1");
    }
    auto p = std::make_shared<CDMProcessor>(r);
    p->addGeopotentialHeight();
    const int t0 = (int)fs_pick("column", 0, np - 1), z0 = (int)fs_pick("z0", 0, nz - 1);
    for (int i = 0; i < np * nt * nz; i++) {
        const double a = i % np == t0 && (fs_thorough() || i / np % nz == z0) ? (double)fs_int("t" + std::to_string(i), -60, 40) : (i * 7) % 40 - 20.;
        tw.push_back(celsius ? a : a + 273.);
        T.push_back(celsius ? a + 273.15 : a + 273.);
    }
    fill(*r, "t", tw);
    const auto names = p->getCDM().findVariables("standard_name", "geopotential_height");
    FS_ASSERT(names.size() == 1, "a geopotential height is added");
    const std::string& name = names[0];
    FS_ASSERT(p->getCDM().getUnits(name) == "m" && p->getCDM().getVariable(name).getShape() == p->getCDM().getVariable("t").getShape(), "units and shape of the height");
    const int k0 = (int)fs_pick("k0", 0, nz - 1), nk = (int)fs_pick("nk", 1, nz - k0);
    for (int t = 0; t < nt; t++) {
        SliceBuilder sb(p->getCDM(), name);
        sb.setStartAndSize("time", t, 1);
        sb.setStartAndSize("k", k0, nk);
        DataPtr d = p->getScaledDataSlice(name, sb);
        FS_ASSERT(d && d->size() == (size_t)(np * nk), "size of the height");
        auto got = d->asDouble();
        for (int i = 0; i < np; i++) {
            double a = gp[i] / 9.80665, pl = ps[t * np + i] * 100;
            for (int l = 0; l < nz; l++) { // from the surface
                const int k = down ? l : nz - 1 - l;
                const double pk = ap[k] + b[k] * ps[t * np + i] * 100;
                double tv = T[(t * nz + k) * np + i];
                if (hum)
                    tv *= 1 + 0.61 * Q[(t * nz + k) * np + i];
                a += 8.31432 / (9.80665 * 0.0289644) * tv * std::log(pl / pk);
                pl = pk;
                if (k >= k0 && k < k0 + nk)
                    FS_ASSERT(close(got[(k - k0) * np + i], a, 2.), "height of the level above the surface geopotential by the hypsometric equation");
            }
        }
    }
    FS_REACH("height");
}
/* vertical velocity: every field reaches the formula (C12) in its unit */
FS_HARNESS(velocity)
{
    fs_text_lossy(1);
    MemReader_p r = memReader();
    const int nx = 3, ny = 3, nz = 2, nt = 2, n = nx * ny;
    const bool units = fs_pick("units", 0, 1), height = fs_pick("height", 0, 1);
    r->att(r->cdm().globalAttributeNS(), "Conventions", "CF-1.4");
    r->dim("lon", nx);
    r->dim("lat", ny);
    r->dim("k", nz);
    r->dim("time", nt, true);
    std::vector<double> lon{10, 10.5, 11}, lat{60, 60.25, 60.5}, ap{3000, 0}, b{0.25, 0.75};
    r->var("lon", CDM_DOUBLE, {"lon"}, lon);
    r->var("lat", CDM_DOUBLE, {"lat"}, lat);
    r->att("lon", "units", "degrees_east");
    r->att("lat", "units", "degrees_north");
    r->var("k", CDM_DOUBLE, {"k"}, std::vector<double>{1, 2});
    r->att("k", "standard_name", "atmosphere_hybrid_sigma_pressure_coordinate");
    r->att("k", "formula_terms", "ap: ap b: b ps: ps");
    r->var("ap", CDM_DOUBLE, {"k"}, units ? std::vector<double>{30, 0} : ap);
    r->att("ap", "units", units ? "hPa" : "Pa");
    r->var("b", CDM_DOUBLE, {"k"}, b);
    r->var("time", CDM_DOUBLE, {"time"}, std::vector<double>{0, 6});
    r->att("time", "units", "hours since 2000-01-01 00:00:00");
    std::vector<float> ps, zs, u, v, T;
    std::vector<double> wps, wzs, wu, wv, wT;
    for (int i = 0; i < n * nt; i++) {
        ps.push_back(100000 - 100 * ((i * 7) % 9));
        wps.push_back(units ? ps[i] / 100 : ps[i]);
    }
    for (int i = 0; i < n; i++) {
        zs.push_back((i * 37) % 50);
        wzs.push_back(height ? (double)zs[i] : zs[i] * 9.81);
    }
    const int what = (int)fs_pick("what", 0, 2), at = (int)fs_pick("at", 0, 3) * 11;
    for (int i = 0; i < n * nz * nt; i++) {
        u.push_back((i * 13) % 17 - 8);
        v.push_back((i * 11) % 19 - 9);
        T.push_back(250 + (i * 29) % 40);
    }
    const int q = (int)fs_pick("value", -2, 2);
    if (what == 0)
        u[at] = 8. * q;
    else if (what == 1)
        v[at] = 8. * q;
    else
        T[at] = 270 + 8. * q;
    for (int i = 0; i < n * nz * nt; i++) {
        wu.push_back(units ? u[i] * 3.6 : u[i]);
        wv.push_back(v[i]);
        wT.push_back(units ? T[i] - 273.15 : T[i]);
    }
    auto var = [&](const char* name, const char* sn, const char* un, const std::vector<double>& w, bool three) {
        r->var(name, CDM_DOUBLE, three ? Names{"lon", "lat", "k", "time"} : Names{"lon", "lat", "time"}, w);
        r->att(name, "standard_name", sn);
        r->att(name, "units", un);
    };
    var("ps", "surface_air_pressure", units ? "hPa" : "Pa", wps, false);
    var("u", "x_wind", units ? "km/h" : "m/s", wu, true);
    var("v", "y_wind", "m/s", wv, true);
    var("t", "air_temperature", units ? "Celsius" : "K", wT, true);
    r->var("z", CDM_DOUBLE, {"lon", "lat"}, wzs);
    r->att("z", "standard_name", height ? "surface_altitude" : "surface_geopotential");
    r->att("z", "units", height ? "m" : "m^2/s^2");
    auto p = std::make_shared<CDMProcessor>(r);
    p->addVerticalVelocity();
    const std::string name = "upward_air_velocity_ml";
    FS_ASSERT(p->getCDM().hasVariable(name) && p->getCDM().getUnits(name) == "m/s", "vertical velocity is added");
    std::vector<double> lo, la;
    for (int j = 0; j < ny; j++)
        for (int i = 0; i < nx; i++) {
            lo.push_back(lon[i]);
            la.push_back(lat[j]);
        }
    std::vector<float> gx(n), gy(n), w(n * nz);
    FS_ASSERT(mifi_griddistance(nx, ny, lo.data(), la.data(), gx.data(), gy.data()) == MIFI_OK, "grid distance");
    for (int t = 0; t < nt; t++) {
        DataPtr d = p->getDataSlice(name, (size_t)t);
        FS_ASSERT(d && d->size() == (size_t)(n * nz), "size of the vertical velocity");
        auto got = d->asFloat();
        FS_ASSERT(mifi_compute_vertical_velocity(nx, ny, nz, 0.5, 0.25, gx.data(), gy.data(), ap.data(), b.data(), zs.data(), &ps[t * n], &u[t * n * nz], &v[t * n * nz], &T[t * n * nz], w.data()) == MIFI_OK, "velocity");
        for (int i = 0; i < n * nz; i++)
            FS_ASSERT((got[i] != got[i] && w[i] != w[i]) || close(got[i], w[i], 1e-3), "vertical velocity of the fields of this time");
    }
    FS_REACH("velocity");
}
