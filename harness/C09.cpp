/*FS {
 "regex": true, "inc": ["src"],
 "quick_s": 100, "thorough_s": 900,
 "bounds": ["nearest, bilinear and bicubic: field of 8 x 6 (and 2 x 2) cells in 2 layers with arbitrary values, two target points from half-cell tables reaching 2 cells outside of the field, undefined or huge: comparison of the cached, reduced-domain result with the method applied to the complete field", "forward methods (all ten): 7 x 2 input points in 2 layers of arbitrary or undefined values, each sent to an arbitrary one of 2 x 1 output cells or outside", "data on a polar stereographic grid (4 x 3 points, axes in m or km) to points, a template, a geographic or another polar stereographic grid in km, by nearest, bilinear or closest coordinates, with and without rotation of winds, arbitrary values", "distance of interest: default, set, on axes in degree, m and km; axes fitted to the data: 2..4 x 2..4 points in 3 projections", "rotation of vectors: 2 x 1 points, 2 layers, arbitrary components, rotations from a table", "complete interpolation of a latitude/longitude data set (5 x 4 points, 2 levels, 2 times, packed or fill values, data in memory or in the reader) to a latitude/longitude grid or to points; every box of the result"],
 "outside": ["the projection library is not encoded: positions are computed by it for fixed grids", "filling before and after interpolation (see C10)"]
} */
#include "h.h"
#include "CachedForwardInterpolation.h"
#include "fimex/CDMInterpolator.h"
#include "fimex/CachedInterpolation.h"
#include "fimex/CachedVectorReprojection.h"
#include "fimex/interpolation.h"
#include "fimex/mifi_constants.h"
#include "fimex/reproject.h"
#include <algorithm>
#include <cmath>
namespace {
const float UF = std::numeric_limits<float>::quiet_NaN();
MemReader_p grid(size_t nx, size_t ny, size_t nz, std::vector<float>& v)
{
    MemReader_p r = memReader();
    r->dim("x", nx);
    r->dim("y", ny);
    r->dim("z", nz);
    r->var("v", CDM_FLOAT, {"x", "y", "z"}, symFloats("v", nx * ny * nz, v));
    return r;
}
void backward(int method, size_t nx, size_t ny)
{
    std::vector<float> v;
    MemReader_p r = grid(nx, ny, 2, v);
    auto px = make_shared_array<double>(2), py = make_shared_array<double>(2);
    std::vector<double> x, y;
    const double nan = std::numeric_limits<double>::quiet_NaN();
    const double X1[] = {-2, 0.25, 3.5, nx - 0.75, nx + 1., nan, 1e20}, Y0[] = {-2, -0.25, 0.5, 2.25, 3, ny - 0.75, ny + 1.};
    int xk = fs_pick("x0", -2 * 2, 2 * ((int)nx + 1));
    x.push_back(xk / 2. + (xk % 3 ? 0.125 : 0));
    y.push_back(Y0[fs_pick("y0", 0, 6)]);
    x.push_back(X1[fs_pick("x1", 0, 6)]);
    y.push_back(fs_thorough() ? Y0[fs_pick("y1", 0, 6)] : 1.5);
    for (int i = 0; i < 2; i++) {
        px[i] = x[i];
        py[i] = y[i];
    }
    auto ci = createCachedInterpolation("x", "y", method, px, py, nx, ny, 2, 1);
    DataPtr in = ci->getInputDataSlice(r, "v", 0);
    FS_ASSERT(in->size() == ci->getInX() * ci->getInY() * 2, "size of the (reduced) input");
    size_t ns = 0;
    auto out = ci->interpolateValues(in->asFloat(), in->size(), ns);
    FS_ASSERT(ns == 4, "size of the output");
    FS_ASSERT(ci->getOutX() == 2 && ci->getOutY() == 1, "output dimensions");
    for (int i = 0; i < 2; i++) {
        float e[2];
        auto f = method == MIFI_INTERPOL_BILINEAR ? mifi_get_values_bilinear_f : method == MIFI_INTERPOL_BICUBIC ? mifi_get_values_bicubic_f : mifi_get_values_f;
        f(v.data(), e, x[i], y[i], nx, ny, 2);
        for (int z = 0; z < 2; z++)
            FS_ASSERT(FS_SAME(out[z * 2 + i], e[z]), "cached interpolation equals interpolation in the complete field");
    }
    if (ci->reducedDomain())
        FS_REACH("reduced");
    else
        FS_REACH("complete");
}
}
FS_HARNESS(nearest)
{
    backward(MIFI_INTERPOL_NEAREST_NEIGHBOR, 8, 6);
}
FS_HARNESS(bilinear)
{
    backward(MIFI_INTERPOL_BILINEAR, 8, 6);
}
FS_HARNESS(bicubic)
{
    backward(MIFI_INTERPOL_BICUBIC, 8, 6);
}
FS_HARNESS(forward)
{
    size_t nx = 7, ny = 2, nz = 2, n = nx * ny;
    const int METHODS[] = {MIFI_INTERPOL_FORWARD_SUM, MIFI_INTERPOL_FORWARD_MEAN, MIFI_INTERPOL_FORWARD_MEDIAN, MIFI_INTERPOL_FORWARD_MAX, MIFI_INTERPOL_FORWARD_MIN, MIFI_INTERPOL_FORWARD_UNDEF_SUM, MIFI_INTERPOL_FORWARD_UNDEF_MEAN, MIFI_INTERPOL_FORWARD_UNDEF_MEDIAN, MIFI_INTERPOL_FORWARD_UNDEF_MAX, MIFI_INTERPOL_FORWARD_UNDEF_MIN};
    int mi = fs_pick("method", 0, 9);
    bool undefAgg = mi >= 5;
    std::vector<float> v;
    MemReader_p r = grid(nx, ny, nz, v);
    float* data = (float*)r->full("v")->getDataPtr();
    // the points that reach the output, the others are outside
    int first = fs_pick("first", 0, 2);
    size_t p0 = first == 0 ? 0 : first == 1 ? 4 : 9, np = 3;
    auto px = make_shared_array<double>(n), py = make_shared_array<double>(n);
    std::vector<int> cell(n, -1);
    const double OUT[] = {-0.75, 1.75, 1e20, std::numeric_limits<double>::quiet_NaN()};
    for (size_t i = 0; i < n; i++) {
        px[i] = OUT[i % 4];
        py[i] = 0;
        if (i >= p0 && i < p0 + np) {
            int w = fs_pick("cell" + std::to_string(i - p0), 0, 3);
            px[i] = w < 2 ? w + (i % 2 ? 0.25 : -0.25) : 0;
            py[i] = w == 2 ? (i % 2 ? 0.75 : -1) : 0;
            cell[i] = w < 2 ? w : -1;
            if (w == 3)
                for (size_t z = 0; z < nz; z++)
                    data[z * n + i] = v[z * n + i] = UF;
            if (w == 3)
                cell[i] = 0;
        }
    }
    auto ci = std::make_shared<CachedForwardInterpolation>("x", "y", METHODS[mi], px, py, nx, ny, 2, 1);
    DataPtr in = ci->getInputDataSlice(r, "v", 0);
    FS_ASSERT(in->size() == ci->getInX() * ci->getInY() * nz, "size of the (reduced) input");
    size_t ns = 0;
    auto out = ci->interpolateValues(in->asFloat(), in->size(), ns);
    FS_ASSERT(ns == 2 * nz, "size of the output");
    for (size_t z = 0; z < nz; z++)
        for (int c = 0; c < 2; c++) {
            std::vector<float> s;
            bool undef = false;
            for (size_t i = 0; i < n; i++)
                if (cell[i] == c) {
                    float q = v[z * n + i];
                    if (q != q)
                        undef = true;
                    else
                        s.push_back(q);
                }
            float g = out[z * 2 + c];
            if (s.empty() || (undef && undefAgg)) {
                FS_ASSERT(g != g, "undefined forward-interpolated cell");
                continue;
            }
            double sum = 0, mx = s[0], mn = s[0];
            for (float q : s) {
                sum += q;
                mx = fs_sel(q > mx, q, mx);
                mn = fs_sel(q < mn, q, mn);
            }
            switch (mi % 5) {
            case 0: FS_ASSERT(g == sum, "forward sum"); break;
            case 1: FS_ASSERT(fs_near(g, sum / s.size(), 1e-3), "forward mean"); break;
            case 2: {
                if (s.size() == 1)
                    FS_ASSERT(g == s[0], "forward median of one");
                else if (s.size() == 2)
                    FS_ASSERT((g == mx) | (g == mn), "forward median of two");
                else
                    FS_ASSERT(g == sum - mx - mn, "forward median of three");
                break;
            }
            case 3: FS_ASSERT(g == mx, "forward max"); break;
            default: FS_ASSERT(g == mn, "forward min");
            }
        }
    if (ci->reducedDomain())
        FS_REACH("reduced");
    else
        FS_REACH("complete");
}
FS_HARNESS(vectors)
{
    auto m = std::make_shared<reproject::Matrix>(2, 1);
    const double A[][3] = {{1, 0, 0}, {0, 1, 90}, {-1, 0, 180}, {0.5, -0.25, -45}};
    int k[2];
    for (int i = 0; i < 2; i++) {
        k[i] = fs_pick("rot" + std::to_string(i), 0, 3);
        for (int j = 0; j < 3; j++)
            m->mtx()[3 * i + j] = A[k[i]][j];
    }
    CachedVectorReprojection cvr(m);
    auto u = make_shared_array<float>(4), v = make_shared_array<float>(4), a = make_shared_array<float>(4);
    std::vector<double> u0, v0, a0;
    for (int i = 0; i < 4; i++) {
        std::string n = std::to_string(i);
        u0.push_back(fs_real_or_nan("u" + n, -16, 16, 1));
        v0.push_back(fs_real("v" + n, -16, 16, 1));
        a0.push_back(fs_real("a" + n, 0, 360, 1));
        u[i] = u0[i];
        v[i] = v0[i];
        a[i] = a0[i];
    }
    cvr.reprojectValues(u, v, 4);
    cvr.reprojectDirectionValues(a, 4);
    for (int i = 0; i < 4; i++) {
        double c = A[k[i % 2]][0], s = A[k[i % 2]][1], r = A[k[i % 2]][2];
        FS_ASSERT(fs_near(u[i], u0[i] * c - v0[i] * s, 1e-3), "rotated x-component");
        FS_ASSERT(fs_near(v[i], u0[i] * s + v0[i] * c, 1e-3), "rotated y-component");
        double d = a[i] - (a0[i] - r);
        FS_ASSERT((a[i] >= 0) & (a[i] <= 360), "direction is normalized");
        FS_ASSERT((std::fabs(d) <= 1e-3) | (std::fabs(d - 360) <= 1e-3) | (std::fabs(d + 360) <= 1e-3), "rotated direction");
    }
    FS_REACH("rotated");
}
namespace {
struct Geo
{
    MemReader_p r;
    size_t nx, ny, nz, nt;
    std::vector<int> v;
    bool hasZ, fill;
};
Geo geo()
{
    Geo g;
    g.r = memReader();
    g.nx = 5, g.ny = 4, g.nz = 2, g.nt = 2;
    g.hasZ = fs_pick("hasz", 0, 1);
    MemReader& r = *g.r;
    r.cdm().addAttribute(CDM::globalAttributeNS(), CDMAttribute("Conventions", "CF-1.4"));
    r.dim("lon", g.nx);
    r.dim("lat", g.ny);
    r.dim("level", g.nz);
    r.dim("time", g.nt, true);
    r.var("lon", CDM_DOUBLE, {"lon"}, std::vector<double>{0, 10, 20, 30, 40});
    r.att("lon", "units", "degrees_east");
    r.att("lon", "standard_name", "longitude");
    r.var("lat", CDM_DOUBLE, {"lat"}, std::vector<double>{30, 40, 50, 60});
    r.att("lat", "units", "degrees_north");
    r.att("lat", "standard_name", "latitude");
    r.var("level", CDM_DOUBLE, {"level"}, std::vector<double>{1, 2});
    r.att("level", "units", "m");
    r.var("time", CDM_DOUBLE, {"time"}, std::vector<double>{0, 1});
    r.att("time", "units", "hours since 2000-01-01");
    Names sh = g.hasZ ? Names{"lon", "lat", "level", "time"} : Names{"lon", "lat", "time"};
    size_t n = g.nx * g.ny * (g.hasZ ? g.nz : 1) * g.nt;
    DataPtr d = symInts("v", n, g.v, -64, 64);
    r.var("v", CDM_INT, sh, d);
    g.fill = fs_pick("fill", 0, 1);
    if (g.fill) {
        g.r->att<int>("v", "_FillValue", -99);
        ((int*)d->getDataPtr())[2 + g.nx * 1] = -99; // lon 20, lat 40 of the first time
        g.v[2 + g.nx * 1] = -99;
    }
    r.var("w", CDM_INT, {"level"}, std::vector<double>{7, 8});
    return g;
}
// nearest neighbour value
int nearestOf(const Geo& g, double lon, double lat, size_t z, size_t t)
{
    long i = std::lround(lon / 10), j = std::lround((lat - 30) / 10);
    if (i < 0 || j < 0 || i >= (long)g.nx || j >= (long)g.ny)
        return -99;
    return g.v[i + g.nx * (j + g.ny * (z + (g.hasZ ? g.nz : 1) * t))];
}
}
FS_HARNESS(dataset)
{
    fs_text_lossy(1);
    Geo g = geo();
    if (!g.fill)
        g.r->att<int>("v", "_FillValue", -99);
    bool inmem = fs_pick("inmem", 0, 1);
    if (inmem)
        g.r->cdm().getVariable("v").setData(g.r->full("v")->clone());
    auto ip = std::make_shared<CDMInterpolator>(g.r);
    int mode = fs_pick("mode", 0, 2);
    int off = fs_pick("off", 0, 1);
    std::vector<double> lo{off ? 31. : mode == 1 ? -50. : -9., off ? 38. : 9., 21}, la{off ? 52. : 33., 47};
    std::vector<double> plon, plat; // positions of the result, lon fastest
    size_t ox, oy;
    if (mode == 2) { // points
        plon = {lo[0], lo[1], lo[2]};
        plat = {la[0], la[1], la[0]};
        ip->changeProjection(MIFI_INTERPOL_NEAREST_NEIGHBOR, plon, plat);
        ox = 3, oy = 1;
    } else {
        ip->changeProjection(mode ? MIFI_INTERPOL_COORD_NN : MIFI_INTERPOL_NEAREST_NEIGHBOR, "+proj=latlong +datum=WGS84", lo, la, "degree", "degree", CDM_DOUBLE, CDM_FLOAT);
        ox = 3, oy = 2;
        for (double b : la)
            for (double a : lo) {
                plon.push_back(a);
                plat.push_back(b);
            }
        auto x = ip->getData("lon")->asDouble(), y = ip->getData("lat")->asDouble();
        FS_ASSERT(ip->getData("lon")->size() == ox && ip->getData("lat")->size() == oy, "size of the new axes");
        for (size_t i = 0; i < ox; i++)
            FS_ASSERT(x[i] == lo[i], "values of the new x-axis");
        for (size_t i = 0; i < oy; i++)
            FS_ASSERT(y[i] == la[i], "values of the new y-axis");
    }
    const CDM& cdm = ip->getCDM();
    const std::string X = mode == 2 ? "x" : "lon", Y = mode == 2 ? "y" : "lat";
    FS_ASSERT(cdm.getDimension(X).getLength() == ox && cdm.getDimension(Y).getLength() == oy, "new dimensions");
    size_t nz = g.hasZ ? g.nz : 1;
    auto expect = [&](size_t i, size_t j, size_t z, size_t t) { return nearestOf(g, plon[i + j * ox], plat[i + j * ox], z, t); };
    DataPtr all = ip->getData("v");
    FS_ASSERT(all->size() == ox * oy * nz * g.nt, "size of the interpolated variable");
    auto a = all->asInt();
    for (size_t k = 0; k < all->size(); k++)
        FS_ASSERT(a[k] == expect(k % ox, k / ox % oy, k / ox / oy % nz, k / ox / oy / nz), "interpolated value");
    for (size_t t = 0; t < g.nt; t++) {
        DataPtr s = ip->getDataSlice("v", t);
        FS_ASSERT(s->size() == ox * oy * nz, "size of an interpolated slice");
        auto b = s->asInt();
        for (size_t k = 0; k < s->size(); k++)
            FS_ASSERT(b[k] == a[k + t * s->size()], "slice equals the complete data");
    }
    // box
    SliceBuilder sb(cdm, "v");
    size_t xs = fs_pick("xs", 0, 2), zs = fs_pick("zs", 0, g.hasZ ? 1 : 0), ts = fs_pick("ts", 0, 1);
    size_t nbx = xs == 0 ? 2 : 1;
    sb.setStartAndSize(X, xs, nbx);
    sb.setStartAndSize(Y, oy - 1, 1);
    if (g.hasZ)
        sb.setStartAndSize("level", zs, 1);
    sb.setStartAndSize("time", ts, 1);
    DataPtr s = ip->getDataSlice("v", sb);
    FS_ASSERT(s->size() == nbx, "size of a box");
    auto b = s->asInt();
    for (size_t i = 0; i < nbx; i++)
        FS_ASSERT(b[i] == expect(xs + i, oy - 1, zs, ts), "box equals the complete data");
    auto w = ip->getData("w")->asInt();
    FS_ASSERT(w[0] == 7 && w[1] == 8, "variable without position");
    // the source has not changed
    auto o = g.r->getData("v")->asInt();
    for (size_t i = 0; i < g.v.size(); i++)
        FS_ASSERT(o[i] == g.v[i], "source unchanged");
    FS_ASSERT(g.r->getData("lon")->size() == g.nx, "source unchanged");
    FS_REACH("interpolated");
}

FS_HARNESS(winds)
{
    fs_text_lossy(1);
    MemReader_p r = memReader();
    r->cdm().addAttribute(CDM::globalAttributeNS(), CDMAttribute("Conventions", "CF-1.4"));
    r->dim("lon", 3);
    r->dim("lat", 3);
    r->var("lon", CDM_DOUBLE, {"lon"}, std::vector<double>{0, 10, 20});
    r->att("lon", "units", "degrees_east");
    r->att("lon", "standard_name", "longitude");
    r->var("lat", CDM_DOUBLE, {"lat"}, std::vector<double>{50, 60, 70});
    r->att("lat", "units", "degrees_north");
    r->att("lat", "standard_name", "latitude");
    std::vector<float> c[2];
    const char* NAME[] = {"u", "v"};
    for (int i = 0; i < 2; i++) {
        r->var(NAME[i], CDM_FLOAT, {"lon", "lat"}, symFloats(NAME[i], 9, c[i]));
        r->att(NAME[i], "standard_name", i ? "y_wind" : "x_wind");
        r->att(NAME[i], "units", "m/s");
    }
    auto ip = std::make_shared<CDMInterpolator>(r);
    const std::string P[] = {"+proj=stere +lat_0=90 +lon_0=58 +lat_ts=60 +ellps=sphere +R=6371000", "+proj=merc +lon_0=0 +ellps=sphere +R=6371000"};
    const int pi = fs_pick("proj", 0, 1);
    const std::string& proj = P[pi];
    // two output points close to lon 10, lat 60 and lon 20, lat 50
    std::vector<double> ax, ay;
    {
        double x[] = {10, 20}, y[] = {60, 50};
        reproject::reproject_values(MIFI_WGS84_LATLON_PROJ4, proj, x, y, 2);
        ax = {x[0], x[1]};
        ay = {y[0], y[1]};
    }
    ip->changeProjection(MIFI_INTERPOL_NEAREST_NEIGHBOR, proj, ax, ay, "m", "m", CDM_DOUBLE, CDM_DOUBLE);
    auto m = reproject::get_vector_reproject_matrix(MIFI_WGS84_LATLON_PROJ4, proj, ax.data(), ay.data(), MIFI_PROJ_AXIS, MIFI_PROJ_AXIS, 2, 2);
    auto u = ip->getData("u")->asFloat(), v = ip->getData("v")->asFloat();
    const size_t IN[] = {1 + 3 * 1, 2 + 3 * 0};
    for (int i = 0; i < 2; i++) { // the diagonal
        size_t o = i + 2 * i;
        double cs = m->mtx()[3 * o], sn = m->mtx()[3 * o + 1], a = c[0][IN[i]], b = c[1][IN[i]];
        FS_ASSERT(std::fabs(cs * cs + sn * sn - 1) < 1e-6, "rotation keeps the length");
        double rot = pi ? 0 : ((i ? 20 : 10) - 58) * M_PI / 180; // conformal projections: convergence of the meridians
        FS_ASSERT(std::fabs(cs - std::cos(rot)) < 1e-2 && std::fabs(sn - std::sin(rot)) < 1e-2, "rotation is the convergence of the meridians");
        FS_ASSERT(fs_near(u[o], a * cs - b * sn, 1e-2), "x-component in the new projection");
        FS_ASSERT(fs_near(v[o], a * sn + b * cs, 1e-2), "y-component in the new projection");
    }
    FS_REACH("winds");
}
/* data on a polar stereographic grid, interpolated to points, a template, or another grid */
FS_HARNESS(projected)
{
    fs_text_lossy(1);
    const std::string src = "+proj=stere +lat_0=90 +lon_0=0 +lat_ts=90 +R=6371000 +no_defs", other = "+proj=stere +lat_0=90 +lon_0=40 +lat_ts=90 +R=6371000 +no_defs";
    const int mode = (int)fs_pick("mode", 0, 4); // points, template, geographic grid, other projection, by coordinates
    const int method = mode == 4 ? MIFI_INTERPOL_COORD_NN : fs_pick("method", 0, 1) ? MIFI_INTERPOL_BILINEAR : MIFI_INTERPOL_NEAREST_NEIGHBOR;
    const bool km = fs_pick("km", 0, 1), winds = mode != 4 && fs_pick("winds", 0, 1);
    const int nx = 4, ny = 3;
    const double X0 = -700e3, DX = 300e3, Y0 = -2300e3, DY = 400e3;
    MemReader_p r = memReader();
    r->att(r->cdm().globalAttributeNS(), "Conventions", "CF-1.4");
    r->dim("xc", nx);
    r->dim("yc", ny);
    r->dim("time", 1, true);
    std::vector<double> ax, ay;
    for (int i = 0; i < nx; i++)
        ax.push_back((X0 + i * DX) / (km ? 1000 : 1));
    for (int i = 0; i < ny; i++)
        ay.push_back((Y0 + i * DY) / (km ? 1000 : 1));
    r->var("xc", CDM_DOUBLE, {"xc"}, ax);
    r->var("yc", CDM_DOUBLE, {"yc"}, ay);
    r->var("time", CDM_DOUBLE, {"time"}, std::vector<double>{3});
    r->att("xc", "standard_name", "projection_x_coordinate");
    r->att("yc", "standard_name", "projection_y_coordinate");
    r->att("xc", "units", km ? "km" : "m");
    r->att("yc", "units", km ? "km" : "m");
    r->att("time", "units", "hours since 2000-01-01 00:00:00");
    r->var("pr", CDM_INT, Names{}, std::vector<double>{0});
    r->att("pr", "grid_mapping_name", "polar_stereographic");
    r->att("pr", "straight_vertical_longitude_from_pole", 0.);
    r->att("pr", "latitude_of_projection_origin", 90.);
    r->att("pr", "standard_parallel", 90.);
    r->att("pr", "earth_radius", 6371000.);
    std::vector<float> d[2];
    std::vector<int> di[2];
    const char* NAME[] = {"u", "v"};
    for (int i = 0; i < 2; i++) {
        if (mode == 4) { // values that tell the position
            std::vector<double> w;
            for (int j = 0; j < nx * ny; j++) {
                di[i].push_back(100 * i + j);
                w.push_back(100 * i + j);
            }
            r->var(NAME[i], CDM_INT, {"xc", "yc", "time"}, w);
        } else
            r->var(NAME[i], CDM_FLOAT, {"xc", "yc", "time"}, symFloats(NAME[i], nx * ny, d[i]));
        r->att(NAME[i], "grid_mapping", "pr");
        r->att(NAME[i], "units", "m/s");
        if (mode == 4)
            r->att(NAME[i], "_FillValue", -99999);
        else
            r->att(NAME[i], "_FillValue", -999.f);
        if (winds)
            r->att(NAME[i], "standard_name", i ? "y_wind" : "x_wind");
    }
    // longitude and latitude of the points of the result
    int ox = 3, oy = 2;
    const double fx[6] = {1.3, 2.6, 0.2, 4.6, 1.8, 2.3}, fy[6] = {1.4, 0.3, 1.7, 1.1, 0.9, -0.7};
    std::vector<double> lon(6), lat(6);
    auto ip = std::make_shared<CDMInterpolator>(r);
    std::string X = "x", Y = "y";
    for (int i = 0; i < 6; i++) {
        lon[i] = X0 + DX * fx[i];
        lat[i] = Y0 + DY * fy[i];
    }
    if (mode < 2)
        reproject::reproject_values(src, MIFI_WGS84_LATLON_PROJ4, lon.data(), lat.data(), 6);
    if (mode == 0) {
        ip->changeProjection(method, lon, lat);
        ox = 6, oy = 1;
    } else if (mode == 1) {
        MemReader_p t = memReader();
        t->att(t->cdm().globalAttributeNS(), "Conventions", "CF-1.4");
        t->dim("a", ox);
        t->dim("b", oy);
        t->var("a", CDM_FLOAT, {"a"}, std::vector<double>{5, 6, 7});
        t->var("b", CDM_INT, {"b"}, std::vector<double>{8, 9});
        t->att("a", "standard_name", "projection_x_coordinate");
        t->att("b", "standard_name", "projection_y_coordinate");
        t->att("a", "units", "m");
        t->att("b", "units", "km");
        t->var("lon2", CDM_DOUBLE, {"a", "b"}, lon);
        t->var("lat2", CDM_DOUBLE, {"a", "b"}, lat);
        t->att("lon2", "units", "degrees_east");
        t->att("lat2", "units", "degrees_north");
        t->var("refvar", CDM_INT, {"a", "b"});
        t->att("refvar", "coordinates", "lon2 lat2");
        ip->changeProjection(method, t, "refvar");
        auto x = ip->getData("x")->asDouble(), y = ip->getData("y")->asDouble();
        FS_ASSERT(ip->getData("x")->size() == 3 && ip->getData("y")->size() == 2, "axes of the template");
        FS_ASSERT(x[0] == 5 && x[1] == 6 && x[2] == 7 && y[0] == 8 && y[1] == 9, "axes of the template");
        FS_ASSERT(ip->getCDM().getUnits("x") == "m" && ip->getCDM().getUnits("y") == "km", "units of the axes of the template");
    } else {
        const std::string P = mode == 3 ? other : std::string(MIFI_WGS84_LATLON_PROJ4);
        std::vector<double> cx, cy;
        double a[3], b[3];
        for (int i = 0; i < 3; i++)
            a[i] = lon[i == 2 ? 3 : i], b[i] = lat[i];
        reproject::reproject_values(src, P, a, b, 3);
        cx = {a[0], a[1], a[2]};
        cy = {b[0], b[1]};
        const double f = mode == 3 ? 1000 : 1;
        std::vector<double> gx = cx, gy = cy;
        for (auto& v : gx)
            v /= f;
        for (auto& v : gy)
            v /= f;
        ip->changeProjection(method, P, gx, gy, mode == 3 ? "km" : "degrees_east", mode == 3 ? "km" : "degrees_north", CDM_DOUBLE, CDM_DOUBLE);
        X = ip->getCDM().getVariable("u").getShape()[0];
        Y = ip->getCDM().getVariable("u").getShape()[1];
        for (int i = 0; i < 6; i++) {
            lon[i] = cx[i % 3];
            lat[i] = cy[i / 3];
        }
        if (mode == 3)
            reproject::reproject_values(P, MIFI_WGS84_LATLON_PROJ4, lon.data(), lat.data(), 6);
        auto x = ip->getData(X)->asDouble(), y = ip->getData(Y)->asDouble();
        for (int i = 0; i < 3; i++)
            FS_ASSERT(std::fabs(x[i] - gx[i]) < 1e-9, "new x-axis");
        for (int i = 0; i < 2; i++)
            FS_ASSERT(std::fabs(y[i] - gy[i]) < 1e-9, "new y-axis");
    }
    const CDM& cdm = ip->getCDM();
    FS_ASSERT((int)cdm.getDimension(X).getLength() == ox && (int)cdm.getDimension(Y).getLength() == oy, "new dimensions");
    FS_ASSERT(mode > 1 || (!cdm.hasDimension("xc") && !cdm.hasDimension("yc")), "old dimensions are gone");
    FS_ASSERT(cdm.getVariable("u").getShape().size() == 3, "shape of the result");
    if (mode < 2) {
        auto a = ip->getData("longitude")->asDouble(), b = ip->getData("latitude")->asDouble();
        FS_ASSERT(ip->getData("longitude")->size() == 6 && ip->getData("latitude")->size() == 6, "coordinates of the points");
        for (int i = 0; i < 6; i++)
            FS_ASSERT(std::fabs(a[i] - lon[i]) < 1e-9 && std::fabs(b[i] - lat[i]) < 1e-9, "coordinates of the points");
        CDMAttribute c;
        FS_ASSERT(cdm.getAttribute("u", "coordinates", c) && c.getStringValue() == "longitude latitude", "coordinates attribute");
        FS_ASSERT(!cdm.getAttribute("u", "grid_mapping", c), "no grid mapping");
    }
    // position in the original grid
    std::vector<double> px = lon, py = lat;
    reproject::reproject_values(MIFI_WGS84_LATLON_PROJ4, src, px.data(), py.data(), 6);
    const bool box = fs_pick("box", 0, 1);
    DataPtr R[2];
    for (int c = 0; c < 2; c++) {
        if (box) {
            SliceBuilder sb(cdm, NAME[c]);
            sb.setStartAndSize(X, 1, 1);
            R[c] = ip->getDataSlice(NAME[c], sb);
            FS_ASSERT((int)R[c]->size() == oy, "size of a box");
        } else {
            R[c] = ip->getDataSlice(NAME[c], 0);
            FS_ASSERT((int)R[c]->size() == 6, "size of the result");
        }
    }
    int in = 0, out = 0;
    for (int i = 0; i < 6; i++) {
        if (box && i % ox != 1)
            continue;
        const double ix = (px[i] - X0) / DX, iy = (py[i] - Y0) / DY;
        double e[2];
        bool inside;
        auto at = [&](int c, int a, int b) { return mode == 4 ? (double)di[c][a + nx * b] : (double)d[c][a + nx * b]; };
        if (method == MIFI_INTERPOL_BILINEAR) {
            inside = ix >= 0 && iy >= 0 && ix <= nx - 1 && iy <= ny - 1;
            if (inside) {
                const int a = (int)ix, b = (int)iy;
                const double s = ix - a, t = iy - b;
                for (int c = 0; c < 2; c++)
                    e[c] = (1 - s) * (1 - t) * at(c, a, b) + s * (1 - t) * at(c, a + 1, b) + (1 - s) * t * at(c, a, b + 1) + s * t * at(c, a + 1, b + 1);
            }
            if (std::fabs(ix) < 0.01 || std::fabs(ix - nx + 1) < 0.01 || std::fabs(iy) < 0.01 || std::fabs(iy - ny + 1) < 0.01)
                continue; // on the border
        } else if (mode == 4) { // closest on the sphere
            double best[2] = {1e9, 1e9};
            int k = 0;
            for (int j = 0; j < nx * ny; j++) {
                double lo = X0 + DX * (j % nx), la = Y0 + DY * (j / nx);
                reproject::reproject_values(src, MIFI_WGS84_LATLON_PROJ4, &lo, &la, 1);
                const double g = M_PI / 180, h = std::acos(std::sin(la * g) * std::sin(lat[i] * g) + std::cos(la * g) * std::cos(lat[i] * g) * std::cos((lo - lon[i]) * g));
                if (h < best[0]) {
                    best[1] = best[0];
                    best[0] = h;
                    k = j;
                } else if (h < best[1])
                    best[1] = h;
            }
            inside = ix >= 0 && iy >= 0 && ix <= nx - 1 && iy <= ny - 1;
            if (!inside || best[1] < 1.02 * best[0])
                continue;
            for (int c = 0; c < 2; c++)
                e[c] = at(c, k % nx, k / nx);
        } else {
            const long a = std::lround(ix), b = std::lround(iy);
            inside = a >= 0 && b >= 0 && a < nx && b < ny;
            if (std::fabs(ix - a) > 0.49 || std::fabs(iy - b) > 0.49)
                continue; // in the middle
            for (int c = 0; c < 2 && inside; c++)
                e[c] = at(c, a, b);
        }
        const int q = box ? i / ox : i;
        const double gu = mode == 4 ? (double)((const int*)R[0]->getDataPtr())[q] : (double)((const float*)R[0]->getDataPtr())[q];
        const double gv = mode == 4 ? (double)((const int*)R[1]->getDataPtr())[q] : (double)((const float*)R[1]->getDataPtr())[q];
        if (!inside) {
            out++;
            FS_ASSERT(gu == -999 && gv == -999, "outside of the grid");
            continue;
        }
        in++;
        if (winds) { // east is (cos l, sin l) on the original grid
            const double l = lon[i] * M_PI / 180, k = mode == 3 ? l - 40 * M_PI / 180 : 0;
            const double E = e[0] * std::cos(l) + e[1] * std::sin(l), N = -e[0] * std::sin(l) + e[1] * std::cos(l);
            e[0] = E * std::cos(k) - N * std::sin(k);
            e[1] = E * std::sin(k) + N * std::cos(k);
        }
        FS_ASSERT(fs_near(gu, e[0], 1e-2), "x-component");
        FS_ASSERT(fs_near(gv, e[1], 1e-2), "y-component");
    }
    FS_ASSERT(in > 0 || box, "points inside");
    FS_ASSERT(out > 0 || box || mode == 4, "points outside");
    FS_REACH("projected");
}
/* only cells within the distance of interest get values */
FS_HARNESS(distance)
{
    fs_text_lossy(1);
    MemReader_p r = memReader();
    r->att(r->cdm().globalAttributeNS(), "Conventions", "CF-1.4");
    const int nx = 3, ny = 2;
    const double LO[] = {10, 20, 30}, LA[] = {50, 60};
    r->dim("lon", nx);
    r->dim("lat", ny);
    r->var("lon", CDM_DOUBLE, {"lon"}, std::vector<double>(LO, LO + nx));
    r->att("lon", "units", "degrees_east");
    r->var("lat", CDM_DOUBLE, {"lat"}, std::vector<double>(LA, LA + ny));
    r->att("lat", "units", "degrees_north");
    std::vector<int> v;
    r->var("v", CDM_INT, {"lon", "lat"}, symInts("v", nx * ny, v, 0, 99));
    r->att("v", "_FillValue", -99);
    auto ip = std::make_shared<CDMInterpolator>(r);
    const int set = (int)fs_pick("set", 0, 2), metric = (int)fs_pick("metric", 0, 2); // degrees, m, km
    double dist = set == 1 ? 400e3 : 150e3; // m
    if (set)
        ip->setDistanceOfInterest(dist);
    std::vector<double> ax, ay;
    const double step = fs_pick("step", 0, 1) ? 3 : 1.5; // degrees
    const double x0 = 17.2, y0 = fs_pick("y0", 0, 1) ? 58.6 : 46.1;
    std::string proj = "+proj=latlong +R=6371000 +no_defs";
    const double g = M_PI / 180, R = 6371000;
    const double f = metric ? g * R / (metric == 2 ? 1000 : 1) : 1;
    if (metric)
        proj = "+proj=eqc +R=6371000 +no_defs";
    for (int i = 0; i < 3; i++)
        ax.push_back((x0 + i * step) * f);
    for (int i = 0; i < 2; i++)
        ay.push_back((y0 + i * step) * f);
    ip->changeProjection(MIFI_INTERPOL_COORD_NN_KD, proj, ax, ay, metric ? (metric == 2 ? "km" : "m") : "degrees_east", metric ? (metric == 2 ? "km" : "m") : "degrees_north", CDM_DOUBLE, CDM_DOUBLE);
    if (!set)
        dist = step * g * R;
    DataPtr d = ip->getData("v");
    FS_ASSERT(d->size() == 6, "size of the result");
    auto a = d->asInt();
    for (int i = 0; i < 6; i++) {
        double lo = x0 + (i % 3) * step, la = y0 + (i / 3) * step, best = 1e9, second = 1e9;
        reproject::reproject_values("+proj=latlong +R=6371000 +no_defs", MIFI_WGS84_LATLON_PROJ4, &lo, &la, 1);
        int k = -1;
        for (int j = 0; j < nx * ny; j++) {
            const double lj = LO[j % nx], bj = LA[j / nx];
            const double h = R * std::acos(std::sin(la * g) * std::sin(bj * g) + std::cos(la * g) * std::cos(bj * g) * std::cos((lo - lj) * g));
            if (h < best) {
                second = best;
                best = h;
                k = j;
            } else if (h < second)
                second = h;
        }
        if (best > 1.01 * dist)
            FS_ASSERT(a[i] == -99, "cell out of reach is undefined");
        else if (best < 0.99 * dist && best < 0.99 * second)
            FS_ASSERT(a[i] == v[k], "closest cell");
    }
    FS_REACH("distance");
}
/* axes fitted to the extent of the data */
FS_HARNESS(fitted)
{
    fs_text_lossy(1);
    MemReader_p r = memReader();
    r->att(r->cdm().globalAttributeNS(), "Conventions", "CF-1.4");
    const int nx = (int)fs_pick("nx", 2, 4), ny = (int)fs_pick("ny", 2, 4);
    std::vector<double> lo, la;
    for (int i = 0; i < nx; i++)
        lo.push_back(5 + 8. * i);
    for (int i = 0; i < ny; i++)
        la.push_back(71 - 5. * i);
    const bool two = fs_pick("two", 0, 1); // axes with two dimensions
    r->dim("x", nx);
    r->dim("y", ny);
    if (two) {
        std::vector<double> l, b;
        for (int i = 0; i < nx * ny; i++) {
            l.push_back(lo[i % nx]);
            b.push_back(la[i / nx]);
        }
        r->var("lon", CDM_DOUBLE, {"x", "y"}, l);
        r->var("lat", CDM_DOUBLE, {"x", "y"}, b);
        r->att("lon", "units", "degrees_east");
        r->att("lat", "units", "degrees_north");
    } else {
        r->var("x", CDM_DOUBLE, {"x"}, lo);
        r->var("y", CDM_DOUBLE, {"y"}, la);
        r->att("x", "units", "degrees_east");
        r->att("y", "units", "degrees_north");
    }
    r->var("v", CDM_INT, {"x", "y"});
    if (two)
        r->att("v", "coordinates", "lon lat");
    r->mem["v"] = createData(CDM_INT, nx * ny, 1.);
    auto ip = std::make_shared<CDMInterpolator>(r);
    const int pk = (int)fs_pick("proj", 0, 2);
    const std::string P[] = {"+proj=stere +lat_0=90 +lon_0=58 +lat_ts=60 +R=6371000 +no_defs", "+proj=lcc +lat_0=60 +lon_0=10 +lat_1=60 +R=6371000 +no_defs", "+proj=ob_tran +o_proj=longlat +lon_0=10 +o_lat_p=30 +R=6371000 +no_defs"};
    const bool deg = pk == 2;
    const double step = deg ? 0.5 : 50000;
    ip->changeProjection(MIFI_INTERPOL_COORD_NN, P[pk], deg ? "0,0.5,...,x;relativeStart=0" : "0,50000,...,x;relativeStart=0", deg ? "0,0.5,...,x;relativeStart=0" : "0,50000,...,x;relativeStart=0", deg ? "degrees" : "m", deg ? "degrees" : "m", "double", "double");
    double mi[2] = {1e9, 1e9}, ma[2] = {-1e9, -1e9};
    for (int i = 0; i < nx * ny; i++) {
        double c[2] = {lo[i % nx], la[i / nx]};
        reproject::reproject_values(MIFI_WGS84_LATLON_PROJ4, P[pk], &c[0], &c[1], 1);
        for (int k = 0; k < 2; k++) {
            mi[k] = std::min(mi[k], c[k]);
            ma[k] = std::max(ma[k], c[k]);
        }
    }
    const Names shape = ip->getCDM().getVariable("v").getShape();
    for (int k = 0; k < 2; k++) {
        DataPtr d = ip->getData(shape[k]);
        auto a = d->asDouble();
        const size_t n = d->size();
        FS_ASSERT(n > 0 && std::fabs(a[0] - mi[k]) <= step, "begin of the axis");
        FS_ASSERT(n > 0 && std::fabs(a[n - 1] - ma[k]) <= step, "end of the axis");
    }
    FS_REACH("fitted");
}
