/*FS {
 "regex": true,
 "quick_s": 60, "thorough_s": 400,
 "bounds": ["transition: grids of 1..9 x 9 points (thorough: 1..12 x 1..12), transition 1..4 and border 0..2 points, arbitrary values", "smoothing, overlay and merging on a longitude-latitude grid of 4x3 points inside one of 6x5 points, 2 times, one arbitrary value at each position of the inner grid in turn, possibly undefined; float, packed short, or double; same or other units; in memory or read; slices missing in one of the sources", "variables without horizontal position: scalars (packed), and with a level"],
 "outside": ["grids which do not fall together (interpolation is in C07 and C09)", "undefined outer values in merging to an extended grid (interpolated bilinearly)", "projections other than latitude-longitude", "different vertical levels or times of the two sources (refused or documented as not checked)"]
} */
#include "h.h"
#include "fimex/CDMBorderSmoothing.h"
#include "fimex/CDMBorderSmoothing_Linear.h"
#include "fimex/CDMMerger.h"
#include "fimex/CDMOverlay.h"
#include <cmath>

FS_HARNESS(linear)
{
    const int base = (int)fs_int("base", -100, 100), by = (int)fs_int("by", 0, 100);
    const bool up = fs_pick("up", 0, 1);
    const double vi = up ? base : base + by, vo = up ? base + by : base, lo = base, hi = base + by;
    const bool deep = fs_thorough();
    const size_t nx = fs_pick("nx", 1, deep ? 12 : 9), T = fs_pick("transition", 1, 4), B = fs_pick("border", 0, 2);
    const size_t ny = deep ? fs_pick("ny", 1, 12) : 9;
    const bool swap = fs_pick("swap", 0, 1);
    CDMBorderSmoothing_Linear s(T, B);
    if (swap)
        s.setHorizontalSizes(ny, nx);
    else
        s.setHorizontalSizes(nx, ny);
    auto val = [&](size_t x, size_t y) { return swap ? s(y, x, vi, vo) : s(x, y, vi, vo); };
    auto inside = [](size_t i, size_t b, size_t n) { return i >= b && i + b < n; };
    for (size_t x = 0; x < nx; x++)
        for (size_t y = 0; y < ny; y++) {
            const double v = val(x, y);
            if (!inside(x, B, nx) || !inside(y, B, ny))
                FS_ASSERT(v == vo, "outer value at the border");
            else if (inside(x, B + T, nx) && inside(y, B + T, ny))
                FS_ASSERT(v == vi, "inner value inside of border and transition");
            else {
                FS_ASSERT(v >= lo - 1e-6, "transition between inner and outer value");
                FS_ASSERT(v <= hi + 1e-6, "transition between inner and outer value");
            }
        }
    // linear in the transition, away from the corners
    if (nx >= 2 * (T + B) && ny > 2 * (T + B)) {
        const size_t y = B + T;
        for (size_t x = B; x + 1 < B + T; x++)
            FS_ASSERT(fs_near(T * (val(x, y) - val(x + 1, y)), vo - vi, 1e-6), "linear transition");
        for (size_t x = nx - B - T; x + 1 < nx - B; x++)
            FS_ASSERT(fs_near(T * (val(x + 1, y) - val(x, y)), vo - vi, 1e-6), "linear transition");
        for (size_t x = 0; x < nx; x++) // ... and the same for all rows in the middle
            for (size_t y2 = B + T; y2 < ny - B - T; y2++)
                FS_ASSERT(val(x, y2) == val(x, y), "transition depends on the distance to the border only");
    }
    FS_REACH("linear");
}

namespace {
const double UNDEF = std::numeric_limits<double>::quiet_NaN();
struct Src
{
    MemReader_p r;
    size_t nx, ny, nt;
    int type;          // float, packed short, double
    double scale = 1, offset = 0;
    std::vector<double> v; // unpacked
};
double lonOf(bool outer, size_t i) { return outer ? 10. + 10 * i : 20. + 10 * i; }
double latOf(bool outer, size_t i) { return outer ? 30. + 10 * i : 40. + 10 * i; }
const int FILLI = -3000, FILLO = 77; // (the latter is a possible inner value)

/* position sx, sy, st has an arbitrary value, undefined in some cases */
Src source(bool outer, int type, size_t sx, size_t sy, size_t st, bool undef, const std::string& unit)
{
    Src s;
    s.r = memReader();
    MemReader& r = *s.r;
    s.nx = outer ? 6 : 4;
    s.ny = outer ? 5 : 3;
    s.nt = 2;
    s.type = type;
    r.cdm().addAttribute(CDM::globalAttributeNS(), CDMAttribute("Conventions", "CF-1.4"));
    r.dim("lon", s.nx);
    r.dim("lat", s.ny);
    r.dim("level", 2);
    r.dim("time", s.nt, true);
    std::vector<double> lon, lat;
    for (size_t i = 0; i < s.nx; i++)
        lon.push_back(lonOf(outer, i));
    for (size_t i = 0; i < s.ny; i++)
        lat.push_back(latOf(outer, i));
    r.var("lon", CDM_DOUBLE, {"lon"}, lon);
    r.att("lon", "units", "degrees_east");
    r.att("lon", "standard_name", "longitude");
    r.var("lat", CDM_DOUBLE, {"lat"}, lat);
    r.att("lat", "units", "degrees_north");
    r.att("lat", "standard_name", "latitude");
    r.var("time", CDM_DOUBLE, {"time"}, std::vector<double>{0, 6});
    r.att("time", "units", "hours since 2000-01-01 00:00:00");
    const CDMDataType T[] = {CDM_FLOAT, CDM_SHORT, CDM_DOUBLE};
    if (type == 1) {
        s.scale = outer ? 0.25 : 0.5;
        s.offset = outer ? 4 : 16;
    }
    const int FILL = outer ? FILLO : FILLI;
    DataPtr d = createData(T[type], s.nx * s.ny * s.nt, 0.);
    for (size_t k = 0; k < d->size(); k++) {
        const bool sym = k == sx + s.nx * (sy + s.ny * st);
        // other positions: all different
        const int p = sym ? (int)fs_int(outer ? "outer" : "inner", -90, outer ? 70 : 90) : (int)k + (outer ? 300 : 200);
        const int w = undef && sym ? FILL : p;
        if (type == 0)
            ((float*)d->getDataPtr())[k] = w;
        else if (type == 1)
            ((short*)d->getDataPtr())[k] = (short)w;
        else
            ((double*)d->getDataPtr())[k] = w;
        s.v.push_back(undef && sym ? UNDEF : p * s.scale + s.offset);
    }
    r.var("v", T[type], {"lon", "lat", "time"}, d);
    r.att("v", "units", unit.c_str());
    r.cdm().addAttribute("v", CDMAttribute("_FillValue", T[type], Names({std::to_string(FILL)})));
    if (type == 1) {
        r.att<double>("v", "scale_factor", s.scale);
        r.att<double>("v", "add_offset", s.offset);
    }
    // without position: scalar (packed), level, time
    r.var("c", CDM_SHORT, {}, std::vector<double>{outer ? 60. : 50.});
    r.att<double>("c", "scale_factor", outer ? 0.25 : 0.5);
    r.att<double>("c", "add_offset", outer ? 10 : 20);
    r.att<short>("c", "_FillValue", -9);
    r.var("l", CDM_INT, {"level"}, std::vector<double>{outer ? 3. : 1., outer ? 4. : 2.});
    r.att<int>("l", "_FillValue", -9);
    r.var("t", CDM_INT, {"time"}, std::vector<double>{outer ? 7. : 5., outer ? 8. : 6.});
    r.att<int>("t", "_FillValue", -9);
    return s;
}
// (delivered, compared to unpacked values)
double tol = 1e-4; // rounding and packing
#define same(a, e, m)                                                                                                                                          \
    do {                                                                                                                                                       \
        const double a_ = (a), e_ = (e);                                                                                                                       \
        if (e_ != e_)                                                                                                                                          \
            FS_ASSERT(a_ != a_, m);                                                                                                                            \
        else                                                                                                                                                   \
            FS_ASSERT(fs_near(a_, e_, tol), m);                                                                                                                 \
    } while (0)
/* complete, by slices and by boxes, unpacked; in the type of the inner variable */
void check(CDMReader_p q, const Src& in, size_t nx, size_t ny, const std::vector<double>& e)
{
    FS_ASSERT(q->getCDM().hasVariable("v"), "variable is kept");
    FS_ASSERT(q->getCDM().getVariable("v").getDataType() == in.r->getCDM().getVariable("v").getDataType(), "type of the variable");
    const size_t n = nx * ny;
    for (size_t t = 0; t < in.nt; t++) {
        DataPtr d = q->getDataSlice("v", t);
        FS_ASSERT(d->size() == n, "size of the slice");
        FS_ASSERT(d->getDataType() == q->getCDM().getVariable("v").getDataType(), "type of the data");
        auto a = q->getScaledDataSlice("v", t)->asDouble();
        for (size_t k = 0; k < n; k++)
            same(a[k], e[t * n + k], "value");
    }
    auto f = q->getScaledData("v")->asDouble();
    for (size_t k = 0; k < n * in.nt; k++)
        same(f[k], e[k], "complete data are those of the slices");
    SliceBuilder sb(q->getCDM(), "v");
    sb.setStartAndSize("lon", 1, nx - 2);
    auto b = q->getScaledDataSlice("v", sb)->asDouble();
    for (size_t k = 0; k < (nx - 2) * ny * in.nt; k++)
        same(b[k], e[k % (nx - 2) + 1 + k / (nx - 2) * nx], "data of a box are those of the slices");
    auto x = q->getScaledData("lon")->asDouble(), y = q->getScaledData("lat")->asDouble();
    for (size_t k = 0; k < nx; k++)
        FS_ASSERT(std::fabs(x[k] - lonOf(nx == 6, k)) < 1e-6, "x-axis");
    for (size_t k = 0; k < ny; k++)
        FS_ASSERT(std::fabs(y[k] - latOf(nx == 6, k)) < 1e-6, "y-axis");
    // variables without position are those of the inner source
    const CDM& cdm = q->getCDM();
    if (cdm.hasVariable("c"))
        same(q->getScaledData("c")->asDouble()[0], 45, "scalar of the inner source");
    if (cdm.hasVariable("c"))
        FS_ASSERT(q->getDataSlice("c", 0)->getDataType() == CDM_SHORT, "type of the scalar");
    if (cdm.hasVariable("l")) {
        auto l = q->getData("l")->asInt();
        FS_ASSERT(l[0] == 1 && l[1] == 2, "levels of the inner source");
    }
    if (cdm.hasVariable("t")) {
        auto l = q->getData("t")->asInt();
        FS_ASSERT(l[0] == 5 && l[1] == 6, "times of the inner source");
    }
}
struct Pair
{
    Src i, o;
    double uo; // unit of the outer source in the unit of the inner
    size_t sx, sy, st;
    double outerAt(size_t x, size_t y, size_t t) const { return o.v[x + 1 + o.nx * (y + 1 + o.ny * t)] * uo; } // at a position of the inner grid
    double innerAt(size_t x, size_t y, size_t t) const { return i.v[x + i.nx * (y + i.ny * t)]; }
};
Pair sources(bool pos, bool undefOuter = true)
{
    Pair p;
    const int kind = fs_pick("kind", 0, 3);
    const bool inmem = fs_pick("inmem", 0, 1);
    pos = pos && (fs_thorough() || (kind == 0 && !inmem));
    p.sx = pos ? fs_pick("sx", 0, 3) : 1;
    p.sy = pos ? fs_pick("sy", 0, 2) : 0;
    p.st = pos ? fs_pick("st", 0, 1) : 1;
    const int undef = fs_pick("undef", 0, undefOuter ? 3 : 1);
    const int TI[] = {0, 1, 2, 1}, TO[] = {0, 1, 0, 2};
    p.uo = kind == 2 ? 0.25 : 1;
    p.i = source(false, TI[kind], p.sx, p.sy, p.st, undef & 1, "m");
    p.o = source(true, TO[kind], p.sx + 1, p.sy + 1, p.st, undef & 2, kind == 2 ? "0.25 m" : "m");
    if (inmem)
        for (auto v : {"v", "c", "l", "t"}) {
            p.i.r->cdm().getVariable(v).setData(p.i.r->mem[v]->clone());
            p.o.r->cdm().getVariable(v).setData(p.o.r->mem[v]->clone());
        }
    return p;
}
void sourcesUnchanged(const Pair& p)
{
    for (const Src* s : {&p.i, &p.o}) {
        auto a = s->r->getScaledData("v")->asDouble();
        for (size_t k = 0; k < s->v.size(); k++)
            same(a[k], s->v[k], "sources are not changed");
    }
}
}

FS_HARNESS(smoothing)
{
    fs_text_lossy(1);
    Pair p = sources(true);
    const size_t T = 2, B = 0;
    auto q = std::make_shared<CDMBorderSmoothing>(p.i.r, p.o.r, MIFI_INTERPOL_NEAREST_NEIGHBOR);
    q->setSmoothing(std::make_shared<CDMBorderSmoothing_LinearFactory>(T, B));
    const bool useOuter = fs_pick("useOuter", 0, 1);
    q->setUseOuterIfInnerUndefined(useOuter);
    std::vector<double> e;
    CDMBorderSmoothing_Linear lin(T, B);
    lin.setHorizontalSizes(p.i.nx, p.i.ny);
    for (size_t t = 0; t < 2; t++)
        for (size_t y = 0; y < p.i.ny; y++)
            for (size_t x = 0; x < p.i.nx; x++) {
                const double a = p.innerAt(x, y, t), b = p.outerAt(x, y, t);
                e.push_back(a != a ? (useOuter ? b : UNDEF) : b != b ? a : lin(x, y, a, b));
            }
    tol += p.i.type == 1 ? p.i.scale / 2 : 0;
    check(q, p.i, p.i.nx, p.i.ny, e);
    tol = 1e-4;
    sourcesUnchanged(p);
    FS_REACH("smoothing");
}

FS_HARNESS(overlay)
{
    fs_text_lossy(1);
    Pair p = sources(true);
    auto q = std::make_shared<CDMOverlay>(p.o.r, p.i.r, MIFI_INTERPOL_NEAREST_NEIGHBOR);
    std::vector<double> e;
    for (size_t t = 0; t < 2; t++)
        for (size_t y = 0; y < p.i.ny; y++)
            for (size_t x = 0; x < p.i.nx; x++) {
                const double a = p.innerAt(x, y, t), b = p.outerAt(x, y, t);
                e.push_back(a != a ? b : a);
            }
    tol += p.i.type == 1 ? p.i.scale / 2 : 0;
    check(q, p.i, p.i.nx, p.i.ny, e);
    tol = 1e-4;
    sourcesUnchanged(p);
    FS_REACH("overlay");
}

FS_HARNESS(missing)
{
    fs_text_lossy(1);
    Pair p = sources(false);
    for (Src* s : {&p.i, &p.o})
        for (auto v : {"v", "c", "l", "t"})
            s->r->cdm().getVariable(v).setData(nullptr);
    const int which = fs_pick("which", 1, 3);
    if (which & 1)
        p.i.r->missing.insert(std::make_pair(std::string("v"), size_t(0)));
    if (which & 2)
        p.o.r->missing.insert(std::make_pair(std::string("v"), size_t(0)));
    const bool useOuter = fs_pick("useOuter", 0, 1);
    CDMReader_p q;
    const bool over = fs_pick("overlay", 0, 1);
    if (over)
        q = std::make_shared<CDMOverlay>(p.o.r, p.i.r, MIFI_INTERPOL_NEAREST_NEIGHBOR);
    else {
        auto s = std::make_shared<CDMBorderSmoothing>(p.i.r, p.o.r, MIFI_INTERPOL_NEAREST_NEIGHBOR);
        s->setSmoothing(std::make_shared<CDMBorderSmoothing_LinearFactory>(1, 5)); // outer everywhere
        s->setUseOuterIfInnerUndefined(useOuter);
        q = s;
    }
    const size_t n = p.i.nx * p.i.ny;
    auto f = q->getScaledData("v")->asDouble();
    tol += p.i.type == 1 ? p.i.scale / 2 : 0;
    for (size_t t = 0; t < 2; t++)
        for (size_t y = 0; y < p.i.ny; y++)
            for (size_t x = 0; x < p.i.nx; x++) {
                const double a = t == 0 && (which & 1) ? UNDEF : p.innerAt(x, y, t), b = t == 0 && (which & 2) ? UNDEF : p.outerAt(x, y, t);
                const double e = a != a ? (useOuter || over ? b : UNDEF) : b != b ? a : over ? a : b;
                same(f[t * n + y * p.i.nx + x], e, "missing slices are undefined");
            }
    FS_REACH("missing");
}

/* inner grid extended to the outer one */
FS_HARNESS(merger)
{
    fs_text_lossy(1);
    Pair p = sources(true, false);
    CDMMerger m(p.i.r, p.o.r);
    m.setGridInterpolationMethod(MIFI_INTERPOL_NEAREST_NEIGHBOR);
    const size_t T = 2, B = 0;
    m.setSmoothing(std::make_shared<CDMBorderSmoothing_LinearFactory>(T, B));
    const bool useOuter = fs_pick("useOuter", 0, 1), keep = fs_pick("keep", 0, 1);
    p.o.r->var("only", CDM_FLOAT, {"lon", "lat"}, std::vector<double>(p.o.nx * p.o.ny, 17));
    p.o.r->att("only", "units", "m");
    m.setUseOuterIfInnerUndefined(useOuter);
    m.setKeepOuterVariables(keep);
    m.setTargetGridFromInner();
    std::vector<double> e;
    CDMBorderSmoothing_Linear lin(T, B);
    lin.setHorizontalSizes(p.i.nx, p.i.ny);
    for (size_t t = 0; t < 2; t++)
        for (size_t y = 0; y < p.o.ny; y++)
            for (size_t x = 0; x < p.o.nx; x++) {
                const double b = p.o.v[x + p.o.nx * (y + p.o.ny * t)] * p.uo;
                double v = b;
                if (x > 0 && y > 0 && x <= p.i.nx && y <= p.i.ny) {
                    const double a = p.innerAt(x - 1, y - 1, t);
                    v = a != a ? b : b != b ? a : lin(x - 1, y - 1, a, b);
                }
                e.push_back(v);
            }
    tol += p.i.type == 1 ? p.i.scale / 2 : 0;
    CDMReader_p q(&m, [](CDMReader*) {});
    check(q, p.i, p.o.nx, p.o.ny, e);
    FS_ASSERT(m.getCDM().hasVariable("only") == keep, "variables of the outer source only");
    if (keep) {
        auto o = m.getData("only")->asDouble();
        for (size_t k = 0; k < p.o.nx * p.o.ny; k++)
            FS_ASSERT(o[k] == 17, "variable of the outer source");
    }
    tol = 1e-4;
    sourcesUnchanged(p);
    FS_REACH("merger");
}

/* axes in different units */
FS_HARNESS(axisunits)
{
    fs_text_lossy(1);
    MemReader_p r[2] = {memReader(), memReader()}; // inner, outer
    const int ux = fs_pick("ux", 0, 1), uy = fs_pick("uy", 0, 1); // units of the inner axes
    std::vector<int> v[2];
    for (int o = 0; o < 2; o++) {
        MemReader& m = *r[o];
        const size_t nx = o ? 5 : 3, ny = o ? 6 : 3;
        m.cdm().addAttribute(CDM::globalAttributeNS(), CDMAttribute("Conventions", "CF-1.4"));
        m.dim("x", nx);
        m.dim("y", ny);
        std::vector<double> x, y;
        for (size_t i = 0; i < nx; i++)
            x.push_back((o ? -20000. + 10000 * i : -10000. + 10000 * i) / (!o && ux ? 1000 : 1));
        for (size_t i = 0; i < ny; i++)
            y.push_back((o ? -40000. + 10000 * i : -20000. + 10000 * i) / (!o && uy ? 1000 : 1));
        m.var("x", CDM_DOUBLE, {"x"}, x);
        m.att("x", "units", !o && ux ? "km" : "m");
        m.att("x", "standard_name", "projection_x_coordinate");
        m.var("y", CDM_DOUBLE, {"y"}, y);
        m.att("y", "units", !o && uy ? "km" : "m");
        m.att("y", "standard_name", "projection_y_coordinate");
        m.var("p", CDM_INT, {}, std::vector<double>{0});
        m.att("p", "grid_mapping_name", "polar_stereographic");
        m.att<double>("p", "straight_vertical_longitude_from_pole", 0);
        m.att<double>("p", "latitude_of_projection_origin", 90);
        m.att<double>("p", "standard_parallel", 60);
        m.att<double>("p", "earth_radius", 6371000);
        m.var("v", CDM_INT, {"x", "y"}, symInts(o ? "outer" : "inner", nx * ny, v[o], -90, 90));
        m.att("v", "units", "K");
        m.att("v", "grid_mapping", "p");
        m.att<int>("v", "_FillValue", -999);
    }
    const int undef = fs_pick("undef", 0, 8);
    ((int*)r[0]->mem["v"]->getDataPtr())[undef] = -999;
    auto q = std::make_shared<CDMOverlay>(r[1], r[0], MIFI_INTERPOL_NEAREST_NEIGHBOR);
    auto a = q->getData("v")->asInt();
    for (size_t y = 0; y < 3; y++)
        for (size_t x = 0; x < 3; x++) {
            const size_t k = x + 3 * y;
            FS_ASSERT(a[k] == ((int)k == undef ? v[1][x + 1 + 5 * (y + 2)] : v[0][k]), "value of top, or of base at the same position");
        }
    FS_REACH("axisunits");
}
