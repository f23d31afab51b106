/*FS {
 "regex": true,
 "quick_s": 130, "thorough_s": 600,
 "bounds": ["2 horizontal points (2x1 or 1x2), 2..3 levels, 2 times (unlimited or not), variable order x,y,z,t or z,x,y,t; data are arbitrary values k/2 in [-16,16], any of them possibly the fill value", "vertical coordinates from tables: pressure (hPa, Pa), height, altitude with topography, depth, sigma, hybrid sigma, ocean s with sea surface, ascending and descending, surface values per point and time", "1..2 new levels at, between and outside of the original ones, methods linear, linear_weak_extra, linear_no_extra, linear_const_extra, nearestneighbor; to fixed levels, to another axis of the file, and to the levels of a template variable", "neighbour search: all arrays of 1..4 (thorough 5) numbers in [-4,4], all numbers in [-5,5]"],
 "outside": ["logarithmic methods through the interpolator (the formulas are in C06/C12)", "pressure integration to altitude", "more than 3 levels"]
} */
#include "h.h"
#include "fimex/CDMVerticalInterpolator.h"
#include "fimex/FindNeighborElements.h"
#include <cmath>
namespace {
const double UNDEF = std::numeric_limits<double>::quiet_NaN();
const double FILL = -999;
struct Setup
{
    MemReader_p r;
    size_t nx, ny, nz, nt;
    bool zfirst, unlim;
    std::string type;                            // of the target
    std::vector<std::vector<std::vector<double>>> z; // [t][point][level]
    std::vector<std::vector<std::vector<double>>> v; // data
    std::vector<std::vector<double>> zmin;       // lowest valid level
};
enum { PRESSURE, PRESSURE_PA, HEIGHT, ALTITUDE, TOPO, DEPTH, SIGMA, HYBRID, HYBRID_AP, OCEAN, NKIND };

/* vertical coordinate values of a kind; also adds the variables */
void vertical(Setup& s, const std::string& lev, int kind, bool desc, std::vector<std::vector<std::vector<double>>>& z)
{
    MemReader& r = *s.r;
    const size_t nz = r.cdm().getDimension(lev).getLength();
    const size_t np = s.nx * s.ny;
    z.assign(s.nt, std::vector<std::vector<double>>(np, std::vector<double>(nz)));
    const double P[3] = {256, 512, 1024}, H[3] = {16, 80, 336}, S[3] = {0.25, 0.5, 1}, A[3] = {60, 56, 48}, SO[3] = {-1, -0.25, 0}, CO[3] = {-1, -0.75, 0};
    auto lv = [&](size_t k) { return desc ? nz - 1 - k : k; };
    std::vector<double> ax(nz);
    auto surface = [&](const std::string& name, const char* unit, double (*g)(size_t, size_t), double f) {
        std::vector<double> d;
        for (size_t t = 0; t < s.nt; t++)
            for (size_t p = 0; p < np; p++)
                d.push_back(g(t, p) * f);
        r.var(name, CDM_DOUBLE, {"lon", "lat", "time"}, d);
        r.att(name, "units", unit);
    };
    auto ps = [](size_t t, size_t p) { return 16 + 1024. / (1 << p) * (1 << t); };
    auto eta = [](size_t t, size_t p) { return p ? 4. - 2 * t : t ? 32. : -16.; };
    for (size_t k = 0; k < nz; k++) {
        const size_t q = lv(k);
        switch (kind) {
        case PRESSURE: ax[k] = P[q]; break;
        case PRESSURE_PA: ax[k] = P[q] * 100; break;
        case HEIGHT:
        case ALTITUDE:
        case TOPO:
        case DEPTH: ax[k] = H[q]; break;
        case SIGMA:
        case HYBRID:
        case HYBRID_AP: ax[k] = S[q]; break;
        case OCEAN: ax[k] = SO[q]; break;
        }
        for (size_t t = 0; t < s.nt; t++)
            for (size_t p = 0; p < np; p++) {
                double w = 0;
                switch (kind) {
                case PRESSURE:
                case PRESSURE_PA: w = P[q]; break;
                case HEIGHT:
                case ALTITUDE:
                case DEPTH: w = H[q]; break;
                case TOPO: w = H[q] + 8. * p + 16; break;
                case SIGMA: w = 16 + S[q] * (ps(t, p) - 16); break;
                case HYBRID:
                case HYBRID_AP: w = A[q] + S[q] * ps(t, p); break;
                case OCEAN: { // ocean_s_coordinate_g2: z = eta + (eta + depth) * S, S = (depth_c*s + depth*C) / (depth_c + depth)
                    const double et = eta(t, p), depth = 32. + 64. * p, dc = 32, C = CO[q];
                    const double SS = (dc * SO[q] + depth * C) / (dc + depth);
                    w = -(et + (et + depth) * SS);
                    break;
                }
                }
                z[t][p][k] = w;
            }
    }
    r.var(lev, CDM_DOUBLE, {lev}, ax);
    switch (kind) {
    case PRESSURE: r.att(lev, "units", "hPa"); s.type = "pressure"; break;
    case PRESSURE_PA: r.att(lev, "units", "Pa"); s.type = "pressure"; break;
    case HEIGHT:
        r.att(lev, "units", "m"); r.att(lev, "positive", "up"); r.att(lev, "standard_name", "height");
        s.type = "height";
        break;
    case ALTITUDE:
        r.att(lev, "units", "m"); r.att(lev, "positive", "up"); r.att(lev, "standard_name", "height_above_msl");
        s.type = "altitude";
        break;
    case TOPO: {
        r.att(lev, "units", "m"); r.att(lev, "positive", "up"); r.att(lev, "standard_name", "height");
        std::vector<double> d;
        for (size_t p = 0; p < np; p++)
            d.push_back(8. * p + 16);
        r.var("topo", CDM_DOUBLE, {"lon", "lat"}, d);
        r.att("topo", "units", "m"); r.att("topo", "standard_name", "surface_altitude");
        s.type = "altitude";
        break;
    }
    case DEPTH:
        r.att(lev, "units", "m"); r.att(lev, "positive", "down"); r.att(lev, "standard_name", "depth");
        s.type = "depth";
        break;
    case SIGMA:
        r.att(lev, "standard_name", "atmosphere_sigma_coordinate"); r.att(lev, "units", "1"); r.att(lev, "positive", "down");
        r.att(lev, "formula_terms", ("sigma: " + lev + " ps: ps ptop: ptop").c_str());
        r.var("ptop", CDM_DOUBLE, {}, std::vector<double>{16}); r.att("ptop", "units", "hPa");
        surface("ps", "hPa", ps, 1);
        s.type = "pressure";
        break;
    case HYBRID:
    case HYBRID_AP: {
        r.att(lev, "standard_name", "atmosphere_hybrid_sigma_pressure_coordinate"); r.att(lev, "units", "1"); r.att(lev, "positive", "down");
        std::vector<double> a, b;
        for (size_t k = 0; k < nz; k++) {
            a.push_back(kind == HYBRID ? A[lv(k)] / 1024 : A[lv(k)]);
            b.push_back(S[lv(k)]);
        }
        r.var("b", CDM_DOUBLE, {lev}, b);
        if (kind == HYBRID) {
            r.var("a", CDM_DOUBLE, {lev}, a);
            r.var("p0", CDM_DOUBLE, {}, std::vector<double>{1024}); r.att("p0", "units", "hPa");
            r.att(lev, "formula_terms", "a: a b: b ps: ps p0: p0");
        } else {
            r.var("ap", CDM_DOUBLE, {lev}, a); r.att("ap", "units", "hPa");
            r.att(lev, "formula_terms", "ap: ap b: b ps: ps");
        }
        surface("ps", "Pa", ps, 100);
        s.type = "pressure";
        break;
    }
    case OCEAN: {
        r.att(lev, "standard_name", "ocean_s_coordinate_g2"); r.att(lev, "units", "1"); r.att(lev, "positive", "up");
        r.att(lev, "formula_terms", ("s: " + lev + " C: Cs eta: eta depth: bottom depth_c: hc").c_str());
        std::vector<double> c, d;
        for (size_t k = 0; k < nz; k++)
            c.push_back(CO[lv(k)]);
        for (size_t p = 0; p < np; p++)
            d.push_back(32. + 64. * p);
        r.var("Cs", CDM_DOUBLE, {lev}, c);
        r.var("bottom", CDM_DOUBLE, {"lon", "lat"}, d); r.att("bottom", "units", "m");
        r.var("hc", CDM_DOUBLE, {}, std::vector<double>{32}); r.att("hc", "units", "m");
        surface("eta", "m", eta, 1);
        s.type = "depth";
        for (size_t t = 0; t < s.nt; t++) {
            s.zmin.push_back({});
            for (size_t p = 0; p < np; p++)
                s.zmin[t].push_back(-eta(t, p));
        }
        break;
    }
    }
}
Setup setup(int kind)
{
    Setup s;
    s.r = memReader();
    const bool all = fs_thorough();
    const int layout = all ? 0 : fs_pick("layout", 0, 3);
    const bool tall = all ? fs_pick("tall", 0, 1) : layout & 1;
    s.nx = tall ? 1 : 2;
    s.ny = tall ? 2 : 1;
    s.nz = all ? fs_pick("nz", 2, 3) : layout ? 3 : 2;
    s.nt = 2;
    s.unlim = all ? !fs_pick("limited", 0, 1) : layout != 2;
    s.zfirst = all ? fs_pick("zfirst", 0, 1) : layout >> 1;
    bool desc = all ? fs_pick("desc", 0, 1) : layout == 1 || layout == 2;
    s.r->dim("lon", s.nx);
    s.r->dim("lat", s.ny);
    s.r->dim("lev", s.nz);
    s.r->dim("time", s.nt, s.unlim);
    s.r->var("lon", CDM_DOUBLE, {"lon"}, s.nx == 1 ? std::vector<double>{10} : std::vector<double>{10, 20});
    s.r->att("lon", "units", "degrees_east");
    s.r->var("lat", CDM_DOUBLE, {"lat"}, s.ny == 1 ? std::vector<double>{40} : std::vector<double>{40, 50});
    s.r->att("lat", "units", "degrees_north");
    s.r->var("time", CDM_DOUBLE, {"time"}, std::vector<double>{0, 6});
    s.r->att("time", "units", "hours since 2000-01-10 00:00:00");
    vertical(s, "lev", kind, desc, s.z);
    const size_t np = s.nx * s.ny;
    DataPtr d = createData(CDM_FLOAT, np * s.nz * s.nt, 0.);
    float* p = (float*)d->getDataPtr();
    s.v = s.z;
    for (size_t t = 0; t < s.nt; t++)
        for (size_t i = 0; i < np; i++)
            for (size_t k = 0; k < s.nz; k++) {
                const size_t q = t * np * s.nz + (s.zfirst ? i * s.nz + k : k * np + i);
                double x = kind == OCEAN && i == 1 ? 3. * k * k + 5 * t - 1 : fs_real("v" + std::to_string(q), -16, 16, 1);
                bool u = i == 0 && k == 1 && t == 1 && fs_bool("u" + std::to_string(q));
                p[q] = (float)fs_sel(u, FILL, x);
                s.v[t][i][k] = fs_sel(u, UNDEF, x);
            }
    Names shape = s.zfirst ? Names{"lev", "lon", "lat", "time"} : Names{"lon", "lat", "lev", "time"};
    s.r->var("v", CDM_FLOAT, shape, d);
    s.r->att<float>("v", "_FillValue", (float)FILL);
    s.r->var("w", CDM_INT, {"lon", "lat"}, std::vector<double>{7, 8});
    return s;
}
const char* METHOD[] = {"linear", "linear_weak_extra", "linear_no_extra", "linear_const_extra", "nearestneighbor"};
/* value at x; ok is false where either of the value and undefined may be delivered */
double expected(const std::vector<double>& z, const std::vector<double>& v, double x, int method, bool& ok)
{
    ok = true;
    int lo = -1, hi = -1;
    const int n = z.size();
    for (int k = 0; k < n; k++) {
        if (z[k] == x)
            return v[k];
        if (z[k] < x && (lo < 0 || z[k] > z[lo]))
            lo = k;
        if (z[k] > x && (hi < 0 || z[k] < z[hi]))
            hi = k;
    }
    if (method == 4) {
        if (lo < 0 || hi < 0)
            return v[lo < 0 ? hi : lo];
        if (x - z[lo] == z[hi] - x) {
            ok = false;
            return v[lo];
        }
        return x - z[lo] < z[hi] - x ? v[lo] : v[hi];
    }
    int a = lo, b = hi; // outside: a is the closest, b the next
    if (lo < 0 || hi < 0) {
        a = lo < 0 ? hi : lo;
        b = -1;
        for (int k = 0; k < n; k++)
            if (k != a && (b < 0 || std::fabs(x - z[k]) < std::fabs(x - z[b])))
                b = k;
        if (method == 2)
            return UNDEF;
        if (method == 3)
            return v[a];
        if (method == 1 && std::fabs(x - z[a]) > std::fabs(z[a] - z[b]))
            return UNDEF;
        if (method == 1 && std::fabs(x - z[a]) == std::fabs(z[a] - z[b]))
            ok = false;
    }
    const double f = (x - z[a]) / (z[b] - z[a]);
    return v[a] + f * (v[b] - v[a]);
}
void check(Setup& s, CDMReader& ip, const std::vector<std::vector<std::vector<double>>>& target, int method, double vmin = UNDEF, double vmax = UNDEF,
           bool validity = false)
{
    const size_t np = s.nx * s.ny, nzo = target[0][0].size();
    auto test = [&](size_t t, const float* d) {
        for (size_t i = 0; i < np; i++)
            for (size_t k = 0; k < nzo; k++) {
                float got = d[s.zfirst ? i * nzo + k : k * np + i];
                if (validity && target[t][i][k] < s.zmin[t][i]) {
                    FS_ASSERT(got == FILL, "undefined where the level is not valid");
                    continue;
                }
                bool ok;
                double e = expected(s.z[t][i], s.v[t][i], target[t][i][k], method, ok);
                if (vmin == vmin)
                    e = fs_sel(e < vmin, vmin, e);
                if (vmax == vmax)
                    e = fs_sel(e > vmax, vmax, e);
                if (ok)
                    FS_ASSERT(fs_near(fs_sel(e != e, FILL, e), got, 0.0078125), "value on the new level");
            }
    };
    DataPtr all = ip.getData("v");
    FS_ASSERT(all->size() == np * nzo * s.nt, "size of the interpolated variable");
    auto a = all->asFloat();
    for (size_t t = 0; t < s.nt; t++) {
        test(t, &a[t * np * nzo]);
        if (s.unlim) {
            DataPtr sl = ip.getDataSlice("v", t);
            FS_ASSERT(sl->size() == np * nzo, "size of an interpolated slice");
            auto b = sl->asFloat();
            for (size_t i = 0; i < np * nzo; i++)
                FS_ASSERT(b[i] == a[i + t * np * nzo], "slice equals the complete data");
        }
    }
    auto w = ip.getData("w")->asInt();
    FS_ASSERT(w[0] == 7 && w[1] == 8, "variable without levels");
    auto o = s.r->getData("v")->asFloat();
    for (size_t t = 0; t < s.nt; t++)
        for (size_t i = 0; i < np; i++)
            for (size_t k = 0; k < s.nz; k++) {
                double e = s.v[t][i][k];
                FS_ASSERT(o[t * np * s.nz + (s.zfirst ? i * s.nz + k : k * np + i)] == (float)fs_sel(e != e, FILL, e), "source unchanged");
            }
}
void fixed(int kind)
{
    fs_text_lossy(1);
    Setup s = setup(kind);
    int method = kind < SIGMA || fs_thorough() ? fs_pick("method", 0, 4) : 2 * fs_pick("method", 0, 2);
    auto ip = std::make_shared<CDMVerticalInterpolator>(s.r, s.type, METHOD[method]);
    const bool p = s.type == "pressure", oc = kind == OCEAN;
    // before, at, between, at, between, behind the original levels
    const double LP[] = {128, 256, 320, 512, 640, 1024, 1280}, LH[] = {8, 16, 32, 80, 144, 336, 400}, LO[] = {-40, -16, -24, 8, 0, 32, 40};
    const double* L = p ? LP : oc ? LO : LH;
    std::vector<double> lv;
    int first = fs_pick("level", 0, fs_thorough() ? 6 : 3);
    lv.push_back(L[fs_thorough() ? first : 2 * first]);
    if (first < 3)
        lv.push_back(L[fs_thorough() ? first + 3 : 2 * first + 1]);
    double vmin = UNDEF, vmax = UNDEF;
    int valid = method == 0 && lv.size() == 1 && (kind == PRESSURE || kind == HYBRID || kind == OCEAN) ? fs_pick("valid", 0, 2) : 0;
    if (valid) {
        s.r->att<float>("v", valid == 1 ? "valid_min" : "valid_max", valid == 1 ? -4.f : 8.f);
        (valid == 1 ? vmin : vmax) = valid == 1 ? -4 : 8;
        ip = std::make_shared<CDMVerticalInterpolator>(s.r, s.type, METHOD[method]);
    }
    ip->interpolateToFixed(lv);
    const CDM& cdm = ip->getCDM();
    Names shape = cdm.getVariable("v").getShape();
    FS_ASSERT(shape.size() == 4, "shape of the interpolated variable");
    const std::string zn = shape[s.zfirst ? 0 : 2];
    FS_ASSERT(cdm.getDimension(zn).getLength() == lv.size(), "new vertical dimension");
    auto za = ip->getData(zn)->asDouble();
    for (size_t i = 0; i < lv.size(); i++)
        FS_ASSERT(za[i] == lv[i], "values of the new vertical axis");
    std::vector<std::vector<std::vector<double>>> target(s.nt, std::vector<std::vector<double>>(s.nx * s.ny, lv));
    check(s, *ip, target, method, vmin, vmax, oc);
    FS_REACH("interpolated");
}
} // namespace
FS_HARNESS(axis) { fixed(fs_pick("kind", PRESSURE, DEPTH)); }
FS_HARNESS(surface) { fixed(fs_pick("kind", SIGMA, fs_thorough() ? HYBRID_AP : HYBRID)); }
FS_HARNESS(ocean) { fixed(OCEAN); }

FS_HARNESS(template_)
{
    fs_text_lossy(1);
    int k1 = fs_pick("kind1", 0, 2), k2;
    const int KIND[] = {PRESSURE_PA, HYBRID, HYBRID_AP};
    Setup s = setup(KIND[k1]);
    k2 = k1 ? PRESSURE_PA : KIND[1 + fs_pick("kind2", 0, 1)];
    const size_t nz2 = s.nz == 2 ? 3 : 2;
    s.r->dim("lev2", nz2);
    std::vector<std::vector<std::vector<double>>> target;
    vertical(s, "lev2", k2, fs_pick("desc2", 0, 1), target);
    s.r->var("tv", CDM_FLOAT, s.zfirst ? Names{"lev2", "lon", "lat", "time"} : Names{"lon", "lat", "lev2", "time"},
             std::vector<double>(s.nx * s.ny * nz2 * s.nt, 3.));
    int method = 2 * fs_pick("method", 0, 2);
    auto ip = std::make_shared<CDMVerticalInterpolator>(s.r, "pressure", METHOD[method]);
    if (fs_pick("toAxis", 0, 1))
        ip->interpolateToAxis("lev2");
    else
        ip->interpolateByTemplateVariable("tv");
    check(s, *ip, target, method);
    DataPtr tv = ip->getData("tv");
    FS_ASSERT(tv->size() == s.nx * s.ny * nz2 * s.nt, "variable already on the new levels");
    auto a = tv->asFloat();
    for (size_t i = 0; i < tv->size(); i++)
        FS_ASSERT(a[i] == 3, "variable already on the new levels");
    FS_REACH("interpolated");
}
FS_HARNESS(neighbours)
{
    const int n = fs_pick("n", 1, fs_thorough() ? 5 : 4);
    std::vector<int> v(n);
    bool same = true;
    for (int i = 0; i < n; i++) {
        v[i] = (int)fs_int("v" + std::to_string(i), -4, 4);
        same &= v[i] == v[0];
    }
    const int x = (int)fs_int("x", -5, 5);
    const bool nb = fs_pick("neighbor", 0, 1);
    auto r = nb ? find_closest_neighbor_distinct_elements(v.begin(), v.end(), x) : find_closest_distinct_elements(v.begin(), v.end(), x);
    FS_ASSERT(r.first >= 0 && r.first < n && r.second >= 0 && r.second < n, "position inside of the array");
    const int a = v[r.first], b = v[r.second];
    FS_ASSERT((a != b) | same, "distinct neighbours");
    bool low = false, high = false;
    for (int i = 0; i < n; i++) {
        low |= v[i] <= x;
        high |= v[i] > x;
    }
    const bool enclosed = nb & low & high;
    const int da = std::abs(x - a), db = std::abs(x - b);
    FS_ASSERT(!enclosed | ((a <= x) & (b > x)), "neighbours enclose the value");
    for (int i = 0; i < n; i++) {
        FS_ASSERT(!enclosed | (v[i] <= a) | (v[i] >= b), "no element between the neighbours");
        FS_ASSERT(enclosed | (std::abs(x - v[i]) >= da), "first is the closest");
        FS_ASSERT(enclosed | same | (v[i] == a) | (std::abs(x - v[i]) >= db), "second is the closest of the others");
    }
}
