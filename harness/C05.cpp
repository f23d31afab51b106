/*FS {
 "quick_s": 140, "thorough_s": 900,
 "weights": {"reduce": 4, "axes": 2, "bbox": 2},
 "bounds": ["variables of up to three dimensions (3 x 2..3 x 2, last one unlimited or not), data in memory or delivered by the reader; every subset of positions of the first and second dimension; every box of the reduced variable", "range reductions with start, length and end over the full 64-bit range; up to two reductions of one dimension", "axis reductions: vertical and time axes of 1..4 values, ascending or descending, steps from a table, limits k/4; unit conversions m/km, hours/seconds", "bounding boxes: 5-degree longitude/latitude grid of 4 x 3 points, all limits k/2 degrees including boxes across the date line and invalid ones"],
 "outside": ["bounding boxes of projected grids (the projection library is not encoded)", "axis values closer to a limit than the documented rounding (1% of the first step)"]
} */
#include "h.h"
#include "fimex/CDMExtractor.h"
#include "fimex/FimexTime.h"
#include <cmath>
namespace {
size_t anySize(const std::string& n) { return (size_t)fs_int(n, INT64_MIN, INT64_MAX); }
Sizes positions(int mask)
{
    Sizes p;
    for (int i = 0; i < 8; i++)
        if ((mask >> i) & 1)
            p.push_back(i);
    return p;
}
std::set<size_t> asSet(const Sizes& s) { return std::set<size_t>(s.begin(), s.end()); }
}
FS_HARNESS(reduce)
{
    fs_text_lossy(1);
    MemReader_p r = memReader();
    bool unlim = fs_pick("unlim", 0, 1);
    Sizes len{3, (size_t)fs_pick("ny", 2, fs_thorough() ? 3 : 2), 2};
    Names dims{"x", "y", "t"};
    for (int i = 0; i < 3; i++)
        r->dim(dims[i], len[i], i == 2 && unlim);
    std::vector<int> v;
    r->var("v", CDM_INT, dims, symInts("v", len[0] * len[1] * len[2], v));
    if (fs_pick("inmem", 0, 1))
        r->cdm().getVariable("v").setData(r->full("v")->clone());
    r->ownSlices = fs_pick("own", 0, 1);
    auto ex = std::make_shared<CDMExtractor>(r);
    Sizes pos[3];
    for (int i = 0; i < 3; i++)
        for (size_t k = 0; k < len[i]; k++)
            pos[i].push_back(k);
    int mx = fs_pick("xmask", -1, 7);
    if (mx >= 0) {
        pos[0] = positions(mx);
        ex->reduceDimension("x", asSet(pos[0]));
    }
    int my = fs_pick("ymask", 0, (1 << len[1]) - 1);
    if (my) {
        pos[1] = positions(my);
        ex->reduceDimension("y", asSet(pos[1]));
    }
    if (fs_pick("tred", 0, 1)) {
        pos[2] = Sizes{1};
        ex->reduceDimension("t", 1, 1);
    }
    Sizes nl{pos[0].size(), pos[1].size(), pos[2].size()};
    for (int i = 0; i < 3; i++)
        FS_ASSERT(ex->getCDM().getDimension(dims[i]).getLength() == nl[i], "length of a reduced dimension");
    DataPtr all = ex->getData("v");
    FS_ASSERT(all->size() == nl[0] * nl[1] * nl[2], "size of the reduced variable");
    forBox(nl, [&](size_t k, const Sizes& i) { FS_ASSERT(all->asInt()[k] == v[at(len, Sizes{pos[0][i[0]], pos[1][i[1]], pos[2][i[2]]})], "element of the reduced variable"); });
    // a box of the reduced variable
    SliceBuilder sb(ex->getCDM(), "v");
    Sizes st(3, 0), sz = nl;
    int what = fs_pick("boxdim", 0, 2);
    st[what] = fs_int("start", 0, 2);
    sz[what] = fs_int("size", 0, 3);
    FS_ASSUME(st[what] + sz[what] <= nl[what]);
    st[what] = fs_enum_(st[what]);
    sz[what] = fs_enum_(sz[what]);
    for (int i = 0; i < 3; i++)
        sb.setStartAndSize(dims[i], st[i], sz[i]);
    DataPtr d = ex->getDataSlice("v", sb);
    FS_ASSERT(d->size() == sz[0] * sz[1] * sz[2], "size of a box of the reduced variable");
    forBox(sz, [&](size_t k, const Sizes& i) {
        FS_ASSERT(d->asInt()[k] == v[at(len, Sizes{pos[0][st[0] + i[0]], pos[1][st[1] + i[1]], pos[2][st[2] + i[2]]})], "element of a box of the reduced variable");
    });
    if (unlim)
        for (size_t t = 0; t < nl[2]; t++) {
            DataPtr s = ex->getDataSlice("v", t);
            FS_ASSERT(s->size() == nl[0] * nl[1], "size of an unlimited slice");
            forBox(Sizes{nl[0], nl[1]}, [&](size_t k, const Sizes& i) { FS_ASSERT(s->asInt()[k] == v[at(len, Sizes{pos[0][i[0]], pos[1][i[1]], pos[2][t]})], "element of an unlimited slice"); });
        }
}
FS_HARNESS(range)
{
    fs_text_lossy(1);
    MemReader_p r = memReader();
    size_t n = fs_pick("n", 1, 4);
    r->dim("x", n);
    std::vector<double> v;
    for (size_t i = 0; i < n; i++)
        v.push_back(10 + i);
    r->var("v", CDM_INT, {"x"}, v);
    auto ex = std::make_shared<CDMExtractor>(r);
    if (fs_pick("before", 0, 1)) // positions always count in the original dimension
        ex->reduceDimension("x", n - 1, 1);
    size_t start = anySize("start"), len = 0;
    bool ok, thrown;
    int how = fs_pick("how", 0, 2);
    if (how == 0) {
        len = anySize("len");
        ok = (len <= n) & (start <= n - len);
        thrown = throws([&] { ex->reduceDimension("x", start, len); });
    } else if (how == 1) {
        long long end = fs_int("end", INT64_MIN, INT64_MAX);
        if (end > 0) {
            ok = (end < (long long)n) & (start <= (size_t)end + 1);
            len = end + 1 - start;
        } else {
            ok = (end >= -(long long)n) && (start <= (size_t)(n + end));
            len = n + end - start;
        }
        thrown = throws([&] { ex->reduceDimensionStartEnd("x", start, end); });
    } else {
        std::set<size_t> s;
        s.insert(0);
        s.insert((size_t)fs_enum_(fs_int("start2", 0, 5)));
        start = 0;
        ok = *s.rbegin() < n;
        thrown = throws([&] { ex->reduceDimension("x", s); });
        FS_ASSERT(thrown == !ok, "positions are accepted if and only if they are in the original dimension");
        return;
    }
    FS_ASSERT(thrown == !ok, "a range is accepted if and only if it is in the original dimension");
    if (!ok)
        return;
    len = fs_enum_(len);
    start = fs_enum_(start);
    FS_ASSERT(ex->getCDM().getDimension("x").getLength() == len, "length of the reduced dimension");
    DataPtr d = ex->getData("v");
    FS_ASSERT(d->size() == len, "size of the reduced variable");
    for (size_t i = 0; i < len; i++)
        FS_ASSERT(d->getLongLong(i) == (long long)(10 + start + i), "element of the reduced variable");
}
FS_HARNESS(select)
{
    MemReader_p r = memReader();
    r->dim("x", 2);
    const char* nm[4] = {"a", "b", "x", "d"};
    for (int i = 0; i < 4; i++)
        r->var(nm[i], CDM_INT, {"x"}, std::vector<double>{i * 2., i * 2. + 1});
    auto ex = std::make_shared<CDMExtractor>(r);
    int rem = fs_pick("remove", -1, 3), sel = fs_pick("select", 0, 31);
    if (rem >= 0)
        ex->removeVariable(nm[rem]);
    ex->removeVariable("nonexisting");
    std::set<std::string> s;
    for (int i = 0; i < 4; i++)
        if ((sel >> i) & 1)
            s.insert(nm[i]);
    if (sel & 16)
        ex->selectVariables(s, false);
    for (int i = 0; i < 4; i++) {
        bool keep = i != rem && (!(sel & 16) || ((sel >> i) & 1));
        FS_ASSERT(ex->getCDM().hasVariable(nm[i]) == keep, "exactly the selected variables stay");
        if (keep)
            FS_ASSERT(ex->getData(nm[i])->getLongLong(1) == i * 2 + 1, "data of a selected variable");
        FS_ASSERT(r->getCDM().hasVariable(nm[i]), "the source is unchanged");
    }
}
FS_HARNESS(axes)
{
    fs_text_lossy(1);
    MemReader_p r = memReader();
    size_t n = fs_pick("n", 1, fs_thorough() ? 4 : 3);
    bool desc = fs_pick("desc", 0, 1), time = fs_pick("time", 0, 1);
    std::vector<double> z, v;
    double x = 1;
    for (size_t i = 0; i < n; i++) {
        z.push_back(x);
        v.push_back(100 + i);
        x += (i == 0 ? 1 : fs_pick("step" + std::to_string(i), 1, 2)) * (desc ? -1 : 1);
    }
    const char* zn = time ? "time" : "height";
    r->dim(zn, n);
    r->dim("x", 2);
    r->dim("y", 2);
    r->var("x", CDM_DOUBLE, {"x"}, std::vector<double>{0, 1});
    r->att("x", "standard_name", "longitude");
    r->att("x", "units", "degrees_east");
    r->var("y", CDM_DOUBLE, {"y"}, std::vector<double>{0, 1});
    r->att("y", "standard_name", "latitude");
    r->att("y", "units", "degrees_north");
    r->var(zn, CDM_DOUBLE, {zn}, z);
    r->att(zn, "units", time ? "hours since 1970-01-01 00:00:00" : "km");
    r->att(zn, "standard_name", zn);
    if (!time)
        r->att(zn, "positive", "up");
    r->att("_GLOBAL", "Conventions", "CF-1.4");
    std::vector<int> w;
    r->var("v", CDM_INT, {"x", "y", zn}, symInts("v", 4 * n, w));
    r->att("v", "units", "K");
    auto ex = std::make_shared<CDMExtractor>(r);
    double a = fs_real("a", -4, 8, 2), b = fs_real("b", -4, 8, 2);
    if (time)
        ex->reduceAxes({CoordinateAxis::Time}, "seconds since 1970-01-01 00:00:00", a * 3600, b * 3600);
    else
        ex->reduceVerticalAxis("m", a * 1000, b * 1000);
    Sizes keep;
    for (size_t i = 0; i < n; i++)
        if (z[i] >= a && z[i] <= b)
            keep.push_back(i);
    FS_ASSERT(ex->getCDM().getDimension(zn).getLength() == keep.size(), "number of axis values within the limits");
    DataPtr zd = ex->getData(zn), vd = ex->getData("v");
    FS_ASSERT(zd->size() == keep.size() && vd->size() == 4 * keep.size(), "size of the reduced data");
    for (size_t k = 0; k < keep.size(); k++) {
        FS_ASSERT(zd->getDouble(k) == z[keep[k]], "axis values within the limits");
        FS_ASSERT(vd->asInt()[4 * k + 3] == w[4 * keep[k] + 3], "data within the limits");
    }
}
FS_HARNESS(bbox)
{
    fs_text_lossy(1);
    MemReader_p r = memReader();
    const int nx = 4, ny = 3;
    int lon0 = fs_pick("lon0", 0, 2), flip = fs_pick("flip", 0, 1);
    std::vector<double> x, y, w;
    for (int i = 0; i < nx; i++)
        x.push_back((lon0 == 0 ? -10 : lon0 == 1 ? 160 : -178) + 5 * i);
    for (int i = 0; i < ny; i++)
        y.push_back(flip ? 60 - 5 * i : 50 + 5 * i);
    for (int i = 0; i < nx * ny; i++)
        w.push_back(i);
    r->dim("lon", nx);
    r->dim("lat", ny);
    r->var("lon", CDM_DOUBLE, {"lon"}, x);
    r->var("lat", CDM_DOUBLE, {"lat"}, y);
    r->att("lon", "standard_name", "longitude");
    r->att("lon", "units", "degrees_east");
    r->att("lat", "standard_name", "latitude");
    r->att("lat", "units", "degrees_north");
    r->att("_GLOBAL", "Conventions", "CF-1.4");
    r->var("v", CDM_DOUBLE, {"lon", "lat"}, w);
    auto ex = std::make_shared<CDMExtractor>(r);
    double west = fs_real("west", -182, 182, 1), east = fs_real("east", -182, 182, 1), south = fs_real("south", -91, 91, 1), north = fs_real("north", -91, 91, 1);
    if (south > north) {
        FS_ASSERT(throws([&] { ex->reduceLatLonBoundingBox(south, north, west, east); }), "south of a box must not be north of its north");
        return;
    }
    if (west < -180 || east < -180 || west > 180 || east > 180 || south < -90 || north > 90 || south > 90 || north < -90) {
        FS_ASSERT(throws([&] { ex->reduceLatLonBoundingBox(south, north, west, east); }), "limits outside of the domain are rejected");
        return;
    }
    ex->reduceLatLonBoundingBox(south, north, west, east);
    Sizes kx, ky;
    for (int i = 0; i < nx; i++)
        if (west <= east ? (x[i] >= west && x[i] <= east) : (x[i] >= west || x[i] <= east))
            kx.push_back(i);
    for (int j = 0; j < ny; j++)
        if (y[j] >= south && y[j] <= north)
            ky.push_back(j);
    if (kx.empty() || ky.empty())
        kx = ky = Sizes();
    DataPtr d = ex->getData("v");
    FS_ASSERT(d->size() == kx.size() * ky.size(), "number of points within the box");
    forBox(Sizes{kx.size(), ky.size()}, [&](size_t k, const Sizes& i) { FS_ASSERT(d->getDouble(k) == w[ky[i[1]] * nx + kx[i[0]]], "points within the box"); });
}
