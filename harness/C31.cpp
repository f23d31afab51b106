/*FS {
 "quick_s": 100, "thorough_s": 400, "regex": true, "omp": true, "io": ["netcdf"],
 "bounds": ["parallel regions with 4 simulated threads, each with its static share of the iterations; every access of instrumented code to memory shared by threads is recorded with the locks held", "all readers of a chain, read by 4 threads at once: 3 times, longitude-latitude grid of 4x3 points, 2 levels, one arbitrary value", "writers and filling, in parallel over times or variables, on the stand-in of the netcdf library", "each call of the netcdf library failing in turn; reading before and after a fork"],
 "outside": ["memory touched inside of uninstrumented libraries (libc, libstdc++.so, libxml2, udunits, proj)", "threads started by the user of the library other than by reading data in parallel", "other than static scheduling (the same accesses, differently distributed)"]
} */
#include "h.h"
#include "ncmem.h"
#define MIFI_IO_READER_SUPPRESS_DEPRECATED
#include "NetCDF_CDMReader.h"
#include "NetCDF_CDMWriter.h"
#include "fimex/AggregationReader.h"
#include "fimex/CDMBorderSmoothing.h"
#include "fimex/CDMBorderSmoothing_Linear.h"
#include "fimex/CDMExtractor.h"
#include "fimex/CDMInterpolator.h"
#include "fimex/CDMMerger.h"
#include "fimex/CDMOverlay.h"
#include "fimex/CDMPressureConversions.h"
#include "fimex/CDMProcessor.h"
#include "fimex/CDMQualityExtractor.h"
#include "fimex/CDMTimeInterpolator.h"
#include "fimex/CDMVerticalInterpolator.h"
#include "fimex/FillWriter.h"
#include "fimex/Logger.h"
#include "fimex/NcmlCDMReader.h"
#include "fimex/Null_CDMWriter.h"
#include "fimex/XMLDoc.h"
#include "fimex/XMLInputDoc.h"
#include "fimex/XMLInputString.h"
extern "C" void fs_threads(int);
extern "C" int fs_locks_held();
namespace {
MemReader_p source(size_t nx = 4, size_t ny = 3, double lon0 = 10, double lat0 = 40)
{
    auto p = memReader();
    MemReader& r = *p;
    const size_t nz = 4, nt = 3;
    r.cdm().addAttribute(CDM::globalAttributeNS(), CDMAttribute("Conventions", "CF-1.4"));
    r.dim("lon", nx);
    r.dim("lat", ny);
    r.dim("lev", nz);
    r.dim("time", nt, true);
    std::vector<double> lon, lat;
    for (size_t i = 0; i < nx; i++)
        lon.push_back(lon0 + 10 * i);
    for (size_t i = 0; i < ny; i++)
        lat.push_back(lat0 + 10 * i);
    r.var("lon", CDM_DOUBLE, {"lon"}, lon);
    r.att("lon", "units", "degrees_east");
    r.att("lon", "standard_name", "longitude");
    r.var("lat", CDM_DOUBLE, {"lat"}, lat);
    r.att("lat", "units", "degrees_north");
    r.att("lat", "standard_name", "latitude");
    r.var("lev", CDM_DOUBLE, {"lev"}, std::vector<double>{500, 600, 700, 850});
    r.att("lev", "units", "hPa");
    r.att("lev", "standard_name", "air_pressure");
    r.att("lev", "positive", "down");
    r.var("time", CDM_DOUBLE, {"time"}, std::vector<double>{0, 6, 12});
    r.att("time", "units", "hours since 2000-01-01 00:00:00");
    r.att("time", "standard_name", "time");
    auto field = [&](const char* n, const char* unit, const char* std, double base, bool lev) {
        std::vector<double> d;
        for (size_t i = 0; i < nx * ny * nt * (lev ? nz : 1); i++)
            d.push_back(base + i);
        r.var(n, CDM_FLOAT, lev ? Names({"lon", "lat", "lev", "time"}) : Names({"lon", "lat", "time"}), d);
        r.att(n, "units", unit);
        if (*std)
            r.att(n, "standard_name", std);
        r.att<float>(n, "_FillValue", -999.f);
    };
    field("t", "K", "air_temperature", 250, true);
    field("q", "1", "", 0, false);
    field("u", "m/s", "eastward_wind", 1, false);
    field("v", "m/s", "northward_wind", 2, false);
    ((float*)p->mem["u"]->getDataPtr())[nx + 1] = (float)fs_int("value", -90, 90);
    ((float*)p->mem["t"]->getDataPtr())[nx + 1] = (float)fs_int("temperature", 200, 290);
    return p;
}
const int KINDS = 26;
CDMReader_p chain(int kind)
{
    MemReader_p s = source();
    switch (kind) {
    case 0:
        return s;
    case 1: {
        auto e = std::make_shared<CDMExtractor>(s);
        e->reduceDimension("lon", 1, 2);
        e->reduceDimension("time", 0, 3);
        return e;
    }
    case 2:
    case 3:
    case 4:
    case 5: {
        const int M[] = {MIFI_INTERPOL_NEAREST_NEIGHBOR, MIFI_INTERPOL_BILINEAR, MIFI_INTERPOL_BICUBIC, MIFI_INTERPOL_COORD_NN};
        auto e = std::make_shared<CDMInterpolator>(s);
        e->changeProjection(M[kind - 2], "+proj=longlat +R=6371000 +no_defs", {15., 25.}, {45., 55.}, "degrees_east", "degrees_north", CDM_DOUBLE, CDM_DOUBLE);
        return e;
    }
    case 6: {
        auto e = std::make_shared<CDMInterpolator>(s);
        e->addPreprocess(std::make_shared<InterpolatorFill2d>(0.01f, 1.6f, 10));
        e->addPostprocess(std::make_shared<InterpolatorCreepFill2d>(2, 1));
        e->changeProjection(MIFI_INTERPOL_BILINEAR, "+proj=longlat +R=6371000 +no_defs", {15., 25.}, {45., 55.}, "degrees_east", "degrees_north", CDM_DOUBLE, CDM_DOUBLE);
        return e;
    }
    case 7: {
        auto e = std::make_shared<CDMTimeInterpolator>(s);
        e->changeTimeAxis("2000-01-01 03:00:00,2000-01-01 06:00:00,2000-01-01 09:00:00;unit=hours since 2000-01-01 00:00:00");
        return e;
    }
    case 8: {
        auto e = std::make_shared<CDMVerticalInterpolator>(s, "pressure", "linear");
        e->interpolateToFixed({550, 650, 750, 800, 840});
        return e;
    }
    case 9:
    case 10: {
        auto e = std::make_shared<CDMProcessor>(s);
        if (kind == 9)
            e->accumulate("u");
        else
            e->deAccumulate("u");
        return e;
    }
    case 11: {
        auto e = std::make_shared<CDMProcessor>(s);
        e->rotateVectorToLatLon(true, {"u"}, {"v"});
        return e;
    }
    case 12: {
        return std::make_shared<CDMPressureConversions>(s, std::vector<std::string>{"add4Dpressure"});
    }
    case 13: {
        const std::string c = "<?xml version=\"1.0\"?>\n<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\"><variable name=\"uu\" orgName=\"u\"><attribute name=\"units\" value=\"km/h\"/></variable></netcdf>";
        return std::make_shared<NcmlCDMReader>(s, XMLInputString(c));
    }
    case 14: {
        auto e = std::make_shared<CDMBorderSmoothing>(source(2, 2, 20, 50), s, MIFI_INTERPOL_NEAREST_NEIGHBOR);
        e->setSmoothing(std::make_shared<CDMBorderSmoothing_LinearFactory>(1, 0));
        return e;
    }
    case 15:
        return std::make_shared<CDMOverlay>(s, source(2, 2, 20, 50), MIFI_INTERPOL_NEAREST_NEIGHBOR);
    case 16: {
        auto e = std::make_shared<CDMMerger>(source(2, 2, 20, 50), s);
        e->setSmoothing(std::make_shared<CDMBorderSmoothing_LinearFactory>(1, 0));
        e->setTargetGridFromInner();
        return e;
    }
    case 17: {
        s->att("u", "ancillary_variables", "q");
        auto e = std::make_shared<CDMQualityExtractor>(s, "values=0,1,2,3,4,5,6,7");
        return e;
    }
    case 18: {
        nc::reset();
        NetCDF_CDMWriter(s, "in.nc", XMLInputDoc("", XMLDoc_p()), 5);
        return std::make_shared<NetCDF_CDMReader>("in.nc", false);
    }
    case 19:
    case 20: {
        auto e = std::make_shared<CDMInterpolator>(s);
        e->changeProjection(kind == 19 ? MIFI_INTERPOL_FORWARD_MEAN : MIFI_INTERPOL_FORWARD_UNDEF_MEDIAN, "+proj=longlat +R=6371000 +no_defs", {15., 35.}, {45., 55.}, "degrees_east", "degrees_north", CDM_DOUBLE,
                            CDM_DOUBLE);
        return e;
    }
    case 21: {
        s->cdm().addAttribute("u", CDMAttribute("spatial_vector", std::string("vec")));
        s->cdm().addOrReplaceAttribute("u", CDMAttribute("standard_name", std::string("x_wind")));
        s->cdm().addOrReplaceAttribute("v", CDMAttribute("standard_name", std::string("y_wind")));
        s->cdm().getVariable("u").setAsSpatialVector("v", CDMVariable::SPATIAL_VECTOR_X);
        s->cdm().getVariable("v").setAsSpatialVector("u", CDMVariable::SPATIAL_VECTOR_Y);
        auto e = std::make_shared<CDMInterpolator>(s);
        e->changeProjection(MIFI_INTERPOL_BILINEAR, "+proj=stere +lat_0=90 +lon_0=0 +lat_ts=60 +R=6371000 +units=m", {2000000., 2100000.}, {-3000000., -2900000.}, "m", "m", CDM_DOUBLE, CDM_DOUBLE);
        return e;
    }
    case 22:
    case 23: {
        auto e = std::make_shared<AggregationReader>(kind == 22 ? "joinExisting" : "union");
        e->addReader(s, "a", "");
        e->addReader(source(), "b", "");
        e->initAggregation();
        return e;
    }
    case 24: {
        auto e = std::make_shared<CDMInterpolator>(s);
        e->changeProjectionToCrossSections(MIFI_INTERPOL_BILINEAR, {CrossSectionDefinition("cs", {{15, 45}, {35, 55}})});
        return e;
    }
    case 25: {
        auto e = std::make_shared<CDMTimeInterpolator>(std::make_shared<CDMProcessor>(std::make_shared<CDMVerticalInterpolator>(s, "pressure", "nearestneighbor")));
        return e;
    }
    }
    return s;
}
std::vector<DataPtr> readAll(CDMReader_p r, const Names& vars, const std::vector<bool>& unlim, int nt)
{
    std::vector<DataPtr> d(vars.size() * nt);
#pragma omp parallel for
    for (int t = 0; t < nt; t++)
        for (size_t v = 0; v < vars.size(); v++)
            d[t * vars.size() + v] = unlim[v] ? r->getDataSlice(vars[v], t) : r->getData(vars[v]);
    return d;
}
} // namespace

/* several threads read at once: no conflict, and the same values as one after the other */
FS_HARNESS(readers)
{
    fs_text_lossy(1);
    nc::reset();
    CDMReader_p r = chain((int)fs_pick("kind", 0, KINDS - 1));
    Names vars;
    std::vector<bool> unlim;
    for (auto& v : r->getCDM().getVariables()) {
        if (v.getName() == "t" || v.getName() == "u" || v.getName() == "uu" || v.getName() == "v" || v.getName() == "time" || v.getName() == "pressure") {
            vars.push_back(v.getName());
            unlim.push_back(r->getCDM().hasUnlimitedDim(v));
        }
    }
    FS_ASSERT(vars.size() >= 3, "variables");
    auto a = readAll(r, vars, unlim, 3);
    fs_threads(1);
    auto b = readAll(r, vars, unlim, 3);
    fs_threads(4);
    for (size_t i = 0; i < a.size(); i++) {
        FS_ASSERT(a[i] && b[i] && a[i]->size() == b[i]->size(), "size");
        auto x = a[i]->asDouble(), y = b[i]->asDouble();
        for (size_t k = 0; k < a[i]->size(); k++)
            FS_ASSERT(FS_SAME(x[k], y[k]), "same values in parallel");
    }
    FS_REACH("read in parallel");
}

namespace {
/* a reader with one failing place */
class FailReader : public CDMReader
{
public:
    CDMReader_p r;
    std::string name;
    long pos;
    FailReader(CDMReader_p rd, const std::string& n, long p)
        : r(rd)
        , name(n)
        , pos(p)
    {
        *cdm_ = r->getCDM();
    }
    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const std::string& v, size_t p = 0) override
    {
        if (v == name && (pos < 0 || (size_t)pos == p))
            throw CDMException("cannot read");
        return r->getDataSlice(v, p);
    }
};
void sameAs(CDMReader_p r, MemReader_p s, const Names& vars)
{
    for (auto& n : vars) {
        auto a = r->getData(n)->asDouble(), b = s->mem[n]->asDouble();
        for (size_t i = 0; i < s->mem[n]->size(); i++)
            FS_ASSERT(FS_SAME(a[i], b[i]), "written values");
    }
}
} // namespace

/* the netcdf writer writes times in parallel: complete files, or an error when reading fails */
FS_HARNESS(writer)
{
    fs_text_lossy(1);
    nc::reset();
    MemReader_p s = source();
    const int what = fs_pick("what", 0, 4);
    CDMReader_p in = s;
    if (what == 1)
        in = std::make_shared<FailReader>(s, "u", fs_pick("pos", 0, 2));
    else if (what == 2)
        in = std::make_shared<FailReader>(s, "lat", -1);
    else if (what == 3)
        nc::fault() = fs_pick("call", 120, 320);
    else if (what == 4) {
        NetCDF_CDMWriter(s, "first.nc", XMLInputDoc("", XMLDoc_p()), 5);
        in = std::make_shared<NetCDF_CDMReader>("first.nc", false);
    }
    bool error = false;
    try {
        NetCDF_CDMWriter(in, "out.nc", XMLInputDoc("", XMLDoc_p()), what == 0 ? 3 : 5);
    } catch (CDMException&) {
        error = true;
    }
    const bool failed = nc::failed();
    nc::fault() = -1;
    FS_ASSERT(fs_locks_held() == 0, "all locks released");
    FS_ASSERT(error == (what == 1 || what == 2 || failed), "failure is reported");
    if (error)
        return;
    FS_REACH("written");
    sameAs(std::make_shared<NetCDF_CDMReader>("out.nc", false), s, {"t", "u", "v", "q", "time", "lon"});
}

/* the null-writer reads in parallel */
FS_HARNESS(nullwriter)
{
    fs_text_lossy(1);
    nc::reset();
    MemReader_p s = source();
    const int what = fs_pick("what", 0, 2);
    CDMReader_p in = s;
    if (what)
        in = std::make_shared<FailReader>(s, what == 1 ? "u" : "lat", what == 1 ? fs_pick("pos", 0, 2) : -1);
    bool error = false;
    try {
        Null_CDMWriter w(in, "");
    } catch (CDMException&) {
        error = true;
    }
    FS_ASSERT(error == (what != 0), "failure is reported");
    FS_REACH("written");
}

/* filling works in parallel over variables */
FS_HARNESS(filling)
{
    fs_text_lossy(1);
    nc::reset();
    MemReader_p s = source(), o = source();
    for (const char* n : {"t", "u", "v", "q"})
        for (size_t i = 0; i < o->mem[n]->size(); i++)
            ((float*)o->mem[n]->getDataPtr())[i] = 0;
    NetCDF_CDMWriter(o, "out.nc", XMLInputDoc("", XMLDoc_p()), 5);
    const int what = fs_pick("what", 0, 3);
    CDMReader_p in = s;
    if (what == 1)
        in = std::make_shared<FailReader>(s, "v", -1);
    else if (what == 2) {
        nc::calls() = 0;
        nc::fault() = fs_pick("call", 60, 240);
    } else if (what == 3) {
        NetCDF_CDMWriter(s, "first.nc", XMLInputDoc("", XMLDoc_p()), 5);
        in = std::make_shared<NetCDF_CDMReader>("first.nc", false);
    }
    bool error = false;
    try {
        auto io = std::make_shared<NetCDF_CDMReader>("out.nc", true);
        FillWriter(in, io, "");
    } catch (CDMException&) {
        error = true;
    }
    const bool failed = nc::failed();
    nc::fault() = -1;
    FS_ASSERT(fs_locks_held() == 0, "all locks released");
    FS_ASSERT(error || !failed || nc::failedCall() == "nc_close", "failure is reported");
    FS_ASSERT(what != 1 || error, "failure of reading is reported");
    FS_ASSERT(failed || what == 1 || !error, "no error without failure");
    if (error || failed)
        return;
    FS_REACH("filled");
    sameAs(std::make_shared<NetCDF_CDMReader>("out.nc", false), s, {"t", "u", "v", "q"});
}

/* after a fork, the first read of the child opens the file anew, also when several threads read */
namespace {
int thePid = 100;
}
extern "C" pid_t getpid()
{
    return thePid;
}
FS_HARNESS(forked)
{
    fs_text_lossy(1);
    nc::reset();
    MemReader_p s = source();
    NetCDF_CDMWriter(s, "in.nc", XMLInputDoc("", XMLDoc_p()), 5);
    auto r = std::make_shared<NetCDF_CDMReader>("in.nc", false);
    const int how = fs_pick("how", 0, 2), before = fs_pick("before", 0, 1);
    if (before)
        sameAs(r, s, {"u"});
    const size_t h = nc::handles().size();
    const bool fork = fs_pick("fork", 0, 1);
    if (fork)
        thePid++;
    if (fs_pick("fails", 0, 1)) {
        nc::calls() = 0;
        nc::fault() = fs_pick("call", 0, 12);
    }
    bool error = false;
    DataPtr d[3];
    if (how == 2) {
        if (nc::fault() >= 0)
            return;
#pragma omp parallel for
        for (int t = 0; t < 3; t++)
            d[t] = r->getDataSlice("u", t);
    } else
        try {
            for (int t = 0; t < 3; t++)
                if (how == 0)
                    d[t] = r->getDataSlice("u", t);
                else {
                    SliceBuilder sb(r->getCDM(), "u");
                    sb.setStartAndSize("time", t, 1);
                    d[t] = r->getDataSlice("u", sb);
                }
        } catch (CDMException&) {
            error = true;
        }
    FS_ASSERT(fs_locks_held() == 0, "all locks released");
    FS_ASSERT(error == nc::failed(), "failure is reported");
    nc::fault() = -1;
    if (error)
        return;
    FS_ASSERT(nc::handles().size() == h + (fork ? 1 : 0), "opened once more after a fork");
    FS_ASSERT(!fork || !nc::handles()[h - 1].f, "file of the parent closed");
    auto b = s->mem["u"]->asDouble();
    for (int t = 0; t < 3; t++) {
        auto a = d[t]->asDouble();
        for (int i = 0; i < 12; i++)
            FS_ASSERT(FS_SAME(a[i], b[12 * t + i]), "values");
    }
    FS_REACH("read");
}

/* several threads log at once, for the first time */
FS_HARNESS(logging)
{
    const bool same = fs_pick("same", 0, 1);
    Logger_p l[4];
    for (int i = 0; i < 4; i++)
        l[i] = same && i ? l[0] : getLogger("fimex.test" + std::to_string(i));
    bool e[4], f[4];
#pragma omp parallel for
    for (int i = 0; i < 4; i++) {
        e[i] = l[i]->isEnabledFor(Logger::FATAL);
        f[i] = l[i]->isEnabledFor(Logger::DEBUG);
    }
    for (int i = 0; i < 4; i++)
        FS_ASSERT(e[i] && !f[i], "level");
    FS_REACH("logged");
}
