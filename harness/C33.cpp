/*FS {
 "regex": true,
 "quick_s": 60, "thorough_s": 300,
 "bounds": ["the program run with each option of the processing steps alone, with values at the ends of their range, and all steps together; input with 4 x 3 points, 3 levels, 3 times and arbitrary values; input and output by option or position; configuration given on the command line or in files"],
 "outside": ["the parser of options (a stand-in, the library is not available here)", "reading and writing of files (C30)", "what the processing steps do (their own properties)"]
} */
#include "h.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/IoFactory.h"
#include "fimex/XMLInput.h"
#include "fimex/XMLInputFile.h"
#include "fimex/XMLInputString.h"
#include <algorithm>
#include <cctype>
#include <cstring>
#include <cmath>
#include <fstream>
#include <iostream>
#include <memory>
#include <numeric>
#include <regex>
#include <stdlib.h>
#include <unistd.h>
struct Exit { int code; };
#define exit(c) throw Exit{c}
#define main fimex_main
#include "binSrc/fimex.cc"
#undef main
#undef exit
namespace {
const int NX = 4, NY = 3, NZ = 3, NT = 3;
std::map<std::string, MemReader_p> sources;
struct Written { CDMReader_p input; std::string type, file; int n = 0; } written;
struct MemFactory : public IoFactory
{
    int matchFileTypeName(const std::string& t) override { return t == "mem" ? 10 : 0; }
    CDMReader_p createReader(const std::string&, const std::string& f, const XMLInput&, const std::vector<std::string>&) override
    {
        if (!sources.count(f))
            throw CDMException("no such file");
        return sources[f];
    }
    void createWriter(CDMReader_p input, const std::string& t, const std::string& f, const XMLInput&) override
    {
        written.input = input;
        written.type = t;
        written.file = f;
        written.n++;
    }
};
MemReader_p source(int nx, int ny, double x0, double y0)
{
    MemReader_p r = memReader();
    r->att(r->cdm().globalAttributeNS(), "Conventions", "CF-1.4");
    std::vector<double> x, y;
    for (int i = 0; i < nx; i++) x.push_back(x0 + i);
    for (int i = 0; i < ny; i++) y.push_back(y0 + i);
    r->dim("lon", nx);
    r->dim("lat", ny);
    r->dim("lev", NZ);
    r->dim("time", NT, true);
    r->var("lon", CDM_DOUBLE, {"lon"}, x);
    r->att("lon", "units", "degrees_east");
    r->att("lon", "standard_name", "longitude");
    r->var("lat", CDM_DOUBLE, {"lat"}, y);
    r->att("lat", "units", "degrees_north");
    r->att("lat", "standard_name", "latitude");
    r->var("lev", CDM_DOUBLE, {"lev"}, std::vector<double>{500, 700, 900});
    r->att("lev", "units", "hPa");
    r->var("time", CDM_DOUBLE, {"time"}, std::vector<double>{0, 6, 12});
    r->att("time", "units", "hours since 2000-01-01 00:00:00");
    const char* V[] = {"t", "u", "v", "d", "s"};
    const char* S[] = {"air_temperature", "x_wind", "y_wind", "wind_from_direction", "air_temperature status_flag"};
    for (int k = 0; k < 5; k++) {
        std::vector<double> w;
        for (int i = 0; i < nx * ny * NZ * NT; i++) w.push_back(k == 4 ? 1 + (i * 3 + i / 7) % 3 : (i * 7 + k * 5) % 41 + 230);
        r->var(V[k], k == 4 ? CDM_INT : CDM_FLOAT, {"lon", "lat", "lev", "time"}, w);
        r->att(V[k], "standard_name", S[k]);
        r->att(V[k], "units", k == 0 ? "K" : k == 3 ? "degree" : k == 4 ? "1" : "m/s");
        if (k != 4)
            r->att(V[k], "_FillValue", -99.f);
    }
    r->cdm().addAttribute("s", CDMAttribute("flag_values", CDM_INT, Names({"1", "2", "3"})));
    return r;
}
void symbolic(MemReader& r, const char* prefix)
{
    const int cells[] = {0, 5, 14, 23};
    float* p = (float*)r.full("t")->getDataPtr();
    for (int c : cells)
        p[c] = (float)fs_int(std::string(prefix) + std::to_string(c), 200, 300);
}
std::string text(const CDM& c)
{
    std::ostringstream s;
    c.toXMLStream(s);
    return s.str();
}
void same(CDMReader_p a, CDMReader_p b)
{
    FS_ASSERT(text(a->getCDM()) == text(b->getCDM()), "description of the output");
    for (const CDMVariable& v : b->getCDM().getVariables()) {
        DataPtr x = a->getData(v.getName()), y = b->getData(v.getName());
        FS_ASSERT(x->size() == y->size(), "size of the output");
        if (v.getDataType() == CDM_STRING) {
            FS_ASSERT(x->asString() == y->asString(), "text in the output");
            continue;
        }
        auto xv = x->asDouble(), yv = y->asDouble();
        for (size_t i = 0; i < y->size(); i++)
            FS_ASSERT(FS_SAME(xv[i], yv[i]), "values of the output");
    }
}
/* runs the program; 0 when successful */
int program(std::vector<std::string> args)
{
    std::vector<char*> argv;
    args.insert(args.begin(), "fimex");
    for (auto& a : args)
        argv.push_back(&a[0]);
    try {
        return fimex_main((int)argv.size(), argv.data());
    } catch (Exit& e) {
        return e.code;
    }
}
void setup()
{
    IoFactory::install("mem", std::make_shared<MemFactory>());
    sources["a"] = source(NX, NY, 10, 60);
    sources["b"] = source(NX, NY, 10, 60);
    sources["inner"] = source(3, 2, 11, 60);
    sources["innerb"] = source(3, 2, 11, 60);
    // the same values in both: one is read by the program, the other one by what is expected
    symbolic(*sources["a"], "t");
    symbolic(*sources["inner"], "i");
    for (const char* n : {"", "inner"}) {
        float* p = (float*)sources[*n ? "inner" : "a"]->full("t")->getDataPtr();
        float* q = (float*)sources[*n ? "innerb" : "b"]->full("t")->getDataPtr();
        for (size_t i = 0; i < sources[*n ? "inner" : "a"]->full("t")->size(); i++)
            q[i] = p[i];
    }
}
std::string tmpFile(const char* content)
{
    char name[] = "/tmp/fsym-c33-XXXXXX";
    const int fd = mkstemp(name);
    if (fd < 0 || write(fd, content, strlen(content)) < 0)
        return "";
    close(fd);
    return name;
}
struct TmpFile
{
    std::string name;
    explicit TmpFile(const char* c) : name(tmpFile(c)) {}
    ~TmpFile() { unlink(name.c_str()); }
};
const char* NCML = "<?xml version=\"1.0\"?>\n<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\"><variable name=\"temp\" orgName=\"t\"/></netcdf>\n";
const char* QUALITY = "<?xml version=\"1.0\"?>\n<cdmQualityConfig><variable name=\"t\"><status_flag_variable name=\"s\"><allowed_values>2</allowed_values></status_flag_variable></variable></cdmQualityConfig>\n";
}
/* each option */
FS_HARNESS(options)
{
    fs_text_lossy(1);
    const int k = (int)fs_pick("case", 0, 37);
    const int how = (int)fs_pick("how", 0, 2); // options, positions, a configuration file
    setup();
    TmpFile ncml(NCML), quality(QUALITY);
    std::vector<std::string> o;
    CDMReader_p e = sources["b"];
    bool ok = true;
    auto ex = [&] { auto x = std::make_shared<CDMExtractor>(e); e = x; return x; };
    auto pr = [&] { auto x = std::make_shared<CDMProcessor>(e); e = x; return x; };
    switch (k) {
    case 0: break;
    case 1: o = {"process.accumulateVariable=t"}; pr()->accumulate("t"); break;
    case 2: o = {"process.deaccumulateVariable=t", "process.deaccumulateVariable=u", "process.accumulateVariable=v"}; { auto p = pr(); p->deAccumulate("t"); p->deAccumulate("u"); p->accumulate("v"); } break;
    case 3: o = {"process.rotateVector.direction=latlon", "process.rotateVector.x=u", "process.rotateVector.y=v", "process.rotateVector.stdNameX=xx", "process.rotateVector.stdNameY=yy"};
        pr()->rotateVectorToLatLon(true, {"u"}, {"v"}, {"xx"}, {"yy"}); break;
    case 4: o = {"process.rotateVector.direction=grid", "process.rotateVector.x=u", "process.rotateVector.y=v", "process.rotateVector.angle=d"};
        { auto p = pr(); p->rotateVectorToLatLon(false, {"u"}, {"v"}); p->rotateDirectionToLatLon(false, {"d"}); } break;
    case 5: o = {"process.rotateVector.direction=latlon", "process.rotateVector.all"}; pr()->rotateAllVectorsToLatLon(true); break;
    case 6: o = {"process.rotateVector.direction=latlon", "process.rotateVector.angle=d"}; pr()->rotateDirectionToLatLon(true, {"d"}); break;
    case 7: o = {"process.rotateVector.direction=north", "process.rotateVector.all"}; ok = false; break;
    case 8: o = {"process.rotateVector.direction=latlon", "process.rotateVector.x=u"}; ok = false; break;
    case 9: o = {"extract.reduceDimension.name=lon", "extract.reduceDimension.start=1", "extract.reduceDimension.end=2"}; ex()->reduceDimensionStartEnd("lon", 1, 2); break;
    case 10: o = {"extract.reduceDimension.name=lon", "extract.reduceDimension.start=0", "extract.reduceDimension.end=0", "extract.reduceDimension.name=time", "extract.reduceDimension.start=1", "extract.reduceDimension.end=0"};
        { auto x = ex(); x->reduceDimension("lon", 0, 1); x->reduceDimensionStartEnd("time", 1, 0); } break;
    case 11: o = {"extract.reduceDimension.name=lon", "extract.reduceDimension.start=0", "extract.reduceDimension.end=-1"}; ex()->reduceDimensionStartEnd("lon", 0, -1); break;
    case 12: o = {"extract.pickDimension.name=lon", "extract.pickDimension.list=0,2,...,2,3", "extract.pickDimension.name=time", "extract.pickDimension.list=0,2"};
        { auto x = ex(); x->reduceDimension("lon", std::set<size_t>{0, 2, 3}); x->reduceDimension("time", std::set<size_t>{0, 2}); } break;
    case 13: o = {"extract.reduceTime.start=2000-01-01T06:00:00"}; ex()->reduceTime(FimexTime(2000, 1, 1, 6), FimexTime(FimexTime::max_date_time)); break;
    case 14: o = {"extract.reduceTime.end=2000-01-01T06:00:00"}; ex()->reduceTime(FimexTime(FimexTime::min_date_time), FimexTime(2000, 1, 1, 6)); break;
    case 15: o = {"extract.reduceTime.start=2000-01-01T03:00:00", "extract.reduceTime.end=2000-01-01T06:00:00"}; ex()->reduceTime(FimexTime(2000, 1, 1, 3), FimexTime(2000, 1, 1, 6)); break;
    case 16: o = {"extract.reduceTime.start=yesterday"}; ok = false; break;
    case 17: o = {"extract.reduceVerticalAxis.unit=Pa", "extract.reduceVerticalAxis.start=60000", "extract.reduceVerticalAxis.end=90000"}; ex()->reduceVerticalAxis("Pa", 60000, 90000); break;
    case 18: o = {"extract.reduceVerticalAxis.unit=Pa", "extract.reduceVerticalAxis.start=60000"}; ok = false; break;
    case 19: o = {"extract.reduceToBoundingBox.south=60.5", "extract.reduceToBoundingBox.north=62.5", "extract.reduceToBoundingBox.west=9.5", "extract.reduceToBoundingBox.east=12.5"}; ex()->reduceLatLonBoundingBox(60.5, 62.5, 9.5, 12.5); break;
    case 20: o = {"extract.reduceToBoundingBox.east=12.5"}; ok = false; break;
    case 21: o = {"extract.selectVariables=t", "extract.selectVariables=d"}; ex()->selectVariables({"t", "d"}, true); break;
    case 22: o = {"extract.selectVariables=t", "extract.selectVariables.noAuxiliary"}; ex()->selectVariables({"t"}, false); break;
    case 23: o = {"extract.removeVariable=t", "extract.removeVariable=d"}; { auto x = ex(); x->removeVariable("t"); x->removeVariable("d"); } break;
    case 24: o = {"qualityExtract.autoConfString=lowest"}; e = std::make_shared<CDMQualityExtractor>(e, "lowest", ""); break;
    case 25: o = {"qualityExtract2.config=" + quality.name}; e = std::make_shared<CDMQualityExtractor>(e, "", quality.name); break;
    case 26: o = {"qualityExtract2.autoConfString=highest", "ncml.config=" + ncml.name}; e = std::make_shared<NcmlCDMReader>(std::make_shared<CDMQualityExtractor>(e, "highest", ""), XMLInputFile(ncml.name)); break;
    case 27: o = {"timeInterpolate.timeSpec=2000-01-01 03:00:00,2000-01-01 09:00:00"}; { auto x = std::make_shared<CDMTimeInterpolator>(e); x->changeTimeAxis("2000-01-01 03:00:00,2000-01-01 09:00:00"); e = x; } break;
    case 28: case 29: case 30: {
        const char* m[] = {"bilinear", "coord_kdtree", "nearestneighbor"};
        o = {"interpolate.projString=+proj=longlat +R=6371000 +no_defs", "interpolate.xAxisValues=10.5,11.5,...,12.5", "interpolate.yAxisValues=60,61", "interpolate.xAxisUnit=degrees_east", "interpolate.yAxisUnit=degrees_north", "interpolate.xAxisType=float", "interpolate.latitudeName=la"};
        if (k < 30)
            o.push_back(std::string("interpolate.method=") + m[k - 28]);
        if (k == 29)
            o.push_back("interpolate.distanceOfInterest=60000");
        auto x = std::make_shared<CDMInterpolator>(e);
        x->setLatitudeName("la");
        if (k == 28) {
            o.push_back("interpolate.preprocess=creepfill2d(2,1)");
            o.push_back("interpolate.longitudeName=lo");
            o.push_back("interpolate.postprocess=creepfill2d(3,1,4.5)");
            x->setLongitudeName("lo");
            x->addPreprocess(std::make_shared<InterpolatorCreepFill2d>(2, 1));
            x->addPostprocess(std::make_shared<InterpolatorCreepFillVal2d>(3, 1, 4.5f));
        }
        if (k == 29)
            x->setDistanceOfInterest(60000);
        x->changeProjection(mifi_string_to_interpolation_method(m[k - 28]), "+proj=longlat +R=6371000 +no_defs", "10.5,11.5,...,12.5", "60,61", "degrees_east", "degrees_north", "float", "double");
        e = x;
        break;
    }
    case 31: o = {"interpolate.projString=+proj=longlat +R=6371000 +no_defs", "interpolate.xAxisValues=11,12", "interpolate.xAxisUnit=degrees_east", "interpolate.yAxisUnit=degrees_north"}; ok = false; break;
    case 32: o = {"interpolate.latitudeValues=60,61.5", "interpolate.longitudeValues=12,10.5", "interpolate.method=bilinear"};
        { auto x = std::make_shared<CDMInterpolator>(e); x->changeProjection(MIFI_INTERPOL_BILINEAR, std::vector<double>{12, 10.5}, std::vector<double>{60, 61.5}); e = x; } break;
    case 33: o = {"interpolate.vcrossNames=one,two", "interpolate.vcrossNoPoints=1,2", "interpolate.latitudeValues=60,61.5,62", "interpolate.longitudeValues=12,10.5,11"}; {
        auto x = std::make_shared<CDMInterpolator>(e);
        std::vector<CrossSectionDefinition> c;
        c.push_back(CrossSectionDefinition("one", {{12, 60}}));
        c.push_back(CrossSectionDefinition("two", {{10.5, 61.5}, {11, 62}}));
        x->changeProjectionToCrossSections(MIFI_INTERPOL_NEAREST_NEIGHBOR, c);
        e = x;
        break;
    }
    case 34: o = {"interpolate.vcrossNames=one,two", "interpolate.vcrossNoPoints=1,1", "interpolate.latitudeValues=60,61.5,62", "interpolate.longitudeValues=12,10.5,11"}; ok = false; break;
    case 35: case 36: {
        o = {"verticalInterpolate.type=pressure", k == 35 ? "verticalInterpolate.method=log" : "verticalInterpolate.method=linear_no_extra", k == 35 ? "verticalInterpolate.level1=600,800" : "verticalInterpolate.level1=400,800,1000"};
        if (k == 35)
            o.push_back("verticalInterpolate.dataConversion=add4Dpressure");
        if (k == 35)
            e = std::make_shared<CDMPressureConversions>(e, std::vector<std::string>{"add4Dpressure"});
        auto x = std::make_shared<CDMVerticalInterpolator>(e, "pressure", k == 35 ? "log" : "linear_no_extra");
        x->interpolateToFixed(k == 35 ? std::vector<double>{600, 800} : std::vector<double>{400, 800, 1000});
        e = x;
        break;
    }
    default: o = {"verticalInterpolate.type=pressure", "verticalInterpolate.method=log"}; ok = false; break;
    }
    std::vector<std::string> args = {"--input.type=mem", "--output.type=mem"};
    if (how == 2) {
        po::config_files()["cfg"] = o;
        args.push_back("--config=cfg");
    } else
        for (auto& s : o)
            args.push_back("--" + s);
    if (how == 1) {
        args.push_back("a");
        args.push_back("out");
    } else {
        args.push_back("--input.file=a");
        args.push_back("--output.file=out");
    }
    const int rc = program(args);
    FS_ASSERT((rc == 0) == ok, "status of the program");
    FS_ASSERT(written.n == (ok ? 1 : 0), "output is written exactly when successful");
    if (ok) {
        FS_ASSERT(written.type == "mem" && written.file == "out", "output file");
        same(written.input, e);
    }
    FS_REACH("run");
}
/* the order of the steps, and merging */
FS_HARNESS(steps)
{
    fs_text_lossy(1);
    const bool merge = fs_pick("merge", 0, 1), cfg = fs_pick("cfg", 0, 1), keep = fs_pick("keep", 0, 1), grid = fs_pick("grid", 0, 1);
    setup();
    TmpFile ncml(NCML);
    std::vector<std::string> args = {"--input.type=mem", "--output.type=mem", "--input.file=a", "--output.file=out"};
    CDMReader_p e = sources["b"];
    if (!merge) {
        args.insert(args.end(), {"--ncml.config=" + ncml.name, "--timeInterpolate.timeSpec=2000-01-01 03:00:00,2000-01-01 06:00:00", "--extract.reduceDimension.name=lat", "--extract.reduceDimension.start=1", "--extract.reduceDimension.end=2", "--process.accumulateVariable=t",
                                 "--verticalInterpolate.type=pressure", "--verticalInterpolate.method=linear", "--verticalInterpolate.level1=600", "--interpolate.latitudeValues=61.5", "--interpolate.longitudeValues=11.25", "--interpolate.method=bilinear"});
        auto p = std::make_shared<CDMProcessor>(e);
        p->accumulate("t");
        e = p;
        if (cfg) {
            args.push_back("--qualityExtract.autoConfString=highest");
            e = std::make_shared<CDMQualityExtractor>(e, "highest", "");
        }
        auto x = std::make_shared<CDMExtractor>(e);
        x->reduceDimensionStartEnd("lat", 1, 2);
        auto t = std::make_shared<CDMTimeInterpolator>(x);
        t->changeTimeAxis("2000-01-01 03:00:00,2000-01-01 06:00:00");
        auto h = std::make_shared<CDMInterpolator>(t);
        h->changeProjection(MIFI_INTERPOL_BILINEAR, std::vector<double>{11.25}, std::vector<double>{61.5});
        auto v = std::make_shared<CDMVerticalInterpolator>(h, "pressure", "linear");
        v->interpolateToFixed({600});
        e = std::make_shared<NcmlCDMReader>(v, XMLInputFile(ncml.name));
    } else {
        args.insert(args.end(), {"--merge.inner.file=inner", "--merge.inner.type=mem", "--merge.smoothing=LINEAR(1,1)", "--merge.method=bilinear"});
        CDMReader_p i = sources["innerb"];
        if (cfg) {
            po::config_files()["inner"] = {"extract.reduceDimension.name=time", "extract.reduceDimension.start=1", "extract.reduceDimension.end=2"};
            args.push_back("--merge.inner.cfg=inner");
            args.insert(args.end(), {"--extract.reduceDimension.name=time", "--extract.reduceDimension.start=0", "--extract.reduceDimension.end=1"});
            auto x = std::make_shared<CDMExtractor>(i);
            x->reduceDimensionStartEnd("time", 1, 2);
            i = x;
            auto y = std::make_shared<CDMExtractor>(e);
            y->reduceDimensionStartEnd("time", 0, 1);
            e = y;
        }
        auto m = std::make_shared<CDMMerger>(i, e);
        m->setSmoothing(createSmoothingFactory("LINEAR(1,1)"));
        if (keep) {
            args.push_back("--merge.keepOuterVariables");
            m->setKeepOuterVariables(true);
        }
        m->setGridInterpolationMethod(MIFI_INTERPOL_BILINEAR);
        if (grid) {
            args.insert(args.end(), {"--merge.projString=+proj=longlat +R=6371000 +no_defs", "--merge.xAxisValues=11,12", "--merge.yAxisValues=60,61", "--merge.xAxisUnit=degrees_east", "--merge.yAxisUnit=degrees_north", "--merge.yAxisType=float"});
            m->setTargetGrid("+proj=longlat +R=6371000 +no_defs", "11,12", "60,61", "degrees_east", "degrees_north", "double", "float");
        } else
            m->setTargetGridFromInner();
        e = m;
    }
    FS_ASSERT(program(args) == 0, "status of the program");
    FS_ASSERT(written.n == 1, "output is written");
    same(written.input, e);
    FS_REACH("run");
}
/* descriptions of the data after each step */
FS_HARNESS(printing)
{
    fs_text_lossy(1);
    const int k = (int)fs_pick("step", 0, 9);
    setup();
    const char* STEP[] = {"input", "process", "extract", "qualityExtract", "timeInterpolate", "interpolate", "verticalInterpolate", "qualityExtract2", "ncml", "output"};
    TmpFile ncml(NCML), out("");
    std::vector<std::string> args = {"--input.type=mem", "--input.file=a", "--process.accumulateVariable=t", "--qualityExtract.autoConfString=highest", "--extract.removeVariable=d", "--timeInterpolate.timeSpec=2000-01-01 03:00:00", "--interpolate.latitudeValues=61.5", "--interpolate.longitudeValues=11.25",
                                     "--verticalInterpolate.type=pressure", "--verticalInterpolate.method=linear", "--verticalInterpolate.level1=600,700", "--qualityExtract2.autoConfString=lowest", "--ncml.config=" + ncml.name, std::string("--") + STEP[k] + ".printNcML=" + out.name};
    FS_ASSERT(program(args) == 0, "status of the program");
    FS_ASSERT(written.n == 0, "nothing is written without output file");
    std::ifstream in(out.name);
    const std::string t((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    FS_ASSERT(t.find("</netcdf>") != std::string::npos, "description of the data is written");
    auto has = [&](const char* n) { return t.find(n) != std::string::npos; };
    FS_ASSERT(has("<variable name=\"d\"") == (k < 2 || k == 3), "removed variable");
    FS_ASSERT(has("<dimension name=\"time\" length=\"1\"") == (k == 4 || k == 5 || k >= 6), "number of times");
    FS_ASSERT(has("<variable name=\"temp\"") == (k >= 8), "renamed variable");
    FS_REACH("printed");
}
