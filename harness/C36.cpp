/*FS {
 "regex": true, "io": ["grib"],
 "quick_s": 100, "weights": {"boxes": 8, "times": 3}, "thorough_s": 400,
 "bounds": ["files of messages of 2 x 2 points for 2 ensemble members, 2 levels and 2 times with arbitrary values, any one message and any one value missing, messages in any of 4 orders and in 1 or 2 files, edition 1 and 2; every box of members, levels, times, columns and rows", "all units of steps; dates at the ends of months and years; every type of grid with all scanning directions, increments given or not, every shape of the earth", "parameters selected by every key of the configuration"],
 "outside": ["decoding of the bytes of a message (ecCodes, a stand-in with tables of keys here)", "writing of grib files; protobuf index", "grids scanned along columns or alternating"]
} */
#include "h.h"
#include "gribmem.h"
#define MIFI_IO_READER_SUPPRESS_DEPRECATED
#include "GribCDMReader.h"
#include "GribFileIndex.h"
#include "GribUtils.h"
#include "fimex/ChunkReaderFactory.h"
#include "fimex/FimexTime.h"
#include "fimex/TimeUnit.h"
#include "fimex/XMLInputString.h"
#include "fimex/coordSys/Projection.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <sstream>
namespace {
const char HEAD[] = "<?xml version=\"1.0\"?><cdmGribReaderConfig xmlns=\"http://www.met.no/schema/fimex/cdmGribReaderConfig\">";
const char AXES[] = "<global_attributes><attribute name=\"Conventions\" value=\"CF-1.0\" type=\"string\"/>"
    "<attribute name=\"min_time\" value=\"%MIN_DATETIME(%Y-%m-%d %H:%M:%SZ)%\" type=\"string\"/><attribute name=\"max_time\" value=\"%MAX_DATETIME(%Y-%m-%d %H:%M:%SZ)%\" type=\"string\"/></global_attributes>"
    "<axes><time id=\"time\" name=\"time\" type=\"double\"><attribute name=\"units\" value=\"seconds since 1970-01-01 00:00:00 +00:00\" type=\"string\"/></time>"
    "<spatial_axis typeOfGrid=\"lambert\" id=\"x\" name=\"x\" type=\"double\"><attribute name=\"units\" value=\"m\" type=\"string\"/></spatial_axis>"
    "<spatial_axis typeOfGrid=\"lambert\" id=\"y\" name=\"y\" type=\"double\"><attribute name=\"units\" value=\"m\" type=\"string\"/></spatial_axis>"
    "<spatial_axis typeOfGrid=\"mercator\" id=\"x\" name=\"x\" type=\"double\"><attribute name=\"units\" value=\"m\" type=\"string\"/></spatial_axis>"
    "<spatial_axis typeOfGrid=\"mercator\" id=\"y\" name=\"y\" type=\"double\"><attribute name=\"units\" value=\"m\" type=\"string\"/></spatial_axis>"
    "<spatial_axis typeOfGrid=\"polar_stereographic\" id=\"x\" name=\"x\" type=\"double\"><attribute name=\"units\" value=\"m\" type=\"string\"/></spatial_axis>"
    "<spatial_axis typeOfGrid=\"polar_stereographic\" id=\"y\" name=\"y\" type=\"double\"><attribute name=\"units\" value=\"m\" type=\"string\"/></spatial_axis>"
    "<spatial_axis typeOfGrid=\"regular_ll\" id=\"x\" name=\"longitude\" type=\"double\"><attribute name=\"units\" value=\"degrees_east\" type=\"string\"/></spatial_axis>"
    "<spatial_axis typeOfGrid=\"regular_ll\" id=\"y\" name=\"latitude\" type=\"double\"><attribute name=\"units\" value=\"degrees_north\" type=\"string\"/></spatial_axis>"
    "<spatial_axis typeOfGrid=\"rotated_ll\" id=\"x\" name=\"rlon\" type=\"double\"><attribute name=\"units\" value=\"degrees\" type=\"string\"/></spatial_axis>"
    "<spatial_axis typeOfGrid=\"rotated_ll\" id=\"y\" name=\"rlat\" type=\"double\"><attribute name=\"units\" value=\"degrees\" type=\"string\"/></spatial_axis>"
    "<spatial_axis id=\"longitude\" name=\"longitude\"/><spatial_axis id=\"latitude\" name=\"latitude\"/>"
    "<vertical_axis id=\"pressure\" name=\"pressure\" grib2_id=\"100\" grib1_id=\"100\" type=\"float\"><attribute name=\"positive\" value=\"down\" type=\"string\"/>"
    "<grib1><attribute name=\"units\" value=\"hPa\" type=\"string\"/></grib1><grib2><attribute name=\"units\" value=\"Pa\" type=\"string\"/></grib2></vertical_axis>"
    "<vertical_axis id=\"hybrid\" name=\"hybrid\" grib2_id=\"105\" grib1_id=\"109\" type=\"double\">"
    "<attribute name=\"formula_terms\" value=\"ap: ap%EXT% b: b%EXT%\" type=\"string\"/>"
    "<additional_axis_variable name=\"p0\" type=\"double\" axis=\"1\"><values mode=\"inline\">100000</values></additional_axis_variable>"
    "<additional_axis_variable name=\"ap\" type=\"double\" axis=\"k\"><values mode=\"extraHalvLevel1\"/></additional_axis_variable>"
    "<additional_axis_variable name=\"b\" type=\"double\" axis=\"k\"><values mode=\"extraHalvLevel2\"/></additional_axis_variable>"
    "<values mode=\"hybridSigmaCalc(ap,b,p0)\"/></vertical_axis></axes>";
std::string config(const std::string& vars, const std::string& options = "")
{
    return std::string(HEAD) + options + AXES + "<variables>" + vars + "</variables></cdmGribReaderConfig>";
}
std::string par(int edition, const std::string& id, const std::string& more = "")
{
    return edition == 1 ? "<grib1 indicatorOfParameter=\"" + id + "\" gribTablesVersionNo=\"1\" identificationOfOriginatingGeneratingCentre=\"88\" " + more + "/>"
                        : "<grib2 parameterNumber=\"" + id + "\" parameterCategory=\"1\" discipline=\"88\" " + more + "/>";
}
grb::Msg msg(int edition, long par, long level, long step, int member = -1, int members = 0)
{
    grb::Msg m;
    m.l["edition"] = edition;
    if (edition == 1) {
        m.l["indicatorOfParameter"] = par, m.l["gribTablesVersionNo"] = 1, m.l["centre"] = 88, m.l["levtype"] = 100;
    } else {
        m.l["parameterNumber"] = par, m.l["parameterCategory"] = 1, m.l["discipline"] = 88, m.l["typeOfFirstFixedSurface"] = 100;
    }
    m.s["name"] = "Name", m.s["shortName"] = "sn";
    m.l["level"] = level;
    m.l["indicatorOfUnitOfTimeRange"] = 1, m.l["stepUnits"] = 1, m.s["stepType"] = "instant";
    m.l["dataDate"] = 20260228, m.l["time"] = 1830, m.l["timeRangeIndicator"] = 0;
    m.l["startStep"] = step, m.l["endStep"] = step;
    if (members > 0)
        m.l["numberOfForecastsInEnsemble"] = members, m.l["perturbationNumber"] = member;
    m.s["typeOfGrid"] = "regular_ll";
    m.l["Ni"] = 2, m.l["Nj"] = 2;
    m.d["longitudeOfFirstGridPointInDegrees"] = 5, m.d["latitudeOfFirstGridPointInDegrees"] = 60;
    m.d["longitudeOfLastGridPointInDegrees"] = 6, m.d["latitudeOfLastGridPointInDegrees"] = 61;
    m.l["iScansNegatively"] = 0, m.l["jScansPositively"] = 1, m.l["jPointsAreConsecutive"] = 0, m.l["alternativeRowScanning"] = 0;
    m.l["ijDirectionIncrementGiven"] = 0;
    m.l["earthIsOblate"] = 0, m.l["shapeOfTheEarth"] = 6;
    m.l["PVPresent"] = 0;
    m.d["missingValue"] = 9999;
    m.values.assign(4, 0);
    return m;
}
const double REF = 1772303400; // 2026-02-28 18:30
std::shared_ptr<GribCDMReader> open(const std::vector<std::string>& files, const std::string& cfg, const std::vector<std::pair<std::string, std::string>>& members = {})
{
    return std::make_shared<GribCDMReader>(files, XMLInputString(cfg), members);
}
std::vector<double> values(DataPtr d)
{
    auto a = d->asDouble();
    return std::vector<double>(a.get(), a.get() + d->size());
}
} // namespace
FS_HARNESS(boxes)
{
    const int edition = fs_pick("edition", 1, 2);
    const int NE = fs_pick("members", 1, 2);
    const int arr = fs_pick("arr", 0, 3); // order of messages, files, missing message, missing value
    const int order = arr & 1, files = 1 + (arr >> 1), gone = 2 * arr + 1, gap = arr == 1 || arr == 2;
    double v[2][2][2][4] = {};
    bool have[2][2][2] = {};
    std::vector<std::array<int, 3>> seq;
    int k = 0;
    for (int t = 0; t < 2; t++)
        for (int l = 0; l < 2; l++)
            for (int e = 0; e < NE; e++)
                if (k++ != gone || NE == 1)
                    seq.push_back({t, l, e});
    if (order)
        std::reverse(seq.begin(), seq.end());
    for (auto& s : seq) {
        const int t = s[0], l = s[1], e = s[2];
        have[t][l][e] = true;
        grb::Msg m = msg(edition, 11, l ? 850 : 500, t * 6, e, NE > 1 ? NE : 0);
        m.missing.assign(4, 0);
        for (int i = 0; i < 4; i++)
            v[t][l][e][i] = m.values[i] = fs_real("v", -100, 100, 2);
        if (gap && t == 1 && l == 0) {
            m.missing[2] = 1;
            v[t][l][e][2] = -999;
        }
        grb::msgs().push_back(m);
    }
    const size_t n = seq.size();
    std::vector<std::string> f;
    if (files == 1)
        f.push_back(grb::fileWith(0, n));
    else
        f = {grb::fileWith(0, n / 2), grb::fileWith(n / 2, n)};
    auto r = open(f, config("<parameter name=\"v\" type=\"double\">" + par(edition, "11") + "<attribute name=\"_FillValue\" value=\"-999\" type=\"double\"/></parameter>"));
    const CDM& cdm = r->getCDM();
    FS_ASSERT(cdm.getDimension("pressure").getLength() == 2 && cdm.getDimension("time").getLength() == 2, "levels or times missing");
    const Names shape = NE > 1 ? Names{"longitude", "latitude", "ensemble_member", "pressure", "time"} : Names{"longitude", "latitude", "pressure", "time"};
    FS_ASSERT(cdm.getVariable("v").getShape() == shape, "shape");
    const std::vector<double> pl = {500, 850}, tl = {REF, REF + 6 * 3600};
    FS_ASSERT(values(r->getData("pressure")) == pl, "levels");
    FS_ASSERT(values(r->getData("time")) == tl, "times");
    FS_ASSERT(values(r->getData("forecast_reference_time")).at(0) == REF, "reference time");
    auto box = [](const char* nm, int& st, int& sz) {
        const int b = fs_pick(nm, 0, 2);
        st = b == 2, sz = b == 0 ? 2 : 1;
    };
    int xs, xn, ys, yn, es = 0, en = 1, ls, ln, ts, tn;
    const int xy = fs_pick("xy", 0, 3); // all, a column, a row, a point
    xs = xy & 1, xn = 2 - xs, ys = xy == 3 ? 0 : xy >> 1, yn = xy >= 2 ? 1 : 2;
    if (NE > 1)
        box("e", es, en);
    box("l", ls, ln);
    box("t", ts, tn);
    SliceBuilder sb(cdm, "v");
    sb.setStartAndSize("longitude", xs, xn);
    sb.setStartAndSize("latitude", ys, yn);
    if (NE > 1)
        sb.setStartAndSize("ensemble_member", es, en);
    sb.setStartAndSize("pressure", ls, ln);
    sb.setStartAndSize("time", ts, tn);
    DataPtr d = r->getDataSlice("v", sb);
    FS_ASSERT(d->size() == size_t(xn * yn * en * ln * tn), "number of values");
    auto a = d->asDouble();
    bool ok = true;
    size_t p = 0;
    for (int t = ts; t < ts + tn; t++)
        for (int l = ls; l < ls + ln; l++)
            for (int e = es; e < es + en; e++)
                for (int y = ys; y < ys + yn; y++)
                    for (int x = xs; x < xs + xn; x++)
                        ok &= a[p++] == (have[t][l][e] ? v[t][l][e][y * 2 + x] : -999);
    FS_ASSERT(ok, "value of another message, member, level, time or point");
    if (xn == 2 && yn == 2 && en == NE && ln == 2 && tn == 1) {
        DataPtr q = r->getDataSlice("v", ts);
        auto b = q->asDouble();
        ok = q->size() == d->size();
        for (size_t i = 0; ok && i < d->size(); i++)
            ok &= a[i] == b[i];
        FS_ASSERT(ok, "slice of one time");
    }
    FS_REACH("boxes");
}
FS_HARNESS(packing)
{
    const int type = fs_pick("type", 0, 2), given = fs_pick("precision", 0, 1);
    double v[4];
    grb::Msg m = msg(2, 11, 500, 0);
    for (int i = 0; i < 4; i++)
        v[i] = m.values[i] = fs_int("v", -400, 400) / 8.0;
    m.missing = {0, 0, 1, 0};
    grb::msgs().push_back(m);
    const char* T[] = {"short", "float", "double"};
    auto r = open({grb::fileWith(0, 1)}, config(std::string("<parameter name=\"v\" type=\"") + T[type] + "\">" + par(2, "11") + "<attribute name=\"_FillValue\" value=\"-999\" type=\"" + T[type] + "\"/>"
        + (given ? "<precision scale_factor=\"0.5\" add_offset=\"2\"/>" : type == 0 ? "<precision scale_factor=\"0.125\"/>" : "") + "</parameter>"));
    DataPtr d = r->getScaledData("v");
    FS_ASSERT(d->size() == 4, "number of values");
    auto a = d->asDouble();
    for (int i = 0; i < 4; i++) {
        if (i == 2)
            FS_ASSERT(a[i] != a[i], "missing value");
        else
            FS_ASSERT(fabs(a[i] - v[i]) <= (given ? 0.2500001 : 1e-6), "value changed by more than the precision");
    }
    FS_REACH("packing");
}
FS_HARNESS(times)
{
    const long U[] = {0, 1, 2, 10, 11, 12, 13};
    const double S[] = {60, 3600, 86400, 3 * 3600, 6 * 3600, 12 * 3600, 1};
    const int u = fs_pick("unit", 0, 6);
    const int edition = fs_pick("edition", 1, 2);
    const long D[] = {20260228, 20240228, 20251231};
    const double R[] = {1772236800, 1709078400, 1767139200}; // 00:00 of these dates
    const int d = fs_pick("date", 0, 2), hour = fs_pick("hour", 0, 1) * 23, minute = fs_pick("minute", 0, 1) * 59;
    const long s[2] = {fs_pick("step", 0, 2) * 13, 5};
    for (int i = 0; i < 2; i++) {
        grb::Msg m = msg(edition, 11, 500, s[i]);
        m.l["indicatorOfUnitOfTimeRange"] = U[u];
        m.l["stepUnits"] = 1;
        m.l["dataDate"] = D[d], m.l["time"] = hour * 100 + minute;
        m.values.assign(4, i + 1);
        grb::msgs().push_back(m);
    }
    auto r = open({grb::fileWith(0, 2)}, config("<parameter name=\"v\" type=\"float\">" + par(edition, "11") + "</parameter>"));
    const double ref = R[d] + hour * 3600 + minute * 60;
    const std::vector<double> t = values(r->getData("time"));
    FS_ASSERT(t.size() == 2 && t[0] < t[1], "times ascending");
    for (int i = 0; i < 2; i++) {
        const double want = ref + s[i] * S[u];
        const int k = t[0] == want ? 0 : 1;
        FS_ASSERT(t[k] == want, "valid time");
        DataPtr q = r->getDataSlice("v", k);
        FS_ASSERT(q->size() == 4 && q->asDouble()[0] == i + 1, "data at another time");
    }
    FS_ASSERT(values(r->getData("forecast_reference_time")).at(0) == ref, "reference time");
    const double lo = t[0];
    CDMAttribute att;
    FS_ASSERT(r->getCDM().getAttribute(r->getCDM().globalAttributeNS(), "min_time", att), "attribute");
    TimeUnit tu("seconds since 1970-01-01 00:00:00");
    FS_ASSERT(tu.fimexTime2unitTime(string2FimexTime(att.getStringValue().substr(0, 19))) == lo, "first time in attribute");
    FS_ASSERT(r->getCDM().getAttribute(r->getCDM().globalAttributeNS(), "max_time", att), "attribute");
    FS_ASSERT(tu.fimexTime2unitTime(string2FimexTime(att.getStringValue().substr(0, 19))) == t[1], "last time in attribute");
    FS_REACH("times");
}
FS_HARNESS(constant)
{
    /* variables without time next to variables with time */
    const int edition = fs_pick("edition", 1, 2), also = fs_pick("also", 0, 1);
    double v[2][4], w[2][4];
    for (int l = 0; l < 2; l++) {
        grb::Msg m = msg(edition, 12, 500 + l, 7);
        for (int i = 0; i < 4; i++)
            v[l][i] = m.values[i] = fs_real("v", -100, 100, 2);
        grb::msgs().push_back(m);
    }
    for (int t = 0; t < 2 * also; t++) {
        grb::Msg m = msg(edition, 11, 500, t);
        for (int i = 0; i < 4; i++)
            w[t][i] = m.values[i] = fs_real("w", -100, 100, 2);
        grb::msgs().push_back(m);
    }
    auto r = open({grb::fileWith(0, 2 + 2 * also)}, config("<parameter name=\"v\" type=\"double\" constantTime=\"true\">" + par(edition, "12") + "</parameter><parameter name=\"w\" type=\"double\">" + par(edition, "11") + "</parameter>"));
    FS_ASSERT(r->getCDM().getVariable("v").getShape().size() == 3 && !r->getCDM().hasUnlimitedDim(r->getCDM().getVariable("v")), "constant in time");
    DataPtr d = r->getData("v");
    FS_ASSERT(d->size() == 8, "number of values");
    auto a = d->asDouble();
    bool ok = true;
    for (int l = 0; l < 2; l++)
        for (int i = 0; i < 4; i++)
            ok &= a[l * 4 + i] == v[l][i];
    FS_ASSERT(ok, "values");
    if (also) {
        for (int t = 0; t < 2; t++) {
            DataPtr q = r->getDataSlice("w", t);
            auto b = q->asDouble();
            ok = q->size() == 4;
            for (int i = 0; ok && i < 4; i++)
                ok &= b[i] == w[t][i];
            FS_ASSERT(ok, "values of the other variable");
        }
    }
    FS_REACH("constant");
}
FS_HARNESS(grids)
{
    const int edition = fs_pick("edition", 1, 2), g = fs_pick("grid", 0, 4);
    const int right = fs_pick("right", 0, 1), bottom = fs_pick("bottom", 0, 1), given = fs_pick("given", 0, 1), south = g == 4 ? fs_pick("south", 0, 1) : 0;
    const char* G[] = {"regular_ll", "rotated_ll", "lambert", "mercator", "polar_stereographic"};
    const int nx = 3, ny = 2;
    grb::Msg m = msg(edition, 11, 500, 0);
    m.s["typeOfGrid"] = G[g];
    m.l["Ni"] = nx, m.l["Nj"] = ny;
    m.l["iScansNegatively"] = right, m.l["jScansPositively"] = bottom;
    m.l["ijDirectionIncrementGiven"] = given;
    const double dx = right ? -0.5 : 0.5, dy = bottom ? 0.25 : -0.25, x0 = 10, y0 = south ? -70 : 60;
    m.d["longitudeOfFirstGridPointInDegrees"] = x0, m.d["latitudeOfFirstGridPointInDegrees"] = y0;
    m.d["longitudeOfLastGridPointInDegrees"] = x0 + (nx - 1) * dx, m.d["latitudeOfLastGridPointInDegrees"] = y0 + (ny - 1) * dy;
    if (given)
        m.d["iDirectionIncrementInDegrees"] = 0.5, m.d["jDirectionIncrementInDegrees"] = 0.25;
    m.d["longitudeOfSouthernPoleInDegrees"] = 335.125, m.d["latitudeOfSouthernPoleInDegrees"] = -32.0625;
    m.d["DxInMetres"] = 2500, m.d["DyInMetres"] = 5000;
    m.d["LaDInDegrees"] = 52.5, m.d["orientationOfTheGridInDegrees"] = 350.125;
    m.d["LoVInDegrees"] = 344.0625, m.d["Latin1InDegrees"] = 63.3125, m.d["Latin2InDegrees"] = 50.5;
    m.d["latitudeWhereDxAndDyAreSpecifiedInDegrees"] = edition == 1 ? 60 : 70.0625;
    m.l["projectionCenterFlag"] = m.l["projectionCentreFlag"] = south ? 128 : 0;
    m.values.assign(nx * ny, 1);
    grb::msgs().push_back(m);
    auto r = open({grb::fileWith(0, 1)}, config("<parameter name=\"v\" type=\"float\">" + par(edition, "11") + "</parameter>"));
    const CDM& cdm = r->getCDM();
    const Names sh = cdm.getVariable("v").getShape();
    const char* X[] = {"longitude", "rlon", "x", "x", "x"};
    const char* Y[] = {"latitude", "rlat", "y", "y", "y"};
    FS_ASSERT(sh.at(0) == X[g] && sh.at(1) == Y[g], "names of the axes");
    const std::vector<double> x = values(r->getData(X[g])), y = values(r->getData(Y[g]));
    FS_ASSERT(x.size() == 3 && y.size() == 2, "size of the grid");
    double ex = x0, ey = y0, ix = dx, iy = dy;
    std::string proj;
    switch (g) {
    case 0: proj = "+proj=longlat"; break;
    case 1: proj = "+proj=ob_tran +o_proj=longlat +lon_0=-24.875 +o_lat_p=32.0625"; break;
    case 2: proj = "+proj=lcc +lat_0=63.3125 +lon_0=-15.9375 +lat_1=63.3125 +lat_2=50.5"; break;
    case 3: proj = "+proj=merc +lon_0=-9.875 +lat_ts=52.5"; break;
    default: proj = std::string("+proj=stere +lat_0=") + (south ? "-90" : "90") + " +lon_0=-9.875 +lat_ts=" + (edition == 1 ? "60" : "70.0625");
    }
    proj += edition == 1 ? " +a=6367470 +e=0" : " +a=6371229";
    CDMAttribute gm;
    FS_ASSERT(cdm.getAttribute("v", "grid_mapping", gm), "grid mapping");
    Projection_cp p = Projection::create(cdm.getAttributes(gm.getStringValue())), want = Projection::createByProj4(proj);
    if (g >= 2) {
        ix = right ? -2500 : 2500, iy = bottom ? 5000 : -5000;
        std::vector<double> px(1, x0), py(1, y0);
        want->convertFromLonLat(px, py);
        ex = px[0], ey = py[0];
    }
    for (int i = 0; i < nx; i++)
        FS_ASSERT(fabs(x[i] - (ex + i * ix)) < 1e-3, "x axis");
    for (int j = 0; j < ny; j++)
        FS_ASSERT(fabs(y[j] - (ey + j * iy)) < 1e-3, "y axis");
    FS_ASSERT(*p == *want, "projection");
    if (g > 0) {
        FS_ASSERT(cdm.hasVariable("longitude") && cdm.hasVariable("latitude"), "longitude and latitude of the points");
        std::vector<double> px(1, x[1]), py(1, y[1]);
        want->convertToLonLat(px, py);
        FS_ASSERT(fabs(values(r->getData("longitude")).at(nx + 1) - px[0]) < 1e-3 && fabs(values(r->getData("latitude")).at(nx + 1) - py[0]) < 1e-3, "longitude and latitude of the points");
    }
    FS_REACH("grids");
}
FS_HARNESS(earth)
{
    const int edition = fs_pick("edition", 1, 2);
    const int shape = fs_pick("shape", 0, edition == 1 ? 1 : 8);
    grb::Msg m = msg(edition, 11, 500, 0);
    m.l["earthIsOblate"] = shape, m.l["shapeOfTheEarth"] = shape;
    m.d["radiusInMetres"] = 6371000;
    const double unit = shape == 3 ? 1000 : 1;
    const int scale = fs_pick("scale", 0, 2);
    m.l["scaleFactorOfMajorAxisOfOblateSpheroidEarth"] = scale, m.l["scaleFactorOfMinorAxisOfOblateSpheroidEarth"] = scale;
    m.d["scaledValueOfMajorAxisOfOblateSpheroidEarth"] = 6378000 / unit * pow(10, scale);
    m.d["scaledValueOfMinorAxisOfOblateSpheroidEarth"] = 6356000 / unit * pow(10, scale);
    grb::msgs().push_back(m);
    const int overrule = fs_pick("overrule", 0, 1);
    auto r = open({grb::fileWith(0, 1)}, config("<parameter name=\"v\" type=\"float\">" + par(edition, "11") + "</parameter>", overrule ? "<overrule><earthFigure proj4=\"+a=6370000 +b=6350000\"/></overrule>" : ""));
    const char* E1[] = {"+a=6367470 +e=0", "+a=6378160 +b=6356775"};
    const char* E2[] = {"+a=6367470 +e=0", "+a=6371000 +e=0", "+a=6378160 +b=6356775", "+a=6378000 +b=6356000", "+a=6378137 +b=6356752.314", "+a=6378137 +b=6356752.314245", "+a=6371229", "+a=6378000 +b=6356000", "+a=6371200 +e=0"};
    const std::string e = overrule ? "+a=6370000 +b=6350000" : edition == 1 ? E1[shape] : E2[shape];
    CDMAttribute gm;
    FS_ASSERT(r->getCDM().getAttribute("v", "grid_mapping", gm), "grid mapping");
    FS_ASSERT(*Projection::create(r->getCDM().getAttributes(gm.getStringValue())) == *Projection::createByProj4("+proj=longlat " + e), "figure of the earth");
    FS_REACH("earth");
}
FS_HARNESS(select)
{
    /* a parameter of the configuration describes exactly the messages with all of its keys */
    const int edition = fs_pick("edition", 1, 2), all = fs_pick("all", 0, 1);
    const int level = fs_int("level", 498, 503);
    const int key = fs_pick("key", 0, 8);
    grb::Msg m = msg(edition, 11, level, 0);
    m.l["extra"] = 3;
    m.l["typeOfStatisticalProcessing"] = 1;
    m.s["stepType"] = "accum";
    bool match = true;
    switch (key) {
    case 1: m.l[edition == 1 ? "indicatorOfParameter" : "parameterNumber"] = 12; match = false; break;
    case 2: m.l[edition == 1 ? "gribTablesVersionNo" : "parameterCategory"] = 2; match = false; break;
    case 3: m.l[edition == 1 ? "centre" : "discipline"] = 89; match = false; break;
    case 4: m.l["extra"] = 4; match = false; break;
    case 5: m.l["typeOfStatisticalProcessing"] = 2; match = false; break;
    case 6: m.s["stepType"] = "instant"; match = false; break;
    case 7: m.l["timeRangeIndicator"] = 3; match = false; break;
    case 8: m.l[edition == 1 ? "levtype" : "typeOfFirstFixedSurface"] = 101; match = false; break;
    }
    match = match && (level == 499 || level == 500 || level == 502);
    m.values.assign(4, 5);
    grb::msgs().push_back(m);
    const std::string keys = "typeOfLevel=\"100\" levelNo=\"499,500,502\" timeRangeIndicator=\"0\" typeOfStatisticalProcessing=\"1\" stepType=\"accum,avg\"";
    std::string p = par(edition, "11", keys);
    p = p.substr(0, p.size() - 2) + "><extraKey name=\"extra\" value=\"3\"/></grib" + std::to_string(edition) + ">";
    auto r = open({grb::fileWith(0, 1)}, config("<parameter name=\"v\" type=\"float\"><spatial_vector direction=\"x\" counterpart=\"w\"/><attribute name=\"units\" value=\"K\" type=\"string\"/>" + p + "</parameter>",
                  std::string("<processOptions><option name=\"selectParameters\" value=\"") + (all ? "all" : "definedOnly") + "\"/></processOptions>"));
    const CDM& cdm = r->getCDM();
    const std::string other = key == 8 ? "ga_sn_101" : "ga_sn_100";
    FS_ASSERT(cdm.hasVariable("v") == match, "parameter of the configuration");
    FS_ASSERT(cdm.hasVariable(other) == (!match && all), "parameter not in the configuration");
    if (match) {
        FS_ASSERT(cdm.getVariable("v").getDataType() == CDM_FLOAT && cdm.getUnits("v") == "K", "type and attributes");
        FS_ASSERT(cdm.getVariable("v").isSpatialVector() && cdm.getVariable("v").getSpatialVectorCounterpart() == "w", "vector");
    }
    if (match || all)
        FS_ASSERT(values(r->getData(match ? "v" : other)) == std::vector<double>(4, 5), "values");
    FS_REACH("select");
}
FS_HARNESS(levels)
{
    /* variables on different sets of levels of one type, and hybrid levels */
    const int edition = fs_pick("edition", 1, 2), hybrid = fs_pick("hybrid", 0, 1), same = fs_pick("same", 0, 1);
    const int L[2][3] = {{1, 2, 3}, {1, 3, 0}};
    double v[2][3][4];
    int nl[2] = {3, same ? 3 : 2};
    std::vector<double> pv;
    for (int i = 0; i < 8; i++)
        pv.push_back(i < 4 ? 1000 * i : 0.25 * (i - 4));
    for (int k = 0; k < 2; k++)
        for (int l = 0; l < nl[k]; l++) {
            grb::Msg m = msg(edition, 11 + k, same ? L[0][l] : L[k][l], 0);
            if (hybrid) {
                m.l[edition == 1 ? "levtype" : "typeOfFirstFixedSurface"] = edition == 1 ? 109 : 105;
                m.l["PVPresent"] = 1;
                m.pv = pv;
            }
            for (int i = 0; i < 4; i++)
                v[k][l][i] = m.values[i] = fs_real("v", -100, 100, 2);
            grb::msgs().push_back(m);
        }
    auto r = open({grb::fileWith(0, nl[0] + nl[1])}, config("<parameter name=\"v\" type=\"double\">" + par(edition, "11") + "</parameter><parameter name=\"w\" type=\"double\">" + par(edition, "12") + "</parameter>"));
    const CDM& cdm = r->getCDM();
    const char* N[] = {"v", "w"};
    for (int k = 0; k < 2; k++) {
        const std::string z = cdm.getVariable(N[k]).getShape().at(2);
        FS_ASSERT(z == (hybrid ? std::string("hybrid") : std::string("pressure")) + (same ? "" : k ? "1" : "0"), "name of the axis");
        const std::vector<double> zz = values(r->getData(z));
        FS_ASSERT(zz.size() == size_t(nl[k]), "number of levels");
        for (int l = 0; l < nl[k]; l++) {
            const int no = same ? L[0][l] : L[k][l];
            if (!hybrid) {
                FS_ASSERT(zz[l] == no, "level");
            } else {
                const std::string ext = same ? "" : k ? "1" : "0";
                const double ap = values(r->getData("ap" + ext)).at(l), b = values(r->getData("b" + ext)).at(l);
                FS_ASSERT(fabs(ap - (pv[no - 1] + pv[no]) / 2) < 1e-6 && fabs(b - (pv[4 + no - 1] + pv[4 + no]) / 2) < 1e-6, "coefficients of the level");
                FS_ASSERT(fabs(zz[l] - (ap / 100000 + b)) < 1e-6, "hybrid level");
                CDMAttribute ft;
                FS_ASSERT(cdm.getAttribute(z, "formula_terms", ft) && ft.getStringValue() == "ap: ap" + ext + " b: b" + ext, "formula");
            }
        }
        if (!hybrid)
            FS_ASSERT(cdm.getUnits(z) == (edition == 1 ? "hPa" : "Pa"), "units of the edition");
        DataPtr d = r->getData(N[k]);
        auto a = d->asDouble();
        bool ok = d->size() == size_t(nl[k] * 4);
        for (int l = 0; ok && l < nl[k]; l++)
            for (int i = 0; i < 4; i++)
                ok &= a[l * 4 + i] == v[k][l][i];
        FS_ASSERT(ok, "value at another level");
    }
    FS_REACH("levels");
}
FS_HARNESS(index)
{
    /* reading through the XML index gives the same as reading the file */
    const int edition = fs_pick("edition", 1, 2), ens = fs_pick("ens", 0, 1), stat = fs_pick("stat", 0, 1), unit = fs_pick("unit", 0, 2);
    const long U[] = {0, 1, 11};
    double v[2][4];
    for (int k = 0; k < 2; k++) {
        grb::Msg m = msg(edition, 11, 500 + 100 * k, 6, k, ens ? 2 : 0);
        m.l["indicatorOfUnitOfTimeRange"] = U[unit];
        m.s["typeOfGrid"] = "rotated_ll";
        m.d["longitudeOfFirstGridPointInDegrees"] = 5.123, m.d["longitudeOfLastGridPointInDegrees"] = 5.246;
        m.d["longitudeOfSouthernPoleInDegrees"] = 335.125, m.d["latitudeOfSouthernPoleInDegrees"] = -32.0625;
        m.l["ijDirectionIncrementGiven"] = 1;
        m.d["iDirectionIncrementInDegrees"] = 0.123, m.d["jDirectionIncrementInDegrees"] = 1;
        m.s["name"] = "a <b> & \"c\"";
        m.l["extra"] = 3 + k;
        if (stat)
            m.l["typeOfStatisticalProcessing"] = 1;
        m.s["stepType"] = "accum";
        for (int i = 0; i < 4; i++)
            v[k][i] = m.values[i] = fs_real("v", -100, 100, 2);
        grb::msgs().push_back(m);
    }
    const std::string f = grb::fileWith(0, 2);
    std::ostringstream xml;
    std::map<std::string, std::string> opt;
    opt["extraKeys"] = "extra";
    auto ca = createDefaultChunkReaderFactory();
    xml << GribFileIndex(ca, f, std::vector<std::pair<std::string, std::regex>>(), opt);
    const std::string i = grb::fileOf(xml.str());
    std::string p1 = par(edition, "11", "stepType=\"accum\""), p2 = p1;
    const std::string e = "/></grib" + std::to_string(edition) + ">";
    p1 = p1.substr(0, p1.size() - 2) + "><extraKey name=\"extra\" value=\"3\"" + e;
    p2 = p2.substr(0, p2.size() - 2) + "><extraKey name=\"extra\" value=\"4\"" + e;
    const std::string c = config("<parameter name=\"v\" type=\"double\">" + p1 + "</parameter><parameter name=\"w\" type=\"double\">" + p2 + "</parameter>");
    auto a = open({f}, c);
    auto b = std::make_shared<GribCDMReader>(i, XMLInputString(c), std::vector<std::pair<std::string, std::string>>());
    std::ostringstream sa, sb;
    a->getCDM().toXMLStream(sa);
    b->getCDM().toXMLStream(sb);
    std::string ta = sa.str(), tb = sb.str();
    auto strip = [](std::string& s) {
        const size_t h = s.find("name=\"history\"");
        if (h != std::string::npos)
            s.erase(h, s.find('>', h) - h);
    };
    strip(ta);
    strip(tb);
    FS_ASSERT(ta == tb, "description of the dataset");
    const char* N[] = {"v", "w", "rlon", "rlat", "time", "pressure0", "pressure1", "longitude"};
    for (const char* n : N)
        if (a->getCDM().hasVariable(n) && strlen(n) > 1)
            FS_ASSERT(values(a->getData(n)) == values(b->getData(n)), "axes");
    for (int k = 0; k < 2; k++) {
        DataPtr d = b->getData(N[k]);
        auto q = d->asDouble();
        const size_t o = ens ? 4 * k : 0;
        bool ok = d->size() == (ens ? 8 : 4);
        for (int j = 0; ok && j < 4; j++)
            ok &= q[o + j] == v[k][j];
        FS_ASSERT(ok, "values");
    }
    FS_REACH("index");
}
FS_HARNESS(damaged)
{
    /* keys that cannot be decoded, damaged and cut files: an error, or all of the data */
    const int kind = fs_pick("kind", 0, 3);
    double v[2][4];
    for (int k = 0; k < 2; k++) {
        grb::Msg m = msg(2, 11, 500, k);
        for (int i = 0; i < 4; i++)
            v[k][i] = m.values[i] = fs_real("v", -100, 100, 2);
        grb::msgs().push_back(m);
    }
    std::string b;
    grb::putHeader(b, 0);
    const size_t first = b.size();
    grb::putHeader(b, 1);
    const char* K[] = {"", "edition", "parameterNumber", "discipline", "level", "stepUnits", "endStep", "dataDate", "time", "Ni", "typeOfGrid", "latitudeOfFirstGridPointInDegrees", "numberOfForecastsInEnsemble", "shapeOfTheEarth", "values", "missingValue"};
    bool want = false;
    if (kind == 0) {
        const int k = fs_pick("key", 0, 15);
        grb::failKey() = K[k];
        want = k == 0;
    } else if (kind == 1) {
        b.resize(fs_pick("cut", 0, 9) * 10 + 1); // up to 91 of 92 bytes
    } else if (kind == 2) {
        b[first + 7] = fs_pick("edition", 0, 5);
        want = b[first + 7] == 2;
    } else {
        b[first + fs_pick("at", 8, 15)] = 1; // length
    }
    bool ok = false;
    try {
        auto r = open({grb::fileOf(b)}, config("<parameter name=\"v\" type=\"double\">" + par(2, "11") + "</parameter>"));
        ok = r->getCDM().getDimension("time").getLength() == 2;
        for (int k = 0; ok && k < 2; k++) {
            DataPtr d = r->getDataSlice("v", k);
            auto a = d->asDouble();
            for (int i = 0; i < 4; i++)
                ok &= a[i] == v[k][i];
        }
        FS_ASSERT(ok, "incomplete data without error");
    } catch (std::exception& ex) {
        FS_ASSERT(!want, "readable file refused");
    }
    FS_REACH("damaged");
}
FS_HARNESS(members)
{
    /* members by file names; other numbers of values than points */
    const int edition = fs_pick("edition", 1, 2), swapped = fs_pick("swapped", 0, 1), few = fs_pick("few", 0, 1);
    double v[2][4];
    for (int k = 0; k < 2; k++) {
        grb::Msg m = msg(edition, 11, 500, 0);
        for (int i = 0; i < 4; i++)
            v[k][i] = m.values[i] = fs_real("v", -100, 100, 2);
        if (few && k == 1)
            m.values.resize(3);
        grb::msgs().push_back(m);
    }
    std::vector<std::string> f = {grb::fileWith(0, 1), grb::fileWith(1, 2)};
    std::vector<std::pair<std::string, std::string>> mem = {{"one", f[swapped]}, {"number2", f[1 - swapped]}};
    auto r = open(f, config("<parameter name=\"v\" type=\"double\">" + par(edition, "11") + "<attribute name=\"_FillValue\" value=\"-999\" type=\"double\"/></parameter>"), mem);
    const CDM& cdm = r->getCDM();
    FS_ASSERT(cdm.getDimension("ensemble_member").getLength() == 2, "number of members");
    FS_ASSERT(r->getData("ensemble_member_names")->asString() == std::string("one\0\0\0\0number2", 14), "names of members");
    DataPtr d = r->getDataSlice("v", 0);
    FS_ASSERT(d->size() == 8, "number of values");
    auto a = d->asDouble();
    bool ok = true;
    for (int e = 0; e < 2; e++) {
        const int k = e ^ swapped;
        for (int i = 0; i < 4; i++)
            ok &= a[e * 4 + i] == (few && k == 1 ? -999 : v[k][i]);
    }
    FS_ASSERT(ok, "values of another member");
    FS_REACH("members");
}
