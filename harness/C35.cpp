/*FS {
 "regex": true,
 "quick_s": 70, "weights": {"scan": 6, "reftime": 2}, "thorough_s": 300,
 "bounds": ["a tree of 14 files in 7 directories; every pattern of 1..3 parts from a table of parts with and without wildcards", "scans with suffix or regular expression, with and without subdirectories, two scans, preceding single files, unreadable files, for union, joinExisting and joinNew, with arbitrary data in each file", "3 formats with arbitrary answers to type, first bytes and name; arbitrary ranges of a file", "reference times of up to 3 values with packing, units and fill values; shapes of up to 3 dimensions of arbitrary lengths 0..3"],
 "outside": ["http; links; directories without permission to read", "dateFormatMark, timeUnitsChange"],
 "assumptions": ["file names are enumerated (the file system and std::regex run on concrete names)"]
} */
#include "h.h"
#include "FileChunkReader.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/CDMReaderUtils.h"
#include "fimex/ChunkReaderFactory.h"
#include "fimex/FileUtils.h"
#include "fimex/FimexTime.h"
#include "fimex/IoFactory.h"
#define MIFI_IO_READER_SUPPRESS_DEPRECATED
#include "fimex/NcmlCDMReader.h"
#include "fimex/TimeUnit.h"
#include "fimex/XMLInputString.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
namespace {
const char* const DIRS[] = {"", "1", "1/2", "2", "3", "3/1", "d.nc", "10"};
const char* const FILES[] = {"1/2/a.nc", "1/a.nc", "1/b.txt", "10/a.nc", "2/a.nc", "2/c.nc", "3/1/a.nc", "3/1/aa.nc", "a+.nc", "a.nc", "ab.nc", "axnc", "b.nc", "d.nc/x.nc"};
enum { NF = 14 };
std::string root()
{
    const std::string r = "/tmp/fimex-verif-tree";
    for (const char* d : DIRS)
        mkdir((r + "/" + d).c_str(), 0755);
    for (const char* f : FILES) {
        const int fd = open((r + "/" + f).c_str(), O_CREAT | O_WRONLY, 0644);
        if (fd >= 0)
            close(fd);
    }
    return r;
}
bool matches(const char* p, const char* s)
{
    if (!*p)
        return !*s;
    if (p[0] == '*' && p[1] == '*') {
        for (const char* e = s;; e++) {
            if (matches(p + 2, e))
                return true;
            if (!*e)
                return false;
        }
    }
    if (*p == '*') {
        for (const char* e = s;; e++) {
            if (matches(p + 1, e))
                return true;
            if (!*e || *e == '/')
                return false;
        }
    }
    if (*p == '?')
        return *s && *s != '/' && matches(p + 1, s + 1);
    return *p == *s && matches(p + 1, s + 1);
}
std::vector<std::string> parts(const std::string& p)
{
    std::vector<std::string> r(1);
    for (char c : p)
        if (c == '/')
            r.push_back("");
        else
            r.back() += c;
    return r;
}
bool byParts(const std::string& a, const std::string& b) { return parts(a) < parts(b); }
} // namespace
FS_HARNESS(glob)
{
    const std::string r = root();
    const int n = fs_pick("parts", 1, 3);
    const char* D[] = {"*", "?", "**", "1", "d*", "?*0"};
    const char* F[] = {"*.nc", "a.nc", "?.nc", "a+.nc", "*", "**", "a*", "**c"};
    std::string pat;
    for (int i = 0; i + 1 < n; i++)
        pat += std::string(D[fs_pick("dir", 0, 5)]) + "/";
    pat += F[fs_pick("file", 0, 7)];
    std::vector<std::string> want, files;
    for (const char* f : FILES)
        if (matches(pat.c_str(), f))
            want.push_back(r + "/" + f);
    std::sort(want.begin(), want.end(), byParts);
    const bool before = fs_pick("before", 0, 1);
    if (before)
        want.insert(want.begin(), "x"), files.push_back("x");
    try {
        globFiles(files, r + "/" + pat);
    } catch (std::exception&) { // directory without wildcards that does not exist
    }
    FS_ASSERT(files == want, "files matching a pattern");
    FS_REACH("glob");
}
FS_HARNESS(names)
{
    const int n = fs_pick("n", 0, 5);
    std::string p;
    for (int i = 0; i < n; i++)
        p += (char)fs_int("c", '-', 'B');
    size_t slash = 0;
    bool any = false;
    for (int i = 0; i < n; i++)
        if (p[i] == '/')
            slash = i + 1, any = true;
    FS_ASSERT(extractFilename(p) == p.substr(slash), "file name");
    FS_ASSERT(removeFilename(p) == p.substr(0, slash), "directory");
    FS_ASSERT(replaceFilename(p, "q") == p.substr(0, slash) + "q", "replaced file name");
    FS_ASSERT(joinFilename(p, "q") == (n == 0 || p[n - 1] == '/' ? p + "q" : p + "/q"), "joined name");
    (void)any;
    FS_REACH("names");
}
FS_HARNESS(extension)
{
    const char* P[] = {"", "a", "Dir/", ".", "a.b", "x-1", "my file"};
    const char* E[] = {"", ".nc", ".NC", ".Nc4", ".", ".n-c", ".tar.gz", ".grb_ml", ".a/b", " nc"};
    const char* X[] = {"", "nc", "nc", "nc4", "", "", "gz", "grb_ml", "", ""};
    const int a = fs_pick("p", 0, 6), b = fs_pick("e", 0, 9);
    const std::string s = std::string(P[a]) + E[b];
    std::string want = X[b];
    if (a == 4 && b == 0)
        want = "b";
    FS_ASSERT(getExtension(s) == want, "extension");
    FS_REACH("extension");
}
namespace {
std::map<std::string, double> values; // by name relative to the tree
std::set<std::string> broken;
std::map<std::string, int> opened;
struct TreeFactory : public IoFactory
{
    int matchFileTypeName(const std::string& t) override { return t == "mem" ? 10 : 0; }
    CDMReader_p createReader(const std::string& t, const std::string& f, const XMLInput&, const std::vector<std::string>&) override
    {
        const std::string n = f.substr(root().size() + 1);
        opened[n]++;
        if (broken.count(n))
            throw CDMException("broken file");
        MemReader_p r = memReader();
        r->dim("x", 1);
        if (t == "mem" && unlim)
            r->dim("time", 1, true);
        const double v = values.count(n) ? values[n] : -1;
        r->var("v", CDM_DOUBLE, unlim ? Names{"x", "time"} : Names{"x"}, std::vector<double>(1, v));
        return r;
    }
    bool unlim = false;
};
} // namespace
FS_HARNESS(scan)
{
    const std::string r = root();
    auto fac = std::make_shared<TreeFactory>();
    IoFactory::install("mem", fac);
    const int type = fs_pick("type", 0, 2);
    fac->unlim = type == 1;
    const char* T[] = {"union", "joinExisting", "joinNew"};
    const char* S[] = {"suffix=\".nc\"", "suffix=\"a.nc\"", "suffix=\"+.nc\"", "regExp=\"[ab].nc\"", "regExp=\".*\\.(nc|txt)\"", "suffix=\".nc\" regExp=\"x\""};
    const int s = fs_pick("s", 0, 5), sub = fs_pick("sub", 0, 4), single = fs_pick("single", 0, 1), two = fs_pick("two", 0, 1), bad = fs_pick("broken", 0, 1);
    const char* SUB[] = {"", "subdirs=\"true\"", "subdirs=\"false\"", "subdirs=\"False\"", "subdirs=\"FALSE\""};
    for (const char* f : FILES)
        values[f] = fs_real("v", -100, 100, 2);
    if (bad)
        broken.insert("1/a.nc"), broken.insert("a.nc");
    std::vector<std::string> want;
    std::string x = std::string("<aggregation type=\"") + T[type] + "\"" + (type == 2 ? " dimName=\"run\"" : "") + ">";
    if (type == 2)
        x += "<variableAgg name=\"v\"/>";
    if (single) {
        x += "<netcdf location=\"" + r + "/b.nc mem\"/>";
        want.push_back("b.nc");
    }
    x += "<scan location=\"" + r + "/ mem\" " + S[s] + " " + SUB[sub] + "/>";
    auto add = [&](const std::string& dir, int s, bool deep) {
        std::vector<std::string> w;
        for (const char* f : FILES) {
            const std::string n = f;
            if (n.compare(0, dir.size(), dir) != 0)
                continue;
            const std::string rel = n.substr(dir.size());
            if (!deep && rel.find('/') != std::string::npos)
                continue;
            const std::string name = parts(rel).back();
            auto ends = [&](const char* e) { return name.size() >= strlen(e) && name.compare(name.size() - strlen(e), strlen(e), e) == 0; };
            bool m = false;
            switch (s) {
            case 0: case 5: m = ends(".nc"); break;
            case 1: m = ends("a.nc"); break;
            case 2: m = ends("+.nc"); break;
            case 3: m = name.size() == 4 && (name[0] == 'a' || name[0] == 'b') && ends("nc"); break;
            case 4: m = ends(".nc") || ends(".txt"); break;
            }
            if (m && !broken.count(n))
                w.push_back(n);
        }
        std::sort(w.begin(), w.end(), byParts);
        want.insert(want.end(), w.begin(), w.end());
    };
    add("", s, sub < 2);
    if (two) {
        x += "<scan location=\"" + r + "/2 mem\" suffix=\"nc\"/>";
        add("2/", 0, true);
    }
    x += "</aggregation>";
    const bool more = fs_pick("more", 0, 1);
    if (more)
        x += std::string("<aggregation type=\"") + T[type] + "\"><scan location=\"" + r + "/3 mem\" suffix=\"aa.nc\"/></aggregation>";
    const std::string xml = "<?xml version=\"1.0\"?><netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\">" + x + "</netcdf>";
    NcmlCDMReader ncml((XMLInputString(xml)));
    const CDM& cdm = ncml.getCDM();
    const size_t n = want.size();
    if (n == 0) {
        FS_ASSERT(!cdm.hasVariable("v"), "data without files");
    } else if (type == 0) {
        DataPtr d = ncml.getData("v");
        FS_ASSERT(d && d->size() == 1 && d->asDouble()[0] == values[want[0]], "union has the values of the first file");
    } else {
        const CDMDimension* u = cdm.getUnlimitedDim();
        FS_ASSERT(u && u->getLength() == n, "number of joined files");
        bool ok = true;
        for (size_t i = 0; i < n; i++) {
            DataPtr d = ncml.getDataSlice("v", i);
            ok &= d && d->size() == 1 && d->asDouble()[0] == values[want[i]];
        }
        FS_ASSERT(ok, "files joined in another order or of other files");
        if (type == 2) {
            FS_ASSERT(u->getName() == "run" && cdm.hasVariable("run"), "coordinate of joined files");
            DataPtr c = ncml.getData("run");
            FS_ASSERT(c && c->size() == n, "number of names of joined files");
            std::set<std::string> all;
            auto names = c->asStrings();
            for (size_t i = 0; i < n; i++)
                all.insert(names[i]);
            FS_ASSERT(all.size() == n, "different files with the same name");
        }
    }
    for (const auto& o : opened)
        FS_ASSERT(o.second == (int)std::count(want.begin(), want.end(), o.first) || broken.count(o.first), "files opened that are not part");
    FS_REACH("scan");
}
FS_HARNESS(location)
{
    /* a single location: the file with its type, the type found by the format when not given */
    const std::string r = root();
    auto fac = std::make_shared<TreeFactory>();
    IoFactory::install("mem", fac);
    const int k = fs_pick("kind", 0, 3);
    values["a.nc"] = fs_real("v", -100, 100, 2);
    broken.insert("b.nc");
    const char* L[] = {" location=\"%/a.nc mem\"", "", " location=\"%/b.nc mem\"", " location=\"%/a.nc nosuchtype\""};
    std::string l = L[k];
    if (l.find('%') != std::string::npos)
        l.replace(l.find('%'), 1, r);
    const std::string xml = "<?xml version=\"1.0\"?><netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\"" + l + "><attribute name=\"t\" value=\"1\"/></netcdf>";
    bool ok = true;
    try {
        NcmlCDMReader ncml((XMLInputString(xml)));
        ok = ncml.getCDM().hasVariable("v") == (k == 0);
        if (k == 0)
            ok &= ncml.getData("v")->asDouble()[0] == values["a.nc"];
        FS_ASSERT(k < 2, "error while opening ignored");
    } catch (CDMException&) {
        FS_ASSERT(k >= 2, "readable file refused");
    }
    FS_ASSERT(ok, "location");
    FS_REACH("location");
}
namespace {
struct Fake : public IoFactory
{
    int id, type, magic, name;
    size_t msize;
    static int used, how;
    size_t matchMagicSize() override { return msize; }
    int matchMagic(const char* m, size_t n) override
    {
        FS_ASSERT(n >= msize, "too few first bytes");
        FS_ASSERT(n == 0 || m[0] == 'F', "first bytes");
        FS_ASSERT(n < 2 || m[1] == 'G', "second byte");
        return magic;
    }
    int matchFileTypeName(const std::string& t) override { return t == "ty" ? type : 0; }
    int matchFileName(const std::string&) override { return name; }
    CDMReader_p createReader(const std::string&, const std::string&, const XMLInput&, const std::vector<std::string>&) override { used = id; return memReader(); }
    void createWriter(CDMReader_p, const std::string&, const std::string&, const XMLInput&) override { used = id; how = 2; }
};
int Fake::used = -1, Fake::how = 0;
std::string memFile(const std::string& c)
{
    const int fd = memfd_create("f", 0);
    if (write(fd, c.data(), c.size()) != (ssize_t)c.size())
        abort();
    return "/proc/self/fd/" + std::to_string(fd);
}
} // namespace
FS_HARNESS(format)
{
    setenv("FIMEX_IO_PLUGINS_PATH", "/tmp/fimex-verif-tree/3", 1);
    root();
    IoFactory_pm& all = IoFactory::factories();
    all.clear();
    std::shared_ptr<Fake> f[3];
    const char* N[] = {"p", "q", "r"};
    for (int i = 0; i < 3; i++) {
        f[i] = std::make_shared<Fake>();
        f[i]->id = i;
        f[i]->type = fs_int("type", -1, 3);
        f[i]->magic = fs_int("magic", -1, 3);
        f[i]->name = fs_int("name", -1, 3);
        f[i]->msize = i;
        IoFactory::install(N[i], f[i]);
    }
    const bool typed = fs_pick("typed", 0, 1), wr = fs_pick("write", 0, 1);
    const int len = fs_pick("len", 2, 4);
    const bool missing = fs_pick("missing", 0, 1);
    auto best = [&](int Fake::*m) {
        int b = -1, v = 0;
        for (int i = 0; i < 3; i++)
            if ((*f[i]).*m > v)
                v = (*f[i]).*m, b = i;
        return b;
    };
    int want = -1;
    if (typed)
        want = best(&Fake::type);
    if (want < 0 && !wr && !missing)
        want = best(&Fake::magic);
    if (want < 0)
        want = best(&Fake::name);
    Fake::used = -1;
    const std::string file = missing ? "/nonexistent/file" : memFile(std::string("FGHI").substr(0, len));
    try {
        if (wr)
            CDMFileReaderFactory::createWriter(memReader(), typed ? "ty" : "", file);
        else
            CDMFileReaderFactory::create(typed ? "ty" : "", file);
        FS_ASSERT(want >= 0, "file of unknown format opened");
    } catch (CDMException&) {
        FS_ASSERT(want < 0, "file of known format refused");
    }
    FS_ASSERT(Fake::used == want, "opened by another format");
    FS_REACH("format");
}
FS_HARNESS(chunk)
{
    const int len = fs_pick("len", 0, 4);
    const std::string c = std::string("abcd").substr(0, len);
    const std::string f = memFile(c);
    auto ca = createDefaultChunkReaderFactory();
    ChunkReader_p cr = ca->readerFor((fs_pick("url", 0, 1) ? "file:" : "") + f);
    FS_ASSERT(cr->size() == (size_t)len, "size of a file");
    for (int k = 0; k < 2; k++) {
        const long off = k ? 0 : fs_pick("off", 0, 5), n = k ? len : fs_pick("n", 0, 5);
        unsigned char b[8];
        memset(b, '#', sizeof b);
        bool ok = false;
        try {
            cr->read(off, n, b + 1);
            ok = true;
        } catch (std::exception&) {
        }
        FS_ASSERT(ok == (n == 0 || off + n <= len), "range of a file");
        FS_ASSERT(b[0] == '#', "written before the buffer");
        if (ok) {
            for (long i = 0; i < n; i++)
                FS_ASSERT(b[1 + i] == (unsigned char)c[off + i], "bytes of a file");
            FS_ASSERT(b[1 + n] == '#', "written behind the buffer");
        }
    }
    FS_REACH("chunk");
}
FS_HARNESS(reftime)
{
    const int n = fs_pick("n", 0, 3), wrf = fs_pick("wrf", 0, 1), two = fs_pick("two", 0, 1), packed = fs_pick("packed", 0, 1), hours = fs_pick("hours", 0, 1);
    MemReader_p r = memReader();
    r->dim("k", n);
    std::vector<double> v;
    for (int i = 0; i < n; i++)
        v.push_back(fs_pick("t", 0, 2));
    if (n) {
        r->var("ref", CDM_SHORT, {"k"}, v);
        r->att("ref", "standard_name", "forecast_reference_time");
        r->att("ref", "units", hours ? "hours since 2000-01-01 00:00:00" : "seconds since 2000-01-01 00:00:00");
        if (packed) {
            r->cdm().addAttribute("ref", CDMAttribute("scale_factor", 2.));
            r->cdm().addAttribute("ref", CDMAttribute("add_offset", 1.));
        }
    }
    if (two) {
        r->var("ref2", CDM_DOUBLE, {}, std::vector<double>{7200});
        r->att("ref2", "standard_name", "forecast_reference_time");
        r->att("ref2", "units", "seconds since 2000-01-01 00:00:00");
    }
    if (wrf)
        r->att(r->cdm().globalAttributeNS(), "SIMULATION_START_DATE", "2000-01-01_03:00:00");
    std::set<long> want;
    for (int i = 0; i < n; i++)
        want.insert(long(packed ? v[i] * 2 + 1 : v[i]) * (hours ? 3600 : 1));
    if (two)
        want.insert(7200);
    if (want.empty() && wrf)
        want.insert(3 * 3600);
    try {
        const FimexTime t = getUniqueForecastReferenceTimeFT(r);
        FS_ASSERT(want.size() == 1, "several or no reference times");
        FS_ASSERT(t == TimeUnit("seconds since 2000-01-01 00:00:00").unitTime2fimexTime(*want.begin()), "reference time");
    } catch (CDMException&) {
        FS_ASSERT(want.size() != 1, "reference time not found");
    }
    FS_REACH("reftime");
}
FS_HARNESS(shapes)
{
    long len[2][3];
    MemReader_p r[2];
    const char* D[] = {"a", "b", "c"};
    std::vector<long> sig[2];
    size_t bytes = 0;
    for (int k = 0; k < 2; k++) {
        r[k] = memReader();
        const int n = fs_pick("dims", 0, 3);
        Names shape;
        size_t total = 1;
        for (int i = 0; i < n; i++) {
            len[k][i] = fs_int("len", 0, 3);
            r[k]->dim(D[i], len[k][i]);
            shape.push_back(D[i]);
            total *= len[k][i];
        }
        r[k]->cdm().addVariable(CDMVariable("v", k ? CDM_SHORT : CDM_DOUBLE, shape));
        if (k == 0) {
            bytes = 8 * total;
            if (n > 1) {
                r[k]->cdm().addVariable(CDMVariable("w", CDM_SHORT, Names{"b"}));
                bytes += 2 * len[0][1];
            }
        }
        for (int i = 0; i < n; i++)
            if (len[k][i] != 1)
                sig[k].push_back(len[k][i]);
    }
    FS_ASSERT(compareCDMVarShapes(r[0]->getCDM(), "v", r[1]->getCDM(), "v") == (sig[0] == sig[1]), "comparison of shapes");
    FS_ASSERT(estimateCDMDataSize(r[0]->getCDM()) == bytes, "estimated size");
    FS_REACH("shapes");
}
FS_HARNESS(unique)
{
    MemReader_p r = memReader();
    CDM& cdm = r->cdm();
    const char* N[] = {"n", "n0", "n1", "n2"};
    for (int i = 0; i < 4; i++) {
        if (fs_pick("dim", 0, 1))
            r->dim(N[i], 1);
        if (fs_pick("var", 0, 1))
            cdm.addVariable(CDMVariable(N[i], CDM_INT, Names()));
    }
    const std::string b = findUniqueDimVarName(cdm, "n"), v = findUniqueVarName(cdm, "n"), d = findUniqueDimName(cdm, "n");
    FS_ASSERT(!cdm.hasVariable(b) && !cdm.hasDimension(b) && b.compare(0, 1, "n") == 0, "name in use");
    FS_ASSERT(!cdm.hasVariable(v) && v.compare(0, 1, "n") == 0, "name of a variable in use");
    FS_ASSERT(!cdm.hasDimension(d) && d.compare(0, 1, "n") == 0, "name of a dimension in use");
    FS_ASSERT(cdm.hasVariable("n") || v == "n", "free name not used");
    FS_REACH("unique");
}
