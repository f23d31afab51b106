/* An in-memory stand-in for the netcdf C library: files are kept by name, with the checks of the
 * real library that matter to a writer (formats, types, names, positions, define mode of _FillValue).
 * Every call that returns a status can be made to fail (nc::fault). */
#ifndef NCMEM_H
#define NCMEM_H
extern "C" {
#include "netcdf.h"
}
#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace nc {
struct Att
{
    std::string name;
    nc_type type;
    size_t len;
    std::vector<double> align; // storage, suitably aligned
    std::vector<std::string> strings;
};
struct Dim
{
    std::string name;
    size_t len;
    bool unlim;
};
struct Var
{
    std::string name;
    nc_type type;
    std::vector<int> dims;
    std::vector<Att> atts;
    std::vector<double> bytes;
    std::vector<std::string> strings;
    std::vector<char> written;
    std::vector<size_t> chunks;
    int shuffle = 0, deflate = 0, level = 0;
};
struct File
{
    int format = 0;
    bool nofill = false, open = false, synced = false, closed_ok = false;
    std::vector<Dim> dims;
    std::vector<Var> vars;
    std::vector<Att> atts;
    size_t recs = 0;
};
const size_t MAXREC = 4; // capacity of unlimited dimensions
inline std::map<std::string, File>& files()
{
    static std::map<std::string, File> f;
    return f;
}
struct Handle
{
    File* f;
    bool write;
};
inline std::vector<Handle>& handles()
{
    static std::vector<Handle> h;
    return h;
}
inline int& fault() // number of the call to fail; < 0: none
{
    static int f = -1;
    return f;
}
inline int& calls()
{
    static int c = 0;
    return c;
}
inline bool& failed() // a call was made to fail
{
    static bool b = false;
    return b;
}
inline std::string& failedCall()
{
    static std::string b;
    return b;
}
inline void reset()
{
    files().clear();
    handles().clear();
    fault() = -1;
    calls() = 0;
    failed() = false;
}
inline bool fails(const char* what)
{
    if (calls()++ != fault())
        return false;
    failed() = true;
    failedCall() = what;
    return true;
}
#define NCF(name)                                                                                                                                              \
    if (nc::fails(name))                                                                                                                                       \
        return NC_EIO;                                                                                                                                         \
    if (id < 0 || (size_t)id >= nc::handles().size() || !nc::handles()[id].f)                                                                                  \
        return NC_EBADID;                                                                                                                                      \
    nc::File& f = *nc::handles()[id].f
#define NCV(v)                                                                                                                                                 \
    if (v < 0 || (size_t)v >= f.vars.size())                                                                                                                   \
    return NC_ENOTVAR
inline size_t tsize(nc_type t)
{
    switch (t) {
    case NC_BYTE:
    case NC_CHAR:
    case NC_UBYTE:
        return 1;
    case NC_SHORT:
    case NC_USHORT:
        return 2;
    case NC_INT:
    case NC_UINT:
    case NC_FLOAT:
        return 4;
    case NC_DOUBLE:
    case NC_INT64:
    case NC_UINT64:
        return 8;
    case NC_STRING:
        return sizeof(char*);
    }
    return 0;
}
inline bool classic(const File& f)
{
    return f.format != NC_FORMAT_NETCDF4;
}
inline bool typeOk(const File& f, nc_type t)
{
    if (tsize(t) == 0)
        return false;
    return !classic(f) || t <= NC_DOUBLE;
}
inline size_t capacity(const File& f, int d)
{
    return f.dims[d].unlim ? MAXREC : f.dims[d].len;
}
inline size_t length(const File& f, int d)
{
    return f.dims[d].unlim ? f.recs : f.dims[d].len;
}
inline std::vector<Att>* atts(File& f, int v)
{
    return v == NC_GLOBAL ? &f.atts : v >= 0 && (size_t)v < f.vars.size() ? &f.vars[v].atts : nullptr;
}
inline Att* att(std::vector<Att>& a, const char* name)
{
    for (auto& x : a)
        if (x.name == name)
            return &x;
    return nullptr;
}
template <class T>
void copyN(void* to, const void* from, size_t n)
{
    for (size_t i = 0; i < n; i++)
        ((T*)to)[i] = ((const T*)from)[i];
}
inline void copyT(void* to, const void* from, size_t n, nc_type t)
{
    switch (tsize(t)) {
    case 1:
        return copyN<char>(to, from, n);
    case 2:
        return copyN<short>(to, from, n);
    case 4:
        return t == NC_FLOAT ? copyN<float>(to, from, n) : copyN<int>(to, from, n);
    case 8:
        return t == NC_DOUBLE ? copyN<double>(to, from, n) : copyN<long long>(to, from, n);
    }
}
inline int putAtt(File& f, int v, const char* name, nc_type t, size_t len, const void* p, bool isString = false)
{
    auto* a = atts(f, v);
    if (!a)
        return NC_ENOTVAR;
    if (!typeOk(f, t))
        return NC_EBADTYPE;
    if (!std::strcmp(name, "_FillValue") && v != NC_GLOBAL) {
        if (t != f.vars[v].type)
            return NC_EBADTYPE;
        if (len != 1)
            return NC_EINVAL;
    }
    Att* x = att(*a, name);
    if (!x) {
        a->push_back(Att());
        x = &a->back();
    }
    x->name = name;
    x->type = t;
    x->len = len;
    x->strings.clear();
    if (t == NC_STRING) {
        for (size_t i = 0; i < len; i++)
            x->strings.push_back(((const char* const*)p)[i]);
    } else {
        x->align.assign(len + 1, 0.);
        copyT(x->align.data(), p, len, t);
    }
    return NC_NOERR;
}
inline void alloc(File& f, Var& v)
{
    if (!v.written.empty())
        return;
    size_t n = 1;
    for (int d : v.dims)
        n *= capacity(f, d);
    v.bytes.assign(n * (v.type == NC_STRING ? 1 : tsize(v.type)) / 8 + 1, 0.);
    std::memset(v.bytes.data(), 0x55, v.bytes.size() * 8); // not what anybody wrote
    v.written.assign(n, 0);
    if (v.type == NC_STRING)
        v.strings.assign(n, "");
}
/* calls g(position in the file, position in the box) for every element of a box */
template <class G>
int box(File& f, Var& v, const size_t* start, const size_t* count, bool write, G g)
{
    alloc(f, v);
    size_t n = 1;
    for (size_t i = 0; i < v.dims.size(); i++) {
        const size_t len = write ? capacity(f, v.dims[i]) : length(f, v.dims[i]);
        if (start[i] > len)
            return NC_EINVALCOORDS;
        if (start[i] + count[i] > len)
            return NC_EEDGE;
        n *= count[i];
        if (write && f.dims[v.dims[i]].unlim && count[i] && f.recs < start[i] + count[i])
            f.recs = start[i] + count[i];
    }
    for (size_t k = 0; k < n; k++) {
        size_t r = k, p = 0, m = 1;
        for (size_t i = v.dims.size(); i-- > 0;) {
            p += (start[i] + r % count[i]) * m;
            r /= count[i];
            m *= capacity(f, v.dims[i]);
        }
        g(p, k);
    }
    return NC_NOERR;
}
template <class T>
bool fits(T) { return true; }
template <class S, class D>
int putAs(File& f, Var& v, const size_t* s, const size_t* c, const S* p)
{
    bool range = false;
    int r = box(f, v, s, c, true, [&](size_t to, size_t from) {
        ((D*)v.bytes.data())[to] = (D)p[from];
        v.written[to] = 1;
        if (!std::is_same<S, D>::value && (S)(D)p[from] != p[from])
            range = true;
    });
    return r ? r : range ? NC_ERANGE : NC_NOERR;
}
template <class S>
int put(File& f, int vi, const size_t* s, const size_t* c, const S* p)
{
    Var& v = f.vars[vi];
    switch (v.type) {
    case NC_BYTE:
        return putAs<S, signed char>(f, v, s, c, p);
    case NC_UBYTE:
        return putAs<S, unsigned char>(f, v, s, c, p);
    case NC_SHORT:
        return putAs<S, short>(f, v, s, c, p);
    case NC_USHORT:
        return putAs<S, unsigned short>(f, v, s, c, p);
    case NC_INT:
        return putAs<S, int>(f, v, s, c, p);
    case NC_UINT:
        return putAs<S, unsigned int>(f, v, s, c, p);
    case NC_INT64:
        return putAs<S, long long>(f, v, s, c, p);
    case NC_UINT64:
        return putAs<S, unsigned long long>(f, v, s, c, p);
    case NC_FLOAT:
        return putAs<S, float>(f, v, s, c, p);
    case NC_DOUBLE:
        return putAs<S, double>(f, v, s, c, p);
    }
    return NC_ECHAR;
}
/* fill values of what was not written, as the library does unless told not to */
inline void fillUnwritten(File& f, Var& v)
{
    if (f.nofill && f.format < 3)
        return;
    alloc(f, v);
    Att* fv = att(v.atts, "_FillValue");
    for (size_t i = 0; i < v.written.size(); i++) {
        if (v.written[i])
            continue;
        v.written[i] = 1;
        if (v.type == NC_STRING)
            continue;
        char* to = (char*)v.bytes.data() + i * tsize(v.type);
        if (fv) {
            copyT(to, fv->align.data(), 1, v.type);
            continue;
        }
        switch (v.type) {
        case NC_BYTE:
            *(signed char*)to = NC_FILL_BYTE;
            break;
        case NC_CHAR:
            *to = NC_FILL_CHAR;
            break;
        case NC_SHORT:
            *(short*)to = NC_FILL_SHORT;
            break;
        case NC_INT:
            *(int*)to = NC_FILL_INT;
            break;
        case NC_FLOAT:
            *(float*)to = NC_FILL_FLOAT;
            break;
        case NC_DOUBLE:
            *(double*)to = NC_FILL_DOUBLE;
            break;
        case NC_UBYTE:
            *(unsigned char*)to = NC_FILL_UBYTE;
            break;
        case NC_USHORT:
            *(unsigned short*)to = NC_FILL_USHORT;
            break;
        case NC_UINT:
            *(unsigned*)to = NC_FILL_UINT;
            break;
        case NC_INT64:
            *(long long*)to = NC_FILL_INT64;
            break;
        case NC_UINT64:
            *(unsigned long long*)to = NC_FILL_UINT64;
            break;
        }
    }
}
} // namespace nc

extern "C" {
const char* nc_strerror(int) { return "netcdf error"; }
int nc_create(const char* path, int mode, int* id)
{
    if (nc::fails("nc_create"))
        return NC_EIO;
    nc::File& f = nc::files()[path];
    f = nc::File();
    f.open = true;
    f.format = (mode & NC_NETCDF4) ? ((mode & NC_CLASSIC_MODEL) ? NC_FORMAT_NETCDF4_CLASSIC : NC_FORMAT_NETCDF4)
                                   : (mode & NC_64BIT_OFFSET) ? NC_FORMAT_64BIT_OFFSET : NC_FORMAT_CLASSIC;
    *id = nc::handles().size();
    nc::handles().push_back({&f, true});
    return NC_NOERR;
}
int nc_open(const char* path, int mode, int* id)
{
    if (nc::fails("nc_open"))
        return NC_EIO;
    if (!nc::files().count(path))
        return NC_ENOTFOUND;
    *id = nc::handles().size();
    nc::handles().push_back({&nc::files()[path], (mode & NC_WRITE) != 0});
    return NC_NOERR;
}
int nc_close(int id)
{
    NCF("nc_close");
    f.closed_ok = true;
    nc::handles()[id].f = nullptr;
    return NC_NOERR;
}
int nc_sync(int id)
{
    NCF("nc_sync");
    f.synced = true;
    return NC_NOERR;
}
int nc_enddef(int id)
{
    NCF("nc_enddef");
    return NC_NOERR;
}
int nc_set_fill(int id, int mode, int* old)
{
    NCF("nc_set_fill");
    *old = f.nofill ? NC_NOFILL : NC_FILL;
    f.nofill = mode == NC_NOFILL;
    return NC_NOERR;
}
int nc_set_chunk_cache(size_t, size_t, float) { return NC_NOERR; }
int nc_inq_format(int id, int* fmt)
{
    NCF("nc_inq_format");
    *fmt = f.format;
    return NC_NOERR;
}
int nc_def_dim(int id, const char* name, size_t len, int* d)
{
    NCF("nc_def_dim");
    for (auto& x : f.dims) {
        if (x.name == name)
            return NC_ENAMEINUSE;
        if (len == NC_UNLIMITED && x.unlim && nc::classic(f))
            return NC_EUNLIMIT;
    }
    *d = f.dims.size();
    f.dims.push_back({name, len, len == NC_UNLIMITED});
    return NC_NOERR;
}
int nc_def_var(int id, const char* name, nc_type t, int n, const int* dims, int* v)
{
    NCF("nc_def_var");
    for (auto& x : f.vars)
        if (x.name == name)
            return NC_ENAMEINUSE;
    if (!nc::typeOk(f, t))
        return NC_EBADTYPE;
    nc::Var x;
    x.name = name;
    x.type = t;
    for (int i = 0; i < n; i++) {
        if (dims[i] < 0 || (size_t)dims[i] >= f.dims.size())
            return NC_EBADDIM;
        if (i && f.dims[dims[i]].unlim && nc::classic(f))
            return NC_EUNLIMPOS;
        x.dims.push_back(dims[i]);
    }
    *v = f.vars.size();
    f.vars.push_back(x);
    return NC_NOERR;
}
int nc_def_var_chunking(int id, int v, int storage, const size_t* c)
{
    NCF("nc_def_var_chunking");
    NCV(v);
    nc::Var& x = f.vars[v];
    for (size_t i = 0; i < x.dims.size(); i++) {
        if (c[i] == 0)
            return NC_EBADCHUNK;
        if (!f.dims[x.dims[i]].unlim && c[i] > f.dims[x.dims[i]].len)
            return NC_EBADCHUNK;
    }
    x.chunks.assign(c, c + x.dims.size());
    return NC_NOERR;
}
int nc_def_var_deflate(int id, int v, int shuffle, int deflate, int level)
{
    NCF("nc_def_var_deflate");
    NCV(v);
    if (level < 0 || level > 9)
        return NC_EINVAL;
    f.vars[v].shuffle = shuffle;
    f.vars[v].deflate = deflate;
    f.vars[v].level = level;
    return NC_NOERR;
}
#define PUTATT(suffix, T)                                                                                                                                      \
    int nc_put_att_##suffix(int id, int v, const char* name, nc_type t, size_t len, const T* p)                                                                \
    {                                                                                                                                                          \
        NCF("nc_put_att");                                                                                                                                     \
        if (nc::tsize(t) != sizeof(T))                                                                                                                         \
            return NC_EBADTYPE;                                                                                                                                \
        return nc::putAtt(f, v, name, t, len, p);                                                                                                              \
    }
PUTATT(schar, signed char)
PUTATT(uchar, unsigned char)
PUTATT(short, short)
PUTATT(ushort, unsigned short)
PUTATT(int, int)
PUTATT(uint, unsigned int)
PUTATT(longlong, long long)
PUTATT(ulonglong, unsigned long long)
PUTATT(float, float)
PUTATT(double, double)
int nc_put_att_text(int id, int v, const char* name, size_t len, const char* p)
{
    NCF("nc_put_att");
    return nc::putAtt(f, v, name, NC_CHAR, len, p);
}
int nc_put_att(int id, int v, const char* name, nc_type t, size_t len, const void* p)
{
    NCF("nc_put_att");
    return nc::putAtt(f, v, name, t, len, p);
}
int nc_inq_attlen(int id, int v, const char* name, size_t* len)
{
    NCF("nc_inq_attlen");
    auto* a = nc::atts(f, v);
    if (!a)
        return NC_ENOTVAR;
    nc::Att* x = nc::att(*a, name);
    if (!x)
        return NC_ENOTATT;
    *len = x->len;
    return NC_NOERR;
}
int nc_inq_atttype(int id, int v, const char* name, nc_type* t)
{
    NCF("nc_inq_atttype");
    auto* a = nc::atts(f, v);
    if (!a)
        return NC_ENOTVAR;
    nc::Att* x = nc::att(*a, name);
    if (!x)
        return NC_ENOTATT;
    *t = x->type;
    return NC_NOERR;
}
int nc_inq_attname(int id, int v, int n, char* name)
{
    NCF("nc_inq_attname");
    auto* a = nc::atts(f, v);
    if (!a)
        return NC_ENOTVAR;
    if (n < 0 || (size_t)n >= a->size())
        return NC_ENOTATT;
    std::strcpy(name, (*a)[n].name.c_str());
    return NC_NOERR;
}
int nc_get_att(int id, int v, const char* name, void* p)
{
    NCF("nc_get_att");
    auto* a = nc::atts(f, v);
    if (!a)
        return NC_ENOTVAR;
    nc::Att* x = nc::att(*a, name);
    if (!x)
        return NC_ENOTATT;
    if (x->type == NC_STRING) {
        for (size_t i = 0; i < x->len; i++)
            ((char**)p)[i] = strdup(x->strings[i].c_str());
    } else {
        nc::copyT(p, x->align.data(), x->len, x->type);
    }
    return NC_NOERR;
}
int nc_free_string(size_t n, char** p)
{
    for (size_t i = 0; i < n; i++)
        free(p[i]);
    return NC_NOERR;
}
int nc_inq_ndims(int id, int* n)
{
    NCF("nc_inq_ndims");
    *n = f.dims.size();
    return NC_NOERR;
}
int nc_inq_nvars(int id, int* n)
{
    NCF("nc_inq_nvars");
    *n = f.vars.size();
    return NC_NOERR;
}
int nc_inq_unlimdim(int id, int* d)
{
    NCF("nc_inq_unlimdim");
    *d = -1;
    for (size_t i = f.dims.size(); i-- > 0;)
        if (f.dims[i].unlim)
            *d = i;
    return NC_NOERR;
}
int nc_inq_dimid(int id, const char* name, int* d)
{
    NCF("nc_inq_dimid");
    for (size_t i = 0; i < f.dims.size(); i++)
        if (f.dims[i].name == name) {
            *d = i;
            return NC_NOERR;
        }
    return NC_EBADDIM;
}
int nc_inq_dimname(int id, int d, char* name)
{
    NCF("nc_inq_dimname");
    if (d < 0 || (size_t)d >= f.dims.size())
        return NC_EBADDIM;
    std::strcpy(name, f.dims[d].name.c_str());
    return NC_NOERR;
}
int nc_inq_dimlen(int id, int d, size_t* len)
{
    NCF("nc_inq_dimlen");
    if (d < 0 || (size_t)d >= f.dims.size())
        return NC_EBADDIM;
    *len = nc::length(f, d);
    return NC_NOERR;
}
int nc_inq_varid(int id, const char* name, int* v)
{
    NCF("nc_inq_varid");
    for (size_t i = 0; i < f.vars.size(); i++)
        if (f.vars[i].name == name) {
            *v = i;
            return NC_NOERR;
        }
    return NC_ENOTVAR;
}
int nc_inq_var(int id, int v, char* name, nc_type* t, int* nd, int* dims, int* na)
{
    NCF("nc_inq_var");
    NCV(v);
    const nc::Var& x = f.vars[v];
    if (name)
        std::strcpy(name, x.name.c_str());
    if (t)
        *t = x.type;
    if (nd)
        *nd = x.dims.size();
    if (dims)
        for (size_t i = 0; i < x.dims.size(); i++)
            dims[i] = x.dims[i];
    if (na)
        *na = x.atts.size();
    return NC_NOERR;
}
int nc_inq_varnatts(int id, int v, int* n)
{
    NCF("nc_inq_varnatts");
    auto* a = nc::atts(f, v);
    if (!a)
        return NC_ENOTVAR;
    *n = a->size();
    return NC_NOERR;
}
int nc_inq_natts(int id, int* n)
{
    return nc_inq_varnatts(id, NC_GLOBAL, n);
}
int nc_inq_vartype(int id, int v, nc_type* t)
{
    NCF("nc_inq_vartype");
    NCV(v);
    *t = f.vars[v].type;
    return NC_NOERR;
}
int nc_inq_varndims(int id, int v, int* n)
{
    NCF("nc_inq_varndims");
    NCV(v);
    *n = f.vars[v].dims.size();
    return NC_NOERR;
}
int nc_inq_vardimid(int id, int v, int* d)
{
    NCF("nc_inq_vardimid");
    NCV(v);
    for (size_t i = 0; i < f.vars[v].dims.size(); i++)
        d[i] = f.vars[v].dims[i];
    return NC_NOERR;
}
#define PUTVARA(suffix, T)                                                                                                                                     \
    int nc_put_vara_##suffix(int id, int v, const size_t* s, const size_t* c, const T* p)                                                                      \
    {                                                                                                                                                          \
        NCF("nc_put_vara");                                                                                                                                    \
        NCV(v);                                                                                                                                                \
        if (!nc::handles()[id].write)                                                                                                                          \
            return NC_EPERM;                                                                                                                                   \
        return nc::put(f, v, s, c, p);                                                                                                                         \
    }
PUTVARA(schar, signed char)
PUTVARA(uchar, unsigned char)
PUTVARA(short, short)
PUTVARA(ushort, unsigned short)
PUTVARA(int, int)
PUTVARA(uint, unsigned int)
PUTVARA(longlong, long long)
PUTVARA(ulonglong, unsigned long long)
PUTVARA(float, float)
PUTVARA(double, double)
int nc_put_vara(int id, int v, const size_t* s, const size_t* c, const void* p)
{
    NCF("nc_put_vara");
    NCV(v);
    if (!nc::handles()[id].write)
        return NC_EPERM;
    nc::Var& x = f.vars[v];
    const size_t sz = nc::tsize(x.type);
    return nc::box(f, x, s, c, true, [&](size_t to, size_t from) {
        if (x.type == NC_STRING)
            x.strings[to] = ((const char* const*)p)[from];
        else
            nc::copyT((char*)x.bytes.data() + to * sz, (const char*)p + from * sz, 1, x.type);
        x.written[to] = 1;
    });
}
int nc_put_vara_text(int id, int v, const size_t* s, const size_t* c, const char* p)
{
    return nc_put_vara(id, v, s, c, p);
}
int nc_get_vara(int id, int v, const size_t* s, const size_t* c, void* p)
{
    NCF("nc_get_vara");
    NCV(v);
    nc::Var& x = f.vars[v];
    const size_t sz = nc::tsize(x.type);
    nc::fillUnwritten(f, x);
    return nc::box(f, x, s, c, false, [&](size_t from, size_t to) {
        if (x.type == NC_STRING)
            ((char**)p)[to] = strdup(x.strings[from].c_str());
        else
            nc::copyT((char*)p + to * sz, (const char*)x.bytes.data() + from * sz, 1, x.type);
    });
}
/* further entry points, not used by the present code */
#define GETVARA(suffix, T, NCT)                                                                                                                                \
    int nc_get_vara_##suffix(int id, int v, const size_t* s, const size_t* c, T* p)                                                                            \
    {                                                                                                                                                          \
        nc_type t;                                                                                                                                             \
        if (int r = nc_inq_vartype(id, v, &t))                                                                                                                 \
            return r;                                                                                                                                          \
        return t == NCT ? nc_get_vara(id, v, s, c, p) : NC_EBADTYPE;                                                                                           \
    }                                                                                                                                                          \
    int nc_get_att_##suffix(int id, int v, const char* name, T* p)                                                                                             \
    {                                                                                                                                                          \
        nc_type t;                                                                                                                                             \
        if (int r = nc_inq_atttype(id, v, name, &t))                                                                                                           \
            return r;                                                                                                                                          \
        return t == NCT ? nc_get_att(id, v, name, p) : NC_EBADTYPE;                                                                                            \
    }
GETVARA(schar, signed char, NC_BYTE)
GETVARA(uchar, unsigned char, NC_UBYTE)
GETVARA(short, short, NC_SHORT)
GETVARA(ushort, unsigned short, NC_USHORT)
GETVARA(int, int, NC_INT)
GETVARA(uint, unsigned int, NC_UINT)
GETVARA(longlong, long long, NC_INT64)
GETVARA(ulonglong, unsigned long long, NC_UINT64)
GETVARA(float, float, NC_FLOAT)
GETVARA(double, double, NC_DOUBLE)
GETVARA(text, char, NC_CHAR)
GETVARA(string, char*, NC_STRING)
int nc_inq_varname(int id, int v, char* name)
{
    return nc_inq_var(id, v, name, nullptr, nullptr, nullptr, nullptr);
}
int nc_inq_dim(int id, int d, char* name, size_t* len)
{
    if (name)
        if (int r = nc_inq_dimname(id, d, name))
            return r;
    return len ? nc_inq_dimlen(id, d, len) : NC_NOERR;
}
int nc_inq_att(int id, int v, const char* name, nc_type* t, size_t* len)
{
    if (t)
        if (int r = nc_inq_atttype(id, v, name, t))
            return r;
    return len ? nc_inq_attlen(id, v, name, len) : NC_NOERR;
}
int nc_inq(int id, int* nd, int* nv, int* na, int* u)
{
    int r = NC_NOERR;
    if (nd && !r)
        r = nc_inq_ndims(id, nd);
    if (nv && !r)
        r = nc_inq_nvars(id, nv);
    if (na && !r)
        r = nc_inq_natts(id, na);
    if (u && !r)
        r = nc_inq_unlimdim(id, u);
    return r;
}
int nc_inq_unlimdims(int id, int* n, int* ids)
{
    NCF("nc_inq_unlimdims");
    int k = 0;
    for (size_t i = 0; i < f.dims.size(); i++)
        if (f.dims[i].unlim) {
            if (ids)
                ids[k] = i;
            k++;
        }
    if (n)
        *n = k;
    return NC_NOERR;
}
int nc_redef(int id)
{
    NCF("nc_redef");
    return NC_NOERR;
}
int nc_put_att_string(int id, int v, const char* name, size_t len, const char** p)
{
    return nc_put_att(id, v, name, NC_STRING, len, p);
}
int nc_put_vara_string(int id, int v, const size_t* s, const size_t* c, const char** p)
{
    return nc_put_vara(id, v, s, c, p);
}
int nc_abort(int id)
{
    return nc_close(id);
}
} // extern "C"
#endif
