/* An in-memory stand-in for ecCodes: a message is a table of keys with values; its bytes in a file are only a
 * header with the length and the number of the message. */
#ifndef GRIBMEM_H
#define GRIBMEM_H
extern "C" {
#include <grib_api.h>
}
#include <cmath>
#include <cstdio>
#include <cstring>
#include <map>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

namespace grb {
struct Msg
{
    std::map<std::string, long> l;
    std::map<std::string, double> d;
    std::map<std::string, std::string> s;
    std::vector<double> values, pv;
    std::vector<char> missing;
    size_t size() const { return 24 + (l.count("parameterNumber") ? 2 * l.at("parameterNumber") : 0); }
};
inline std::vector<Msg>& msgs()
{
    static std::vector<Msg> m;
    return m;
}
/* fail: number of the call of a key which fails */
inline std::string& failKey()
{
    static std::string k;
    return k;
}
inline void putHeader(std::string& out, size_t n)
{
    const Msg& m = msgs()[n];
    std::string h(m.size(), '\0');
    h.replace(0, 4, "GRIB");
    const size_t len = m.size();
    if (m.l.at("edition") == 1) {
        h[4] = len >> 16, h[5] = len >> 8, h[6] = len, h[7] = 1;
    } else {
        h[7] = 2, h[14] = len >> 8, h[15] = len;
    }
    h[16] = n + 1;
    h.replace(len - 4, 4, "7777");
    out += h;
}
/* a file without name in a directory, readable under the returned path as long as the process lives */
inline std::string fileOf(const std::string& bytes)
{
    const int fd = memfd_create("grib", 0);
    if (fd < 0 || write(fd, bytes.data(), bytes.size()) != (ssize_t)bytes.size())
        abort();
    return "/proc/self/fd/" + std::to_string(fd);
}
inline std::string fileWith(size_t first, size_t last)
{
    std::string b;
    for (size_t n = first; n < last; n++)
        putHeader(b, n);
    return fileOf(b);
}
} // namespace grb
struct grib_handle { grb::Msg m; };
extern "C" {
grib_handle* grib_handle_new_from_message(grib_context*, const void* p, size_t n)
{
    const unsigned char* c = (const unsigned char*)p;
    if (n < 20 || memcmp(c, "GRIB", 4) != 0 || memcmp(c + n - 4, "7777", 4) != 0 || c[16] == 0 || c[16] > grb::msgs().size())
        return nullptr;
    return new grib_handle{grb::msgs()[c[16] - 1]};
}
grib_handle* grib_handle_new_from_samples(grib_context*, const char*) { return new grib_handle; }
grib_handle* grib_handle_new_from_file(grib_context*, FILE*, int* e) { *e = GRIB_IO_PROBLEM; return nullptr; }
int grib_handle_delete(grib_handle* h) { delete h; return GRIB_SUCCESS; }
void grib_check(const char*, const char*, int, int, const char*) {}
const char* grib_get_error_message(int) { return "grib error"; }
int grib_get_long(const grib_handle* h, const char* k, long* v)
{
    if (grb::failKey() == k)
        return GRIB_DECODING_ERROR;
    auto i = h->m.l.find(k);
    if (i == h->m.l.end())
        return GRIB_NOT_FOUND;
    *v = i->second;
    return GRIB_SUCCESS;
}
int grib_get_double(const grib_handle* h, const char* k, double* v)
{
    if (grb::failKey() == k)
        return GRIB_DECODING_ERROR;
    auto i = h->m.d.find(k);
    if (i != h->m.d.end()) {
        *v = i->second;
        return GRIB_SUCCESS;
    }
    auto j = h->m.l.find(k);
    if (j == h->m.l.end())
        return GRIB_NOT_FOUND;
    *v = j->second;
    return GRIB_SUCCESS;
}
int grib_get_string(const grib_handle* h, const char* k, char* v, size_t* n)
{
    if (grb::failKey() == k)
        return GRIB_DECODING_ERROR;
    auto i = h->m.s.find(k);
    if (i == h->m.s.end())
        return GRIB_NOT_FOUND;
    if (*n < i->second.size() + 1)
        return GRIB_BUFFER_TOO_SMALL;
    memcpy(v, i->second.c_str(), i->second.size() + 1);
    *n = i->second.size() + 1;
    return GRIB_SUCCESS;
}
int grib_get_size(const grib_handle* h, const char* k, size_t* n)
{
    if (grb::failKey() == k)
        return GRIB_DECODING_ERROR;
    *n = !strcmp(k, "pv") ? h->m.pv.size() : !strcmp(k, "values") ? h->m.values.size() : 1;
    return GRIB_SUCCESS;
}
int grib_get_double_array(const grib_handle* h, const char* k, double* v, size_t* n)
{
    if (grb::failKey() == k)
        return GRIB_DECODING_ERROR;
    const bool pv = !strcmp(k, "pv");
    const std::vector<double>& x = pv ? h->m.pv : h->m.values;
    if (*n < x.size())
        return GRIB_ARRAY_TOO_SMALL;
    const auto mv = h->m.d.find("missingValue");
    for (size_t i = 0; i < x.size(); i++)
        v[i] = (!pv && i < h->m.missing.size() && h->m.missing[i]) ? mv->second : x[i];
    *n = x.size();
    return GRIB_SUCCESS;
}
int grib_set_long(grib_handle* h, const char* k, long v)
{
    if (!strcmp(k, "stepUnits") && h->m.l.count("stepUnits")) {
        /* the steps are kept, expressed in the new unit */
    }
    h->m.l[k] = v;
    return GRIB_SUCCESS;
}
int grib_set_double(grib_handle* h, const char* k, double v)
{
    if (grb::failKey() == k)
        return GRIB_DECODING_ERROR;
    h->m.d[k] = v;
    return GRIB_SUCCESS;
}
int grib_set_string(grib_handle* h, const char* k, const char* v, size_t* n)
{
    h->m.s[k] = std::string(v, *n);
    return GRIB_SUCCESS;
}
int grib_set_double_array(grib_handle* h, const char* k, const double* v, size_t n)
{
    std::vector<double>& x = !strcmp(k, "pv") ? h->m.pv : h->m.values;
    x.assign(v, v + n);
    return GRIB_SUCCESS;
}
int grib_get_message(const grib_handle*, const void** p, size_t* n)
{
    *p = "GRIB";
    *n = 4;
    return GRIB_SUCCESS;
}
}
#endif
