/* Harness API.  The same harness source is compiled twice: instrumented and
 * linked against fsrt.cpp (symbolic exploration) and uninstrumented against
 * fsnative.cpp (replay of a counterexample on the real code). */
#ifndef FS_H
#define FS_H
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <limits>
#include <string>
extern "C" {
int64_t fs_int_(const char* name, int64_t lo, int64_t hi, int64_t dflt);
void fs_assert_(bool cond, const char* msg);
void fs_assume_(bool cond);
void fs_reach_(const char* label);
void fs_fail_(const char* msg);
/* true in thorough tier */
int fs_thorough();
/* numbers printed into text (error messages) are not enumerated; for harnesses that do not look at the text */
void fs_text_lossy(int on);
/* enumerate the feasible array indices of loads instead of reading a choice of elements */
void fs_fork_index(int on);
/* force a symbolic value to be enumerated here */
int64_t fs_enum_(int64_t v);
void fs_note_double_(const char* name, double v);
void fs_register_harness(const char* name, void (*fn)());
}
inline int64_t fs_int(const char* name, int64_t lo, int64_t hi) { return fs_int_(name, lo, hi, (lo <= 0 && 0 <= hi) ? 0 : lo); }
inline int64_t fs_int(const std::string& name, int64_t lo, int64_t hi) { return fs_int(name.c_str(), lo, hi); }
/* dyadic real k/2^s with k in [lo*2^s, hi*2^s] */
inline double fs_real(const char* name, int lo, int hi, int s)
{
    return (double)fs_int(name, (int64_t)lo << s, (int64_t)hi << s) * (1.0 / (double)((int64_t)1 << s));
}
inline double fs_real(const std::string& name, int lo, int hi, int s) { return fs_real(name.c_str(), lo, hi, s); }
inline bool fs_bool(const char* name) { return fs_int(name, 0, 1) != 0; }
inline bool fs_bool(const std::string& name) { return fs_bool(name.c_str()); }
/* value that is undefined (NaN) or a dyadic real */
inline double fs_real_or_nan(const std::string& name, int lo, int hi, int s)
{
    double v = fs_real(name, lo, hi, s);
    bool n = fs_bool(name + ".nan");
    return n ? std::numeric_limits<double>::quiet_NaN() : v;
}
inline int64_t fs_pick(const char* name, int64_t lo, int64_t hi) { return fs_enum_(fs_int(name, lo, hi)); }
inline int64_t fs_pick(const std::string& name, int64_t lo, int64_t hi) { return fs_enum_(fs_int(name, lo, hi)); }
/* choice without a branch */
__attribute__((noinline)) static double fs_sel(bool c, double a, double b) { return c ? a : b; }
__attribute__((noinline)) static int64_t fs_seli(bool c, int64_t a, int64_t b) { return c ? a : b; }
#define FS_STR_(x) #x
#define FS_STR(x) FS_STR_(x)
#define FS_ASSERT(cond, msg) fs_assert_((bool)(cond), msg " [" FS_STR(__LINE__) "]")
#define FS_ASSUME(cond) fs_assume_((bool)(cond))
#define FS_REACH(label) fs_reach_(label)
#define FS_FAIL(msg) fs_fail_(msg " [" FS_STR(__LINE__) "]")
#define FS_HARNESS(n) \
    static void fs_h_##n(); \
    static struct fs_reg_##n { fs_reg_##n() { fs_register_harness(#n, fs_h_##n); } } fs_reg_i_##n; \
    static void fs_h_##n()
#define FS_SAME(a, b) (((a) == (b)) | (((a) != (a)) & ((b) != (b))))
inline bool fs_near(double a, double b, double tol) { return (std::fabs(a - b) <= tol) | ((a != a) & (b != b)); }
#endif
