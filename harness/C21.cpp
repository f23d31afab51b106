/*FS {
 "quick_s": 60, "thorough_s": 400, "regex": true,
 "bounds": ["texts of up to 4 (thorough 6) arbitrary characters (any byte), up to 2 arbitrary delimiters", "numbers of up to 3 (thorough 5) characters out of digits, signs, dot, exponent, space and letters, for every type", "dotted lists: 2 or 3 leading numbers, every step and end out of small sets", "axis specifications with start and end at arbitrary of 9 (thorough 13) positions on both sides of zero, steps 5 and 0.5, positive and negative"],
 "outside": ["longer texts", "locales", "numbers with more digits than the type holds"]
} */
#include "h.h"
#include "fimex/CDMException.h"
#include "fimex/SpatialAxisSpec.h"
#include "fimex/String2Type.h"
#include "fimex/StringUtils.h"
#include "fimex/TokenizeDotted.h"
#include "fimex/Type2String.h"
namespace {
std::string symText(const char* name, int n)
{
    std::string s(n, 'x');
    for (int i = 0; i < n; i++)
        s[i] = (char)fs_int(name + std::to_string(i), -128, 127);
    return s;
}
bool in(char c, const std::string& d)
{
    for (char x : d)
        if (x == c)
            return true;
    return false;
}
} // namespace

/* tokens are the longest parts without delimiters, in order */
FS_HARNESS(tokens)
{
    const int n = fs_pick("n", 0, fs_thorough() ? 6 : 4), nd = fs_pick("nd", 1, 2);
    const std::string s = symText("c", n), d = symText("d", nd);
    const int what = fs_pick("what", 0, 2);
    if (what < 2) {
        std::vector<std::string> want;
        std::string cur;
        for (char c : s) {
            if (in(c, d)) {
                if (what == 1 || !cur.empty())
                    want.push_back(cur);
                cur.clear();
            } else
                cur += c;
        }
        if (what == 1 || !cur.empty())
            want.push_back(cur);
        const std::vector<std::string> got = what ? split_any(s, d) : tokenize(s, d);
        FS_ASSERT(got.size() == want.size(), "number of tokens");
        for (size_t i = 0; i < got.size(); i++) {
            FS_ASSERT(got[i].size() == want[i].size(), "length of token");
            for (size_t k = 0; k < got[i].size(); k++)
                FS_ASSERT(got[i][k] == want[i][k], "token");
        }
        FS_REACH("tokens");
        return;
    }
    int a = 0, b = n;
    while (a < b && in(s[a], d))
        a++;
    while (b > a && in(s[b - 1], d))
        b--;
    const std::string t = trim(s, d);
    FS_ASSERT((int)t.size() == b - a, "trimmed length");
    for (int i = a; i < b; i++)
        FS_ASSERT(t[i - a] == s[i], "trimmed text");
    FS_REACH("trimmed");
}

/* beginning, end, replacing, lower case, escaping */
FS_HARNESS(parts)
{
    const int n = fs_pick("n", 0, 3), m = fs_pick("m", 0, 3);
    const std::string s = symText("c", n), t = symText("t", m);
    switch (fs_pick("what", 0, 3)) {
    case 0: {
        bool b = m <= n, e = m <= n;
        for (int i = 0; i < m && m <= n; i++) {
            if (s[i] != t[i])
                b = false;
            if (s[n - m + i] != t[i])
                e = false;
        }
        FS_ASSERT(starts_with(s, t) == b, "beginning");
        FS_ASSERT(ends_with(s, t) == e, "end");
        break;
    }
    case 1: {
        if (m != 2)
            return;
        const std::string r = replace_all_copy(s, t[0], t[1]);
        FS_ASSERT((int)r.size() == n, "same length");
        for (int i = 0; i < n; i++)
            FS_ASSERT(r[i] == fs_seli(s[i] == t[0], t[1], s[i]), "replaced");
        break;
    }
    case 2: {
        if (m || n > 1)
            return;
        std::string u = s;
        for (int i = 0; i < n; i++)
            FS_ASSUME(u[i] >= 0);
        const std::string r = string2lowerCase(u);
        FS_ASSERT((int)r.size() == n, "same length");
        for (int i = 0; i < n; i++) {
            char w = u[i];
            if (w >= 'A' && w <= 'Z')
                w += 'a' - 'A';
            FS_ASSERT(r[i] == w, "lower case");
        }
        break;
    }
    case 3: {
        if (m || n > 1)
            return;
        const std::string s0 = s;
        const char* M[] = {"", "a(\\"};
        const std::string s = M[fs_pick("before", 0, 1)] + s0 + M[fs_pick("after", 0, 1)];
        const int n = s.size();
        // whatever the text: reading the escaped one back gives the text, and no special character is left
        const std::string r = regex_escape(s);
        size_t k = 0;
        for (int i = 0; i < n; i++) {
            FS_ASSERT(k < r.size(), "escaped length");
            bool esc = false;
            if (r[k] == '\\') {
                esc = true;
                k++;
                FS_ASSERT(k < r.size(), "escaped length");
            }
            FS_ASSERT(r[k] == s[i], "escaped character");
            FS_ASSERT(esc == in(s[i], "*?\\+.()[]{}|^$"), "special characters escaped, and no other");
            k++;
        }
        FS_ASSERT(k == r.size(), "escaped length");
        break;
    }
    }
    FS_REACH("part");
}

namespace {
template <class T>
void number(const std::string& s)
{
    // grammar: -?digits for integers; -?digits[.digits][e[sign]digits] or -?.digits for others; nan
    size_t i = 0;
    bool ok = true, neg = false;
    double v = 0;
    const bool fl = std::is_floating_point<T>::value;
    const bool nan = fl && s == "nan";
    if (i < s.size() && s[i] == '-') {
        neg = true;
        i++;
    }
    size_t digits = 0;
    auto dig = [&](size_t k) { return k < s.size() && s[k] >= '0' && s[k] <= '9'; };
    while (dig(i)) {
        v = 10 * v + (s[i++] - '0');
        digits++;
    }
    if (fl) {
        if (i < s.size() && s[i] == '.') {
            i++;
            double f = 1;
            while (dig(i)) {
                f /= 10;
                v += f * (s[i++] - '0');
                digits++;
            }
        }
        if (digits && i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
            i++;
            bool en = false;
            if (i < s.size() && (s[i] == '-' || s[i] == '+'))
                en = s[i++] == '-';
            if (!dig(i))
                ok = false;
            int e = 0;
            while (dig(i))
                e = 10 * e + (s[i++] - '0');
            for (; e > 0 && e < 400; e--)
                v = en ? v / 10 : v * 10;
        }
    }
    ok = ok && digits && i == s.size();
    if (neg)
        v = -v;
    if (ok && !nan && (v < (double)std::numeric_limits<T>::lowest() || v > (double)std::numeric_limits<T>::max()))
        return; // not a number of the type
    if (ok && !fl && !std::numeric_limits<T>::is_signed && neg)
        return;
    bool thrown = false;
    T got = T();
    try {
        got = string2type<T>(s);
    } catch (std::runtime_error&) {
        thrown = true;
    }
    if (nan) {
        FS_ASSERT(!thrown && got != got, "nan");
        return;
    }
    if (!fl && ok)
        FS_ASSERT(!thrown, "number accepted");
    FS_ASSERT(thrown == !ok, "only complete numbers are accepted");
    if (ok) {
        FS_ASSERT(std::fabs((double)got - v) <= 1e-6 * std::fabs(v), "value");
        FS_REACH("number");
    }
}
} // namespace

/* texts are read as a number completely, or refused */
FS_HARNESS(numbers)
{
    fs_text_lossy(1);
    const char A[] = "05.-e x+";
    const int n = fs_pick("n", 0, fs_thorough() ? 5 : 3), type = fs_pick("type", 0, 3);
    std::string s;
    for (int i = 0; i < n; i++)
        s += A[fs_pick("c" + std::to_string(i), 0, 7)];
    switch (type) {
    case 0:
        return number<int>(s);
    case 1:
        return number<double>(s);
    case 2:
        return number<unsigned short>(s);
    case 3:
        return number<char>(s);
    }
}

/* a number written as text reads back as itself */
FS_HARNESS(textnumbers)
{
    fs_text_lossy(1);
    const int type = fs_pick("type", 0, 9);
    const int which = fs_pick("v", 0, 6);
    auto rt = [&](auto z) {
        typedef decltype(z) T;
        const T V[] = {T(0), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), T(1), T(97), T(-1), T(100)};
        const T v = V[which];
        const std::string s = type2string(v);
        if (std::numeric_limits<T>::is_integer)
            FS_ASSERT(string2type<T>(s) == v, "integers keep their value");
        else if (which != 1 && which != 2)
            FS_ASSERT(string2type<T>(s) == v, "small numbers keep their value");
    };
    switch (type) {
    case 0:
        rt(char());
        break;
    case 1:
        rt((unsigned char)0);
        break;
    case 2:
        rt(short());
        break;
    case 3:
        rt((unsigned short)0);
        break;
    case 4:
        rt(int());
        break;
    case 5:
        rt(0u);
        break;
    case 6:
        rt(0ll);
        break;
    case 7:
        rt(0ull);
        break;
    case 8:
        rt(0.f);
        break;
    case 9:
        rt(0.);
        break;
    }
    const char* T[] = {"1", "on", "TRUE", "0", "off", "False", "On"};
    FS_ASSERT(string2type<bool>(T[which]) == (which < 3 || which == 6), "switches");
    FS_ASSERT(type2string(which < 3) == (which < 3 ? "1" : "0"), "switches");
    for (const char* b : {"", "x", "10", "yes", " on"})
        FS_ASSERT(throws([&] { string2type<bool>(b); }), "other words are refused");
    FS_REACH("text");
}

/* dots continue the step of the two values before up to the value after them */
FS_HARNESS(dotted)
{
    fs_text_lossy(1);
    const double A[] = {0, 1, -1, 0.5, 100, -2.25};
    const double a = A[fs_pick("a", 0, fs_thorough() ? 5 : 3)], st = (double[]){1, -1, 0.25, 0.1, 0, -3}[fs_pick("step", 0, 5)];
    const int k = fs_pick("k", -2, 5), frac = fs_pick("frac", 0, 1);
    const double b = a + st;
    const bool integer = fs_pick("int", 0, 1);
    const double e = b + st * (k + frac * 0.5);
    if (integer && (a != std::floor(a) || b != std::floor(b) || e != std::floor(e)))
        return;
    const int form = fs_pick("form", 0, 3);
    const char* sep = form == 1 ? ", " : ",";
    std::string s = type2string(a) + sep + type2string(b);
    std::vector<double> want = {a, b};
    if (form < 2) {
        s += std::string(sep) + "..." + sep + type2string(e);
        if (st != 0)
            for (int j = 1; j < 40; j++) {
                const double v = b + j * st;
                if ((st > 0 ? e - v : v - e) <= 1e-5 * std::fabs(st))
                    break;
                want.push_back(v);
            }
        want.push_back(e);
        if (fs_pick("more", 0, 1)) {
            s += std::string(sep) + type2string(e + 7);
            want.push_back(e + 7);
        }
    } else if (form == 2) {
        FS_ASSERT(throws([&] { tokenizeDotted<double>(type2string(a) + ",...," + type2string(b)); }), "dots need two values before");
        FS_ASSERT(throws([&] { tokenizeDotted<double>("..."); }), "dots need two values before");
        FS_ASSERT(throws([&] { tokenizeDotted<double>(s + ",x"); }), "only numbers");
        FS_ASSERT(tokenizeDotted<double>("").empty(), "nothing");
    }
    if (integer) {
        auto g = tokenizeDotted<int>(s);
        FS_ASSERT(g.size() == want.size(), "number of values");
        for (size_t i = 0; i < g.size(); i++)
            FS_ASSERT(g[i] == (int)std::floor(want[i] + 0.5), "value");
    } else {
        auto g = tokenizeDotted<double>(s);
        FS_ASSERT(g.size() == want.size(), "number of values");
        for (size_t i = 0; i < g.size(); i++)
            FS_ASSERT(std::fabs(g[i] - want[i]) <= 1e-9, "value");
    }
    FS_REACH("dotted");
}

/* relative axis specifications */
FS_HARNESS(axes)
{
    fs_text_lossy(1);
    const double P[] = {-12, -10, -7.5, -3, 0, 0.5, 5, 7.5, 12, -5, -0.5, 3, 10};
    const int np = fs_thorough() ? 12 : 8;
    const double start = P[fs_pick("start", 0, np)], end = P[fs_pick("end", 0, np)];
    if (end < start)
        return;
    const double delta = (double[]){5, 0.5, -5}[fs_pick("delta", 0, 2)];
    const double z0 = (double[]){0, 5, -5}[fs_pick("first", 0, 2)];
    const double plus = (double[]){0, 5, 10.5, 12.25, -0.5}[fs_pick("plus", 0, 4)];
    std::string s = type2string(z0) + "," + type2string(z0 + delta) + ",...,x";
    if (plus)
        s += (plus > 0 ? ",x+" : ",x-") + type2string(std::fabs(plus));
    s += ";relativeStart=0";
    SpatialAxisSpec spec(s);
    FS_ASSERT(spec.requireStartEnd(), "start and end needed");
    FS_ASSERT(throws([&] { SpatialAxisSpec(s).getAxisSteps(); }), "without them refused");
    spec.setStartEnd(start, end);
    FS_ASSERT(!spec.requireStartEnd(), "now complete");
    const std::vector<double> g = spec.getAxisSteps();
    FS_ASSERT(g.size() >= 3, "values");
    const double s0 = g[0] - z0;
    FS_ASSERT(std::fabs(s0 / delta - std::floor(s0 / delta + 0.5)) < 1e-9, "starts at a multiple of the step");
    FS_ASSERT(std::fabs(s0 - start) < std::fabs(delta) * (1 + 1e-9), "starts within a step of the data");
    FS_ASSERT(std::fabs(g[1] - g[0] - delta) < 1e-9, "step");
    const size_t last = g.size() - (plus ? 2 : 1);
    const double x = g[last];
    FS_ASSERT(std::fabs(x / delta - std::floor(x / delta + 0.5)) < 1e-9, "ends at a multiple of the step");
    FS_ASSERT(std::fabs(x - end) < std::fabs(delta) * (1 + 1e-9), "ends within a step of the data");
    if (delta > 0 && x > g[1])
        for (size_t i = 1; i <= last; i++)
            FS_ASSERT(std::fabs(g[i] - g[i - 1] - delta) < 1e-9, "equal steps in between");
    if (plus)
        FS_ASSERT(std::fabs(g[last + 1] - x - plus) < 1e-9, "value relative to the end");
    // absolute ones do not depend on start and end
    SpatialAxisSpec abs("-5,0,...,10");
    FS_ASSERT(!abs.requireStartEnd(), "absolute");
    FS_ASSERT(abs.getAxisSteps() == (std::vector<double>({-5, 0, 5, 10})), "absolute");
    for (const char* bad : {"0,5;6,7", "0,5;colour=red", "0,5;a=b=c", "0;relativeStart=0", "0,5;unit=km"})
        FS_ASSERT(throws([&] { SpatialAxisSpec(bad, start, end).getAxisSteps(); }), "refused");
    FS_REACH("axis");
}
