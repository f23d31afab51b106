/*FS {
 "quick_s": 50, "thorough_s": 400,
 "tus": ["ArrayLoop.cc","DataIndex.cc","IndexedData.cc","Data.cc","DataUtils.cc","NativeData.cc","StringData.cc","CDMDataType.cc","Type2String.cc","String2Type.cc","MathUtils.cc","StringUtils.cc","SharedArray.cc","CDMException.cc","Units*.cc","MutexLock.cc","Logger.cc","Log4cppLogger.cc","binaryConstants.cc"],
 "bounds": ["two inputs (thorough: three) and one output, each with any of 16 shapes of up to 3 of 4 dimensions of length 1..3, the output in 4 orders of all dimensions, one dimension optionally run through separately with its own length per array; arbitrary values", "index computations: up to 4 dimensions, positions and lengths over 0..2^15"],
 "outside": ["more than three dimensions per array; arrays in which a length of the slowest dimension is changed (set_length) are run through for that one slice only"]
} */
#include "h.h"
#include "fimex/ArrayLoop.h"
#include "fimex/DataIndex.h"
#include "fimex/IndexedData.h"
#include "../src/leap_iterator.h"
namespace {
const char* N[4] = {"x", "y", "t", "z"};
/* shapes as lists of dimension numbers, fastest first */
const std::vector<std::vector<int>> shapes = {{}, {0}, {1}, {2}, {0, 1}, {1, 0}, {0, 2}, {1, 2}, {0, 1, 2}, {1, 0, 2}, {0, 3}, {3}, {0, 3, 2}, {3, 0}, {0, 1, 3}, {2, 0, 1}};
struct A
{
    std::vector<int> d;
    size_t len[4];
    ArrayDims dims;
    std::vector<int> v;
    size_t pos(const size_t* c) const
    {
        size_t p = 0, f = 1;
        for (int k : d) {
            p += c[k] * f;
            f *= len[k];
        }
        return p;
    }
    bool has(int k) const { return std::find(d.begin(), d.end(), k) != d.end(); }
};
A make(const std::vector<int>& d, const size_t* len, bool byAdd)
{
    A a;
    a.d = d;
    std::copy(len, len + 4, a.len);
    Names n;
    Sizes l;
    for (int k : d) {
        n.push_back(N[k]);
        l.push_back(len[k]);
        if (byAdd)
            a.dims.add(N[k], len[k]);
    }
    if (!byAdd)
        a.dims = ArrayDims(n, l);
    size_t t = 1;
    for (auto x : l)
        t *= x;
    FS_ASSERT(a.dims.volume() == t, "volume of an array");
    FS_ASSERT(a.dims.rank() == d.size(), "rank of an array");
    a.v.resize(t);
    return a;
}
} // namespace
/* out = sum of the inputs at the matching places, the dimension z run through separately */
FS_HARNESS(loop)
{
    size_t len[4];
    const int nin = fs_thorough() ? (int)fs_pick("nin", 1, 3) : 2;
    const bool ns = fs_pick("separate", 0, 1);
    static const int L[4][3] = {{2, 3, 2}, {3, 1, 2}, {1, 2, 3}, {2, 2, 1}};
    std::vector<int> sh, all;
    int sum = 0;
    for (int i = 0; i < nin; i++) {
        sh.push_back((int)fs_pick("in" + std::to_string(i), 0, (int)shapes.size() - 1));
        sum += sh[i] * (i + 1);
        for (int k : shapes[sh[i]])
            if (std::find(all.begin(), all.end(), k) == all.end() && !(ns && k == 3))
                all.push_back(k);
    }
    // the output has all the dimensions of the inputs, in an order of its own
    const int ord = (int)fs_pick("order", 0, 3);
    if (ord & 1)
        std::reverse(all.begin(), all.end());
    if (ord & 2) {
        std::sort(all.begin(), all.end());
        if (ord & 1)
            std::rotate(all.begin(), all.begin() + all.size() / 2, all.end());
    }
    if (ns && (ord != 3))
        all.insert(all.begin() + std::min<size_t>(ord, all.size()), 3);
    const int lc = fs_thorough() ? (int)fs_pick("lengths", 0, 3) : sum % 4;
    for (int k = 0; k < 3; k++)
        len[k] = L[lc][k];
    std::vector<A> as;
    for (int i = 0; i <= nin; i++) {
        len[3] = ns ? 2 + (i + lc) % 2 : 2;
        as.push_back(make(i < nin ? shapes[sh[i]] : all, len, i & 1));
    }
    A& o = as[nin];
    for (int i = 0; i < nin; i++)
        for (size_t j = 0; j < as[i].v.size(); j++)
            as[i].v[j] = (int)fs_int("v" + std::to_string(i) + "." + std::to_string(j), -10000, 10000);
    for (auto& x : o.v)
        x = -777777;
    for (auto& a : as) {
        if (ns)
            set_not_shared("z", a.dims);
        for (int k = 0; k < 4; k++) {
            FS_ASSERT((a.dims.dim_index(N[k]) < a.dims.rank()) == a.has(k), "dimension of an array");
            FS_ASSERT(a.dims.length(N[k]) == (a.has(k) ? a.len[k] : 1), "length of a dimension");
            size_t c[4] = {0, 0, 0, 0};
            c[k] = 1;
            FS_ASSERT(a.dims.delta(N[k]) == (a.has(k) ? a.pos(c) : 0), "distance of neighbours along a dimension");
        }
    }
    ArrayGroup g;
    for (auto& a : as)
        g.add(a.dims);
    FS_ASSERT(g.arrayCount() == as.size(), "arrays of a group");
    Loop loop(g);
    const size_t sv = g.sharedVolume();
    size_t vol = 1;
    for (int k : o.d)
        if (!(ns && k == 3))
            vol *= o.len[k];
    FS_ASSERT(g.volume() == vol, "volume of a group");
    size_t steps = 0;
    do {
        steps++;
        if (steps > vol)
            break;
        for (size_t j = 0; j < sv; j++) {
            int s = 0;
            bool in = true;
            for (int i = 0; i < nin && in; i++) {
                const size_t nz = ns ? as[i].dims.length("z") : 1;
                for (size_t z = 0; z < nz; z++) {
                    const size_t p = loop[i] + j + z * (ns ? as[i].dims.delta("z") : 0);
                    in &= p < as[i].v.size();
                    FS_ASSERT(p < as[i].v.size(), "loop inside of the input");
                    if (!in)
                        break;
                    s += (i + 1) * (int)(z + 1) * as[i].v[p];
                }
            }
            const size_t nz = ns ? o.dims.length("z") : 1;
            for (size_t z = 0; z < nz && in; z++) {
                const size_t p = loop[nin] + j + z * (ns ? o.dims.delta("z") : 0);
                FS_ASSERT(p < o.v.size(), "loop inside of the output");
                if (p < o.v.size())
                    o.v[p] = s + (int)z;
            }
        }
    } while (loop.next());
    FS_ASSERT(steps * sv == vol, "number of steps");
    FS_REACH("looped");
    size_t lim[4];
    for (int k = 0; k < 4; k++)
        lim[k] = o.has(k) ? o.len[k] : 1;
    forBox({lim[0], lim[1], lim[2], lim[3]}, [&](size_t, const Sizes& c) {
        int e = 0;
        for (int i = 0; i < nin; i++) {
            size_t cc[4] = {c[0], c[1], c[2], c[3]};
            const size_t nz = ns && as[i].has(3) ? as[i].len[3] : 1;
            for (size_t z = 0; z < nz; z++) {
                if (ns)
                    cc[3] = z;
                e += (i + 1) * (int)(z + 1) * as[i].v[as[i].pos(cc)];
            }
        }
        if (ns)
            e += (int)c[3];
        const size_t cc[4] = {c[0], c[1], c[2], c[3]};
        FS_ASSERT(o.v[o.pos(cc)] == e, "loop combines the matching elements");
    });
}
/* the slowest dimension reduced to one slice */
FS_HARNESS(oneslice)
{
    const size_t nx = fs_pick("nx", 1, 3), ny = fs_pick("ny", 1, 2), nt = fs_pick("nt", 1, 3);
    const bool swap = fs_pick("swap", 0, 1), flat = fs_pick("flat", 0, 1), outT = fs_pick("outT", 0, 1);
    ArrayDims a(swap ? Names{"y", "x", "t"} : Names{"x", "y", "t"}, swap ? Sizes{ny, nx, nt} : Sizes{nx, ny, nt});
    ArrayDims b = flat ? ArrayDims({"x"}, {nx}) : ArrayDims({"x", "t"}, {nx, nt});
    ArrayDims o = ArrayDims().add("x", nx).add("y", ny);
    if (outT)
        o.add("t", nt);
    set_length("t", 1, a, b, o);
    ArrayGroup g = ArrayGroup().add(a).add(b).add(o);
    std::vector<int> va(nx * ny), vb(nx), vo(nx * ny, -777777);
    for (size_t i = 0; i < va.size(); i++)
        va[i] = (int)fs_int("a" + std::to_string(i), -10000, 10000);
    for (size_t i = 0; i < vb.size(); i++)
        vb[i] = (int)fs_int("b" + std::to_string(i), -10000, 10000);
    Loop l(g);
    do {
        for (size_t j = 0; j < g.sharedVolume(); j++) {
            FS_ASSERT(l[0] + j < va.size(), "first input");
            FS_ASSERT(l[1] + j < vb.size(), "second input");
            FS_ASSERT(l[2] + j < vo.size(), "output");
            vo[l[2] + j] = va[l[0] + j] + 3 * vb[l[1] + j];
        }
    } while (l.next());
    for (size_t y = 0; y < ny; y++)
        for (size_t x = 0; x < nx; x++)
            FS_ASSERT(vo[x + nx * y] == va[swap ? y + ny * x : x + nx * y] + 3 * vb[x], "one slice of the arrays");
    FS_REACH("one slice");
}
/* lengths that do not fit are refused */
FS_HARNESS(mismatch)
{
    const int64_t l1 = fs_int("l1", 0, 100), l2 = fs_int("l2", 0, 100), m = fs_int("m", 0, 4);
    fs_text_lossy(1);
    bool thrown = false;
    try {
        ArrayDims a({"x", "y"}, {(size_t)l1, 2});
        ArrayDims b;
        b.add("y", 2).add("x", (size_t)l2);
        ArrayGroup g = ArrayGroup().add(a).add(b);
        FS_ASSERT(g.volume() == 2 * (size_t)l1, "volume");
    } catch (std::runtime_error&) {
        thrown = true;
    }
    const bool bad = (l1 != l2) | (l1 == 0) | (l2 == 0);
    FS_ASSERT(thrown == bad, "arrays of different length are refused");
    (void)m;
    FS_REACH("refused or not");
}
/* positions inside of an array */
FS_HARNESS(index)
{
    const int nd = (int)fs_pick("nd", 0, 4);
    Sizes dims, pos;
    for (int i = 0; i < nd; i++) {
        dims.push_back((size_t)fs_int("d" + std::to_string(i), 1, i < 3 ? 1 << 10 : 1 << 15));
        pos.push_back((size_t)fs_int("p" + std::to_string(i), 0, 1 << 10));
        FS_ASSUME(pos[i] < dims[i]);
    }
    DataIndex idx(dims);
    size_t e = 0, f = 1;
    for (int i = 0; i < nd; i++) {
        e += pos[i] * f;
        f *= dims[i];
        Sizes part(pos.begin(), pos.begin() + i + 1);
        size_t p = 0;
        switch (i) {
        case 0: p = idx.getPos(pos[0]); break;
        case 1: p = idx.getPos(pos[0], pos[1]); break;
        case 2: p = idx.getPos(pos[0], pos[1], pos[2]); break;
        case 3: p = idx.getPos(pos[0], pos[1], pos[2], pos[3]); break;
        }
        FS_ASSERT(p == e, "position by numbers");
        FS_ASSERT(idx.getPos(part) == e, "position by vector");
    }
    FS_ASSERT(idx.getDims().size() == dims.size(), "dimensions kept");
    FS_REACH("indexed");
}
FS_HARNESS(indexed)
{
    const size_t nx = fs_pick("nx", 1, 3), ny = fs_pick("ny", 1, 3), nz = fs_pick("nz", 1, 2);
    std::vector<int> ref;
    DataPtr d = symInts("v", nx * ny * nz, ref);
    IndexedData id(d, {nx, ny, nz});
    for (size_t z = 0; z < nz; z++)
        for (size_t y = 0; y < ny; y++)
            for (size_t x = 0; x < nx; x++) {
                const size_t p = x + nx * (y + ny * z);
                FS_ASSERT(id.getDouble(x, y, z) == ref[p], "value");
                FS_ASSERT(id.getLongLong(x, y, z) == ref[p], "integer value");
            }
    FS_ASSERT(throws([&]() { IndexedData(d, {nx, ny, nz + 1}); }), "dimensions that do not fit are refused");
    id.setDims({ny, nx * nz});
    for (size_t k = 0; k < nx * nz; k++)
        for (size_t y = 0; y < ny; y++)
            FS_ASSERT(id.getDouble(y, k) == ref[y + ny * k], "value with other dimensions");
    FS_REACH("values");
}
/* steps of more than one element */
FS_HARNESS(leap)
{
    int v[12];
    for (int i = 0; i < 12; i++)
        v[i] = (int)fs_int("v" + std::to_string(i), -1000, 1000);
    const int step = (int)fs_pick("step", -3, 3), n = (int)fs_pick("n", 0, 3), base = step < 0 ? 11 : 0;
    FS_ASSUME(step != 0);
    leap_iterator<int*> b(v + base, step), e = b + n, it = b;
    for (int i = 0; i < n; i++) {
        FS_ASSERT(it != e, "end reached too early");
        FS_ASSERT(*it == v[base + i * step], "element");
        FS_ASSERT(*(e - (n - i)) == v[base + i * step], "element from the end");
        if (i & 1)
            ++it;
        else {
            leap_iterator<int*> o = it++;
            FS_ASSERT(*o == v[base + i * step], "element before the step");
        }
    }
    FS_ASSERT(it == e, "end");
    for (int i = n - 1; i >= 0; i--) {
        if (i & 1)
            --it;
        else
            it--;
        FS_ASSERT(*it == v[base + i * step], "element backwards");
    }
    FS_REACH("stepped");
}
