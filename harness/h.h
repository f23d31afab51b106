/* In-memory reader and helpers shared by the harnesses. */
#ifndef H_H
#define H_H
#include "fs.h"
#include "fimex/CDM.h"
#include "fimex/CDMAttribute.h"
#include "fimex/CDMDimension.h"
#include "fimex/CDMException.h"
#include "fimex/CDMReader.h"
#include "fimex/CDMReaderWriter.h"
#include "fimex/CDMVariable.h"
#include "fimex/Data.h"
#include "fimex/SharedArray.h"
#include "fimex/SliceBuilder.h"
#include <atomic>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
using namespace MetNoFimex;
typedef std::vector<size_t> Sizes;
typedef std::vector<std::string> Names;

/* reader with data in memory, but (unless put into the cdm) delivered through the reading functions */
struct MemReader : public CDMReader
{
    std::map<std::string, DataPtr> mem;
    std::set<std::pair<std::string, size_t>> missing; // slices reported as not available
    bool ownSlices = true;                             // implements reading of boxes, not only of unlimited slices
    std::atomic<int> reads{0};
    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const std::string& name, size_t pos) override
    {
        reads++;
        const CDMVariable& v = cdm_->getVariable(name);
        if (v.hasData())
            return getDataSliceFromMemory(v, pos);
        DataPtr d = full(name);
        if (!cdm_->hasUnlimitedDim(v))
            return d->clone();
        if (missing.count(std::make_pair(name, pos)))
            return createData(v.getDataType(), 0);
        size_t n = 1;
        for (const auto& s : v.getShape())
            if (!cdm_->getDimension(s).isUnlimited())
                n *= cdm_->getDimension(s).getLength();
        if (n * (pos + 1) > d->size())
            throw CDMException("position outside of unlimited dimension");
        if (v.getDataType() == CDM_STRING)
            return createData(d->asString().substr(pos * n, n));
        return createDataSlice(v.getDataType(), *d, pos * n, n);
    }
    DataPtr getDataSlice(const std::string& name, const SliceBuilder& sb) override
    {
        const CDMVariable& v = cdm_->getVariable(name);
        if (!ownSlices || v.hasData() || !missing.empty())
            return CDMReader::getDataSlice(name, sb);
        reads++;
        if (v.getDataType() == CDM_STRING)
            return sliceText(full(name)->asString(), sb);
        return full(name)->slice(sb.getMaxDimensionSizes(), sb.getDimensionStartPositions(), sb.getDimensionSizes());
    }
    static DataPtr sliceText(const std::string& s, const SliceBuilder& sb)
    {
        const std::vector<size_t> max = sb.getMaxDimensionSizes(), st = sb.getDimensionStartPositions(), sz = sb.getDimensionSizes();
        std::string r;
        size_t n = 1;
        for (size_t i = 0; i < sz.size(); i++)
            n *= sz[i];
        for (size_t k = 0; k < n; k++) {
            size_t q = k, p = 0, m = 1;
            for (size_t i = 0; i < sz.size(); i++) {
                p += (st[i] + q % sz[i]) * m;
                q /= sz[i];
                m *= max[i];
            }
            r += s.at(p);
        }
        return createData(r);
    }
    DataPtr full(const std::string& name)
    {
        auto it = mem.find(name);
        if (it == mem.end())
            throw CDMException("no data for " + name);
        return it->second;
    }
    void dim(const std::string& n, size_t len, bool unlim = false)
    {
        CDMDimension d(n, len);
        d.setUnlimited(unlim);
        cdm_->addDimension(d);
    }
    // shape: fastest dimension first
    void var(const std::string& n, CDMDataType t, const Names& shape, DataPtr d = DataPtr())
    {
        cdm_->addVariable(CDMVariable(n, t, shape));
        if (d)
            mem[n] = d;
    }
    void var(const std::string& n, CDMDataType t, const Names& shape, const std::vector<double>& vals)
    {
        DataPtr d = createData(t, vals.size(), 0.0);
        for (size_t i = 0; i < vals.size(); i++)
            d->setValue(i, vals[i]);
        var(n, t, shape, d);
    }
    template <class T>
    void att(const std::string& v, const std::string& a, T val)
    {
        cdm_->addAttribute(v, CDMAttribute(a, val));
    }
    void att(const std::string& v, const std::string& a, const char* val) { cdm_->addAttribute(v, CDMAttribute(a, std::string(val))); }
    CDM& cdm() { return *cdm_; }
};
typedef std::shared_ptr<MemReader> MemReader_p;

inline MemReader_p memReader() { return std::make_shared<MemReader>(); }

/* position of an element in an array, fastest dimension first */
inline size_t at(const Sizes& dims, const Sizes& idx)
{
    size_t p = 0;
    for (size_t i = dims.size(); i-- > 0;)
        p = p * dims[i] + idx[i];
    return p;
}
/* all index tuples of a box; fastest dimension first */
template <class F>
void forBox(const Sizes& size, F f)
{
    size_t n = 1;
    for (auto s : size)
        n *= s;
    for (size_t k = 0; k < n; k++) {
        Sizes idx;
        size_t r = k;
        for (auto s : size) {
            idx.push_back(r % s);
            r /= s;
        }
        f(k, idx);
    }
}
/* integer data with arbitrary values; ref receives the same values */
inline DataPtr symInts(const std::string& name, size_t n, std::vector<int>& ref, int lo = -30000, int hi = 30000)
{
    DataPtr d = createData(CDM_INT, n, 0.);
    int* p = (int*)d->getDataPtr();
    ref.resize(n);
    for (size_t i = 0; i < n; i++)
        ref[i] = p[i] = (int)fs_int(name + std::to_string(i), lo, hi);
    return d;
}
/* float data with arbitrary dyadic values */
inline DataPtr symFloats(const std::string& name, size_t n, std::vector<float>& ref, int lo = -16, int hi = 16, int s = 1)
{
    DataPtr d = createData(CDM_FLOAT, n, 0.);
    float* p = (float*)d->getDataPtr();
    ref.resize(n);
    for (size_t i = 0; i < n; i++)
        ref[i] = p[i] = (float)fs_real(name + std::to_string(i), lo, hi, s);
    return d;
}
/* does the call throw? */
template <class F>
bool throws(F f)
{
    try {
        f();
    } catch (std::exception&) {
        return true;
    }
    return false;
}
#endif
