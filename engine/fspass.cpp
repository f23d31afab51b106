// fsym instrumentation pass: gives every SSA value of the instrumented code a
// shadow expression id and routes symbolic data flow / control flow to the
// runtime (fsrt.cpp).  See DESIGN.md, "Engine".
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/MDBuilder.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include "fsops.h"
#include <functional>
#include <map>
#include <set>
using namespace llvm;
#include "fsomp.h"

namespace {

typedef SmallVector<Value*, 4> Ids;

struct FS {
    Module& M;
    LLVMContext& C;
    const DataLayout& DL;
    Type *I1, *I8, *I32, *I64, *Void;
    PointerType* Ptr;
    GlobalVariable *gArgs, *gArgVals, *gArgAny, *gArgCallee, *gRet, *gRetAny, *gRetFrom, *gPage;
    FunctionCallee fBin, fIcmp, fFcmp, fCast, fSelect, fLoad, fChk, fStore, fBranch, fSwitch, fGep, fConc, fPre, fMemcpy, fMemset, fClear, fFun, fOvf, fReg,
        fByvalOut, fByvalIn, fPtr;
    MDNode* unlikely;
    MDNode* nosan;
    Function* F = nullptr;
    DenseMap<Value*, Ids> sh;
    unsigned siteCounter = 0;
    uint32_t siteBase = 0;

    FS(Module& m)
        : M(m)
        , C(m.getContext())
        , DL(m.getDataLayout())
    {
        I1 = Type::getInt1Ty(C);
        I8 = Type::getInt8Ty(C);
        I32 = Type::getInt32Ty(C);
        I64 = Type::getInt64Ty(C);
        Void = Type::getVoidTy(C);
        Ptr = PointerType::get(C, 0);
        auto gv = [&](const char* n, Type* t) { return cast<GlobalVariable>(M.getOrInsertGlobal(n, t)); };
        gArgs = gv("__fs_args", ArrayType::get(I32, 64));
        gArgVals = gv("__fs_argvals", ArrayType::get(I64, 64));
        gArgAny = gv("__fs_argany", I32);
        gArgCallee = gv("__fs_argcallee", Ptr);
        gRet = gv("__fs_ret", ArrayType::get(I32, 64));
        gRetAny = gv("__fs_retany", I32);
        gRetFrom = gv("__fs_retfrom", Ptr);
        gPage = gv("__fs_pageflag", ArrayType::get(I8, 1 << 20));
        auto fn = [&](const char* n, Type* r, ArrayRef<Type*> a) {
            FunctionCallee fc = M.getOrInsertFunction(n, FunctionType::get(r, a, false));
            if (auto* f = dyn_cast<Function>(fc.getCallee()))
                f->setDoesNotThrow();
            return fc;
        };
        fBin = fn("__fs_bin", I32, {I32, I32, I32, I64, I32, I64});
        fIcmp = fn("__fs_icmp", I32, {I32, I32, I32, I64, I32, I64});
        fFcmp = fn("__fs_fcmp", I32, {I32, I32, I32, I64, I32, I64});
        fCast = fn("__fs_cast", I32, {I32, I32, I32, I32, I64});
        fSelect = fn("__fs_select", I32, {I32, I32, I32, I64, I32, I64, I32});
        fLoad = fn("__fs_load", I32, {I32, I64, I32, I64, I32});
        fChk = fn("__fs_chkaddr", Void, {I32, I64, I32, I32});
        fStore = fn("__fs_store", Void, {I32, I64, I32, I32, I64});
        fBranch = fn("__fs_branch", Void, {I32, I32, I32});
        fSwitch = fn("__fs_switch", Void, {I32, I64, Ptr, I32, I32});
        fGep = fn("__fs_gep", I32, {I32, I64, I32, I64, I32, I64});
        fConc = fn("__fs_conc", Void, {I32, I64, I32});
        fPre = fn("__fs_precall", Void, {Ptr, I32});
        fMemcpy = fn("__fs_memcpy", Void, {Ptr, Ptr, I64});
        fMemset = fn("__fs_memset", Void, {Ptr, I32, I32, I64});
        fClear = fn("__fs_clear", Void, {Ptr, I64});
        fFun = fn("__fs_fun", I32, {I32, I32, I32, I32, I64, I32, I64});
        fOvf = fn("__fs_ovf", I32, {I32, I32, I32, I64, I32, I64});
        fReg = fn("__fs_register", Void, {Ptr, I32});
        fPtr = M.getOrInsertFunction("__fs_ptrcheck", FunctionType::get(Void, {Ptr, Ptr, I32}, true));
        if (auto* f = dyn_cast<Function>(fPtr.getCallee()))
            f->setDoesNotThrow();
        fByvalOut = fn("__fs_byval_out", Void, {I32, Ptr});
        fByvalIn = fn("__fs_byval_in", Void, {I32, Ptr, I64});
        unlikely = MDBuilder(C).createBranchWeights(1, 2000);
        nosan = MDNode::get(C, {});
        uint32_t h = 2166136261u;
        for (char c : M.getModuleIdentifier())
            h = (h ^ (uint8_t)c) * 16777619u;
        siteBase = h;
    }

    // ---- types
    static bool leafOk(Type* t) { return t->isFloatTy() || t->isDoubleTy() || t->isPointerTy() || (t->isIntegerTy() && t->getIntegerBitWidth() <= 64); }
    static bool isLeaf(Type* t) { return t->isIntegerTy() || t->isFloatingPointTy() || t->isPointerTy(); }
    unsigned width(Type* t)
    {
        if (t->isPointerTy())
            return 64;
        if (t->isIntegerTy())
            return t->getIntegerBitWidth();
        if (t->isFloatTy())
            return 32;
        if (t->isDoubleTy())
            return 64;
        return 0;
    }
    struct Leaf
    {
        Type* t;
        uint64_t off;
        SmallVector<unsigned, 3> idx;
    };
    bool flatten_(Type* t, uint64_t off, SmallVector<unsigned, 3> idx, std::vector<Leaf>& out)
    {
        if (out.size() > 16)
            return false;
        if (isLeaf(t)) {
            out.push_back({t, off, idx});
            return true;
        }
        if (auto* st = dyn_cast<StructType>(t)) {
            if (st->isOpaque())
                return false;
            const StructLayout* sl = DL.getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i) {
                auto j = idx;
                j.push_back(i);
                if (!flatten_(st->getElementType(i), off + sl->getElementOffset(i), j, out))
                    return false;
            }
            return true;
        }
        if (auto* at = dyn_cast<ArrayType>(t)) {
            if (at->getNumElements() > 16)
                return false;
            for (unsigned i = 0; i < at->getNumElements(); ++i) {
                auto j = idx;
                j.push_back(i);
                if (!flatten_(at->getElementType(), off + i * DL.getTypeAllocSize(at->getElementType()), j, out))
                    return false;
            }
            return true;
        }
        if (auto* vt = dyn_cast<FixedVectorType>(t)) {
            if (vt->getNumElements() > 16)
                return false;
            for (unsigned i = 0; i < vt->getNumElements(); ++i) {
                auto j = idx;
                j.push_back(i);
                uint64_t sz = DL.getTypeSizeInBits(vt->getElementType()) / 8;
                if (!flatten_(vt->getElementType(), off + i * sz, j, out))
                    return false;
            }
            return true;
        }
        return false;
    }
    std::map<Type*, std::vector<Leaf>> leafCache;
    const std::vector<Leaf>& leaves(Type* t)
    {
        auto it = leafCache.find(t);
        if (it != leafCache.end())
            return it->second;
        std::vector<Leaf> v;
        if (!t->isVoidTy() && !t->isTokenTy() && !t->isMetadataTy() && !t->isLabelTy()) {
            if (!flatten_(t, 0, {}, v))
                v.clear();
        }
        return leafCache[t] = v;
    }

    Value* zero() { return ConstantInt::get(I32, 0); }
    static bool isZero(Value* v)
    {
        auto* c = dyn_cast<ConstantInt>(v);
        return c && c->isZero();
    }
    Ids ids(Value* v)
    {
        auto it = sh.find(v);
        if (it != sh.end())
            return it->second;
        Ids z;
        for (size_t i = 0; i < leaves(v->getType()).size(); ++i)
            z.push_back(zero());
        return z;
    }
    Value* id0(Value* v)
    {
        Ids i = ids(v);
        return i.empty() ? zero() : i[0];
    }
    Value* c32(uint32_t x) { return ConstantInt::get(I32, x); }
    Value* c64(uint64_t x) { return ConstantInt::get(I64, x); }

    // concrete bits of a scalar as i64
    Value* bits(IRBuilder<>& B, Value* v)
    {
        Type* t = v->getType();
        if (t->isPointerTy())
            return B.CreatePtrToInt(v, I64);
        if (t->isFloatTy())
            return B.CreateZExt(B.CreateBitCast(v, I32), I64);
        if (t->isDoubleTy())
            return B.CreateBitCast(v, I64);
        if (t->isIntegerTy())
            return B.CreateZExtOrTrunc(v, I64);
        return c64(0);
    }
    Value* leafVal(IRBuilder<>& B, Value* v, const Leaf& l)
    {
        if (l.idx.empty())
            return v;
        if (v->getType()->isVectorTy())
            return B.CreateExtractElement(v, (uint64_t)l.idx[0]);
        Type* t = v->getType();
        SmallVector<unsigned, 3> idx;
        // vectors nested in structs
        for (unsigned i = 0; i < l.idx.size(); ++i) {
            if (t->isVectorTy()) {
                Value* vec = B.CreateExtractValue(v, idx);
                return B.CreateExtractElement(vec, (uint64_t)l.idx[i]);
            }
            idx.push_back(l.idx[i]);
            t = t->isStructTy() ? cast<StructType>(t)->getElementType(l.idx[i]) : cast<ArrayType>(t)->getElementType();
        }
        return B.CreateExtractValue(v, idx);
    }
    Value* orAll(IRBuilder<>& B, ArrayRef<Value*> v)
    {
        Value* r = nullptr;
        SmallPtrSet<Value*, 8> seen;
        for (Value* x : v) {
            if (isZero(x) || !seen.insert(x).second)
                continue;
            r = r ? B.CreateOr(r, x) : x;
        }
        return r;
    }
    // emit "if (cond != 0) slow()" before instruction `at`; returns phi of slow()'s result and 0
    Value* guarded(Instruction* at, Value* cond32, std::function<Value*(IRBuilder<>&)> slow, bool wantResult = true)
    {
        IRBuilder<> B(at);
        Value* c = cond32->getType() == I1 ? cond32 : B.CreateICmpNE(cond32, zero());
        BasicBlock* head = at->getParent();
        Instruction* term = SplitBlockAndInsertIfThen(c, at, false, unlikely);
        IRBuilder<> SB(term);
        SB.SetCurrentDebugLocation(DebugLoc());
        Value* r = slow(SB);
        if (!wantResult)
            return nullptr;
        BasicBlock* thenEnd = term->getParent();
        IRBuilder<> PB(&*at->getParent()->begin());
        PHINode* p = PB.CreatePHI(r->getType(), 2);
        p->addIncoming(r, thenEnd);
        p->addIncoming(Constant::getNullValue(r->getType()), head);
        return p;
    }
    Ids guardedN(Instruction* at, Value* cond32, unsigned n, std::function<Ids(IRBuilder<>&)> slow)
    {
        IRBuilder<> B(at);
        Value* c = cond32->getType() == I1 ? cond32 : B.CreateICmpNE(cond32, zero());
        BasicBlock* head = at->getParent();
        Instruction* term = SplitBlockAndInsertIfThen(c, at, false, unlikely);
        IRBuilder<> SB(term);
        SB.SetCurrentDebugLocation(DebugLoc());
        Ids r = slow(SB);
        BasicBlock* thenEnd = term->getParent();
        IRBuilder<> PB(&*at->getParent()->begin());
        Ids out;
        for (unsigned i = 0; i < n; ++i) {
            PHINode* p = PB.CreatePHI(I32, 2);
            p->addIncoming(r[i], thenEnd);
            p->addIncoming(zero(), head);
            out.push_back(p);
        }
        return out;
    }
    template <class T> T* ns(T* i)
    {
        i->setMetadata(LLVMContext::MD_nosanitize, nosan);
        return i;
    }
    Value* pageFlag(IRBuilder<>& B, Value* addr64)
    {
        Value* ix = B.CreateAnd(B.CreateLShr(addr64, 12), c64((1 << 20) - 1));
        Value* p = B.CreateInBoundsGEP(ArrayType::get(I8, 1 << 20), gPage, {c64(0), ix});
        return B.CreateZExt(ns(B.CreateLoad(I8, p)), I32);
    }
    uint32_t site()
    {
        return siteBase ^ (0x9E3779B1u * ++siteCounter);
    }
    Instruction* after(Instruction* I)
    {
        if (auto* inv = dyn_cast<InvokeInst>(I)) {
            BasicBlock* nd = inv->getNormalDest();
            return &*nd->getFirstInsertionPt();
        }
        Instruction* n = I->getNextNode();
        while (n && isa<PHINode>(n))
            n = n->getNextNode();
        return n;
    }
    void concretizeAll(Instruction* at, Instruction* I)
    {
        for (Value* op : I->operands()) {
            auto& lv = leaves(op->getType());
            Ids v = ids(op);
            for (size_t i = 0; i < lv.size(); ++i) {
                if (isZero(v[i]))
                    continue;
                uint32_t s = site();
                guarded(
                    at, v[i],
                    [&](IRBuilder<>& B) -> Value* {
                        B.CreateCall(fConc, {v[i], bits(B, leafVal(B, op, lv[i])), c32(s)});
                        return zero();
                    },
                    false);
            }
        }
    }

    void lanewise(Instruction* I, std::function<Value*(IRBuilder<>&, unsigned lane, const Leaf&)> slow, ArrayRef<Value*> ops)
    {
        auto& lv = leaves(I->getType());
        Ids out;
        for (unsigned i = 0; i < lv.size(); ++i) {
            SmallVector<Value*, 4> dep;
            for (Value* o : ops) {
                Ids x = ids(o);
                if (x.size() == lv.size())
                    dep.push_back(x[i]);
                else if (x.size() == 1)
                    dep.push_back(x[0]);
            }
            Instruction* at = after(I);
            IRBuilder<> B(at);
            Value* any = orAll(B, dep);
            if (!any) {
                out.push_back(zero());
                continue;
            }
            out.push_back(guarded(at, any, [&](IRBuilder<>& SB) { return slow(SB, i, lv[i]); }));
        }
        sh[I] = out;
    }
    bool allOk(Type* t)
    {
        for (auto& l : leaves(t))
            if (!leafOk(l.t))
                return false;
        return !leaves(t).empty();
    }
    Value* lid(Value* v, unsigned i)
    {
        Ids x = ids(v);
        return x.size() > i ? x[i] : zero();
    }

    void doBinary(BinaryOperator* I)
    {
        if (!allOk(I->getType())) {
            concretizeAll(I, I);
            return;
        }
        unsigned op = 0;
        switch (I->getOpcode()) {
        case Instruction::Add: op = FS_ADD; break;
        case Instruction::Sub: op = FS_SUB; break;
        case Instruction::Mul: op = FS_MUL; break;
        case Instruction::UDiv: op = FS_UDIV; break;
        case Instruction::SDiv: op = FS_SDIV; break;
        case Instruction::URem: op = FS_UREM; break;
        case Instruction::SRem: op = FS_SREM; break;
        case Instruction::Shl: op = FS_SHL; break;
        case Instruction::LShr: op = FS_LSHR; break;
        case Instruction::AShr: op = FS_ASHR; break;
        case Instruction::And: op = FS_AND; break;
        case Instruction::Or: op = FS_OR; break;
        case Instruction::Xor: op = FS_XOR; break;
        case Instruction::FAdd: op = FS_FADD; break;
        case Instruction::FSub: op = FS_FSUB; break;
        case Instruction::FMul: op = FS_FMUL; break;
        case Instruction::FDiv: op = FS_FDIV; break;
        case Instruction::FRem: op = FS_FREM; break;
        default: concretizeAll(I, I); return;
        }
        Value *a = I->getOperand(0), *b = I->getOperand(1);
        // division by a symbolic divisor: the runtime must see it before the trap
        if (op == FS_UDIV || op == FS_SDIV || op == FS_UREM || op == FS_SREM) {
            if (!isZero(lid(b, 0)) && !b->getType()->isVectorTy()) {
                uint32_t s = site();
                guarded(
                    I, lid(b, 0),
                    [&](IRBuilder<>& B) -> Value* {
                        unsigned w = width(b->getType());
                        Value* z = B.CreateCall(fIcmp, {c32(1 /*ne*/), c32(w), lid(b, 0), bits(B, b), zero(), c64(0)});
                        B.CreateCall(fBranch, {z, B.CreateZExt(B.CreateICmpNE(b, Constant::getNullValue(b->getType())), I32), c32(s)});
                        return zero();
                    },
                    false);
            }
        }
        lanewise(
            I,
            [&](IRBuilder<>& B, unsigned i, const Leaf& l) -> Value* {
                return B.CreateCall(fBin, {c32(op), c32(width(l.t)), lid(a, i), bits(B, leafVal(B, a, l)), lid(b, i), bits(B, leafVal(B, b, l))});
            },
            {a, b});
    }
    void doCmp(CmpInst* I)
    {
        Value *a = I->getOperand(0), *b = I->getOperand(1);
        if (!allOk(a->getType())) {
            concretizeAll(I, I);
            return;
        }
        bool isF = isa<FCmpInst>(I);
        unsigned pred;
        if (isF)
            pred = (unsigned)I->getPredicate(); // FCMP_FALSE=0..TRUE=15
        else
            switch (I->getPredicate()) {
            case CmpInst::ICMP_EQ: pred = 0; break;
            case CmpInst::ICMP_NE: pred = 1; break;
            case CmpInst::ICMP_UGT: pred = 2; break;
            case CmpInst::ICMP_UGE: pred = 3; break;
            case CmpInst::ICMP_ULT: pred = 4; break;
            case CmpInst::ICMP_ULE: pred = 5; break;
            case CmpInst::ICMP_SGT: pred = 6; break;
            case CmpInst::ICMP_SGE: pred = 7; break;
            case CmpInst::ICMP_SLT: pred = 8; break;
            default: pred = 9; break;
            }
        auto& la = leaves(a->getType());
        lanewise(
            I,
            [&](IRBuilder<>& B, unsigned i, const Leaf&) -> Value* {
                return B.CreateCall(isF ? fFcmp : fIcmp, {c32(pred), c32(width(la[i].t)), lid(a, i), bits(B, leafVal(B, a, la[i])), lid(b, i),
                                                          bits(B, leafVal(B, b, la[i]))});
            },
            {a, b});
    }
    void doCast(CastInst* I)
    {
        Value* a = I->getOperand(0);
        Type *st = a->getType(), *dt = I->getType();
        if (!allOk(st) || !allOk(dt)) {
            concretizeAll(I, I);
            return;
        }
        if (I->getOpcode() == Instruction::BitCast || isa<AddrSpaceCastInst>(I)) {
            auto &ls = leaves(st), &ld = leaves(dt);
            if (ls.size() == ld.size()) {
                sh[I] = ids(a);
                return;
            }
            // e.g. <2 x float> <-> double/i64 : go through concat/extract in the runtime
            Instruction* at = after(I);
            IRBuilder<> B(at);
            Ids x = ids(a);
            Value* any = orAll(B, x);
            if (!any)
                return;
            unsigned ws = width(ls[0].t), wd = width(ld[0].t);
            Ids out;
            for (unsigned i = 0; i < ld.size(); ++i) {
                out.push_back(guarded(after(I), any, [&](IRBuilder<>& SB) -> Value* {
                    if (ls.size() > ld.size()) { // concat low..high
                        unsigned n = ls.size() / ld.size();
                        Value* acc = x[i * n];
                        Value* accv = bits(SB, leafVal(SB, a, ls[i * n]));
                        unsigned w = ws;
                        for (unsigned k = 1; k < n; ++k) {
                            Value* hv = bits(SB, leafVal(SB, a, ls[i * n + k]));
                            acc = SB.CreateCall(fBin, {c32(FS_CONCAT), c32(ws * 1000 + w), x[i * n + k], hv, acc, accv});
                            accv = SB.CreateOr(accv, SB.CreateShl(hv, c64(w)));
                            w += ws;
                        }
                        return acc;
                    }
                    unsigned n = ld.size() / ls.size();
                    return SB.CreateCall(fCast, {c32(FS_EXTRACT), c32((i % n) * wd * 1000 + wd), c32(ws), x[i / n], bits(SB, leafVal(SB, a, ls[i / n]))});
                }));
            }
            sh[I] = out;
            return;
        }
        unsigned op;
        switch (I->getOpcode()) {
        case Instruction::ZExt: op = FS_ZEXT; break;
        case Instruction::SExt: op = FS_SEXT; break;
        case Instruction::Trunc: op = FS_TRUNC; break;
        case Instruction::FPTrunc: op = FS_FPTRUNC; break;
        case Instruction::FPExt: op = FS_FPEXT; break;
        case Instruction::FPToSI: op = FS_FPTOSI; break;
        case Instruction::FPToUI: op = FS_FPTOUI; break;
        case Instruction::SIToFP: op = FS_SITOFP; break;
        case Instruction::UIToFP: op = FS_UITOFP; break;
        case Instruction::PtrToInt: op = width(dt) <= 64 ? FS_TRUNC : FS_ZEXT; break;
        case Instruction::IntToPtr: op = FS_ZEXT; break;
        default: concretizeAll(I, I); return;
        }
        auto& ls = leaves(st);
        lanewise(
            I,
            [&](IRBuilder<>& B, unsigned i, const Leaf& l) -> Value* {
                return B.CreateCall(fCast, {c32(op), c32(width(l.t)), c32(width(ls[i].t)), lid(a, i), bits(B, leafVal(B, a, ls[i]))});
            },
            {a});
    }
    void doSelect(SelectInst* I)
    {
        Value *c = I->getCondition(), *a = I->getTrueValue(), *b = I->getFalseValue();
        if (!allOk(I->getType())) {
            concretizeAll(I, I);
            return;
        }
        auto& lc = leaves(c->getType());
        lanewise(
            I,
            [&](IRBuilder<>& B, unsigned i, const Leaf& l) -> Value* {
                Value* cv = lc.size() > 1 ? leafVal(B, c, lc[i]) : c;
                Value* ci = lc.size() > 1 ? lid(c, i) : id0(c);
                return B.CreateCall(fSelect, {ci, B.CreateZExt(cv, I32), lid(a, i), bits(B, leafVal(B, a, l)), lid(b, i), bits(B, leafVal(B, b, l)),
                                              c32(width(l.t))});
            },
            {c, a, b});
    }
    uint64_t memSize(Type* t) { return DL.getTypeStoreSize(t); }
    void doLoad(LoadInst* I)
    {
        Value* p = I->getPointerOperand();
        Value* idp = id0(p);
        if (!isZero(idp)) {
            uint32_t s = site();
            guarded(
                I, idp,
                [&](IRBuilder<>& B) -> Value* {
                    B.CreateCall(fChk, {idp, bits(B, p), c32(memSize(I->getType())), c32(s)});
                    return zero();
                },
                false);
        }
        auto& lv = leaves(I->getType());
        if (lv.empty())
            return;
        Instruction* at = after(I);
        IRBuilder<> B(at);
        Value* addr = bits(B, p);
        Value* cond = pageFlag(B, addr);
        if (!isZero(idp))
            cond = B.CreateOr(cond, idp);
        sh[I] = guardedN(at, cond, lv.size(), [&](IRBuilder<>& SB) {
            Ids r;
            for (auto& l : lv) {
                if (!leafOk(l.t)) {
                    r.push_back(zero());
                    continue;
                }
                Value* la = SB.CreateAdd(addr, c64(l.off));
                r.push_back(SB.CreateCall(fLoad, {idp, la, c32(memSize(l.t)), bits(SB, leafVal(SB, I, l)), c32(width(l.t) | (l.off << 16))}));
            }
            return r;
        });
    }
    void doStore(StoreInst* I)
    {
        Value *p = I->getPointerOperand(), *v = I->getValueOperand();
        Value* idp = id0(p);
        auto& lv = leaves(v->getType());
        Ids iv = ids(v);
        if (lv.empty()) {
            IRBuilder<> B(I);
            B.CreateCall(fClear, {p, c64(memSize(v->getType()))});
            return;
        }
        IRBuilder<> B(I);
        Value* addr = bits(B, p);
        Value* cond = pageFlag(B, addr);
        if (!isZero(idp))
            cond = B.CreateOr(cond, idp);
        if (Value* o = orAll(B, iv))
            cond = B.CreateOr(cond, o);
        uint32_t s = site();
        guarded(
            I, cond,
            [&](IRBuilder<>& SB) -> Value* {
                if (!isZero(idp)) {
                    // check and concretise the address once
                    SB.CreateCall(fChk, {idp, addr, c32(memSize(v->getType()) | 0x80000000u), c32(s)});
                }
                for (unsigned i = 0; i < lv.size(); ++i) {
                    Value* la = SB.CreateAdd(addr, c64(lv[i].off));
                    SB.CreateCall(fStore, {zero(), la, c32(memSize(lv[i].t)), leafOk(lv[i].t) ? iv[i] : zero(),
                                           leafOk(lv[i].t) ? bits(SB, leafVal(SB, v, lv[i])) : c64(0)});
                }
                return zero();
            },
            false);
    }
    void doGep(GetElementPtrInst* I)
    {
        if (I->getType()->isVectorTy()) {
            concretizeAll(I, I);
            return;
        }
        SmallVector<Value*, 4> dep;
        for (Value* o : I->operands())
            dep.push_back(id0(o));
        Instruction* at = after(I);
        IRBuilder<> B(at);
        Value* any = orAll(B, dep);
        if (!any)
            return;
        sh[I] = {guarded(at, any, [&](IRBuilder<>& SB) -> Value* {
            Value* acc = id0(I->getPointerOperand());
            Value* accv = bits(SB, I->getPointerOperand());
            for (auto it = gep_type_begin(I), e = gep_type_end(I); it != e; ++it) {
                Value* ix = it.getOperand();
                if (StructType* st = it.getStructTypeOrNull()) {
                    uint64_t off = DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                    if (!off)
                        continue;
                    acc = SB.CreateCall(fGep, {acc, accv, zero(), c64(off), c32(64), c64(1)});
                    accv = SB.CreateAdd(accv, c64(off));
                } else {
                    uint64_t sc = DL.getTypeAllocSize(it.getIndexedType());
                    if (auto* ci = dyn_cast<ConstantInt>(ix))
                        if (ci->isZero())
                            continue;
                    Value* v = SB.CreateSExtOrTrunc(ix, I64);
                    acc = SB.CreateCall(fGep, {acc, accv, id0(ix), v, c32(width(ix->getType())), c64(sc)});
                    accv = SB.CreateAdd(accv, SB.CreateMul(v, c64(sc)));
                }
            }
            return acc;
        })};
    }
    void doRet(ReturnInst* I)
    {
        Value* v = I->getReturnValue();
        if (!v)
            return;
        auto& lv = leaves(v->getType());
        if (lv.empty())
            return;
        Ids iv = ids(v);
        IRBuilder<> B(I);
        Value* any = orAll(B, iv);
        ns(B.CreateStore(any ? any : zero(), gRetAny));
        if (!any)
            return;
        guarded(
            I, any,
            [&](IRBuilder<>& SB) -> Value* {
                for (unsigned i = 0; i < iv.size(); ++i)
                    ns(SB.CreateStore(iv[i], SB.CreateConstInBoundsGEP2_32(ArrayType::get(I32, 64), gRet, 0, i)));
                ns(SB.CreateStore(F, gRetFrom));
                return zero();
            },
            false);
    }
    void doBranch(BranchInst* I)
    {
        if (!I->isConditional())
            return;
        Value* c = I->getCondition();
        Value* id = id0(c);
        if (isZero(id))
            return;
        uint32_t s = site();
        guarded(
            I, id,
            [&](IRBuilder<>& B) -> Value* {
                B.CreateCall(fBranch, {id, B.CreateZExt(c, I32), c32(s)});
                return zero();
            },
            false);
    }
    void doSwitch(SwitchInst* I)
    {
        Value* c = I->getCondition();
        Value* id = id0(c);
        if (isZero(id))
            return;
        std::vector<Constant*> cases;
        for (auto& cs : I->cases())
            cases.push_back(ConstantInt::get(I64, cs.getCaseValue()->getZExtValue()));
        ArrayType* at = ArrayType::get(I64, cases.size());
        auto* g = new GlobalVariable(M, at, true, GlobalValue::PrivateLinkage, ConstantArray::get(at, cases), "__fs_cases");
        uint32_t s = site();
        guarded(
            I, id,
            [&](IRBuilder<>& B) -> Value* {
                B.CreateCall(fSwitch, {id, bits(B, c), g, c32(cases.size()), c32(s)});
                return zero();
            },
            false);
    }

    // single-lane numeric function -> runtime FUN
    void doFun(CallBase* I, unsigned kind, unsigned nargs)
    {
        Value* a = I->getArgOperand(0);
        Value* b = nargs > 1 ? I->getArgOperand(1) : nullptr;
        if (!allOk(I->getType()) || !allOk(a->getType())) {
            concretizeAll(I, I);
            return;
        }
        auto& la = leaves(a->getType());
        SmallVector<Value*, 2> deps;
        deps.push_back(a);
        if (b)
            deps.push_back(b);
        lanewise(
            I,
            [&](IRBuilder<>& B, unsigned i, const Leaf& l) -> Value* {
                return B.CreateCall(fFun, {c32(kind), c32(width(l.t)), c32(width(la[i].t)), lid(a, i), bits(B, leafVal(B, a, la[i])), b ? lid(b, i) : zero(),
                                           b ? bits(B, leafVal(B, b, leaves(b->getType())[i])) : c64(0)});
            },
            deps);
    }
    void doOvf(CallBase* I, unsigned op, bool isSigned)
    {
        Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
        Type* t = a->getType();
        if (!leafOk(t)) {
            concretizeAll(I, I);
            return;
        }
        Instruction* at = after(I);
        IRBuilder<> B(at);
        Value* any = orAll(B, {id0(a), id0(b)});
        if (!any)
            return;
        sh[I] = guardedN(at, any, 2, [&](IRBuilder<>& SB) {
            Ids r;
            r.push_back(SB.CreateCall(fBin, {c32(op), c32(width(t)), id0(a), bits(SB, a), id0(b), bits(SB, b)}));
            r.push_back(SB.CreateCall(fOvf, {c32(op | (isSigned ? 0x100 : 0)), c32(width(t)), id0(a), bits(SB, a), id0(b), bits(SB, b)}));
            return r;
        });
    }
    bool doIntrinsic(IntrinsicInst* I)
    {
        switch (I->getIntrinsicID()) {
        case Intrinsic::memcpy:
        case Intrinsic::memmove:
        case Intrinsic::memcpy_inline: {
            if (!isZero(id0(I->getArgOperand(0))) || !isZero(id0(I->getArgOperand(1))) || !isZero(id0(I->getArgOperand(2))))
                concretizeAll(I, I);
            IRBuilder<> B(I);
            B.CreateCall(fMemcpy, {I->getArgOperand(0), I->getArgOperand(1), B.CreateZExt(I->getArgOperand(2), I64)});
            return true;
        }
        case Intrinsic::memset: {
            Value *p = I->getArgOperand(0), *v = I->getArgOperand(1), *n = I->getArgOperand(2);
            for (Value* o : {p, n})
                if (!isZero(id0(o))) {
                    uint32_t s = site();
                    guarded(
                        I, id0(o),
                        [&](IRBuilder<>& B) -> Value* {
                            B.CreateCall(fConc, {id0(o), bits(B, o), c32(s)});
                            return zero();
                        },
                        false);
                }
            IRBuilder<> B(I);
            B.CreateCall(fMemset, {p, id0(v), B.CreateZExt(v, I32), B.CreateZExt(n, I64)});
            return true;
        }
        case Intrinsic::fabs: doFun(I, FS_F_FABS, 1); return true;
        case Intrinsic::floor: doFun(I, FS_F_FLOOR, 1); return true;
        case Intrinsic::ceil: doFun(I, FS_F_CEIL, 1); return true;
        case Intrinsic::trunc: doFun(I, FS_F_TRUNC, 1); return true;
        case Intrinsic::rint:
        case Intrinsic::nearbyint:
        case Intrinsic::roundeven: doFun(I, FS_F_RINT, 1); return true;
        case Intrinsic::round: doFun(I, FS_F_ROUND, 1); return true;
        case Intrinsic::lround:
        case Intrinsic::llround: doFun(I, FS_F_LROUND, 1); return true;
        case Intrinsic::lrint:
        case Intrinsic::llrint: doFun(I, FS_F_LRINT, 1); return true;
        case Intrinsic::sqrt: doFun(I, FS_F_SQRT, 1); return true;
        case Intrinsic::minnum: doFun(I, FS_F_FMIN, 2); return true;
        case Intrinsic::maxnum: doFun(I, FS_F_FMAX, 2); return true;
        case Intrinsic::copysign: doFun(I, FS_F_COPYSIGN, 2); return true;
        case Intrinsic::umin: doFun(I, FS_F_UMIN, 2); return true;
        case Intrinsic::umax: doFun(I, FS_F_UMAX, 2); return true;
        case Intrinsic::smin: doFun(I, FS_F_SMIN, 2); return true;
        case Intrinsic::smax: doFun(I, FS_F_SMAX, 2); return true;
        case Intrinsic::usub_sat: doFun(I, FS_F_USUBSAT, 2); return true;
        case Intrinsic::uadd_sat: doFun(I, FS_F_UADDSAT, 2); return true;
        case Intrinsic::abs: doFun(I, FS_F_ABS, 1); return true;
        case Intrinsic::bswap: doFun(I, FS_F_BSWAP, 1); return true;
        case Intrinsic::ctpop: doFun(I, FS_F_CTPOP, 1); return true;
        case Intrinsic::ctlz: doFun(I, FS_F_CTLZ, 1); return true;
        case Intrinsic::cttz: doFun(I, FS_F_CTTZ, 1); return true;
        case Intrinsic::is_fpclass: {
            Value* a = I->getArgOperand(0);
            if (!allOk(a->getType())) {
                concretizeAll(I, I);
                return true;
            }
            uint64_t mask = cast<ConstantInt>(I->getArgOperand(1))->getZExtValue();
            auto& la = leaves(a->getType());
            lanewise(
                I,
                [&](IRBuilder<>& B, unsigned i, const Leaf&) -> Value* {
                    return B.CreateCall(fFun, {c32(FS_F_FPCLASS), c32(1), c32(width(la[i].t)), lid(a, i), bits(B, leafVal(B, a, la[i])), zero(), c64(mask)});
                },
                {a});
            return true;
        }
        case Intrinsic::fshl:
        case Intrinsic::fshr: {
            bool left = I->getIntrinsicID() == Intrinsic::fshl;
            Value *a = I->getArgOperand(0), *b = I->getArgOperand(1), *s = I->getArgOperand(2);
            auto* cs = dyn_cast<ConstantInt>(s);
            if (!leafOk(I->getType()) || !cs) {
                concretizeAll(I, I);
                return true;
            }
            unsigned w = width(I->getType());
            unsigned k = cs->getZExtValue() % w;
            Instruction* at = after(I);
            IRBuilder<> B(at);
            Value* any = orAll(B, {id0(a), id0(b)});
            if (!any)
                return true;
            unsigned kl = left ? k : (w - k) % w;
            if (k == 0) {
                sh[I] = {left ? id0(a) : id0(b)};
                return true;
            }
            sh[I] = {guarded(at, any, [&](IRBuilder<>& SB) -> Value* {
                Value* va = bits(SB, a);
                Value* vb = bits(SB, b);
                Value* x = SB.CreateCall(fBin, {c32(FS_SHL), c32(w), id0(a), va, zero(), c64(kl)});
                Value* xv = SB.CreateAnd(SB.CreateShl(va, c64(kl)), c64(w == 64 ? ~0ull : ((1ull << w) - 1)));
                Value* y = SB.CreateCall(fBin, {c32(FS_LSHR), c32(w), id0(b), vb, zero(), c64(w - kl)});
                Value* yv = SB.CreateLShr(vb, c64(w - kl));
                return SB.CreateCall(fBin, {c32(FS_OR), c32(w), x, xv, y, yv});
            })};
            return true;
        }
        case Intrinsic::fmuladd:
        case Intrinsic::fma: concretizeAll(I, I); return true;
        case Intrinsic::sadd_with_overflow: doOvf(I, FS_ADD, true); return true;
        case Intrinsic::uadd_with_overflow: doOvf(I, FS_ADD, false); return true;
        case Intrinsic::ssub_with_overflow: doOvf(I, FS_SUB, true); return true;
        case Intrinsic::usub_with_overflow: doOvf(I, FS_SUB, false); return true;
        case Intrinsic::smul_with_overflow: doOvf(I, FS_MUL, true); return true;
        case Intrinsic::umul_with_overflow: doOvf(I, FS_MUL, false); return true;
        case Intrinsic::expect:
        case Intrinsic::launder_invariant_group:
        case Intrinsic::strip_invariant_group:
        case Intrinsic::ssa_copy: sh[I] = ids(I->getArgOperand(0)); return true;
        case Intrinsic::assume:
        case Intrinsic::lifetime_start:
        case Intrinsic::lifetime_end:
        case Intrinsic::dbg_declare:
        case Intrinsic::dbg_value:
        case Intrinsic::dbg_label:
        case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::invariant_start:
        case Intrinsic::invariant_end:
        case Intrinsic::objectsize:
        case Intrinsic::is_constant:
        case Intrinsic::eh_typeid_for:
        case Intrinsic::prefetch:
        case Intrinsic::stacksave:
        case Intrinsic::stackrestore:
        case Intrinsic::trap:
        case Intrinsic::ubsantrap:
        case Intrinsic::threadlocal_address:
        case Intrinsic::vastart:
        case Intrinsic::vaend: return true;
        default: concretizeAll(I, I); return true;
        }
    }
    void doCall(CallBase* I)
    {
        if (auto* in = dyn_cast<IntrinsicInst>(I)) {
            doIntrinsic(in);
            return;
        }
        if (I->isInlineAsm()) {
            concretizeAll(I, I);
            return;
        }
        if (auto* inv = dyn_cast<InvokeInst>(I)) {
            // give the invoke a private normal destination without phis
            BasicBlock* nd = inv->getNormalDest();
            if (!nd->getSinglePredecessor() || isa<PHINode>(nd->begin())) {
                BasicBlock* nb = BasicBlock::Create(C, "fs.inv", F, nd);
                BranchInst::Create(nd, nb);
                inv->setNormalDest(nb);
                nd->replacePhiUsesWith(inv->getParent(), nb);
            }
        }
        Value* callee = I->getCalledOperand()->stripPointerCasts();
        Function* cf = dyn_cast<Function>(callee);
        if (cf && (cf->getName() == "__fs_race" || cf->getName() == "__fs_fork" || cf->getName() == "__fs_thread" || cf->getName() == "__fs_join"))
            return;
        if (cf && cf->isDeclaration()) {
            StringRef n = cf->getName();
            static const std::map<std::string, std::pair<unsigned, unsigned>> libm = {
                {"floor", {FS_F_FLOOR, 1}},  {"floorf", {FS_F_FLOOR, 1}},   {"ceil", {FS_F_CEIL, 1}},     {"ceilf", {FS_F_CEIL, 1}},
                {"trunc", {FS_F_TRUNC, 1}},  {"truncf", {FS_F_TRUNC, 1}},   {"rint", {FS_F_RINT, 1}},     {"rintf", {FS_F_RINT, 1}},
                {"round", {FS_F_ROUND, 1}},  {"roundf", {FS_F_ROUND, 1}},   {"lround", {FS_F_LROUND, 1}}, {"lroundf", {FS_F_LROUND, 1}},
                {"llround", {FS_F_LROUND, 1}}, {"fabs", {FS_F_FABS, 1}},    {"fabsf", {FS_F_FABS, 1}},    {"sqrt", {FS_F_SQRT, 1}},
                {"sqrtf", {FS_F_SQRT, 1}},   {"fmin", {FS_F_FMIN, 2}},      {"fmax", {FS_F_FMAX, 2}},     {"fminf", {FS_F_FMIN, 2}},
                {"fmaxf", {FS_F_FMAX, 2}},   {"copysign", {FS_F_COPYSIGN, 2}}, {"nearbyint", {FS_F_RINT, 1}}, {"fmod", {FS_F_FMOD, 2}},
                {"fmodf", {FS_F_FMOD, 2}},   {"lrint", {FS_F_LRINT, 1}},    {"lrintf", {FS_F_LRINT, 1}},
                {"exp", {FS_F_EXP, 1}},      {"expf", {FS_F_EXP, 1}},       {"log", {FS_F_LOG, 1}},       {"logf", {FS_F_LOG, 1}}};
            auto it = libm.find(n.str());
            if (it != libm.end() && I->arg_size() == it->second.second) {
                doFun(I, it->second.first, it->second.second);
                return;
            }
            static const std::set<std::string> repl = {"memcmp", "bcmp", "strlen", "strcmp", "strncmp", "memchr", "strchr", "strrchr", "strcpy", "strncpy", "strcat",
                                                       "tolower", "toupper", "isspace", "isdigit", "isalpha", "isalnum", "isupper", "islower", "ispunct", "isxdigit", "strtol", "strtoll", "strtoul", "strtoull", "atoi", "atol", "strstr", "strcasecmp", "qsort", "bsearch", "__isoc23_strtol", "__isoc23_strtoul", "__isoc23_strtoll", "__isoc23_strtoull"};
            if (repl.count(n.str())) {
                std::string nn = n.str();
                if (nn.rfind("__isoc23_", 0) == 0)
                    nn = nn.substr(9);
                FunctionCallee nf = M.getOrInsertFunction("__fsl_" + nn, cf->getFunctionType());
                I->setCalledFunction(nf);
                callee = nf.getCallee();
                cf = dyn_cast<Function>(callee);
                I->removeFnAttr(Attribute::Memory);
            }
            if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "calloc" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") {
                concretizeAll(I, I);
                Instruction* at = after(I);
                IRBuilder<> B(at);
                Value* sz = I->getArgOperand(0);
                if (n == "calloc")
                    sz = B.CreateMul(sz, I->getArgOperand(1));
                B.CreateCall(fClear, {I, sz});
                return;
            }
            if (n == "free" || n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv" || n == "_ZdaPvm" || n.starts_with("__cxa_")) {
                concretizeAll(I, I);
                return;
            }
            if (n == "memcpy" || n == "memmove") {
                concretizeAll(I, I);
                IRBuilder<> B(I);
                B.CreateCall(fMemcpy, {I->getArgOperand(0), I->getArgOperand(1), I->getArgOperand(2)});
                return;
            }
        }
        // symbolic callee pointer
        if (!cf) {
            Value* ic = id0(I->getCalledOperand());
            if (!isZero(ic)) {
                uint32_t s = site();
                guarded(
                    I, ic,
                    [&](IRBuilder<>& B) -> Value* {
                        B.CreateCall(fConc, {ic, bits(B, I->getCalledOperand()), c32(s)});
                        return zero();
                    },
                    false);
            }
        }
        if (!cf || cf->isDeclaration() || skipFunction(*cf)) {
            SmallVector<Value*, 8> pa;
            for (Value* a : I->args())
                if (a->getType()->isPointerTy() && !isa<Constant>(a) && pa.size() < 12)
                    pa.push_back(a);
            if (!pa.empty() && cf) {
                auto* cache = new GlobalVariable(M, I8, false, GlobalValue::PrivateLinkage, ConstantInt::get(I8, 0), "__fs_pc");
                IRBuilder<> B(I);
                Value* st = ns(B.CreateLoad(I8, cache));
                Value* need = B.CreateICmpNE(st, ConstantInt::get(I8, 1));
                guarded(
                    I, need,
                    [&](IRBuilder<>& SB) -> Value* {
                        SmallVector<Value*, 16> args = {I->getCalledOperand(), cache, c32(pa.size())};
                        args.append(pa.begin(), pa.end());
                        SB.CreateCall(fPtr, args);
                        return zero();
                    },
                    false);
            }
        }
        SmallVector<Value*, 16> flat;
        std::vector<std::function<Value*(IRBuilder<>&)>> vals;
        SmallVector<std::pair<unsigned, Value*>, 2> byvals;
        for (unsigned i = 0; i < I->arg_size(); ++i) {
            Value* a = I->getArgOperand(i);
            if (I->isByValArgument(i))
                byvals.push_back({flat.size(), a});
            auto& la = leaves(a->getType());
            Ids ia = ids(a);
            for (unsigned k = 0; k < la.size(); ++k) {
                flat.push_back(ia[k]);
                Leaf l = la[k];
                vals.push_back([this, a, l](IRBuilder<>& B) { return leafOk(l.t) ? bits(B, leafVal(B, a, l)) : c64(0); });
            }
        }
        for (auto& bv : byvals) {
            IRBuilder<> B(I);
            B.CreateCall(fByvalOut, {c32(bv.first), bv.second});
        }
        unsigned n = std::min<unsigned>(flat.size(), 64);
        IRBuilder<> B(I);
        Value* any = orAll(B, ArrayRef<Value*>(flat).take_front(n));
        if (any) {
            guarded(
                I, any,
                [&](IRBuilder<>& SB) -> Value* {
                    for (unsigned i = 0; i < n; ++i) {
                        ns(SB.CreateStore(flat[i], SB.CreateConstInBoundsGEP2_32(ArrayType::get(I32, 64), gArgs, 0, i)));
                        ns(SB.CreateStore(isZero(flat[i]) ? c64(0) : vals[i](SB), SB.CreateConstInBoundsGEP2_32(ArrayType::get(I64, 64), gArgVals, 0, i)));
                    }
                    ns(SB.CreateStore(any, gArgAny));
                    ns(SB.CreateStore(I->getCalledOperand(), gArgCallee));
                    SB.CreateCall(fPre, {I->getCalledOperand(), c32(n)});
                    return zero();
                },
                false);
        }
        auto& lr = leaves(I->getType());
        if (lr.empty() || I->doesNotReturn())
            return;
        Instruction* at = after(I);
        IRBuilder<> AB(at);
        Value* ra = ns(AB.CreateLoad(I32, gRetAny));
        sh[I] = guardedN(at, ra, lr.size(), [&](IRBuilder<>& SB) {
            Value* from = ns(SB.CreateLoad(Ptr, gRetFrom));
            Value* same = SB.CreateICmpEQ(from, I->getCalledOperand());
            Ids r;
            for (unsigned i = 0; i < lr.size(); ++i) {
                Value* v = ns(SB.CreateLoad(I32, SB.CreateConstInBoundsGEP2_32(ArrayType::get(I32, 64), gRet, 0, i)));
                r.push_back(SB.CreateSelect(same, v, zero()));
            }
            ns(SB.CreateStore(zero(), gRetAny));
            return r;
        });
    }

    static bool skipFunction(Function& f)
    {
        if (f.isDeclaration() || f.hasAvailableExternallyLinkage())
            return true;
        StringRef n = f.getName();
        if (n.starts_with("__fs_") || n.starts_with("asan.") || n.starts_with("__asan") || n == "__clang_call_terminate")
            return true;
        if (f.hasFnAttribute("fs_skip"))
            return true;
        return isOpaqueName(n);
    }
    // library internals that run on concrete data only (symbolic arguments are enumerated at the call)
    static bool isOpaqueName(StringRef n)
    {
        static const bool regex = getenv("FS_REGEX") != nullptr;
        if (regex)
            return false;
        if (n.contains("MetNoFimex"))
            return false;
        if (n.contains("basic_regex") || n.contains("regex_traits") || n.contains("regex_iterator") || n.contains("regex_token_iterator") || n.contains("match_results"))
            return true;
        static const char* det[] = {"_Compiler", "_Executor", "_Scanner", "_BracketMatcher", "_NFA", "_StateSeq", "_AnyMatcher", "_CharMatcher", "__regex", "_RegexTranslator", "_State"};
        if (n.contains("NSt8__detail") || n.contains("__detail"))
            for (const char* d : det)
                if (n.contains(d))
                    return true;
        return false;
    }

    void runOn(Function& fn)
    {
        F = &fn;
        sh.clear();
        removeUnreachableBlocks(fn);
        std::vector<Instruction*> work;
        ReversePostOrderTraversal<Function*> rpo(&fn);
        std::vector<AllocaInst*> allocas;
        std::vector<PHINode*> phis;
        for (BasicBlock* bb : rpo)
            for (Instruction& i : *bb) {
                if (auto* ci = dyn_cast<CallInst>(&i))
                    if (ci->isMustTailCall())
                        ci->setTailCallKind(CallInst::TCK_None);
                if (auto* p = dyn_cast<PHINode>(&i)) {
                    phis.push_back(p);
                    continue;
                }
                if (auto* a = dyn_cast<AllocaInst>(&i)) {
                    allocas.push_back(a);
                    continue;
                }
                work.push_back(&i);
            }
        // entry: argument shadows
        for (auto it = allocas.rbegin(); it != allocas.rend(); ++it)
            if ((*it)->getParent() == &fn.getEntryBlock() && (*it)->isStaticAlloca())
                (*it)->moveBefore(fn.getEntryBlock(), fn.getEntryBlock().begin());
        Instruction* entryPt = &*fn.getEntryBlock().getFirstInsertionPt();
        while (isa<AllocaInst>(entryPt))
            entryPt = entryPt->getNextNode();
        {
            unsigned n = 0;
            std::vector<std::pair<Argument*, unsigned>> pos;
            for (Argument& a : fn.args()) {
                pos.push_back({&a, n});
                n += leaves(a.getType()).size();
            }
            IRBuilder<> B(entryPt);
            for (AllocaInst* a : allocas) {
                if (a->getParent() == &fn.getEntryBlock() && a->isStaticAlloca())
                    if (auto sz = a->getAllocationSize(DL)) {
                        B.CreateCall(fClear, {a, c64(sz->getFixedValue())});
                    }
            }
            for (auto& p : pos)
                if (p.first->hasByValAttr())
                    B.CreateCall(fByvalIn, {c32(p.second), p.first, c64(DL.getTypeAllocSize(p.first->getParamByValType()))});
            unsigned m = std::min(n, 64u);
            if (m) {
                Value* any = ns(B.CreateLoad(I32, gArgAny));
                Ids r = guardedN(entryPt, any, m, [&](IRBuilder<>& SB) {
                    Value* same = SB.CreateICmpEQ(ns(SB.CreateLoad(Ptr, gArgCallee)), F);
                    Ids o;
                    for (unsigned i = 0; i < m; ++i) {
                        Value* v = ns(SB.CreateLoad(I32, SB.CreateConstInBoundsGEP2_32(ArrayType::get(I32, 64), gArgs, 0, i)));
                        o.push_back(SB.CreateSelect(same, v, zero()));
                    }
                    ns(SB.CreateStore(zero(), gArgAny));
                    return o;
                });
                for (auto& p : pos) {
                    Ids x;
                    unsigned k = leaves(p.first->getType()).size();
                    for (unsigned i = 0; i < k; ++i)
                        x.push_back(p.second + i < m ? r[p.second + i] : zero());
                    if (k)
                        sh[p.first] = x;
                }
            }
        }
        // shadow phis
        std::map<PHINode*, Ids> sphis;
        for (PHINode* p : phis) {
            Ids x;
            auto& lp = leaves(p->getType());
            for (unsigned i = 0; i < lp.size(); ++i) {
                PHINode* s = PHINode::Create(I32, p->getNumIncomingValues(), "", p);
                x.push_back(s);
            }
            if (!x.empty()) {
                sh[p] = x;
                sphis[p] = x;
            }
        }
        for (Instruction* I : work) {
            if (auto* b = dyn_cast<BinaryOperator>(I))
                doBinary(b);
            else if (auto* u = dyn_cast<UnaryOperator>(I)) {
                if (u->getOpcode() == Instruction::FNeg && allOk(u->getType())) {
                    Value* a = u->getOperand(0);
                    lanewise(
                        u,
                        [&](IRBuilder<>& B, unsigned i, const Leaf& l) -> Value* {
                            return B.CreateCall(fFun, {c32(FS_F_FNEG), c32(width(l.t)), c32(width(l.t)), lid(a, i), bits(B, leafVal(B, a, l)), zero(), c64(0)});
                        },
                        {a});
                } else
                    concretizeAll(I, I);
            } else if (auto* c = dyn_cast<CmpInst>(I))
                doCmp(c);
            else if (auto* c = dyn_cast<CastInst>(I))
                doCast(c);
            else if (auto* s = dyn_cast<SelectInst>(I))
                doSelect(s);
            else if (auto* l = dyn_cast<LoadInst>(I))
                doLoad(l);
            else if (auto* s = dyn_cast<StoreInst>(I))
                doStore(s);
            else if (auto* g = dyn_cast<GetElementPtrInst>(I))
                doGep(g);
            else if (auto* r = dyn_cast<ReturnInst>(I))
                doRet(r);
            else if (auto* b = dyn_cast<BranchInst>(I))
                doBranch(b);
            else if (auto* s = dyn_cast<SwitchInst>(I))
                doSwitch(s);
            else if (auto* fz = dyn_cast<FreezeInst>(I))
                sh[I] = ids(fz->getOperand(0));
            else if (auto* ev = dyn_cast<ExtractValueInst>(I)) {
                auto &la = leaves(ev->getAggregateOperand()->getType()), &lr = leaves(ev->getType());
                Ids a = ids(ev->getAggregateOperand());
                Ids r;
                for (auto& l : lr) {
                    SmallVector<unsigned, 3> full(ev->idx_begin(), ev->idx_end());
                    full.append(l.idx.begin(), l.idx.end());
                    Value* f = zero();
                    for (unsigned k = 0; k < la.size(); ++k)
                        if (la[k].idx == full)
                            f = a[k];
                    r.push_back(f);
                }
                if (!r.empty())
                    sh[I] = r;
            } else if (auto* iv = dyn_cast<InsertValueInst>(I)) {
                auto& lr = leaves(iv->getType());
                auto& lb = leaves(iv->getInsertedValueOperand()->getType());
                Ids a = ids(iv->getAggregateOperand()), b = ids(iv->getInsertedValueOperand());
                Ids r;
                for (unsigned k = 0; k < lr.size(); ++k) {
                    Value* f = a[k];
                    for (unsigned j = 0; j < lb.size(); ++j) {
                        SmallVector<unsigned, 3> full(iv->idx_begin(), iv->idx_end());
                        full.append(lb[j].idx.begin(), lb[j].idx.end());
                        if (full == lr[k].idx)
                            f = b[j];
                    }
                    r.push_back(f);
                }
                if (!r.empty())
                    sh[I] = r;
            } else if (auto* ee = dyn_cast<ExtractElementInst>(I)) {
                auto* ci = dyn_cast<ConstantInt>(ee->getIndexOperand());
                Ids a = ids(ee->getVectorOperand());
                if (ci && ci->getZExtValue() < a.size())
                    sh[I] = {a[ci->getZExtValue()]};
                else
                    concretizeAll(I, I);
            } else if (auto* ie = dyn_cast<InsertElementInst>(I)) {
                auto* ci = dyn_cast<ConstantInt>(ie->getOperand(2));
                Ids a = ids(ie->getOperand(0));
                if (ci && ci->getZExtValue() < a.size()) {
                    a[ci->getZExtValue()] = id0(ie->getOperand(1));
                    sh[I] = a;
                } else
                    concretizeAll(I, I);
            } else if (auto* sv = dyn_cast<ShuffleVectorInst>(I)) {
                Ids a = ids(sv->getOperand(0)), b = ids(sv->getOperand(1));
                Ids r;
                for (int m : sv->getShuffleMask()) {
                    if (m < 0)
                        r.push_back(zero());
                    else if ((unsigned)m < a.size())
                        r.push_back(a[m]);
                    else if ((unsigned)m - a.size() < b.size())
                        r.push_back(b[m - a.size()]);
                    else
                        r.push_back(zero());
                }
                if (!a.empty())
                    sh[I] = r;
            } else if (auto* cb = dyn_cast<CallBase>(I))
                doCall(cb);
            else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
                concretizeAll(I, I);
                IRBuilder<> B(I);
                B.CreateCall(fClear, {I->getOperand(0), c64(8)});
            } else if (isa<LandingPadInst>(I) || isa<ResumeInst>(I) || isa<UnreachableInst>(I) || isa<FenceInst>(I)) {
            } else
                concretizeAll(I, I);
        }
        for (auto& sp : sphis) {
            PHINode* p = sp.first;
            for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) {
                Ids x = ids(p->getIncomingValue(k));
                for (unsigned i = 0; i < sp.second.size(); ++i)
                    cast<PHINode>(sp.second[i])->addIncoming(x[i], p->getIncomingBlock(k));
            }
        }
        // our calls clobber memory the optimiser may think untouched
        fn.removeFnAttr(Attribute::Memory);
        fn.removeFnAttr(Attribute::Speculatable);
        fn.removeFnAttr(Attribute::WillReturn);
    }

    bool run()
    {
        std::vector<Function*> fns;
        for (Function& f : M)
            if (!skipFunction(f))
                fns.push_back(&f);
            else if (!f.isDeclaration() && isOpaqueName(f.getName()))
                f.removeFnAttr(Attribute::SanitizeAddress);
        // call sites must not assume purity of instrumented callees
        for (Function& f : M)
            for (Instruction& i : instructions(f))
                if (auto* cb = dyn_cast<CallBase>(&i))
                    if (!isa<IntrinsicInst>(cb))
                        cb->removeFnAttr(Attribute::Memory);
        std::vector<Constant*> tab;
        StructType* ent = StructType::get(Ptr, Ptr, Ptr);
        for (Function* f : fns) {
            if (!f->isDeclaration())
                f->removeFnAttr(Attribute::Memory);
            runOn(*f);
            bool interesting = f->getName().contains("MetNoFimex") || f->getName().starts_with("mifi_") || f->getName().contains("mifi_") || f->getName().contains("fimex");
            Constant *nm = ConstantPointerNull::get(Ptr), *fl = ConstantPointerNull::get(Ptr);
            if (interesting) {
                Constant* str = ConstantDataArray::getString(C, f->getName());
                nm = new GlobalVariable(M, str->getType(), true, GlobalValue::PrivateLinkage, str, "__fs_name");
                auto* flag = new GlobalVariable(M, I8, false, GlobalValue::PrivateLinkage, ConstantInt::get(I8, 0), "__fs_hit");
                fl = flag;
                IRBuilder<> B(&*f->getEntryBlock().getFirstInsertionPt());
                ns(B.CreateStore(ConstantInt::get(I8, 1), flag));
            }
            tab.push_back(ConstantStruct::get(ent, {f, nm, fl}));
        }
        if (!tab.empty()) {
            ArrayType* at = ArrayType::get(ent, tab.size());
            auto* g = new GlobalVariable(M, at, false, GlobalValue::PrivateLinkage, ConstantArray::get(at, tab), "__fs_table");
            Function* ctor = Function::Create(FunctionType::get(Void, false), GlobalValue::InternalLinkage, "__fs_module_ctor", M);
            IRBuilder<> B(BasicBlock::Create(C, "e", ctor));
            B.CreateCall(fReg, {g, c32(tab.size())});
            B.CreateRetVoid();
            appendToGlobalCtors(M, ctor, 0);
        }
        return true;
    }
};

struct FSPass : PassInfoMixin<FSPass>
{
    PreservedAnalyses run(Module& M, ModuleAnalysisManager&)
    {
        if (getenv("FS_OMP"))
            Omp(M).run();
        if (getenv("FS_NOSYM"))
            return PreservedAnalyses::none();
        FS fs(M);
        fs.run();
        return PreservedAnalyses::none();
    }
    static bool isRequired() { return true; }
};
} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo()
{
    return {LLVM_PLUGIN_API_VERSION, "fsym", "1", [](PassBuilder& PB) {
                PB.registerOptimizerLastEPCallback([](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(FSPass()); });
            }};
}
