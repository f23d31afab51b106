// OpenMP: parallel regions are executed by simulated threads, one after the other, and every access to
// memory is reported to fsrace.cpp, which decides whether two threads touch the same memory without a
// common lock.  Enabled by FS_OMP=1.
#ifndef FSOMP_H
#define FSOMP_H
namespace {
struct Omp
{
    Module& M;
    LLVMContext& C;
    const DataLayout& DL;
    enum { THREADS = 4 };
    Omp(Module& m)
        : M(m)
        , C(m.getContext())
        , DL(m.getDataLayout())
    {
    }
    void lowerFork(Function& f)
    {
        std::vector<CallBase*> forks;
        for (Instruction& i : instructions(f))
            if (auto* cb = dyn_cast<CallBase>(&i))
                if (Function* cf = cb->getCalledFunction())
                    if (cf->getName() == "__kmpc_fork_call")
                        forks.push_back(cb);
        Type *I32 = Type::getInt32Ty(C), *Void = Type::getVoidTy(C);
        for (CallBase* cb : forks) {
            auto* fn = cast<Function>(cb->getArgOperand(2)->stripPointerCasts());
            IRBuilder<> E(&*f.getEntryBlock().getFirstInsertionPt());
            Value *gt = E.CreateAlloca(I32), *bt = E.CreateAlloca(I32);
            if (auto* inv = dyn_cast<InvokeInst>(cb)) {
                // the thread functions do not throw
                BranchInst::Create(inv->getNormalDest(), inv);
                inv->getUnwindDest()->removePredecessor(inv->getParent());
            }
            IRBuilder<> B(cb);
            B.CreateCall(M.getOrInsertFunction("__fs_fork", Void));
            B.CreateStore(ConstantInt::get(I32, 0), bt);
            for (int t = 0; t < THREADS; t++) {
                Value* run = B.CreateCall(M.getOrInsertFunction("__fs_thread", I32, I32), {ConstantInt::get(I32, t)});
                Instruction* then = SplitBlockAndInsertIfThen(B.CreateICmpNE(run, ConstantInt::get(I32, 0)), &*B.GetInsertPoint(), false);
                IRBuilder<> T(then);
                T.CreateStore(ConstantInt::get(I32, t), gt);
                SmallVector<Value*, 16> args = {gt, bt};
                for (unsigned i = 3; i < cb->arg_size(); i++) {
                    Value* a = cb->getArgOperand(i);
                    Type* want = fn->getFunctionType()->getParamType(i - 1);
                    if (a->getType() != want)
                        a = T.CreateBitOrPointerCast(a, want);
                    args.push_back(a);
                }
                T.CreateCall(fn, args);
                B.SetInsertPoint(cb);
            }
            B.CreateCall(M.getOrInsertFunction("__fs_join", Void));
            cb->eraseFromParent();
        }
    }
    static bool isPrivate(Value* p)
    {
        for (int k = 0; k < 32; k++) {
            p = p->stripPointerCasts();
            if (auto* g = dyn_cast<GEPOperator>(p))
                p = g->getPointerOperand();
            else
                break;
        }
        if (isa<AllocaInst>(p))
            return true;
        if (auto* g = dyn_cast<GlobalVariable>(p))
            return g->isConstant() || g->isThreadLocal();
        if (auto* c = dyn_cast<IntrinsicInst>(p))
            return c->getIntrinsicID() == Intrinsic::threadlocal_address;
        if (auto* a = dyn_cast<Argument>(p))
            return a->hasStructRetAttr() || a->hasByValAttr();
        return false;
    }
    void accesses(Function& f)
    {
        struct Acc
        {
            Instruction* at;
            Value *p, *n;
            bool w;
        };
        std::vector<Acc> acc;
        Type *I32 = Type::getInt32Ty(C), *I64 = Type::getInt64Ty(C), *Void = Type::getVoidTy(C);
        auto* Ptr = PointerType::get(C, 0);
        for (Instruction& i : instructions(f)) {
            auto size = [&](Type* t) -> Value* { return ConstantInt::get(I64, (uint64_t)DL.getTypeStoreSize(t)); };
            if (auto* l = dyn_cast<LoadInst>(&i)) {
                if (!l->isAtomic() && !isPrivate(l->getPointerOperand()))
                    acc.push_back({&i, l->getPointerOperand(), size(l->getType()), false});
            } else if (auto* s = dyn_cast<StoreInst>(&i)) {
                if (!s->isAtomic() && !isPrivate(s->getPointerOperand()))
                    acc.push_back({&i, s->getPointerOperand(), size(s->getValueOperand()->getType()), true});
            } else if (auto* m = dyn_cast<MemIntrinsic>(&i)) {
                if (!isPrivate(m->getDest()))
                    acc.push_back({&i, m->getDest(), m->getLength(), true});
                if (auto* t = dyn_cast<MemTransferInst>(&i))
                    if (!isPrivate(t->getSource()))
                        acc.push_back({&i, t->getSource(), t->getLength(), false});
            }
        }
        if (acc.empty())
            return;
        Constant* name = nullptr;
        for (auto& a : acc) {
            IRBuilder<> B(a.at);
            if (!name)
                name = B.CreateGlobalString(f.getName(), "__fs_fn");
            B.CreateCall(M.getOrInsertFunction("__fs_race", Void, Ptr, I64, I32, Ptr), {a.p, B.CreateZExtOrTrunc(a.n, I64), ConstantInt::get(I32, a.w), name});
        }
        f.removeFnAttr(Attribute::Memory);
    }
    void run()
    {
        std::vector<Function*> fns;
        for (Function& f : M)
            if (!f.isDeclaration() && !f.hasAvailableExternallyLinkage() && !f.getName().starts_with("asan.") && !f.getName().starts_with("__fs_"))
                fns.push_back(&f);
        for (Function& f : M)
            for (Instruction& i : instructions(f))
                if (auto* cb = dyn_cast<CallBase>(&i))
                    if (!isa<IntrinsicInst>(cb))
                        cb->removeFnAttr(Attribute::Memory);
        for (Function* f : fns) {
            lowerFork(*f);
            accesses(*f);
        }
    }
};
} // namespace
#endif
